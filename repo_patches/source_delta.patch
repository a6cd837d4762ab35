From 843f2bd95a84602ac2b92df7d02336a98e1ed9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:04 +0000
Subject: [PATCH 01/40] fix: C name mapper no longer hides errors of attribute
 access

PyObject_HasAttrString clears every exception, so a namespace whose first
component is a property raising e.g. ValueError was reported as NotFound,
unlike in the Python implementation. The error now reaches the caller.
---
 Cheetah/c/_namemapper.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 52a9293..9db5505 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -137,11 +137,27 @@ static int getNameChunks(char *nameChunks[], char *name, char *nameCopy)
 }
 
 
+/* Like PyObject_HasAttrString, but an attribute whose access fails with
+   anything but AttributeError does exist: getting it reports the error. */
+static int hasAttr(PyObject *obj, char *key)
+{
+    PyObject *value = PyObject_GetAttrString(obj, key);
+
+    if (value == NULL) {
+        int missing = PyErr_ExceptionMatches(PyExc_AttributeError);
+        PyErr_Clear();
+        return !missing;
+    }
+    Py_DECREF(value);
+    return TRUE;
+}
+
+
 static int PyNamemapper_hasKey(PyObject *obj, char *key)
 {
     if (PyMapping_Check(obj) && PyMapping_HasKeyString(obj, key)) {
         return TRUE;
-    } else if (PyObject_HasAttrString(obj, key)) {
+    } else if (hasAttr(obj, key)) {
         return TRUE;
     }
     return FALSE;
@@ -154,7 +170,7 @@ static PyObject *PyNamemapper_valueForKey(PyObject *obj, char *key)
 
     if (PyMapping_Check(obj) && PyMapping_HasKeyString(obj, key)) {
         theValue = PyMapping_GetItemString(obj, key);
-    } else if (PyObject_HasAttrString(obj, key)) {
+    } else if (hasAttr(obj, key)) {
         theValue = PyObject_GetAttrString(obj, key);
     } else {
         setNotFoundException(key, obj);
-- 
2.43.0


From 0950ec318e37cf0651f472ba2f6b18afba3e7065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:45 +0000
Subject: [PATCH 02/40] fix: MemoryCacheStore.replace stores only over an
 existing key

It raised for present keys and stored absent ones, the opposite of the
documented semantics (set only if the key is already there).
---
 Cheetah/CacheStore.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 00b77ec..73330a3 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -52,8 +52,8 @@ class MemoryCacheStore(AbstractCacheStore):
         self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
-        if key in self._data:
-            raise Error('a value for key %r is already in the cache' % key)
+        if key not in self._data:
+            raise Error('no value for key %r is in the cache' % key)
         self._data[key] = (val, time)
 
     def delete(self, key):
-- 
2.43.0


From 4880fc0760cfa88e623735623590feecfe75909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:45 +0000
Subject: [PATCH 03/40] fix: MemcachedCacheStore.add and replace use only the
 client

After a successful call they raised AttributeError: the class has no _data.
---
 Cheetah/CacheStore.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Cheetah/CacheStore.py b/Cheetah/CacheStore.py
index 73330a3..5dad2f9 100644
--- a/Cheetah/CacheStore.py
+++ b/Cheetah/CacheStore.py
@@ -87,13 +87,11 @@ class MemcachedCacheStore(AbstractCacheStore):
         res = self._client.add(key, val, time)
         if not res:
             raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
 
     def replace(self, key, val, time=0):
         res = self._client.replace(key, val, time)
         if not res:
-            raise Error('a value for key %r is already in the cache' % key)
-        self._data[key] = (val, time)
+            raise Error('no value for key %r is in the cache' % key)
 
     def delete(self, key):
         res = self._client.delete(key, time=0)
-- 
2.43.0


From d0cb01380e7f86a3c6a2cbadf781e24375002604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:45 +0000
Subject: [PATCH 04/40] fix: clearing a cache item without stored output is
 harmless

refreshCache() of an item that was never rendered, or whose data the store
had dropped, raised KeyError and left the remaining items uncleared.
---
 Cheetah/CacheRegion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 153aec9..3dd9a24 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -68,7 +68,10 @@ class CacheItem(object):
         return self.getData() or ""
 
     def clear(self):
-        self._cacheStore.delete(self._cacheItemID)
+        try:
+            self._cacheStore.delete(self._cacheItemID)
+        except KeyError:
+            pass  # never rendered, or dropped by the store already
         self._refreshTime = None
 
 
-- 
2.43.0


From fc6824f203f207495abcbc7e7698552864146c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:45 +0000
Subject: [PATCH 05/40] fix: cache items can vary by non-ASCII values

#cache varyBy raised UnicodeEncodeError for any value whose text is not
ASCII. The keys of ASCII values are unchanged.
---
 Cheetah/CacheRegion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/CacheRegion.py b/Cheetah/CacheRegion.py
index 3dd9a24..efb6275 100644
--- a/Cheetah/CacheRegion.py
+++ b/Cheetah/CacheRegion.py
@@ -26,6 +26,7 @@ except ImportError:
 
 import time
 from . import CacheStore
+from .compat import unicode
 
 
 class CacheItem(object):
@@ -132,7 +133,7 @@ class CacheRegion(object):
 
             Returns a `CacheItem` instance.
         """
-        cacheItemID = md5(str(cacheItemID).encode('ascii')).hexdigest()
+        cacheItemID = md5(unicode(cacheItemID).encode('utf-8')).hexdigest()
 
         if cacheItemID not in self._cacheItems:
             cacheItem = self._cacheItemClass(
-- 
2.43.0


From 332913935c208b11284c5416ff02017c3918224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:30 +0000
Subject: [PATCH 06/40] fix: every source position has a row and column

Rows were counted with str.splitlines() in reports (which also splits at form
feeds, U+2028 and others) but by CR/LF elsewhere, and positions inside a CRLF,
after the last line end or in the output of a macro had no row at all, so that
formatting the ParseError failed with TypeError or showed the wrong line.
---
 Cheetah/SourceReader.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/Cheetah/SourceReader.py b/Cheetah/SourceReader.py
index 92b0be3..364abd9 100644
--- a/Cheetah/SourceReader.py
+++ b/Cheetah/SourceReader.py
@@ -1,6 +1,7 @@
 """SourceReader class for Cheetah's Parser and CodeGenerator
 """
 import re
+from bisect import bisect_right
 from .compat import unicode
 
 EOLre = re.compile(r'[ \f\t]*(?:\r\n|\r|\n)')
@@ -26,17 +27,28 @@ class SourceReader(object):
         self._posTobookmarkMap = {}
 
         # collect some meta-information
+        self._linesSrc = None
+        self._findLines()
+
+    def _findLines(self):
+        """Collect the bounds of the lines of the current source. The text
+        after the last line end is a line too, even if it is empty."""
+        src = self._src
+        if self._linesSrc is src:
+            return
         self._EOLs = []
+        self._BOLs = []
         pos = 0
-        while pos < len(self):
+        while True:
             EOLmatch = EOLZre.search(src, pos)
+            self._BOLs.append(pos)
             self._EOLs.append(EOLmatch.start())
             pos = EOLmatch.end()
-
-        self._BOLs = []
-        for pos in self._EOLs:
-            BOLpos = self.findBOL(pos)
-            self._BOLs.append(BOLpos)
+            if EOLmatch.start() == pos:
+                break
+        self._srcLines = [src[BOL:EOL] for BOL, EOL
+                          in zip(self._BOLs, self._EOLs)]
+        self._linesSrc = src
 
     def src(self):
         return self._src
@@ -60,17 +72,15 @@ class SourceReader(object):
         return self._src[i:j]
 
     def splitlines(self):
-        if not hasattr(self, '_srcLines'):
-            self._srcLines = self._src.splitlines()
+        self._findLines()
         return self._srcLines
 
     def lineNum(self, pos=None):
         if pos is None:
             pos = self._pos
 
-        for i in range(len(self._BOLs)):
-            if pos >= self._BOLs[i] and pos <= self._EOLs[i]:
-                return i
+        self._findLines()
+        return bisect_right(self._BOLs, pos) - 1
 
     def getRowCol(self, pos=None):
         if pos is None:
-- 
2.43.0


From 3a155e76a47dd0d66c3d53e78ee6c7bac215a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:09 +0000
Subject: [PATCH 07/40] fix: guessed line of an error in generated code may not
 exist

---
 Cheetah/Template.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index e7d06a4..bb97f9b 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -2054,6 +2054,9 @@ def genParserErrorFromPythonException(source, file,
 
     message = '\n'.join(message)
     reader = SourceReader(source, filename=filename)
+    if lineno is not None and lineno > len(reader.splitlines()):
+        # the match was not a position in the template
+        lineno = col = None
     return ParseError(reader, message, lineno=lineno, col=col)
 
 
-- 
2.43.0


From e9db71e2b46a5b4666cc9d901561942979eee0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:14 +0000
Subject: [PATCH 08/40] fix: an unexpected end of the template is a syntax
 error

---
 Cheetah/Parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 3b7c4b1..d962453 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -420,6 +420,12 @@ class _LowLevelParser(SourceReader):
     def _initializeSettings(self):
         self._settingsManager._initializeSettings()
 
+    def peek(self, offset=0):
+        try:
+            return SourceReader.peek(self, offset)
+        except IndexError:
+            raise ParseError(self, msg='Unexpected end of the template')
+
     def configureParser(self):
         """Is called by the Compiler instance after the parser has had a
         settingsManager assigned with self.setSettingsManager()
@@ -1746,7 +1752,8 @@ class _HighLevelParser(_LowLevelParser):
                         self.getWhiteSpace()
                         finalPos = self.pos()
                         break
-            self.advance()
+            if not self.atEnd():
+                self.advance()
             finalPos = endRawPos = self.pos()
 
         textEaten = self.readTo(endRawPos, start=startPos)
-- 
2.43.0


From ae09332310ac098eabbefc45ec850e7edd22ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:55 +0000
Subject: [PATCH 09/40] fix: misplaced #else, #elif, #except, #finally and #end
 are syntax errors

---
 Cheetah/Parser.py | 47 ++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index d962453..af195c4 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -257,6 +257,14 @@ endDirectiveNamesAndHandlers = {
     'unless': None,             # has short-form
 }
 
+# directives which continue an open directive: the directives they may continue
+continuedDirectives = {
+    'else': ('if', 'unless', 'for', 'while', 'repeat', 'try'),
+    'elif': ('if', 'unless'),
+    'except': ('try',),
+    'finally': ('try',),
+}
+
 ##################################################
 # CLASSES ##
 
@@ -1414,6 +1422,12 @@ class _HighLevelParser(_LowLevelParser):
         self._macros = {}
         self._macroDetails = {}
         self._openDirectivesStack = []
+        # directives opened outside of the current single-line directive
+        self._outerDirectivesCount = 0
+        # was the last directive parsed a single-line one, and nothing but
+        # text and comments since?
+        self._isSingleLineDirective = False
+        self._afterSingleLineDirective = False
 
     def cleanup(self):
         """Cleanup to remove any possible reference cycles
@@ -1545,6 +1559,9 @@ class _HighLevelParser(_LowLevelParser):
             origBP = self.breakPoint()
             self.setBreakPoint(breakPoint)
             assertEmptyStack = False
+            origOuterCount = self._outerDirectivesCount
+            self._outerDirectivesCount = len(self._openDirectivesStack)
+            self._afterSingleLineDirective = False
 
         while not self.atEnd():
             if self.matchCommentStartToken():
@@ -1553,12 +1570,17 @@ class _HighLevelParser(_LowLevelParser):
                 self.eatMultiLineComment()
             elif self.matchVariablePlaceholderStart():
                 self.eatPlaceholder()
+                self._afterSingleLineDirective = False
             elif self.matchExpressionPlaceholderStart():
                 self.eatPlaceholder()
+                self._afterSingleLineDirective = False
             elif self.matchDirective():
+                self._isSingleLineDirective = False
                 self.eatDirective()
+                self._afterSingleLineDirective = self._isSingleLineDirective
             elif self.matchPSPStartToken():
                 self.eatPSP()
+                self._afterSingleLineDirective = False
             elif self.matchEOLSlurpToken():
                 self.eatEOLSlurpToken()
             else:
@@ -1566,6 +1588,8 @@ class _HighLevelParser(_LowLevelParser):
         if assertEmptyStack:
             self.assertEmptyOpenDirectivesStack()
         if breakPoint:
+            self.assertEmptyOpenDirectivesStack()
+            self._outerDirectivesCount = origOuterCount
             self.setBreakPoint(origBP)
 
     # non-directive eat methods
@@ -1809,6 +1833,8 @@ class _HighLevelParser(_LowLevelParser):
         if self.matchColonForSingleLineShortFormDirective():
             self.advance()  # skip over :
             if directiveName in 'else elif except finally'.split():
+                if not self._afterSingleLineDirective:
+                    raise ParseError(self, msg='Misplaced #' + directiveName)
                 callback(expr, dedent=False, lineCol=lineCol)
             else:
                 callback(expr, lineCol=lineCol)
@@ -1817,6 +1843,7 @@ class _HighLevelParser(_LowLevelParser):
             self.parse(breakPoint=self.findEOL(gobble=True))
             self._compiler.commitStrConst()
             self._compiler.dedent()
+            self._isSingleLineDirective = True
         else:
             if self.peek() == ':':
                 self.advance()
@@ -1825,6 +1852,7 @@ class _HighLevelParser(_LowLevelParser):
                                         endOfFirstLinePos)
             if directiveName in self._closeableDirectives:
                 self.pushToOpenDirectivesStack(directiveName)
+            self._checkContinuedDirective(directiveName)
             callback(expr, lineCol=lineCol)
 
     def eatEndDirective(self):
@@ -2747,6 +2775,7 @@ class _HighLevelParser(_LowLevelParser):
             self.parse(breakPoint=self.findEOL(gobble=True))
             self._compiler.commitStrConst()
             self._compiler.dedent()
+            self._isSingleLineDirective = True
         else:
             if self.peek() == ':':
                 self.advance()
@@ -2775,7 +2804,7 @@ class _HighLevelParser(_LowLevelParser):
         self._openDirectivesStack.append(directiveName)
 
     def popFromOpenDirectivesStack(self, directiveName):
-        if not self._openDirectivesStack:
+        if len(self._openDirectivesStack) <= self._outerDirectivesCount:
             raise ParseError(self, msg="#end found, but nothing to end")
 
         if self._openDirectivesStack[-1] == directiveName:
@@ -2785,12 +2814,24 @@ class _HighLevelParser(_LowLevelParser):
                 directiveName, self._openDirectivesStack[-1]))
 
     def assertEmptyOpenDirectivesStack(self):
-        if self._openDirectivesStack:
+        openDirectives = self._openDirectivesStack[self._outerDirectivesCount:]
+        if openDirectives:
             errorMsg = (
                 "Some #directives are missing their corresponding #end ___ tag"
-                ": %s" % ', '.join(self._openDirectivesStack))
+                ": %s" % ', '.join(openDirectives))
             raise ParseError(self, msg=errorMsg)
 
+    def _checkContinuedDirective(self, directiveName):
+        """#else, #elif, #except and #finally must stand directly inside of
+        the directive which they continue.
+        """
+        continued = continuedDirectives.get(directiveName)
+        if continued and (
+            len(self._openDirectivesStack) <= self._outerDirectivesCount
+            or self._openDirectivesStack[-1] not in continued
+        ):
+            raise ParseError(self, msg='Misplaced #' + directiveName)
+
 
 ##################################################
 # Make an alias to export
-- 
2.43.0


From 92cb8db587cd1e1c5271a99bdc866cb66839a4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:55 +0000
Subject: [PATCH 10/40] fix: a nested single-line directive may end the line of
 a single-line #def

---
 Cheetah/Parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index af195c4..c92cd88 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2137,8 +2137,12 @@ class _HighLevelParser(_LowLevelParser):
             elif directiveName == 'closure' or isNestedDef:
                 self._compiler.dedent()
 
-            self._eatRestOfDirectiveTag(isLineClearToStartToken,
-                                        endOfFirstLinePos)
+            if self.pos() <= endOfFirstLinePos:
+                self._eatRestOfDirectiveTag(isLineClearToStartToken,
+                                            endOfFirstLinePos)
+            elif isLineClearToStartToken:
+                # a nested single-line directive has eaten the line end
+                self._compiler.handleWSBeforeDirective()
         else:
             if self.peek() == ':':
                 self.getc()
-- 
2.43.0


From 35b272e4494adc607e0d56b12e86e8ec1e2b7ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:56 +0000
Subject: [PATCH 11/40] fix: #arg outside of #call is a syntax error

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index c92cd88..4775323 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2631,6 +2631,8 @@ class _HighLevelParser(_LowLevelParser):
         self.getWhiteSpace()
         argName = self._applyExpressionFilters(argName, 'arg',
                                                startPos=startPos)
+        if not self._compiler._callRegionsStack:
+            raise ParseError(self, msg='#arg outside of #call')
         self._compiler.setCallArg(argName, lineCol)
         if self.peek() == ':':
             self.getc()
-- 
2.43.0


From 9274223570f1ff05651260f6d931925b28c5971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:52 +0000
Subject: [PATCH 12/40] fix: the text of a single-line #closure belongs to the
 closure

---
 Cheetah/Parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4775323..4bebce4 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2135,6 +2135,7 @@ class _HighLevelParser(_LowLevelParser):
                 includeBlockMarkers()
                 self._compiler.closeBlock()
             elif directiveName == 'closure' or isNestedDef:
+                self._compiler.commitStrConst()
                 self._compiler.dedent()
 
             if self.pos() <= endOfFirstLinePos:
-- 
2.43.0


From 4fae4eb90b8d7b092337e1a8ed9800babf7269e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:12 +0000
Subject: [PATCH 13/40] fix: a single-line #block may stand inside of a #def

---
 Cheetah/Parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 4bebce4..2434628 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2190,7 +2190,8 @@ class _HighLevelParser(_LowLevelParser):
         parserComment = ('## Generated from ' + fullSignature
                          + ' at line %s, col %s' % self.getRowCol(startPos)
                          + '.')
-        isNestedDef = (self.setting('allowNestedDefScopes')
+        isNestedDef = (directiveName == 'def'
+                       and self.setting('allowNestedDefScopes')
                        and [name for name in self._openDirectivesStack
                             if name == 'def'])
         if directiveName == 'block' or (
-- 
2.43.0


From 1d7dfe33127e29600ab146ce4098d1ccd03b9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:06 +0000
Subject: [PATCH 14/40] fix: text before a directive that ends on a line of its
 own is not lost

---
 Cheetah/Compiler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 61c7468..d89175b 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -506,11 +506,14 @@ class MethodCompiler(GenUtils):
 
     def handleWSBeforeDirective(self):
         """Truncate the pending strCont to the beginning of the current line.
+
+        The current line contains nothing but whitespace; any other text comes
+        from an earlier line whose end did not become a part of the text.
         """
         if self._pendingStrConstChunks:
             src = self._pendingStrConstChunks[-1]
             BOL = max(src.rfind('\n') + 1, src.rfind('\r') + 1, 0)
-            if BOL < len(src):
+            if BOL < len(src) and not src[BOL:].strip():
                 self._pendingStrConstChunks[-1] = src[:BOL]
 
     def isErrorCatcherOn(self):
-- 
2.43.0


From 4e47310820271a7fdf0c10c0c6371a6429be6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:46 +0000
Subject: [PATCH 15/40] fix: compiling does not add i18n to the caller's
 macroDirectives

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 2434628..6b0b5f8 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1492,7 +1492,7 @@ class _HighLevelParser(_LowLevelParser):
         for directiveName in self.setting('closeableDirectives', []):
             self._closeableDirectives.append(directiveName)
 
-        macroDirectives = self.setting('macroDirectives', {})
+        macroDirectives = dict(self.setting('macroDirectives', {}))
         macroDirectives['i18n'] = I18n
 
         for macroName, callback in macroDirectives.items():
-- 
2.43.0


From 3d3c24665f28786b4dd77eeaed28592ab85f7b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:46 +0000
Subject: [PATCH 16/40] fix: merging settings never aliases the caller's nested
 dictionaries

---
 Cheetah/SettingsManager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Cheetah/SettingsManager.py b/Cheetah/SettingsManager.py
index 91b6002..181e743 100644
--- a/Cheetah/SettingsManager.py
+++ b/Cheetah/SettingsManager.py
@@ -38,6 +38,9 @@ def mergeNestedDictionaries(dict1, dict2, copy=False, deepcopy=False):
         if key in dict1 and isinstance(val, dict) \
                 and isinstance(dict1[key], dict):
             dict1[key] = mergeNestedDictionaries(dict1[key], val)
+        elif isinstance(val, dict):
+            # later merges into dict1 must not change dict2
+            dict1[key] = mergeNestedDictionaries({}, val)
         else:
             dict1[key] = val
     return dict1
-- 
2.43.0


From 460ce5bbe052ff8c65c839b2c89b62b0c164225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:00 +0000
Subject: [PATCH 17/40] fix: preprocessor settings of the caller stay as they
 are

---
 Cheetah/Template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index bb97f9b..b2d2ada 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -7,6 +7,7 @@ for more information.
 
 ###############################################################################
 # DEPENDENCIES
+import copy
 import sys                        # used in the error handling code
 import re                         # used to define the internal delims regex
 import logging
@@ -924,7 +925,7 @@ class Template(Servlet):
                 for k, v in arg.items():
                     setattr(settings, k, v)
             else:
-                settings = arg
+                settings = copy.copy(arg)
 
             settings = klass._normalizePreprocessorSettings(settings)
             return klass._CHEETAH_defaultPreprocessorClass(settings)
@@ -958,6 +959,7 @@ class Template(Servlet):
 
         if not hasattr(settings, 'templateInitArgs'):
             settings.templateInitArgs = {}
+        settings.templateInitArgs = dict(settings.templateInitArgs)
         if 'searchList' not in settings.templateInitArgs:
             if not hasattr(settings, 'searchList') \
                     and hasattr(settings, 'namespaces'):
@@ -978,6 +980,7 @@ class Template(Servlet):
 
         if not hasattr(settings, 'compilerSettings'):
             settings.compilerSettings = {}
+        settings.compilerSettings = dict(settings.compilerSettings or {})
 
         klass._updateSettingsWithPreprocessTokens(
             compilerSettings=settings.compilerSettings,
-- 
2.43.0


From 8b8054ee6dcbaae634b94ded306a58087efaeabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:45 +0000
Subject: [PATCH 18/40] fix: the compilation cache distinguishes all sources
 and options

---
 Cheetah/Template.py | 90 +++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 44 deletions(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index b2d2ada..725af54 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -88,27 +88,27 @@ class PreprocessError(Error):
     pass
 
 
-def hashList(v_list):
-    hashedList = []
-    for v in v_list:
-        if isinstance(v, dict):
-            v = hashDict(v)
-        elif isinstance(v, list):
-            v = hashList(v)
-        hashedList.append(v)
-    return hash(tuple(hashedList))
-
-
-def hashDict(d):
-    items = sorted(d.items())
-    hashedList = []
-    for k, v in items:
-        if isinstance(v, dict):
-            v = hashDict(v)
-        elif isinstance(v, list):
-            v = hashList(v)
-        hashedList.append((k, v))
-    return hash(tuple(hashedList))
+def _cacheKeyOf(value, refs, byValue=False):
+    """Describe an option of Template.compile for the compilation cache.
+
+    Different values have different descriptions.  Simple values are described
+    by their type and value, and so are dictionaries, lists and tuples if
+    byValue is true.  Any other object is described by its identity and is
+    added to refs, which must be kept as long as the description is in use.
+    """
+    valueType = type(value)
+    if value is None or valueType in (bool, int, float, complex,
+                                      str, bytes, unicode):
+        return (valueType.__name__, repr(value))
+    if byValue and isinstance(value, dict):
+        return (valueType.__name__,
+                sorted((_cacheKeyOf(k, refs), _cacheKeyOf(v, refs, True))
+                       for k, v in value.items()))
+    if byValue and isinstance(value, (list, tuple)):
+        return (valueType.__name__,
+                [_cacheKeyOf(v, refs, True) for v in value])
+    refs.append(value)
+    return (valueType.__name__, 'id', id(value))
 
 
 ###############################################################################
@@ -728,38 +728,37 @@ class Template(Servlet):
         cacheHash = None
         cacheItem = None
         if source or isinstance(file, string_type):
-            compilerSettingsHash = None
-            if compilerSettings:
-                compilerSettingsHash = hashDict(compilerSettings)
-
-            moduleGlobalsHash = None
-            if moduleGlobals:
-                moduleGlobalsHash = hashDict(moduleGlobals)
-
-            fileHash = None
+            fileKey = None
             if file:
-                fileHash = str(hash(file))
+                fileKey = [file]
+                if isinstance(file, string_type):
+                    fileKey.append(os.path.abspath(file))
                 if globals()['__checkFileMtime']:
-                    fileHash += str(os.path.getmtime(file))
+                    fileKey.append(os.path.getmtime(file))
 
+            cacheKeyRefs = []
             try:
                 # @@TR: find some way to create a cacheHash that is consistent
                 # between process restarts.  It would allow for caching the
                 # compiled module on disk and thereby reduce the startup time
                 # for applications that use a lot of dynamically compiled
                 # templates.
-                cacheHash = ''.join([str(v) for v in
-                                     [hash(source),
-                                      fileHash,
-                                      className,
-                                      moduleName,
-                                      mainMethodName,
-                                      hash(compilerClass),
-                                      hash(baseclass),
-                                      compilerSettingsHash,
-                                      moduleGlobalsHash,
-                                      hash(cacheDirForModuleFiles),
-                                      ]])
+                cacheHash = repr([
+                    _cacheKeyOf(v, cacheKeyRefs, True) for v in
+                    [source,
+                     fileKey,
+                     className,
+                     moduleName,
+                     mainMethodName,
+                     compilerClass,
+                     baseclass,
+                     compilerSettings,
+                     [_cacheKeyOf(k, cacheKeyRefs)
+                      + _cacheKeyOf(v, cacheKeyRefs)
+                      for k, v in sorted((moduleGlobals or {}).items())],
+                     cacheDirForModuleFiles,
+                     commandlineopts and commandlineopts.shbang,
+                     ]])
             except Exception:
                 # @@TR: should add some logging to this
                 pass
@@ -768,6 +767,7 @@ class Template(Servlet):
         if useCache and cacheHash and cacheHash in klass._CHEETAH_compileCache:
             cacheItem = klass._CHEETAH_compileCache[cacheHash]
             generatedModuleCode = cacheItem.code
+            outputEncoding = cacheItem.encoding
         else:
             compiler = compilerClass(source, file,
                                      moduleName=moduleName,
@@ -853,6 +853,8 @@ class Template(Servlet):
                 cacheItem = CompileCacheItem()
                 cacheItem.cacheTime = cacheItem.lastCheckoutTime = time.time()
                 cacheItem.code = generatedModuleCode
+                cacheItem.encoding = outputEncoding
+                cacheItem.keyRefs = cacheKeyRefs
                 cacheItem.klass = templateClass
                 templateClass._CHEETAH_isInCompilationCache = True
                 klass._CHEETAH_compileCache[cacheHash] = cacheItem
-- 
2.43.0


From 4544cddacb890e3076c0ceee37b8c2200925615f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:16 +0000
Subject: [PATCH 19/40] fix: --idir and --odir are normalized like the source
 paths

---
 Cheetah/CheetahWrapper.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 8c85a71..85f50db 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -236,15 +236,12 @@ Files are %s""", args, pprint.pformat(vars(opts)), files)
                 print('\t%s (default: "%s")\t%s' % _l)
             sys.exit(0)
 
-        # cleanup trailing path separators
-        seps = [sep for sep in [os.sep, os.altsep] if sep]
+        # cleanup trailing path separators (the source paths are normalized
+        # too, and compared with idir)
         for attr in ['idir', 'odir']:
-            for sep in seps:
-                path = getattr(opts, attr, None)
-                if path and path.endswith(sep):
-                    path = path[:-len(sep)]
-                    setattr(opts, attr, path)
-                    break
+            path = getattr(opts, attr, None)
+            if path:
+                setattr(opts, attr, os.path.normpath(path))
 
         self._fixExts()
         if opts.env:
@@ -485,7 +482,7 @@ you do have write permission to and re-run the tests.""")
         iext = self.opts.iext
         odir = self.opts.odir
         oext = self.opts.oext
-        idirSlash = idir + os.sep
+        idirSlash = os.path.join(idir, '')
         bundles = []
         for src in sourceFiles:
             # 'base' is the subdirectory plus basename.
-- 
2.43.0


From d509c10ae66b254139c49f52658038473c5d31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 20/40] fix: an absolute source is placed relative to whole
 directories of --odir

---
 Cheetah/CheetahWrapper.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 85f50db..0334908 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -499,11 +499,9 @@ you do have write permission to and re-run the tests.""")
                 if odir and base.startswith(os.sep):
                     odd = odir
                     while odd != '':
-                        idx = base.find(odd)
-                        if idx == 0:
-                            dbn = base[len(odd):]
-                            if dbn[0] == '/':
-                                dbn = dbn[1:]
+                        oddSlash = os.path.join(odd, '')
+                        if base.startswith(oddSlash):
+                            dbn = base[len(oddSlash):]
                             break
                         odd = os.path.dirname(odd)
                         if odd == '/':
-- 
2.43.0


From 773b9f49ad1f66f28a0c4fe3641983ee82ecf9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 21/40] fix: sources with one destination are refused without
 --flat, too

---
 Cheetah/CheetahWrapper.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 0334908..a684125 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -369,7 +369,7 @@ you do have write permission to and re-run the tests.""")
         D("All source files found: %s", sourceFiles)
         bundles = self._getBundles(sourceFiles)
         D("All bundles: %s", pprint.pformat(bundles))
-        if self.opts.flat:
+        if self.opts.flat or not self.opts.stdout:
             self._checkForCollisions(bundles)
 
         # In parallel mode a new process is forked for each template
@@ -422,11 +422,16 @@ you do have write permission to and re-run the tests.""")
         W = self.warn
         isError = False
         dstSources = {}
+        seen = set()
         for b in bundles:
-            if b.dst in dstSources:
-                dstSources[b.dst].append(b.src)
+            src, dst = os.path.abspath(b.src), os.path.abspath(b.dst)
+            if (src, dst) in seen:
+                continue  # The same source file, given more than once.
+            seen.add((src, dst))
+            if dst in dstSources:
+                dstSources[dst].append(b.src)
             else:
-                dstSources[b.dst] = [b.src]
+                dstSources[dst] = [b.src]
         keys = sorted(dstSources.keys())
         for dst in keys:
             sources = dstSources[dst]
-- 
2.43.0


From 66fa0330f66b6b7e75b4e2c6d7bac8e1f4649dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:41 +0000
Subject: [PATCH 22/40] fix: --stdout makes no backup files and no directories

---
 Cheetah/CheetahWrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index a684125..0cf7dc3 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -609,7 +609,8 @@ you do have write permission to and re-run the tests.""")
         dstDir = os.path.dirname(dst)
         what = self.isCompile and "Compiling" or "Filling"
         C("%s %s -> %s^", what, src, dst)  # No trailing newline.
-        if os.path.exists(dst) and not self.opts.nobackup:
+        if os.path.exists(dst) and not self.opts.nobackup \
+                and not self.opts.stdout:
             bak = b.bak
             C(" (backup %s)", bak)  # On same line as previous message.
         else:
@@ -635,7 +636,7 @@ be named according to the same rules as Python modules.""" % tup)
 
         if bak:
             shutil.copyfile(dst, bak)
-        if dstDir and not os.path.exists(dstDir):
+        if dstDir and not os.path.exists(dstDir) and not self.opts.stdout:
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-- 
2.43.0


From e6aaf4594b927b9e8ecca23509d48ba45f9e52ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:40 +0000
Subject: [PATCH 23/40] fix: a source given twice does not replace its backup
 by the new output

---
 Cheetah/CheetahWrapper.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index 0cf7dc3..f3d6b0b 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -371,6 +371,16 @@ you do have write permission to and re-run the tests.""")
         D("All bundles: %s", pprint.pformat(bundles))
         if self.opts.flat or not self.opts.stdout:
             self._checkForCollisions(bundles)
+        if not self.opts.stdout:
+            # A source file given more than once is processed only once: the
+            # second time would replace the backup by the new output.
+            seen, unique = set(), []
+            for b in bundles:
+                key = os.path.abspath(b.src), os.path.abspath(b.dst)
+                if key not in seen:
+                    seen.add(key)
+                    unique.append(b)
+            bundles = unique
 
         # In parallel mode a new process is forked for each template
         # compilation, out of a pool of size self.opts.parallel. This is not
-- 
2.43.0


From f3420e5304155b0556b933bd3150e4942f713886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:49 +0000
Subject: [PATCH 24/40] fix: cheetah compile --stdout writes text with Python 3

---
 Cheetah/CheetahWrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index f3d6b0b..cdf0002 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -654,8 +654,8 @@ be named according to the same rules as Python modules.""" % tup)
         if self.opts.stdout:
             if not PY2:
                 encoding = self.opts.encoding
-                if encoding and isinstance(output, bytes):
-                    output = output.decode(encoding)
+                if isinstance(output, bytes):
+                    output = output.decode(encoding or 'utf-8')
             sys.stdout.write(output)
         else:
             encoding = self.opts.encoding
-- 
2.43.0


From c90de8d94ba37f9f7074af09c733843640dda756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:12 +0000
Subject: [PATCH 25/40] fix: disabledDirectives and enabledDirectives know
 directives by their own spelling

---
 Cheetah/Parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 6b0b5f8..cfe2168 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1544,9 +1544,16 @@ class _HighLevelParser(_LowLevelParser):
 
     def _filterDisabledDirectives(self, directiveName):
         directiveName = directiveName.lower()
-        if (directiveName in self.setting('disabledDirectives')
-            or (self.setting('enabledDirectives')
-                and directiveName not in self.setting('enabledDirectives'))):
+
+        def names(settingName):
+            value = self.setting(settingName)
+            if hasattr(value, 'lower'):
+                return value.lower()
+            return [name.lower() for name in value]
+
+        enabled = names('enabledDirectives')
+        if (directiveName in names('disabledDirectives')
+                or (enabled and directiveName not in enabled)):
             for callback in self.setting('disabledDirectiveHooks'):
                 callback(parser=self, directiveName=directiveName)
             raise ForbiddenDirective(
-- 
2.43.0


From 2d324d795bd51093b3d977347698b8ccbb0f1c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:50 +0000
Subject: [PATCH 26/40] fix: macro definitions and macro arguments pass the
 expression filter hooks

---
 Cheetah/Parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index cfe2168..bb5a2a8 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2391,9 +2391,10 @@ class _HighLevelParser(_LowLevelParser):
         self._compiler.addInclude(sourceExpr, includeFrom, isRaw)
 
     def eatDefMacro(self):
-        # @@TR: not filtered yet
+        # filtered
         isLineClearToStartToken = self.isLineClearToStartToken()
         endOfFirstLinePos = self.findEOL()
+        startPos = self.pos()
         self.getDirectiveStartToken()
         self.advance(len('defmacro'))
 
@@ -2433,6 +2434,9 @@ class _HighLevelParser(_LowLevelParser):
                                         endOfFirstLinePos)
             macroSrc = self._eatToThisEndDirective('defmacro')
 
+        self._applyExpressionFilters(self[startPos:self.pos()], 'defmacro',
+                                     startPos=startPos)
+
         normalizedMacroSrc = ''.join(
             ['%def callMacro(' + ','.join([defv and '%s=%s' % (n, defv) or n
                                            for n, defv in argsList]) + ')\n',
@@ -2503,6 +2507,8 @@ class _HighLevelParser(_LowLevelParser):
                                         endOfFirstLinePos)
             srcBlock = self._eatToThisEndDirective(macroName)
 
+        args = self._applyExpressionFilters(args, macroName,
+                                            startPos=startPos)
         if hasattr(macro, 'convertArgStrToDict'):
             kwArgs = macro.convertArgStrToDict(args, parser=self,
                                                startPos=startPos)
-- 
2.43.0


From 302f319482d4254cbc08d55a95d8b3287b6944ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:27 +0000
Subject: [PATCH 27/40] fix: arguments of #call pass the expression filter
 hooks

---
 Cheetah/Parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index bb5a2a8..c4332e1 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -2612,12 +2612,12 @@ class _HighLevelParser(_LowLevelParser):
         else:
             functionName = self.getCheetahVar(plain=True, skipStartToken=True)
         self.setSetting('useAutocalling', useAutocallingOrig)
-        # @@TR: fix up filtering
-        self._applyExpressionFilters(self[startPos:self.pos()], 'call',
-                                     startPos=startPos)
 
         self.getWhiteSpace()
         args = self.getExpression(pyTokensToBreakAt=[':']).strip()
+        # @@TR: fix up filtering
+        self._applyExpressionFilters(self[startPos:self.pos()], 'call',
+                                     startPos=startPos)
         if self.matchColonForSingleLineShortFormDirective():
             self.advance()  # skip over :
             self._compiler.startCallRegion(functionName, args, lineCol)
-- 
2.43.0


From a3a4b10df614f76700e055489b47ad59c36374a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:12 +0000
Subject: [PATCH 28/40] fix: the end of a nested closure restores the use of
 the search list

---
 Cheetah/Parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index c4332e1..1ba5739 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1422,6 +1422,7 @@ class _HighLevelParser(_LowLevelParser):
         self._macros = {}
         self._macroDetails = {}
         self._openDirectivesStack = []
+        self._useSearchList_origs = []
         # directives opened outside of the current single-line directive
         self._outerDirectivesCount = 0
         # was the last directive parsed a single-line one, and nothing but
@@ -1909,7 +1910,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.commitStrConst()
             self._compiler.dedent()
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchList_origs.pop())
 
     # specific directive eat methods
 
@@ -2184,7 +2185,7 @@ class _HighLevelParser(_LowLevelParser):
                 directiveName == 'def' and not isNestedDef):
             self._compiler.startMethodDef(methodName, argsList, parserComment)
         else:  # closure
-            self._useSearchList_orig = self.setting('useSearchList')
+            self._useSearchList_origs.append(self.setting('useSearchList'))
             self.setSetting('useSearchList', False)
             self._compiler.addClosure(methodName, argsList, parserComment)
 
@@ -2815,7 +2816,7 @@ class _HighLevelParser(_LowLevelParser):
             self._compiler.closeDef()
         else:
             # @@TR: temporary hack of useSearchList
-            self.setSetting('useSearchList', self._useSearchList_orig)
+            self.setSetting('useSearchList', self._useSearchList_origs.pop())
             self._compiler.commitStrConst()
             self._compiler.dedent()
     ###
-- 
2.43.0


From 155bf9a370ca05562b592ad5c9ed3ed7758f8bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:22 +0000
Subject: [PATCH 29/40] fix: #filter None holds for blocks and methods called
 in its region

---
 Cheetah/Compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index d89175b..0a855b7 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -1032,7 +1032,8 @@ class MethodCompiler(GenUtils):
                 + theFilter.strip() + '(self).filter')
         else:
             if theFilter.lower() == 'none':
-                self.addChunk('_filter = self._CHEETAH__initialFilter')
+                self.addChunk('_filter = self._CHEETAH__currentFilter = '
+                              'self._CHEETAH__initialFilter')
             else:
                 # is string representing the name of a builtin filter
                 self.addChunk('filterName = ' + repr(theFilter))
-- 
2.43.0


From 13a6b1335f5fecf2e359865edfb1e0bdb6f8fb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:22 +0000
Subject: [PATCH 30/40] fix: output regions work inside of closures and nested
 methods

---
 Cheetah/Compiler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index 0a855b7..ec5279c 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -685,6 +685,17 @@ class MethodCompiler(GenUtils):
             "def " + functionName + "(" + ','.join(argStringChunks) + "):"
         self.addIndentingDirective(signature)
         self.addChunk('#' + parserComment)
+        if not PY2:
+            # the regions inside of the closure redirect the output
+            # of the method
+            argNames = [arg[0].lstrip('*') for arg in argsList]
+            outputNames = ['trans', 'write']
+            if self.setting('useFilters'):
+                outputNames.append('_filter')
+            outputNames = [name for name in outputNames
+                           if name not in argNames]
+            if outputNames:
+                self.addChunk('nonlocal ' + ', '.join(outputNames))
 
     def addTry(self, expr, lineCol=None):
         self.addIndentingDirective(expr, lineCol=lineCol)
-- 
2.43.0


From b86445138228227c6730399325be3d1fec06b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:22 +0000
Subject: [PATCH 31/40] fix: a method called in a cache region writes to the
 region

---
 Cheetah/Compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/Compiler.py b/Cheetah/Compiler.py
index ec5279c..efc4ecc 100644
--- a/Cheetah/Compiler.py
+++ b/Cheetah/Compiler.py
@@ -845,6 +845,9 @@ class MethodCompiler(GenUtils):
             % locals())
         self.indent()
         self.addChunk('_orig_trans%(ID)s = trans' % locals())
+        self.addChunk('_wasBuffering%(ID)s = self._CHEETAH__isBuffering'
+                      % locals())
+        self.addChunk('self._CHEETAH__isBuffering = True')
         self.addChunk('trans = _cacheCollector_%(ID)s = DummyTransaction()'
                       % locals())
         self.addChunk('write = _cacheCollector_%(ID)s.response().write'
@@ -858,6 +861,8 @@ class MethodCompiler(GenUtils):
         ID = self._cacheRegionsStack.pop()
         self.addChunk('trans = _orig_trans%(ID)s' % locals())
         self.addChunk('write = trans.response().write')
+        self.addChunk('self._CHEETAH__isBuffering = _wasBuffering%(ID)s'
+                      % locals())
         self.addChunk(
             '_cacheData = _cacheCollector_%(ID)s.response().getvalue()'
             % locals())
@@ -865,6 +870,7 @@ class MethodCompiler(GenUtils):
         self.addWriteChunk('_cacheData')
         self.addChunk('del _cacheData')
         self.addChunk('del _cacheCollector_%(ID)s' % locals())
+        self.addChunk('del _wasBuffering%(ID)s' % locals())
         self.addChunk('del _orig_trans%(ID)s' % locals())
         self.dedent()
         self.addChunk('## END CACHE REGION: ' + ID)
-- 
2.43.0


From 7e7f2348cc6382ddd54664dc9b5b0bcd4ce1a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:20 +0000
Subject: [PATCH 32/40] fix: a mapping that has a key but fails to give its
 value does not crash the C name mapper

---
 Cheetah/c/_namemapper.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 9db5505..3895321 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -203,6 +203,12 @@ static PyObject *PyNamemapper_valueForName(PyObject *obj, char *nameChunks[], in
         #else
         if (PyMapping_Check(currentVal) && PyMapping_HasKeyString(currentVal, currentKey)) {
             nextVal = PyMapping_GetItemString(currentVal, currentKey);
+            if (nextVal == NULL) {
+                if (i > 0) {
+                    Py_DECREF(currentVal);
+                }
+                return NULL;
+            }
         #endif
 
         } else {
-- 
2.43.0


From ed57dbeee5a405f32a27ece6586dfea806b21a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:32 +0000
Subject: [PATCH 33/40] fix: the C name mapper keeps the value of the
 exceptions it wraps and their references

---
 Cheetah/c/_namemapper.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 3895321..47ae55f 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -57,15 +57,16 @@ static int wrapInternalNotFoundException(char *fullName, PyObject *namespace)
 
         if (isAlreadyWrapped != NULL) {
             if (PyLong_AsLong(isAlreadyWrapped) == -1) {
-                newExcValue = PyUnicode_FromFormat("%U while searching for \'%s\'",
+                newExcValue = PyUnicode_FromFormat("%S while searching for \'%s\'",
                         excValue, fullName);
             }
             Py_DECREF(isAlreadyWrapped);
         }
-        else {
-           newExcValue = excValue;
+        if (newExcValue != NULL) {
+            Py_DECREF(excValue);
+            excValue = newExcValue;
         }
-        PyErr_Restore(excType, newExcValue, excTraceback);
+        PyErr_Restore(excType, excValue, excTraceback);
         return -1;
     }
     return 0;
-- 
2.43.0


From a452207dfbe0e2d6f8c87c92a1926af5774ce531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 34/40] fix: the C name mapper reports that memory ran out

---
 Cheetah/c/_namemapper.c | 4 ++--
 Cheetah/c/_namemapper.h | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 47ae55f..6275af4 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -440,7 +440,7 @@ static PyObject *namemapper_valueFromFrameOrSearchList(PyObject *self, PyObject
 
     excString = Py_BuildValue("s", "[locals()]+searchList+[globals(), __builtins__]");
     setNotFoundException(nameChunks[0], excString);
-    Py_DECREF(excString);
+    Py_XDECREF(excString);
 
 done:
     Py_XDECREF(iterator);
@@ -490,7 +490,7 @@ static PyObject *namemapper_valueFromFrame(PyObject *self, PyObject *args, PyObj
 
     excString = Py_BuildValue("s", "[locals(), globals(), __builtins__]");
     setNotFoundException(nameChunks[0], excString);
-    Py_DECREF(excString);
+    Py_XDECREF(excString);
 done:
     free(nameCopy);
     return theValue;
diff --git a/Cheetah/c/_namemapper.h b/Cheetah/c/_namemapper.h
index 1a7eecb..17e702f 100644
--- a/Cheetah/c/_namemapper.h
+++ b/Cheetah/c/_namemapper.h
@@ -52,6 +52,9 @@
 #define ALLOW_WRAPPING_OF_NOTFOUND_EXCEPTIONS 1
 #define createNameCopyAndChunks() {\
     nameCopy = malloc(strlen(name) + 1);\
+    if (nameCopy == NULL) {\
+        return PyErr_NoMemory();\
+    }\
     tmpPntr1 = name; \
     tmpPntr2 = nameCopy;\
     while ((*tmpPntr2++ = *tmpPntr1++)); \
-- 
2.43.0


From 18102336e4dceef2926dd5f369427585bdbb2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:56 +0000
Subject: [PATCH 35/40] fix: parallel children may create the same output
 directory at once

---
 Cheetah/CheetahWrapper.py | 7 ++++++-
 Cheetah/Utils/Misc.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Cheetah/CheetahWrapper.py b/Cheetah/CheetahWrapper.py
index cdf0002..065444a 100755
--- a/Cheetah/CheetahWrapper.py
+++ b/Cheetah/CheetahWrapper.py
@@ -650,7 +650,12 @@ be named according to the same rules as Python modules.""" % tup)
             if self.isCompile:
                 mkdirsWithPyInitFiles(dstDir)
             else:
-                os.makedirs(dstDir)
+                try:
+                    os.makedirs(dstDir)
+                except OSError:
+                    # another process may have been faster
+                    if not os.path.isdir(dstDir):
+                        raise
         if self.opts.stdout:
             if not PY2:
                 encoding = self.opts.encoding
diff --git a/Cheetah/Utils/Misc.py b/Cheetah/Utils/Misc.py
index a046f5f..9a2ffc7 100644
--- a/Cheetah/Utils/Misc.py
+++ b/Cheetah/Utils/Misc.py
@@ -60,7 +60,12 @@ def mkdirsWithPyInitFiles(path):
     if dir and not os.path.exists(dir):
         mkdirsWithPyInitFiles(dir)
     if not os.path.exists(path):
-        os.mkdir(path)
+        try:
+            os.mkdir(path)
+        except OSError:
+            if os.path.isdir(path):  # another process was faster
+                return
+            raise
         init = os.path.join(path, "__init__.py")
         f = open(init, 'w')  # Open and close to produce empty file.
         f.close()
-- 
2.43.0


From c7388dbe9b52bd41b5ec1ff882d7348bf9ec3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:56 +0000
Subject: [PATCH 36/40] fix: the end of a raw block leaves the text before the
 block alone

---
 Cheetah/Parser.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 1ba5739..d87c894 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1791,16 +1791,11 @@ class _HighLevelParser(_LowLevelParser):
         textEaten = self.readTo(endRawPos, start=startPos)
         self.setPos(finalPos)
 
-        endOfFirstLinePos = self.findEOL()
-
         if self.matchDirectiveEndToken():
             self.getDirectiveEndToken()
         elif isLineClearToStartToken and (not self.atEnd()) \
                 and self.peek() in '\r\n':
             self.readToEOL(gobble=True)
-
-        if isLineClearToStartToken and self.pos() > endOfFirstLinePos:
-            self._compiler.handleWSBeforeDirective()
         return textEaten
 
     def eatSimpleExprDirective(self, directiveName,
-- 
2.43.0


From 9d2b8448dbc3bd7977e3b36575fefc54bfc51e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:57 +0000
Subject: [PATCH 37/40] fix: C name mapper called instances of classes named
 'function'

Callable instances are not autocalled, but the C version took any object whose
type is named 'function' for a function. Real functions are recognised by their
__code__ attribute, as in the Python version.
---
 Cheetah/c/_namemapper.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Cheetah/c/_namemapper.c b/Cheetah/c/_namemapper.c
index 6275af4..05aae22 100644
--- a/Cheetah/c/_namemapper.c
+++ b/Cheetah/c/_namemapper.c
@@ -90,9 +90,6 @@ static int isInstanceOrClass(PyObject *nextVal) {
         return 1;
     }
 
-    if (strncmp(nextVal->ob_type->tp_name, "function", 9) == 0)
-        return 0;
-
     /* method, func, or builtin func */
     if (PyObject_HasAttrString(nextVal, "__func__")
         || PyObject_HasAttrString(nextVal, "__code__")
-- 
2.43.0


From 14d92bf642c908b127db6153fbabf61b519484d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:12 +0000
Subject: [PATCH 38/40] fix: a searchList given as a tuple failed with
 prioritizeSearchListOverSelf

---
 Cheetah/Template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Template.py b/Cheetah/Template.py
index 725af54..a2985e0 100644
--- a/Cheetah/Template.py
+++ b/Cheetah/Template.py
@@ -1576,7 +1576,7 @@ class Template(Servlet):
             if searchList is not None:
                 if isinstance(compilerSettings, dict) and \
                         compilerSettings.get('prioritizeSearchListOverSelf'):
-                    self._CHEETAH__searchList = searchList + \
+                    self._CHEETAH__searchList = list(searchList) + \
                         self._CHEETAH__searchList
                 else:
                     self._CHEETAH__searchList.extend(list(searchList))
-- 
2.43.0


From f98fccf616be3d4858104d0a2669232868290dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:59 +0000
Subject: [PATCH 39/40] fix: a line end inside of an expression separates the
 words around it

---
 Cheetah/Parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index d87c894..21a4b29 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1225,9 +1225,11 @@ class _LowLevelParser(SourceReader):
                 if not eolMatch:
                     self.advance()
                     raise ParseError(self, msg='Line ending expected')
+                exprBits.append(' ')
                 self.setPos(eolMatch.end())
             elif c in '\r\n':
                 if enclosures:
+                    exprBits.append(' ')
                     self.advance()
                 else:
                     break
-- 
2.43.0


From ca45c00f45743cc90a51d56d688016e862536f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:28 +0000
Subject: [PATCH 40/40] fix: == in the default of an argument lost its first
 character

---
 Cheetah/Parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cheetah/Parser.py b/Cheetah/Parser.py
index 21a4b29..52d5e9a 100644
--- a/Cheetah/Parser.py
+++ b/Cheetah/Parser.py
@@ -1113,7 +1113,7 @@ class _LowLevelParser(SourceReader):
                 if onDefVal:
                     argList.add_default(c)
                 self.advance()
-            elif c == '=':
+            elif c == '=' and not onDefVal:
                 onDefVal = True
                 self.advance()
             elif c == ",":
-- 
2.43.0

