"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [
                  {'name': a, 'where': b} for a, b in mech],
                  'observe_at': observe or [], 'hook_needed': None}})


p('C01', 'Name lookup uses the first namespace that has the first component',
  "A dotted placeholder name is resolved in the first namespace, in the documented order (the caller's local variables, then the search list in order, then the module's globals, then the builtins), that has the name's first component, and every later component is looked up in the object reached so far; at each step a mapping key takes precedence over an attribute of the same name. The lookup fails with the lookup error exactly when no namespace has the first component or some later component exists neither as key nor as attribute, and it never falls back to a later namespace after the first component has been found. An exception raised by user objects during the lookup reaches the caller unchanged.",
  ['inputs', 'configurations'],
  'for every dotted name, every object graph of mappings, instances and callables, every search list and every set of frame variables',
  'The tests sample a few dozen fixed names over one fixed namespace; the guarantee is over every search list, name and object graph, including shadowing, empty namespaces, falsy values and keys that collide with attributes.',
  ['Cheetah/NameMapper.py', 'Cheetah/c/_namemapper.c', 'Cheetah/Template.py'],
  [('dotted lookup', 'Cheetah/NameMapper.py:_valueForName'), ('search list cascade', 'Cheetah/NameMapper.py:valueFromSearchList, valueFromFrameOrSearchList, _namespaces'), ('C twin', 'Cheetah/c/_namemapper.c:PyNamemapper_valueForName, valueFromFrameOrSearchList'), ('search list construction', 'Cheetah/Template.py:Template.__init__')],
  ['rendered output', 'lookup functions of the name mapper'])
p('C02', 'Autocalling calls functions and methods once, and never anything else',
  "When autocalling is on, each component of a dotted placeholder that resolves to a function, method or builtin is called exactly once with no arguments and the lookup continues with its result; classes, and instances even when they are callable, are never called. When autocalling is off for a lookup, or a component is followed by an explicit call in the template, the lookup itself calls nothing. An exception raised by an autocalled function propagates.",
  ['inputs', 'configurations'],
  'for every value a component can resolve to, every position in the name, and both autocall settings',
  'The tests check a handful of callables at a few positions and look at output only; number of calls, arguments and every kind of callable at every position are not covered.',
  ['Cheetah/NameMapper.py', 'Cheetah/c/_namemapper.c', 'Cheetah/Compiler.py'],
  [('autocall decision', 'Cheetah/NameMapper.py:_isInstanceOrClass, _valueForName'), ('C twin', 'Cheetah/c/_namemapper.c:isInstanceOrClass'), ('which chunks autocall', 'Cheetah/Compiler.py:genNameMapperVar')],
  ['rendered output', 'call counters in user objects'])
p('C03', 'The C name mapper agrees with the Python one and is memory-safe',
  "For every object whose item access, if it has any, is that of a Mapping (with `in` and item access in agreement), every dotted name of at most fourteen non-empty components, search list and autocall setting, the compiled name mapper returns the same value, raises the same kind of error and calls the same user functions as the pure Python implementation. It never reads or writes outside its buffers, whatever the name, and leaves every reference count balanced on success and on every error path.",
  ['inputs'],
  'for every name string, object graph and search list, including failing lookups and raising user code',
  'The test suite runs with only one implementation at a time and cannot observe leaked references or out-of-bounds accesses.',
  ['Cheetah/c/_namemapper.c', 'Cheetah/c/_namemapper.h', 'Cheetah/NameMapper.py'],
  [('name splitting', 'Cheetah/c/_namemapper.c:getNameChunks'), ('dotted lookup', 'Cheetah/c/_namemapper.c:PyNamemapper_valueForName'), ('cascade', 'Cheetah/c/_namemapper.c:namemapper_valueFromFrameOrSearchList, namemapper_valueFromFrame, namemapper_valueFromSearchList')],
  ['functions of the compiled module', 'sys.getrefcount'])
p('C04', 'Literal template text is rendered exactly',
  "Template text that contains no placeholder, directive or comment is rendered character for character, whatever characters it contains (quotes, backslashes, newlines of any style, control characters, non-ASCII text), wherever it stands between placeholders and directives. A backslash-escaped placeholder or directive start is rendered as the start token without the backslash. How the text is split into pieces in the generated module, or whether it is emitted as string or as triple-quoted block, never changes the output.",
  ['inputs'],
  'for every source text and every position of literal text in a template',
  'The tests use a fixed set of short texts; mistakes in quoting depend on particular combinations of quotes, backslashes and newlines and on how pieces are joined.',
  ['Cheetah/Parser.py', 'Cheetah/Compiler.py', 'Cheetah/DummyTransaction.py'],
  [('text scanning', 'Cheetah/Parser.py:eatPlainText, _unescapeCheetahVars, _unescapeDirectives'), ('constant emission', 'Cheetah/Compiler.py:addStrConst, commitStrConst, addWriteChunk'), ('output buffer', 'Cheetah/DummyTransaction.py')],
  ['rendered output'])
p('C05', 'Reported source positions are exact',
  "For every source text and every position in it, from its start to its end, the reported row and column describe that position: rows are counted by the line ends LF, CR and CRLF only, columns within the row (both from one), different positions never share a row and column, and the text reported for a row is exactly that row of the source. A syntax error can therefore always be formatted into a report, and the report of an error found by Cheetah's parser names the line and column of the place where parsing failed.",
  ['inputs'],
  'for every source text (any mixture of line ends, any characters) and every position from the start to the end of the text',
  'Tests only assert that an error is raised; they do not compare positions, and never use CRLF, CR or other exotic separators for error reports.',
  ['Cheetah/SourceReader.py', 'Cheetah/Parser.py'],
  [('beginning/end of line arrays', 'Cheetah/SourceReader.py:SourceReader.__init__, lineNum'), ('row/column', 'Cheetah/SourceReader.py:getRowCol, getRowColLine, splitlines'), ('report', 'Cheetah/Parser.py:ParseError.report')],
  ['error report text', 'positions in generated comments'])
p('C06', 'Unbalanced or misnested directives are always rejected',
  "A template compiles only if every block directive is closed by its own end directive, in properly nested order, before the template ends; an end directive without a matching open one, a mismatched one, a misplaced continuation of a conditional or try block, or a block left open at the end of the source is reported as a syntax error. A continuation is misplaced unless it stands directly inside the directive it continues (or, in the single-line form, directly follows the single-line directive it continues). Well-nested templates whose blocks have content are never rejected for nesting, in any combination of block directives and at any depth Python itself allows. (Raw text, which runs to its end directive or the end of the source, is not a block in this sense; nor is the error catcher, which its end directive merely switches off.)",
  ['inputs', 'programs'],
  'for every sequence of opening and closing directives, of any length and depth',
  'The tests contain one or two wrong nestings per directive; acceptance or rejection for all sequences and depths is not explored.',
  ['Cheetah/Parser.py'],
  [('open directive stack', 'Cheetah/Parser.py:pushToOpenDirectivesStack, popFromOpenDirectivesStack, assertEmptyOpenDirectivesStack'), ('block directives', 'Cheetah/Parser.py:eatEndDirective, eatCallMacro, eatMacroCall, _eatToThisEndDirective')],
  ['compile result'])
p('C07', 'Capturing and filtering regions nest and restore the output state',
  "Capture, call, cache, filter, block and method-definition regions can be nested in each other in any order and depth: the text produced inside a region goes to that region (captured variable, call argument, cache entry, method result) and nowhere else, and after the region ends, output and the active filter are exactly what they were before it, so that text following the region is rendered as if the region had not been there, with or without a transaction set. Closures and nested definitions write where they are called, and may contain regions of their own. A capture yields exactly the text its body would have written.",
  ['inputs', 'programs'],
  'for every nesting of these regions, of any depth, with arbitrary bodies',
  'Tests render single regions and very few nestings; restoration after nested regions depends on combinations the tests do not enumerate.',
  ['Cheetah/Compiler.py', 'Cheetah/Template.py', 'Cheetah/DummyTransaction.py'],
  [('capture regions', 'Cheetah/Compiler.py:startCaptureRegion, endCaptureRegion'), ('call regions', 'Cheetah/Compiler.py:startCallRegion, setCallArg, endCallRegion'), ('cache regions', 'Cheetah/Compiler.py:startCacheRegion, endCacheRegion'), ('filters', 'Cheetah/Compiler.py:setFilter, closeFilterBlock'), ('methods', 'Cheetah/Compiler.py:_addAutoSetupCode, _addAutoCleanupCode')],
  ['rendered output'])
p('C08', 'Output filters transform every value exactly as documented',
  "The default filter renders no value (None) as empty text and any other value as its text unchanged; the web-safe filter leaves no unescaped ampersand or angle bracket and escapes nothing else beyond the characters asked for, the length filter never emits more than the limit, the strip filters only remove or squeeze white space as documented. HTML encoding and decoding are inverse on every text, and encoding with the web-safe filter loses no character.",
  ['inputs'],
  'for every value and every text, of any length and over all of Unicode',
  'The tests feed each filter one or two short strings.',
  ['Cheetah/Filters.py', 'Cheetah/Utils/htmlEncode.py', 'Cheetah/Utils/htmlDecode.py'],
  [('filters', 'Cheetah/Filters.py:Filter.filter, WebSafe.filter, MaxLen.filter, Strip.filter, StripSqueeze.filter'), ('codecs', 'Cheetah/Utils/htmlEncode.py, Cheetah/Utils/htmlDecode.py')],
  ['rendered output'])
p('C09', 'A cached region is re-rendered exactly when it has expired',
  "A cached region or placeholder is evaluated when it has no stored output, when its refresh time has passed or when it was explicitly refreshed, and at no other time; otherwise the stored output is written unchanged. Different regions, different values of the vary-by expression and different templates never see each other's stored output, and refreshing or clearing one region leaves the others' contents and expiry alone. Refreshing a region that has never been rendered is harmless.",
  ['inputs', 'histories'],
  'for every sequence of renderings, refreshes and clearings at any times, any set of regions and any vary-by values',
  'The tests cover a few fixed sleeps; histories over several regions, vary-by values and boundary times are not covered.',
  ['Cheetah/CacheRegion.py', 'Cheetah/Template.py', 'Cheetah/Compiler.py'],
  [('cache item', 'Cheetah/CacheRegion.py:CacheItem'), ('cache region', 'Cheetah/CacheRegion.py:CacheRegion'), ('template side', 'Cheetah/Template.py:getCacheRegion, refreshCache'), ('emitted test', 'Cheetah/Compiler.py:startCacheRegion')],
  ['rendered output'])
p('C10', 'The cache store honours set, add, replace, delete and expiry',
  "The in-memory cache store behaves as a map with expiry: set always stores, add stores only when the key is absent, replace only when it is present, and otherwise each reports an error and changes nothing. Reading a key returns the value stored last unless it was deleted or its expiry time has passed, in which case it is reported as missing (by an error or by no value); no operation on one key affects another.",
  ['inputs', 'histories'],
  'for every sequence of operations, keys, values and times',
  'The store has almost no tests of its own; histories with expiry and re-insertion are not sampled.',
  ['Cheetah/CacheStore.py'],
  [('memory store', 'Cheetah/CacheStore.py:MemoryCacheStore'), ('memcached adapter', 'Cheetah/CacheStore.py:MemcachedCacheStore')],
  ['store methods'])
p('C11', 'Settings merge deeply and never leak between compilers or callers',
  "Updating settings overrides exactly the given keys, merging nested dictionaries key by key and leaving every other setting as it was. Compiling with given settings never changes the caller's settings objects, the class-wide defaults or the settings of any other compilation, so a later compilation without those settings behaves as if the earlier one had not happened.",
  ['inputs', 'configurations', 'histories'],
  'for every settings dictionary (nested to any depth) and every order of compilations',
  'Tests pass fixed settings to isolated compilations and do not check that inputs and defaults are unchanged afterwards.',
  ['Cheetah/SettingsManager.py', 'Cheetah/Compiler.py', 'Cheetah/Parser.py', 'Cheetah/Template.py'],
  [('merge', 'Cheetah/SettingsManager.py:mergeNestedDictionaries'), ('per-instance settings', 'Cheetah/SettingsManager.py:_SettingsCollector, SettingsManager'), ('compiler settings', 'Cheetah/Compiler.py:_initializeSettings, Cheetah/Template.py:compile')],
  ['settings objects', 'rendered output'])
p('C12', 'The compilation cache is transparent',
  "Compiling a source with caching enabled gives a template class that behaves exactly like one compiled afresh with the same source and options: two compilations share a cached result only if source and every option that influences the generated class (names, base class, main method, settings, module globals) are equal. A different source or option never returns a class compiled for another one. (A source file is identified by its path and modification time.)",
  ['inputs', 'configurations', 'histories'],
  'for every pair of compile requests in one process, in either order',
  'Tests never compile twice with options chosen so that a cached result would be wrong.',
  ['Cheetah/Template.py'],
  [('cache key', 'Cheetah/Template.py:Template.compile, hashList, hashDict')],
  ['compiled class', 'rendered output'])
p('C13', 'Placeholder expressions evaluate as the equivalent Python expression',
  "A placeholder made of names, attribute accesses, calls, subscripts and arguments evaluates to what the corresponding Python expression gives when its first name is looked up in the namespaces, with every argument, default, operator and nested placeholder taken over unchanged and in order, whatever placeholder form (plain, braced with any bracket, silent, cached) is used. Assignments target the local, global or module variable named, including dotted and subscripted targets, and values are passed through the active filter exactly once on output. (In its plain form a placeholder ends after the arguments of a call unless a period and a name follow; the silent form exists for placeholders that start with a name; a name inside of an assignment target, and a bare name, is a Python name; names used inside of a lambda are looked up in the lambda's own frame and the namespaces.)",
  ['inputs', 'programs'],
  'for every placeholder expression and assignment target over any data',
  'The tests contain a fixed list of expressions; combinations of calls, subscripts, nested placeholders and placeholder forms are not enumerated.',
  ['Cheetah/Compiler.py', 'Cheetah/Parser.py'],
  [('name chunks', 'Cheetah/Compiler.py:genCheetahVar, genNameMapperVar, genPlainVar'), ('expression parsing', 'Cheetah/Parser.py:getExpression, getCheetahVarBody, getCheetahVarNameChunks, getCallArgString'), ('assignment', 'Cheetah/Compiler.py:addSet')],
  ['rendered output'])
p('C14', 'Disabled directives and restricted expressions are always rejected',
  "When a compilation disables directives, or enables only some, no template using a directive that is not allowed compiles, whatever its spelling variant, position or nesting, and allowed directives are not affected. When expression or directive hooks are installed, every expression and directive of the template passes through them (an expression as its source text or as its translation) before it can reach the generated code. (The letter case of names in the settings is irrelevant; 'end' counts as a directive of its own; a template that is allowed to change the settings itself, by #compiler, #compiler-settings or #defmacro, and a template included at run time, are judged by the settings in force then.)",
  ['inputs', 'configurations', 'programs'],
  'for every directive, every set of allowed or disabled directives and every template using it',
  'The tests disable one or two directives; the guarantee is over all directives and all ways to write them.',
  ['Cheetah/Parser.py', 'Cheetah/Compiler.py'],
  [('directive gate', 'Cheetah/Parser.py:matchDirective, eatDirective, _filterDisabledDirectives'), ('expression filter hooks', 'Cheetah/Parser.py:_applyExpressionFilters')],
  ['compile result'])
p('C15', 'Command-line file mapping never mixes up or loses files',
  "For every set of template files given to the command line tool, each source is compiled or rendered to its own destination: the source's path (relative to the input directory, when it lies below one) with the source extension replaced by the destination extension, placed below the output directory when one is given, mirroring the source's directory unless flat output is asked for. (An absolute source path outside the input directory is mirrored, when an output directory is given, relative to the nearest directory above or at the output directory, the root excepted, that contains it, and by its base name alone when there is none.) Two different sources never map to the same destination file (the run is refused instead, before anything is written), an existing destination is backed up before it is replaced unless backups are off, a source that fails leaves its destination alone, and no other file is touched; with output to standard output, no file at all.",
  ['inputs', 'configurations'],
  'for every set of source paths, extensions, input and output directories and option combinations',
  'The tests cover a fixed list of layouts; collisions and odd extensions are hardly sampled.',
  ['Cheetah/CheetahWrapper.py', 'Cheetah/convertTmplPathToModuleName.py'],
  [('bundles', 'Cheetah/CheetahWrapper.py:_getBundles, _fixExts, _checkForCollisions'), ('backup', 'Cheetah/CheetahWrapper.py:backup, _compileOrFillBundle'), ('module name', 'Cheetah/convertTmplPathToModuleName.py')],
  ['files on disk'])
p('C16', 'A failed compilation leaves no trace in the process',
  "A compilation that fails (syntax error, bad option, missing file, error in the generated code) raises, and leaves the process as it was: no module registered, no cache entry made, no lock held, no changed class-wide default. Templates compiled afterwards, including another attempt at the same source, behave as if the failed one had never been tried.",
  ['inputs', 'fault_sequences', 'histories'],
  'for every kind of failure at every point of a compilation, followed by any further compilations',
  'Tests check that errors are raised, not what is left behind after them.',
  ['Cheetah/Template.py', 'Cheetah/Compiler.py', 'Cheetah/DummyTransaction.py'],
  [('compile lock and module registration', 'Cheetah/Template.py:Template.compile'), ('module code', 'Cheetah/Compiler.py:ModuleCompiler.__init__, compile')],
  ['sys.modules', 'locks', 'later rendered output'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
