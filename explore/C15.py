"""run-time contract of the command line tool: the file tree after a run is
compared with the one an independent statement of the mapping gives.  Every
run is a forked process of the unprivileged user nobody inside a scratch
tree of its own."""
import json
import os
import posixpath as pp
import shutil
import sys
import tempfile

PURE = True
RULE = ('random trees of template files with colliding names, nested '
        'directories and existing destinations x command, idir, odir, '
        'extensions, flat, recursion, backup, stdout, parallel; the whole '
        'file tree is compared before and after')
QUICK_S = 40
THOROUGH_S = 400
CASE_S = 60


def setup(scratch):
    global ROOT
    import Cheetah.CheetahWrapper, Cheetah.ImportHooks, codecs  # noqa
    import Cheetah.Template
    Cheetah.Template.Template('warm $x', searchList=[{'x': 1}]).respond()
    ROOT = tempfile.mkdtemp(prefix='c15-')
    os.chmod(ROOT, 0o755)
    import atexit
    atexit.register(shutil.rmtree, ROOT, True)


def teardown():
    shutil.rmtree(ROOT, True)


NAMES = ['a', 'b', 'c', 'a1', 'out', 'outer', 'x']
DIRS = ['', '', 'sub', 'sub/deep', 'src', 'src/sub', 'out', 'outer', 'src/out',
        'other', 'sub.tmpl', 'src2', 'src2/sub', 'su', 'sub2/deep', 'ou']
EXTS = ['.tmpl', '.tmpl', '.tmpl', '', '.txt', '.tmpl.tmpl', '.html', '.tm',
        '.py', 'tmpl', '.t']
FIXED = [
    # (files, existing, args)
    (['a', 'a.tmpl'], [], ['compile', 'a', 'a.tmpl']),
    (['a', 'a.tmpl'], ['a.py'], ['fill', 'a', 'a.tmpl']),
    (['sub/a.tmpl', 'src/a.tmpl'], [], ['compile', '--odir', 'out',
                                        '@sub/a.tmpl', '@src/a.tmpl']),
    (['outer/a.tmpl'], [], ['compile', '--odir', '@out', '@outer/a.tmpl']),
    (['out.tmpl'], [], ['compile', '--odir', '@out', '@out.tmpl']),
    (['src/a.tmpl'], [], ['compile', '--odir', '@work/out',
                          '@src/a.tmpl']),
    (['src/a.tmpl', 'src/sub/a.tmpl'], ['out/a.py'],
     ['compile', '--idir', './src', '--odir', 'out', '-R']),
    (['src/a.tmpl', 'src/sub/a.tmpl'], [],
     ['compile', '--idir', 'src//', '--odir', 'out', '-R']),
    (['src/a.tmpl', 'src/sub/a.tmpl'], [],
     ['compile', '--idir', 'src', '--odir', 'out', '-R', '--flat']),
    (['a.tmpl'], ['a.html'], ['fill', '--stdout', 'a']),
    (['a.tmpl'], ['a.html'], ['fill', 'a', 'a.tmpl']),
    (['sub/a.tmpl'], [], ['compile', '-p', '--odir', 'out', 'sub/a']),
    (['a.tmpl', 'b.tmpl'], ['a.py', 'b.py'], ['compile', '--parallel', '3',
                                              'a', 'b']),
    (['a.tmpl'], ['a.py'], ['compile', '--nobackup', 'a.tmpl']),
    (['a.tmpl.tmpl', 'a.tmpl'], [], ['fill', '-R', '--oext', 'txt']),
    (['src/a.tmpl', 'a.tmpl'], [], ['fill', '--odir', 'src/out',
                                    '../w/a.tmpl', 'a']),
    (['a.xtmpl', 'b.tmpl'], [], ['fill', '--iext', 'tmpl', '-R']),
    (['a.tmpl'], ['a.html', 'a.html.bak'], ['fill', 'a.tmpl']),
    (['sub/a.tmpl', 'b.tmpl'], ['out/sub/a.py', 'out/sub/a.py.bak', 'out/b.py',
                                'out/b.py.bak'],
     ['compile', '--odir', 'out', 'sub/a.tmpl', 'b']),
    (['src/a.tmpl', 'src2/a.tmpl'], [], [
        'compile', '--idir', '@src', '--odir', '@out', 'a', '@src2/a.tmpl']),
    (['src/a.tmpl', 'src2/b.tmpl'], [], [
        'compile', '--idir', '@src', '--odir', '@out', 'a', '@src2/b.tmpl']),
    (['src/a.tmpl', 'srcb.tmpl'], [], [
        'fill', '--idir', '@src', '--odir', '@out/x', 'a', '@srcb.tmpl']),
    (['src/srcsrc/a.tmpl', 'src/src/a.tmpl'], [],
     ['fill', '--idir', 'src', '--odir', 'out', '-R']),
]


def cases(rng, tier):
    for i, (f, e, a) in enumerate(FIXED):
        yield {'kind': 'fixed', 'files': f, 'existing': e, 'args': a,
               'bad': []}
    while True:
        files = []
        few = rng.sample(NAMES, rng.randint(1, 3))
        dirs = rng.sample(DIRS, rng.randint(1, 3))
        exts = rng.sample(EXTS, rng.randint(1, 2)) + ['.tmpl']
        for _ in range(rng.randint(1, 5)):
            f = pp.join(rng.choice(dirs), rng.choice(few) + rng.choice(exts))
            if f not in files:
                files.append(f)
        cmd = rng.choice(['compile', 'fill', 'fill', 'c', 'f', '--compile'])
        args = [cmd]
        opt = rng.random
        idir = ''
        if opt() < .35:
            idir = rng.choice([d for d in dirs if d] or ['src'])
            args += ['--idir', rng.choice(['', '', '', './', '@']) + idir +
                     rng.choice(['', '', '/', '//', '/.'])]
        if opt() < .55:
            args += ['--odir', rng.choice(['', '', './', '@', '@']) +
                     rng.choice(['out', 'out', 'src', 'sub/deep', 'n/e/w',
                                 'o', 'sub/..']) +
                     rng.choice(['', '', '/', '/.'])]
        if opt() < .25:
            args += ['--iext', rng.choice(['.tmpl', 'tmpl', '.txt', '.t', '',
                                           'html', '.tmpl.tmpl'])]
        if opt() < .35:
            args += ['--oext', rng.choice(['.py', 'txt', '.html', 'x.y',
                                           '.tmplx', 'out'])]
        for o, q in (('--flat', .2), ('--nobackup', .2), ('--stdout', .1),
                     ('--quiet', .2), ('-p', .05), ('-R', .35)):
            if opt() < q:
                args.append(o)
        if opt() < .1 and '-p' not in args and '--stdout' not in args:
            args += ['--parallel', '2']
        if not ('-R' in args and opt() < .5):
            k = rng.randint(1, len(files))
            for f in rng.sample(files, k) + (
                    [rng.choice(files)] if opt() < .2 else []):
                if idir and f.startswith(idir + '/'):
                    f = f[len(idir) + 1:]
                elif opt() < (.7 if '@' in ''.join(args) else .3):
                    f = '@' + f
                if f.endswith('.tmpl') and opt() < .4:
                    f = f[:-5]
                if opt() < .15:
                    f = pp.dirname(f) or f
                elif opt() < .1:
                    f = './' + f if not f.startswith('@') else f
                elif opt() < .07:
                    f = 'missing'
                args.append(f)
        case = {'kind': 'random', 'files': files, 'args': args, 'bad': [],
                'existing': []}
        if opt() < .12:
            case['bad'] = [rng.choice(files)]
        # some destinations exist already
        try:
            plan = spec(case, '/w')
        except Skip:
            plan = None
        if plan and plan['map'] and opt() < .6:
            for s, d in plan['map'][:rng.randint(1, 3)]:
                r = pp.relpath(d, '/w')
                if not r.startswith('..') and r not in files and \
                        r not in case['existing']:
                    case['existing'].append(r)
            if opt() < .4:
                for e in list(case['existing']) or ['z.py']:
                    case['existing'].append(e + '.bak')
        yield case


class Skip(Exception):
    pass


def spec(case, w):
    """the mapping, stated independently of the code: {'map': [(src, dst)],
    'fail': reason or None}; all paths absolute"""
    args = [a.replace('@', w + '/') for a in case['args']]
    cmd, rest = args[0].lstrip('-'), args[1:]
    compiling = cmd[0] == 'c'
    o = {'--idir': '', '--odir': '', '--iext': '.tmpl',
         '--oext': '.py' if compiling else '.html', '--parallel': '1'}
    flags, paths = set(), []
    i = 0
    while i < len(rest):
        if rest[i] in o:
            o[rest[i]] = rest[i + 1]
            i += 2
            continue
        if rest[i].startswith('-'):
            flags.add(rest[i])
        else:
            paths.append(rest[i])
        i += 1

    def absn(p):
        return pp.normpath(pp.join(w, p))

    def fixed(e):
        return '.' + e if e and not e.startswith('.') else e
    iext, oext = fixed(o['--iext']), fixed(o['--oext'])
    idir = pp.normpath(o['--idir']) if o['--idir'] else ''
    odir = pp.normpath(o['--odir']) if o['--odir'] else ''
    tree = {absn(f) for f in case['files'] + case['existing']}
    isdirs = {w}
    for t in tree:
        d = pp.dirname(t)
        while len(d) > len(w):
            isdirs.add(d)
            d = pp.dirname(d)
    for d in ('n',):
        pass

    def below(spelled):
        """files below a directory, spelled like it"""
        top = absn(spelled)
        return sorted(pp.normpath(pp.join(spelled, pp.relpath(t, top)))
                      for t in tree if t.startswith(top + '/') and
                      t.endswith(iext))
    fail = None
    srcs = []
    if not paths and '-R' in flags:
        srcs = below(idir or '.') if absn(idir) in isdirs else []
    elif not paths:
        fail = 'no files'
    for f in paths:
        s = pp.join(o['--idir'], f) if o['--idir'] else f
        s0 = s
        s = pp.normpath(s)
        if absn(s) in isdirs:
            if '-R' not in flags:
                fail = 'directory'
                break
            srcs += below(s)
        elif absn(s) in tree:
            if s0.endswith('/'):
                raise Skip
            srcs.append(s)
        elif not s0.endswith(iext) and absn(s + iext) in tree:
            if absn(s + iext) in isdirs:
                raise Skip
            srcs.append(pp.normpath(s0 + iext))
    m = []
    for s in srcs:
        rel = s
        if idir and s.startswith(idir.rstrip('/') + '/'):
            rel = s[len(idir.rstrip('/')) + 1:]
        if iext and rel.endswith(iext):
            rel = rel[:len(rel) - len(iext)]
        if '--flat' in flags:
            d = pp.join(odir, rel.split('/')[-1] + oext)
        elif odir and rel.startswith('/'):
            best = rel.split('/')[-1]
            parts = [p for p in odir.split('/') if p]
            rp = [p for p in rel.split('/') if p]
            if rel.endswith('/'):
                rp.append('')
            if odir.startswith('/'):
                n = len(parts)
                while n > 0 and not (rp[:n] == parts[:n] and len(rp) > n):
                    n -= 1
                if n > 0:
                    best = '/'.join(rp[n:])
            d = pp.join(odir, best + oext)
        else:
            d = pp.join(odir, rel + oext)
        m.append((absn(s), absn(d), rel.split('/')[-1]))
    stdout = bool(flags & {'--stdout', '-p'})
    by = {}
    for s, d, b in m:
        by.setdefault(d, set()).add(s)
    coll = any(len(v) > 1 for v in by.values())
    if coll and (not stdout):
        fail = fail or 'collision'
    elif coll and '--flat' in flags:
        fail = 'maybe'
    allsrc = {s for s, d, b in m}
    for d in by:
        if d in allsrc or d + '.bak' in allsrc or d in {absn(f) for f in case['files']} or d in isdirs or \
                not d.startswith(w + '/'):
            raise Skip     # a destination that is a source or a directory
        x = pp.dirname(d)
        while len(x) > len(w):
            if x in tree or x in by or x + '' in by:
                raise Skip
            x = pp.dirname(x)
        if d + '.bak' in {absn(f) for f in case['files']} or \
                d + '.bak' in by or d + '.bak' in isdirs:
            raise Skip
    return {'map': [(s, d) for s, d, b in m], 'base': [b for s, d, b in m],
            'fail': fail, 'stdout': stdout, 'compiling': compiling,
            'backup': '--nobackup' not in flags, 'dirs': isdirs}


def text(f):
    return 'text of <%s> $(1+1)\n' % f


def rendered(f):
    return 'text of <%s> 2\n' % f


def snapshot(w):
    r = {}
    for root, dirs, files in os.walk(w):
        for d in dirs:
            r[os.path.join(root, d)] = None
        for f in files:
            with open(os.path.join(root, f)) as fh:
                r[os.path.join(root, f)] = fh.read()
    return r


def run(w, args):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        me = os.getpid()
        code, err, out = 0, '', ''
        try:
            os.close(rd)
            if os.getuid() == 0:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            import io
            import Cheetah.CheetahWrapper as CW
            os.chdir(w)
            sys.argv = ['cheetah']
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
            try:
                CW.CheetahWrapper().main(['cheetah'] + args)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else \
                    (1 if e.code else 0)
                err = str(e.code)
            except BaseException as e:
                code, err = 2, '%s: %s' % (type(e).__name__, e)
            out = sys.stdout.getvalue()
        except BaseException as e:
            code, err = 99, 'harness %r' % (e,)
        finally:
            if os.getpid() != me:
                os._exit(code & 255)
            try:
                with os.fdopen(wr, 'w') as f:
                    f.write(json.dumps([code, err, out]))
            finally:
                os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def check(case):
    w = os.path.join(ROOT, 'w')
    try:
        plan = spec(case, w)
    except Skip:
        return 'skip'
    shutil.rmtree(w, True)
    os.mkdir(w)
    try:
        for f in case['files'] + case['existing']:
            p = os.path.join(w, f)
            if os.path.isdir(p):
                return 'skip'
            try:
                os.makedirs(os.path.dirname(p), exist_ok=True)
            except (FileExistsError, NotADirectoryError):
                return 'skip'
            with open(p, 'w') as fh:
                fh.write('old ' + f if f in case['existing'] else
                         '#if\n' if f in case['bad'] else text(f))
        if os.getuid() == 0:
            for root, dirs, files in os.walk(w):
                for x in [root] + [os.path.join(root, f) for f in files]:
                    os.chown(x, 65534, 65534)
        before = snapshot(w)
        args = [a.replace('@', w + '/') for a in case['args']]
        code, err, out = run(w, args)
        if code == 99:
            raise RuntimeError(err)
        after = snapshot(w)
        return judge(case, plan, w, before, after, code, err, out)
    finally:
        shutil.rmtree(w, True)


def judge(case, plan, w, before, after, code, err, out):
    def d(p):
        return os.path.relpath(p, w)
    what = 'cheetah %s with files %r, existing %r' % (
        ' '.join(case['args']), case['files'], case['existing'])
    changed = sorted(d(p) for p in set(before) | set(after)
                     if before.get(p, 0) != after.get(p, 0))
    if plan['fail'] == 'maybe':
        return 'skip'
    if plan['fail']:
        if not code:
            return '%s: must be refused (%s; %r) but succeeded' % (
                what, plan['fail'], [(d(a), d(b)) for a, b in plan['map']])
        if changed:
            return '%s: refused (%s) but changed %r' % (
                what, plan['fail'], changed)
        return None
    badsrc = {os.path.join(w, f) for f in case['bad']}
    badsrc |= {os.path.join(w, f) for f in case['existing']} & {
        s for s, _ in plan['map']}
    import re
    mayfail = [s for (s, t), b in zip(plan['map'], plan['base'])
               if os.path.join(w, '') and s in {os.path.join(w, f) for f in
                                                case['bad']} or
               plan['compiling'] and
               not re.match('^[a-zA-Z_][a-zA-Z_0-9]*$', b)]
    if mayfail and not code:
        return '%s: succeeded though %r cannot be %s' % (
            what, d(mayfail[0]), 'processed')
    if not mayfail and code:
        return '%s: failed: %s' % (what, err)
    srcs = {os.path.join(w, f): f for f in case['files']}

    def good(s, content):
        f = srcs.get(s)
        if f is None:         # an old output that is a source here
            return content is not None and ('old ' + d(s)) in content
        if f in case['bad']:
            return False
        if plan['compiling']:
            return content is not None and ('text of <%s> ' % f) in content \
                and "'src': " not in content[:0] and 'import' in content
        return content == rendered(f)
    if plan['stdout']:
        if changed:
            return '%s: output goes to stdout but files changed: %r' % (
                what, changed)
        if not code:
            pos = 0
            for s, _ in plan['map']:
                f = srcs.get(s)
                if f is None:
                    continue
                mark = ('text of <%s> ' % f) if plan['compiling'] else \
                    rendered(f)
                if mark not in out:
                    return '%s: output of %s is missing on stdout' % (what, f)
        return None
    expect = dict(before)
    done = set()
    for s, t in plan['map']:
        if t in done:
            continue
        done.add(t)
        new = after.get(t, 0)
        if new == before.get(t, 0) or (not good(s, new)):
            ok = code and new == before.get(t, 0)
            if not ok:
                return ('%s: %s must become the output of %s but is %r' %
                        (what, d(t), d(s), (new or '')[-200:] if new != 0
                         else 'absent'))
            # not processed; the backup may be as before only
            if s in mayfail and after.get(t + '.bak', 0) != \
                    before.get(t + '.bak', 0):
                return '%s: %s failed but %s changed' % (what, d(s),
                                                         d(t) + '.bak')
        else:
            expect[t] = new
            x = os.path.dirname(t)
            while len(x) > len(w):
                if x not in before:
                    expect[x] = None
                    if plan['compiling']:
                        expect.setdefault(os.path.join(x, '__init__.py'), '')
                x = os.path.dirname(x)
            if plan['backup'] and before.get(t) is not None:
                expect[t + '.bak'] = before[t]
                if after.get(t + '.bak') != before[t]:
                    return '%s: backup of %s is %r, not its old content' % (
                        what, d(t), after.get(t + '.bak'))
    for p in set(after) | set(expect):
        if after.get(p, 0) != expect.get(p, 0):
            if code and p not in before and expect.get(p, 0) == 0 and \
                    after[p] in (None, ''):
                continue
            return '%s: %s %s' % (
                what, d(p), 'is touched' if p in before else
                'is created' if p in after else 'is not created')
    return None
