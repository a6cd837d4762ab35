"""C03: the C name mapper under CBMC code contracts."""
import json
import os
import re
import resource
import subprocess
import time

from contracts import cloops

HERE = os.path.dirname(os.path.abspath(__file__))
CDIR = os.path.join(HERE, 'c')
INC = '/usr/include/python3.12'

LEAVES = 'setNotFoundException wrapInternalNotFoundException'.split()
CALLEES = ['setNotFoundException', 'wrapInternalNotFoundException',
           'isInstanceOrClass', 'hasAttr', 'PyNamemapper_hasKey',
           'PyNamemapper_valueForKey', 'PyNamemapper_valueForName',
           'getNameChunks']
ENTRY = ['namemapper_valueForKey', 'namemapper_valueForName',
         'namemapper_valueFromSearchList', 'namemapper_valueFromFrame',
         'namemapper_valueFromFrameOrSearchList']
# loops of the code that carry a contract, per function under proof
USES = {
    'getNameChunks': {'getNameChunks'},
    'macro': {'createNameCopyAndChunks'},
    'namemapper_valueFromSearchList': {'namemapper_valueFromSearchList'},
    'namemapper_valueFromFrameOrSearchList': {
        'namemapper_valueFromFrameOrSearchList'},
}
# a failed check of one of these is not a statement about the code
TOOL = ('SCHEME', 'unwinding assertion', 'undefined function', 'no body',
        'recursion', 'loop_invariant', 'loop_assigns', 'loop_decreases',
        'loop_step', 'Check that', 'invariant', 'decreases',
        'assigns')


# checked with the contract at the call: the loop is unwound completely
# (MAXCHUNKS is a constant; unwinding assertions are obligations)
PLAIN = {'PyNamemapper_valueForName': ['isInstanceOrClass',
                                       'setNotFoundException']}


STUBS = ['setNotFoundException', 'wrapInternalNotFoundException',
         'getNameChunks', 'PyNamemapper_hasKey', 'PyNamemapper_valueForName',
         'PyNamemapper_valueForKey']


class CError(Exception):
    pass


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))


def _run(cmd, cwd, timeout):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                           errors='replace', timeout=timeout,
                           stdin=subprocess.DEVNULL,
                           preexec_fn=_limit)
    except subprocess.TimeoutExpired:
        raise CError('%s: out of time (%d s)' % (cmd[0], timeout))
    return p


def _listed(cwd, gb):
    """functions called by the code without a body"""
    p = _run(['goto-instrument', '--list-undefined-functions', gb], cwd, 60)
    return set(x.strip() for x in p.stdout.split('\n')
               if re.match(r'^\s*[A-Za-z_]\w*\s*$', x))


def prove(scratch, func, bounded, timeout):
    """dict with obligations of one function"""
    work = os.path.join(scratch, 'c_%s%s' % (func, '_b' if bounded else ''))
    os.makedirs(work, exist_ok=True)
    src = os.path.join(scratch, 'Cheetah', 'c')
    loops = []
    for f in sorted(os.listdir(src)):
        if not f.endswith(('.c', '.h')):
            continue
        with open(os.path.join(src, f)) as fp:
            text = fp.read()
        if not bounded:
            text, done, missing = cloops.annotate(text, f)
            bad = set(missing) & USES.get(func, set())
            if bad:
                raise CError('loop without place for its contract: %s'
                             % ', '.join(sorted(bad)))
            loops += [d for d in done if d in USES.get(func, set())]
        with open(os.path.join(work, f), 'w') as fp:
            fp.write(text)
    with open(os.path.join(src, '_namemapper.c')) as fp:
        whole = cloops.blank(fp.read())
    if func != 'macro' and not re.search(r'\b%s\s*\(' % func, whole):
        raise CError('no such function: ' + func)
    present = [c for c in CALLEES if re.search(r'\b%s\s*\(' % c, whole)]
    rep = [c for c in present if c != func]
    if func in LEAVES + ['isInstanceOrClass', 'getNameChunks', 'hasAttr']:
        rep = [c for c in rep if c in LEAVES]
    cmd = ['goto-cc', '-I' + INC, '-I' + work, '-I' + CDIR,
           '-DMAXNAME=' + ('0x100000' if not bounded else
                          '16' if func == 'getNameChunks' else '7'),
           '-DSOURCE="%s"' % os.path.join(work, '_namemapper.c')]
    if bounded:
        cmd.append('-DBOUNDED')
    plain = func in PLAIN or (bounded and func == 'getNameChunks')
    if func in ENTRY and func != 'namemapper_valueForKey':
        with open(os.path.join(src, '_namemapper.h')) as fp:
            if not re.search(r'#define\s+createNameCopyAndChunks\(\)',
                             fp.read()):
                raise CError('no macro createNameCopyAndChunks')
        cmd.append('-DMACRO_CONTRACT')
    if plain:
        cmd.append('-DPLAIN')
    cmd += ['--function', 'h_' + func, '-o', 'a.gb',
            os.path.join(CDIR, 'harness.c')]
    p = _run(cmd, work, 60)
    if p.returncode:
        raise CError('does not compile with the contracts: '
                     + (p.stderr or p.stdout)[-800:])
    und = _listed(work, 'a.gb')
    und = [u for u in und if re.match(r'_?Py', u)
           and u not in ('PyModule_Create2', 'PyModule_GetDict',
                         'PyErr_NewException', 'PyDict_SetItemString',
                         'PyImport_ImportModule', 'Py_FatalError',
                         '_Py_FatalErrorFunc', '_Py_NegativeRefcount')]
    if plain or func in ENTRY or func == 'macro':
        if func != 'PyNamemapper_valueForName':
            rep = [r for r in rep if r in STUBS]
        else:
            rep = [r for r in rep if r in PLAIN[func]]
        if func == 'getNameChunks':
            rep = []
        cmd = ['goto-instrument']
        for r in rep:
            cmd += ['--replace-calls', '%s:c_%s' % (r, r)]
        p = _run(cmd + ['a.gb', 'a1.gb'], work, 120)
        if p.returncode:
            raise CError('goto-instrument: ' + (p.stderr + p.stdout)[-800:])
    else:
        os.link(os.path.join(work, 'a.gb'), os.path.join(work, 'a1.gb'))
    cmd = ['goto-instrument']
    if func == 'macro':
        if loops:
            cmd += ['--dfcc', 'h_' + func]
    elif not plain:
        cmd += ['--dfcc', 'h_' + func, '--enforce-contract', func]
        if func not in ENTRY:
            for r in rep:
                cmd += ['--replace-call-with-contract', r]
    if loops:
        cmd += ['--apply-loop-contracts']
    cmd += ['a1.gb', 'b.gb']
    p = _run(cmd, work, 120)
    if p.returncode:
        raise CError('goto-instrument: ' + (p.stderr + p.stdout)[-800:])
    cmd = ['cbmc', '--object-bits', '12', '--function', 'h_' + func,
           '--unwind', '20',
           '--json-ui', '--trace', 'b.gb']
    t0 = time.time()
    p = _run(cmd, work, timeout)
    wall = time.time() - t0
    try:
        out = json.loads(p.stdout)
    except ValueError:
        raise CError('cbmc: ' + (p.stdout + p.stderr)[-600:])
    res = None
    msgs = []
    for o in out:
        if 'result' in o:
            res = o['result']
        if o.get('messageType') in ('ERROR', 'WARNING'):
            msgs.append(o.get('messageText', ''))
    if res is None:
        raise CError('cbmc gives no result: ' + '; '.join(msgs)[-600:])
    return {'res': res, 'wall': wall, 'loops': loops, 'undefined': und,
            'replaced': rep}


def is_tool(r):
    d = r.get('description', '')
    n = r.get('property', '')
    if d.startswith('OB ') or 'writable up to size' in d:
        return False
    if 'postcondition' in n or 'precondition' in n and 'contract' in d:
        return False
    if d.startswith(('dereference failure', 'array ', 'pointer ', 'free ',
                     'double free', 'memory')) or 'bounds' in d:
        return False
    return True


def trace_text(r):
    """the assignments of the counterexample, shortened"""
    out = []
    for s in r.get('trace', []):
        if s.get('stepType') in ('function-call',):
            f = s.get('function', {}).get('displayName', '')
            if f and not f.startswith('__CPROVER') and f != 'use':
                out.append('call ' + f)
        elif s.get('stepType') == 'assignment':
            n = s.get('lhs', '')
            if re.match(r'^(T\.ob_refcnt|g_err|return_value_nondet|i|G_step|'
                        r'numChunks|currentVal|nextVal|theValue)\b', n):
                out.append('%s=%s' % (n, s.get('value', {}).get('data')))
        elif s.get('stepType') == 'failure':
            out.append('FAILS: ' + s.get('reason', ''))
    return ' '.join(out[-120:])


class CUnit:
    tier = 'quick'
    scratch = None

    def __init__(self, func):
        self.func = func
        self.name = 'Cheetah/c/_namemapper.c:' + func if func != 'macro' \
            else 'Cheetah/c/_namemapper.h:createNameCopyAndChunks'
        self.target = self.name

    def verify(self, index):
        t0 = time.time()
        d = {'name': self.name, 'target': self.target, 'status': 'unreached',
             'why': '', 'obligations': 0, 'discharged': 0, 'instances': 0,
             'refuted': [], 'unproved': [], 'names': [], 'backends': {},
             'paths': 0, 'wall_s': 0, 'used_contracts': [], 'inlined': [],
             'assumptions': ['contracts/c/api.h: contracts of the CPython '
                             'API'], }
        limit = 220 if self.tier == 'quick' else 1500
        r = None
        bounded = False
        first = None
        try:
            if self.func == 'getNameChunks':
                first = prove(self.scratch, self.func, True, 150)
                if [x for x in first['res'] if x['status'] == 'FAILURE'
                        and not is_tool(x)]:
                    raise CError('a counterexample within the bound')
            r = prove(self.scratch, self.func, False, limit)
        except CError as e:
            d['why'] = str(e)
        if r is None or [x for x in r['res'] if x['status'] != 'SUCCESS'
                         and is_tool(x)]:
            if r is not None:
                d['why'] = 'loop contracts do not fit: ' + '; '.join(
                    x['description'] for x in r['res']
                    if x['status'] != 'SUCCESS' and is_tool(x))[:500]
            if self.func in USES:
                try:
                    r = first or prove(self.scratch, self.func, True, 150)
                    bounded = True
                except CError as e:
                    r = None
                    d['why'] += ' | bounded: ' + str(e)
        d['wall_s'] = round(time.time() - t0, 2)
        if r is None:
            return d
        if r['undefined']:
            d['why'] = 'API without contract: ' + ', '.join(r['undefined'])
            return d
        fails = [x for x in r['res'] if x['status'] != 'SUCCESS']
        real = [x for x in fails if not is_tool(x)
                and x['status'] == 'FAILURE']
        block = [x for x in fails if is_tool(x) and x['status'] == 'FAILURE'
                 and not bounded]
        block += [x for x in fails if x['description'].startswith('SCHEME')
                  and x['status'] == 'FAILURE']
        d['obligations'] = len(r['res'])
        d['instances'] = len(r['res'])
        d['discharged'] = len(r['res']) - len(fails)
        d['backends'] = {'cbmc': d['discharged']}
        d['used_contracts'] = r['replaced']
        d['names'] = sorted(set(x['description'] for x in r['res']
                                if x['description'].startswith('OB ')
                                or 'ensures' in x['description']))
        if real and not block:
            d['status'] = 'refuted'
            d['refuted'] = [{'obligation': '%s: %s' % (x['property'],
                                                       x['description']),
                             'model': trace_text(x)} for x in real[:5]]
        elif fails:
            d['status'] = 'unproved'
            d['unproved'] = [x['description'] for x in fails][:10]
        else:
            d['status'] = 'bounded' if bounded else 'proved'
            if bounded:
                d['why'] = ('names of at most 6 characters, search lists of '
                            'at most 4 namespaces; ' + d['why'])
        return d


UNITS = [CUnit(f) for f in CALLEES + ['macro'] + ENTRY]
