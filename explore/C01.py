"""run-time contract of the name lookup: Python twin, C twin, rendered
templates, against the reference lookup of graph.py"""
import sys
import types

PURE = None
RULE = ('random object graphs (mappings, instances, classes, callables, '
        'raising properties) as locals / search list / globals, dotted names '
        'of 1-5 components that mostly exist; non-trivial: a distinct case')
QUICK_S = 25
THOROUGH_S = 240
RISKY = True


def setup(scratch):
    global PYM, CM, Template, g
    import importlib
    from explore import graph as g_
    g = g_
    sys._cheetah_namemapper_pure = True
    import Cheetah.NameMapper as m
    PYM = m
    try:
        import Cheetah._namemapper as c
        CM = c
    except ImportError:
        CM = None
    from Cheetah.Template import Template as T
    Template = T


def cases(rng, tier):
    from explore import graph as g
    fixed = [
        # shadowing: found first component, later one missing -> no fallback
        {'kind': 'search', 'spaces': [
            {'t': 'dict', 'items': {'a': {'t': 'dict', 'items': {}}}},
            {'t': 'dict', 'items': {'a': {'t': 'dict', 'items': {
                'b': {'t': 'val', 'v': 1}}}}}], 'name': ['a', 'b'],
         'ex': True},
        {'kind': 'search', 'spaces': [
            {'t': 'dict', 'items': {'a': {'t': 'none'}}},
            {'t': 'dict', 'items': {'a': {'t': 'val', 'v': 1}}}],
         'name': ['a'], 'ex': True},
    ]
    for c in fixed:
        yield c
    n = 0
    while True:
        n += 1
        nsp = rng.choice([1, 1, 2, 3, 4])
        spaces = [g.rand_node(rng, rng.randint(1, 4)) for _ in range(nsp)]
        # make sure the spaces are containers
        spaces = [s if s['t'] in ('dict', 'inst', 'dictsub', 'mapinst',
                                  'falsy', 'emptylooking', 'class',
                                  'callinst', 'prop')
                  else {'t': 'dict', 'items': {rng.choice(g.NAMES): s}}
                  for s in spaces]
        if rng.random() < .25 and nsp > 1:
            spaces[rng.randrange(nsp)] = {'t': 'dict', 'items': {}}
        name = g.rand_name(rng, rng.choice(spaces))
        kind = rng.choice(['search', 'search', 'frame', 'name', 'tmpl',
                           'key', 'hasname'])
        if n % 7 == 0:
            yield {'kind': 'order', 'has': ''.join(
                k for k in 'LGS123MB' if rng.random() < .45),
                'lack': ''.join(k for k in 'LGS123MB' if rng.random() < .1),
                'frames': rng.random() < .6, 'prio': rng.random() < .4,
                'form': rng.choice(['list', 'tuple', 'single', 'namespaces']),
                'call': rng.random() < .3}
        yield {'kind': kind, 'spaces': spaces, 'name': name,
               'ex': rng.random() < .7, 'loc': rng.random() < .5,
               'sl': rng.choice([None, None, None, 'tuple', 'lazy', 'fail0',
                                 'fail1', 'fail2'])}


def outcome(f):
    try:
        return ('ok', f())
    except g.Missing as e:
        return ('missing', e.comp)
    except Exception as e:
        if type(e).__name__ == 'NotFound':
            return ('missing', str(e))
        return ('exc', type(e).__name__, str(e))


def norm(o):
    """identity-free comparison value of a result"""
    if o[0] != 'ok':
        return o
    return o


def same(ref, got):
    if ref[0] != got[0]:
        return False
    if ref[0] == 'ok':
        a, b = ref[1], got[1]
        return a is b or (type(a) is type(b) and isinstance(
            a, (str, int, float)) and a == b) or (
            type(a) is type(b) and repr(a) == repr(b))
    if ref[0] == 'missing':
        return "'%s'" % ref[1] in got[1]
    return ref[1:] == got[1:]


class Tagged(object):
    def __init__(self, tag, lack):
        if not lack:
            self.v = 'from ' + tag

    def f(self):
        return self


def check_order(case):
    """one name held by any of the namespaces of a template"""
    import builtins
    from Cheetah.Template import Template
    has, form = case['has'], case['form']
    if form == 'single':
        has = ''.join(k for k in has if k not in '23')
    objs = {k: Tagged(k, k in case['lack']) for k in has}
    sl = [{'zz': 1}]
    for k in '123':
        sl.append({'nm': objs[k]} if k in has else {'other': 2})
    if form == 'single':
        sl = sl[1:2]
    cs = {'useStackFrames': case['frames']}
    if case['prio']:
        cs['prioritizeSearchListOverSelf'] = True
    src = ('#set $nm = self.mk("L")\n' if 'L' in has else '') + \
        ('#set global $nm = self.mk("G")\n' if 'G' in has else '') + \
        ('[$nm.f.f.v]' if case['call'] else '[$nm.v]')
    order = 'L' + ('123GS' if case['prio'] else 'GS123') + 'MB'
    key = (src, case['frames'], case['prio'])
    mg = {'nm': objs['M']} if 'M' in has else {}
    cls = Template.compile(src, compilerSettings=cs, moduleGlobals=mg,
                           cacheCompilationResults=False, useCache=False)
    kw = {'namespaces' if form == 'namespaces' else 'searchList':
          tuple(sl) if form == 'tuple' else sl[0] if form == 'single'
          else sl}
    given = list(sl)
    try:
        if 'B' in has:
            builtins.nm = objs['B']
        inst = cls(compilerSettings=cs, **kw)
        inst.mk = objs.get
        if 'S' in has:
            inst.nm = objs['S']
        try:
            got = inst.respond()
        except PYM.NotFound as e:
            got = 'missing'
        except CM.NotFound if CM else PYM.NotFound as e:
            got = 'missing'
    finally:
        if 'B' in has:
            del builtins.nm
    first = [k for k in order if k in has][:1]
    want = 'missing' if not first or first[0] in case['lack'] else \
        '[from %s]' % first[0]
    if got != want:
        return 'name held by %r of %r (those in %r lack the second ' \
            'component): renders %r, expected %r' % (
                has, order, case['lack'], got, want)
    if given != sl:
        return 'the search list of the caller was changed'


def check(case):
    if case['kind'] == 'order':
        return check_order(case)
    b = g.Builder()
    spaces = [b.build(s) for s in case['spaces']]
    name, ex = case['name'], case['ex']
    dotted = '.'.join(name)
    kind = case['kind']

    def both(ref_f, py_f, c_f, what):
        b.log.clear()
        r = outcome(ref_f)
        rl = list(b.log)
        for impl, f in (('python', py_f), ('C', c_f)):
            if f is None:
                continue
            b.log.clear()
            o = outcome(f)
            if not same(r, o):
                return '%s implementation: %s of %r gives %r, expected %r' % (
                    impl, what, dotted, show(o), show(r))
            if list(b.log) != rl:
                return ('%s implementation: %s of %r calls %r, expected %r'
                        % (impl, what, dotted, list(b.log), rl))
        return None
    if kind == 'search':
        spaces = g.as_list(spaces, case.get('sl'))
        return both(lambda: g.ref_search(spaces, name, ex),
                    lambda: PYM.valueFromSearchList(spaces, dotted, ex),
                    CM and (lambda: CM.valueFromSearchList(spaces, dotted,
                                                           ex)),
                    'search list lookup')
    if kind == 'name':
        return both(lambda: g.ref_dotted(spaces[0], name, ex),
                    lambda: PYM.valueForName(spaces[0], dotted, ex),
                    CM and (lambda: CM.valueForName(spaces[0], dotted, ex)),
                    'dotted lookup')
    if kind == 'key':
        return both(lambda: g.get(spaces[0], name[0]),
                    lambda: PYM.valueForKey(spaces[0], name[0]),
                    CM and (lambda: CM.valueForKey(spaces[0], name[0])),
                    'key lookup') if not raises(spaces[0], name[0]) else \
            'skip'
    if kind == 'hasname':
        r = outcome(lambda: g.ref_dotted(spaces[0], name, False))
        if r[0] == 'exc':
            return 'skip'
        got = outcome(lambda: PYM.hasName(spaces[0], dotted))
        if got != ('ok', r[0] == 'ok'):
            return 'hasName(%r) = %r, expected %r' % (dotted, got,
                                                      r[0] == 'ok')
        return None
    if kind == 'frame':
        if hasattr({}, name[0]):
            return 'skip'   # a method of the locals dict itself
        loc = {}
        glob = {'__builtins__': __builtins__}
        if isinstance(spaces[0], dict) and case['loc']:
            loc = {k: v for k, v in spaces[0].items()
                   if k not in ('len',)}
            sl = spaces[1:]
        else:
            sl = spaces
        if len(sl) > 1 and type(sl[-1]) is dict:
            glob.update(sl[-1])
            sl = sl[:-1]
        bi = __builtins__ if isinstance(__builtins__, dict) else \
            vars(__builtins__)
        if sl and len(name) % 2:
            fn = 'VFFSL(sl, dotted, ex)'
            order = None
            sl = g.as_list(sl, case.get('sl'))
        else:
            fn = 'VFF(dotted, ex)'
            order = [loc, glob, bi]
        res = []
        src = 'def __t(' + ', '.join(['sl', 'dotted', 'ex', 'VFFSL', 'VFF']
                                     + sorted(loc)) + '):\n' \
              '    return ' + fn + '\n'
        if set(loc) & {'sl', 'dotted', 'ex', 'VFFSL', 'VFF'}:
            return 'skip'
        exec(compile(src, 'frame', 'exec'), glob)
        t = glob.pop('__t')
        loc2 = dict(loc)
        loc3 = dict(loc, sl=sl, dotted=dotted, ex=ex, VFFSL=0, VFF=0)
        if order is None:
            def chain():
                yield loc3
                for s in sl:
                    yield s
                yield glob
                yield bi

            class order(object):
                __iter__ = staticmethod(chain)
            order = order()
        else:
            order[0] = loc3

        def run(m):
            return lambda: t(sl, dotted, ex, m.valueFromFrameOrSearchList,
                             m.valueFromFrame, **loc)
        return both(lambda: g.ref_search(order, name, ex), run(PYM),
                    CM and run(CM), 'frame lookup')
    if kind == 'tmpl':
        return tmpl(case, b, spaces, name, ex)


def raises(o, k):
    try:
        hasattr(o, k)
        return False
    except Exception:
        return True


def ref_steps(spaces, name, rests, ex):
    """names one by one; one that is followed by an explicit call is not
    autocalled"""
    for ns in spaces:
        if g.has(ns, name[0]):
            o = ns
            break
    else:
        raise g.Missing(name[0])
    for n, r in zip(name, rests):
        o = g.ref_dotted(o, [n], ex and not r.startswith('('))
        if r.startswith('('):
            o = o()
        elif r:
            o = o[r[2:-2]]
    return o


def tmpl(case, b, spaces, name, ex):
    dotted = '.'.join(name)
    rests = case.get('rests')
    if rests:
        dotted = '{' + '.'.join(n + r for n, r in zip(name, rests)) + '}'
    bi = __builtins__ if isinstance(__builtins__, dict) else \
        vars(__builtins__)
    cls = cached('$' + dotted, ex)
    inst = cls(searchList=list(spaces))
    if hasattr(inst, name[0]):
        return 'skip'
    mod = sys.modules[cls.__module__].__dict__
    if name[0] in mod or name[0] in ('_filter', 'write', 'trans'):
        return 'skip'
    if hasattr({}, name[0]):
        return 'skip'       # the frame's locals are a dict with methods
    order = list(spaces) + [mod, bi]
    b.log.clear()
    r = outcome(lambda: ref_steps(order, name, rests, ex) if rests else
                g.ref_search(order, name, ex))
    if r[0] == 'ok':
        try:
            r = ('ok', '' if r[1] is None else str(r[1]))
        except Exception:
            return 'skip'
    rl = list(b.log)
    b.log.clear()
    o = outcome(lambda: inst.respond())
    if r[0] == 'ok' and ' at 0x' in r[1]:
        return 'skip'
    if not same(r, o):
        return 'rendering $%s over %d namespaces gives %r, expected %r' % (
            dotted, len(spaces), show(o), show(r))
    if list(b.log) != rl:
        return 'rendering $%s calls %r, expected %r' % (dotted, list(b.log),
                                                        rl)
    return None


_cache = {}


def cached(src, ex):
    k = (src, ex)
    if k not in _cache:
        _cache[k] = Template.compile(
            src, compilerSettings={'useAutocalling': ex}, cacheCompilationResults=False)
    return _cache[k]


def show(o):
    return tuple(repr(x)[:120] for x in o)
