"""run-time contract of cached regions: random templates with cached regions
and placeholders, random histories of rendering, time passing, refreshing"""
PURE = None
RULE = ('random templates (cached regions of every form, nested, in loops, '
        'cached placeholders) x histories of render / time / refresh over '
        'several instances, against a model of expiry; distinct histories')
QUICK_S = 25
THOROUGH_S = 250

UNIT = {'s': 1, 'm': 60, 'h': 3600, 'd': 86400, 'w': 604800, '': 60}
VALS = ['v1', 'v2', 'V1', 1, 'a b', '', None, '\u0416', 'v1:', 'v1 ', ' v1',
        'v1\n', 'v01', '1', 1.0, 'v1' * 200, 'v1' * 200 + '1', '\u0436', 'a  b']


def setup(scratch):
    global Clock, Template, Store
    from explore import clock
    clock.install()
    Clock = clock.Clock
    from Cheetah.Template import Template as T
    from Cheetah.CacheStore import MemoryCacheStore
    Template, Store = T, MemoryCacheStore


def rnode(rng, depth, st):
    t = rng.random()
    if t < .2:
        return ['text', rng.choice(['x', ' ', 'a b', '<&>', "q'"])]
    if t < .4:
        return ['f', rng.choice('abc')]
    if t < .55:
        u = rng.choice(['s', 'm', 'h', 'd', 'w', ''])
        return ['ph', rng.choice('abc'),
                rng.choice([None, [rng.choice([1, 2, 30, 0.5]), u]]),
                rng.choice(['plain', '{', '(', '['])]
    if depth <= 0:
        return ['f', rng.choice('abc')]
    if t < .62:
        return ['for', rng.choice([1, 2, 3]), rbody(rng, depth - 1, st)]
    st[0] += 1
    return ['region', {
        'id': 'r%d' % st[0] if rng.random() < .6 else None,
        'n': st[0],
        'timer': rng.choice([None, None, [rng.choice([1, 2, 30, 0.5]),
                                          rng.choice('smhdw')]]),
        'vary': rng.random() < .3, 'test': rng.random() < .2,
        'short': False}, rbody(rng, depth - 1, st)]


def rbody(rng, depth, st):
    return [rnode(rng, depth, st) for _ in range(rng.randint(1, 3))]


def cases(rng, tier):
    while True:
        st = [0]
        tm = [rbody(rng, 3, st) for _ in range(rng.choice([1, 1, 2]))]
        ids = ['r%d' % i for i in range(1, st[0] + 1)] + ['nosuch']
        ni = rng.choice([1, 2, 3])
        h = []
        for _ in range(rng.randint(2, 14)):
            k = rng.random()
            i = rng.randrange(ni)
            if k < .5:
                h.append(['render', i, rng.randrange(len(VALS)) if
                          rng.random() < .7 else 0, rng.random() < .3])
            elif k < .8:
                n, u = rng.choice([(1, 's'), (2, 's'), (30, 's'), (1, 'm'),
                                   (30, 'm'), (1, 'h'), (1, 'd'), (2, 'w'),
                                   (0.5, 's'), (0, 's'), (29, 's')])
                h.append(['tick', n * UNIT[u] + rng.choice([0, 0, 1, -.25])])
            else:
                r = rng.choice([None] + ids)
                h.append(['refresh', i, r, rng.choice(
                    [None, None, 'self', 'v1', 'v2', 1, '\u0416'])
                    if r else None])
        yield {'kind': 'shared' if rng.random() < .3 else 'own',
               'tmpl': tm, 'inst': ni, 'h': h}


def src(b):
    out = []
    for n in b:
        if n[0] == 'text':
            out.append(n[1])
        elif n[0] == 'f':
            out.append('${%s}' % n[1])
        elif n[0] == 'ph':
            iv = n[2]
            tok = '*' if iv is None else '*%s%s*' % tuple(iv)
            form = n[3]
            if form == 'plain':
                out.append('$%s%s ' % (tok, n[1]))
            else:
                out.append('$%s%s%s%s' % (tok, form, n[1], {
                    '{': '}', '(': ')', '[': ']'}[form]))
        elif n[0] == 'for':
            out.append('#for $i in range(%d)#%s#end for#' % (n[1],
                                                             src(n[2])))
        else:
            p = n[1]
            a = []
            if p['timer']:
                a.append("timer='%s%s'" % tuple(p['timer']))
            if p['id']:
                a.append("id='%s'" % p['id'])
            if p['vary']:
                a.append('varyBy=$vv')
            if p['test']:
                a.append('test=$tt')
            out.append('#cache %s#%s#end cache#' % (', '.join(a), src(n[2])))
    return ''.join(out)


class Inst(object):
    def __init__(self):
        self.data = {}        # region -> {vary text: (data, expiry)}


def ref(b, inst, env, path):
    out = []
    for i, n in enumerate(b):
        p2 = path + (i,)
        if n[0] == 'text':
            out.append(n[1])
        elif n[0] == 'f':
            out.append(env['f'](n[1]))
        elif n[0] == 'ph':
            out.append(cached(inst, p2, 'only', n[2], False,
                              lambda: env['f'](n[1])))
            if n[3] == 'plain':
                out.append(' ')
        elif n[0] == 'for':
            for _ in range(n[1]):
                out.append(ref(n[2], inst, env, p2))
        else:
            p = n[1]
            key = ('id', p['id']) if p['id'] else p2
            vary = str(env['v']) if p['vary'] else \
                (p['id'] if p['id'] else 'only')
            out.append(cached(inst, key, vary, p['timer'],
                              p['test'] and env['t'],
                              lambda: ref(n[2], inst, env, p2)))
    return ''.join(out)


def cached(inst, key, vary, iv, forced, f):
    reg = inst.data.setdefault(key, {})
    cur = reg.get(vary)
    if cur is not None and not forced and not (
            cur[1] and Clock.t > cur[1]):
        return cur[0]
    exp = Clock.t + float(iv[0]) * UNIT[iv[1]] if iv else 0
    v = f()
    reg[vary] = (v, exp)
    return v


_cls = {}


def check(case):
    Clock.t = 1000000.0
    shared = case['kind'] == 'shared'
    srcs = [src(b) for b in case['tmpl']]
    cl = []
    for s in srcs:
        if s not in _cls:
            if len(_cls) > 300:
                _cls.clear()
            _cls[s] = Template.compile(s, cacheCompilationResults=False)
        cl.append(_cls[s])
    cnt, rcnt = {}, {}
    env = {'v': 'v1', 't': False}

    def fn(name, i):
        def g():
            k = (name, i)
            cnt[k] = cnt.get(k, 0) + 1
            return '%s%d.%d' % (name, i, cnt[k])
        return g
    insts, models = [], []
    store = Store() if shared else None
    for i in range(case['inst']):
        c = cl[i % len(cl)]
        ns = {n: fn(n, i) for n in 'abc'}
        ns['vv'] = lambda: env['v']
        ns['tt'] = lambda: env['t']
        if shared:
            c._CHEETAH_cacheStore = store
        try:
            insts.append(c(searchList=[ns]))
        finally:
            if shared:
                del c._CHEETAH_cacheStore
        models.append(Inst())
    for n, st in enumerate(case['h']):
        what = 'step %d %r of %r on %r' % (n, st, case['h'], srcs)
        if st[0] == 'tick':
            Clock.t += st[1]
        elif st[0] == 'refresh':
            _, i, r, item = st
            try:
                if r is None:
                    insts[i].refreshCache()
                elif item is None:
                    insts[i].refreshCache(r)
                else:
                    insts[i].refreshCache(r, r if item == 'self' else item)
            except Exception as e:
                return '%s raises %r' % (what, e)
            m = models[i].data
            if r is None:
                m.clear()
            elif item is None:
                m.pop(('id', r), None)
            else:
                m.get(('id', r), {}).pop(r if item == 'self' else str(item),
                                         None)
        else:
            _, i, v, t = st
            env['v'], env['t'] = VALS[v], t

            def rf(name, i=i):
                k = (name, i)
                rcnt[k] = rcnt.get(k, 0) + 1
                return '%s%d.%d' % (name, i, rcnt[k])
            exp = ref(case['tmpl'][i % len(cl)], models[i],
                      {'f': rf, 'v': VALS[v], 't': t}, (i % len(cl),))
            try:
                got = insts[i].respond()
            except Exception as e:
                return '%s raises %r' % (what, e)
            if got != exp:
                return '%s renders %r, expected %r' % (what, got, exp)
            if cnt != rcnt:
                return '%s evaluated %r, expected %r' % (what, cnt, rcnt)
