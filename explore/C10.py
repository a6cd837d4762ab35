"""run-time contract of the cache store against a map with expiry"""
PURE = None
RULE = ('random histories of set/add/replace/delete/get/clear over 4 keys '
        'with expiry times around a controlled clock; distinct histories')
QUICK_S = 15
THOROUGH_S = 150

KEYS = ['a', 'b', 'a:b', '', 7, None, 'key', '\u0416']


def setup(scratch):
    global CS, Clock
    from explore import clock
    clock.install()
    Clock = clock.Clock
    import Cheetah.CacheStore as m
    CS = m


def cases(rng, tier):
    import itertools
    ops = ['set', 'add', 'replace', 'delete', 'get', 'clear']
    # all histories of 3 operations over 2 keys without expiry
    for h in itertools.product(ops, repeat=3):
        for ks in itertools.product([0, 1], repeat=3):
            yield {'kind': 'all3', 'h': [[o, k, 100 + i, None] for i, (o, k)
                                         in enumerate(zip(h, ks))]}
    while True:
        h = []
        for i in range(rng.randint(1, 14)):
            o = rng.choice(ops[:5] + ['get', 'get', 'set', 'tick', 'tick'] +
                           ([] if rng.random() < .9 else ['clear']))
            if o == 'tick':
                h.append([o, rng.choice([0.5, 1, 2, 5])])
            else:
                h.append([o, rng.randrange(rng.choice([2, 8])),
                          rng.choice([i, 'v%d' % i, None, '', 0, [i]]),
                          rng.choice([None, None, 0, 1, 2, 3, 6, -1, -1000])])
        yield {'kind': 'rand', 'h': h}


def check(case):
    st = CS.MemoryCacheStore()
    clock = Clock
    clock.t = 1000000.0
    model = {}
    if True:
        for n, step in enumerate(case['h']):
            if step[0] == 'tick':
                clock.t += step[1]
                continue
            op, ki, v, te = step
            k = KEYS[ki]

            def dead(k):
                return k in model and model[k][1] and \
                    clock.t > model[k][1]
            exp = 0 if te is None else te and clock.t + te
            args = (k, v) if te is None else (k, v, exp)
            what = 'step %d %s(%r) of %r' % (n, op, k, case['h'])
            if op in ('set', 'add', 'replace'):
                try:
                    getattr(st, op)(*args)
                    did = True
                except CS.Error:
                    did = False
                should = {'set': True, 'add': k not in model,
                          'replace': k in model}[op]
                if dead(k) and op != 'set':
                    should = did    # expired: may count as absent
                    if not did and op == 'replace':
                        model.pop(k)
                if did != should:
                    return '%s: %s, expected %s' % (
                        what, 'stored' if did else 'refused',
                        'stored' if should else 'refused')
                if did:
                    model[k] = (v, exp)
            elif op == 'delete':
                try:
                    st.delete(k)
                    did = True
                except KeyError:
                    did = False
                if did != (k in model) and not dead(k):
                    return '%s: wrong outcome' % what
                model.pop(k, None)
            elif op == 'clear':
                st.clear()
                model.clear()
            else:
                m = judge(st, k, model, clock)
                if m:
                    return '%s: %s' % (what, m)
        for k in list(model) + ['nokey']:
            m = judge(st, k, model, clock)
            if m:
                return 'after %r: %s' % (case['h'], m)


def judge(st, k, model, clock):
    missing = k not in model or (model[k][1] and clock.t > model[k][1])
    try:
        got = ('val', st.get(k))
    except KeyError:
        got = ('missing',)
    if missing:
        model.pop(k, None)
        if got != ('missing',) and got != ('val', None):
            return 'get(%r) gives %r, expected it to be missing' % (k, got)
    elif got != ('val', model[k][0]):
        return 'get(%r) gives %r, expected %r' % (k, got, model[k][0])
