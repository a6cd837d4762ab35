from explore import C01 as _c
from explore.C01 import setup, check  # noqa: F401

PURE = None
RULE = ('as C01, with callables at every position and both autocall '
        'settings; user callables log every call with its arguments')
QUICK_S = 30
THOROUGH_S = 240
RISKY = True

KINDS = ['abc', 'meta', 'func', 'method', 'cmethod', 'builtin', 'class', 'callinst',
         'lambda_attr', 'raisef', 'inst', 'dict']


def leafy(t, inner, key, tag):
    if t in ('func', 'method', 'cmethod'):
        return {'t': t, 'ret': {'t': 'dict', 'items': {key: inner}},
                'tag': tag}
    if t == 'lambda_attr':
        return {'t': t, 'ret': {'t': 'dict', 'items': {key: inner}},
                'tag': tag, 'items': {key: inner}}
    if t == 'raisef':
        return {'t': t, 'e': 'V', 'tag': tag}
    if t == 'builtin':
        return {'t': t}
    if t in ('abc', 'meta'):
        return {'t': 'class', 'items': {key: inner}, 'tag': tag,
                'meta': {'abc': 'abc', 'meta': 'own'}[t]}
    return {'t': t, 'items': {key: inner}, 'tag': tag}


def steps(rng):
    """explicit calls and subscripts between the components"""
    ks = ['func', 'method', 'class', 'callinst', 'lambda_attr', 'dict',
          'raisef']
    todo = [(ex, t1, t2, t3, r1, r2, r3, n) for ex in (True, False)
            for t1 in ks for t2 in ks for t3 in ('val', 'func', 'callinst',
                                                 'class', 'dict')
            for r1 in ('', '()', "['b']")
            for r2 in ('', '()', "['c']") for r3 in ('', '()')
            for n in (2, 3) if (n == 3 or r3 == '') and (r1 or r2 or r3)]
    rng.shuffle(todo)
    for ex, t1, t2, t3, r1, r2, r3, n in todo[:5000]:
        v = {'t': 'val', 'v': 'v'} if t3 == 'val' else \
            leafy(t3, {'t': 'val', 'v': 'w'}, 'q', 'n3')
        nd = leafy(t1, leafy(t2, leafy('dict', v, 'c', 'n4')
                             if r2.startswith('[') else v, 'c', 'n2'),
                   'b', 'n1')
        if r1.startswith('['):
            nd = leafy(t1, {'t': 'dict', 'items': {'b': leafy(
                t2, v, 'c', 'n2')}}, 'b', 'n1')
        yield {'kind': 'tmpl', 'ex': ex, 'loc': True,
               'spaces': [{'t': 'dict', 'items': {'a': nd}}],
               'name': ['a', 'b', 'c'][:n], 'rests': [r1, r2, r3][:n]}


def cases(rng, tier):
    for c in steps(rng):
        yield c
    # every kind of callable at every position of a name of up to 3 parts
    for ex in (True, False):
        for kind in ('name', 'search', 'tmpl', 'frame'):
            for t1 in KINDS:
                for t2 in KINDS:
                    for t3 in ('val', 'func', 'class', 'callinst', 'abc',
                               'meta',
                               'builtin', 'method', 'none'):
                        v = {'t': 'val', 'v': 'v'} if t3 == 'val' else \
                            {'t': 'none'} if t3 == 'none' else \
                            leafy(t3, {'t': 'val', 'v': 'w'}, 'q', 'n3')
                        n = leafy(t1, leafy(t2, v, 'c', 'n2'), 'b', 'n1')
                        for nm in (['a', 'b', 'c'], ['a', 'b'], ['a']):
                            yield {'kind': kind, 'ex': ex, 'loc': True,
                                   'spaces': [{'t': 'dict', 'items': {
                                       'a': n}}], 'name': nm}
    for c in _c.cases(rng, tier):
        yield c
