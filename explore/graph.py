"""JSON-describable object graphs of user objects, and the reference lookup
(the property text, executed)."""
import collections
import functools
import operator
import types
from collections import UserDict
from collections.abc import Mapping

CALLED = (types.FunctionType, types.MethodType, types.BuiltinFunctionType,
          types.BuiltinMethodType, types.MethodWrapperType)


class UserError(Exception):
    pass


class Plain(object):
    def __init__(self, tag):
        self.__dict__['_tag'] = tag

    def __str__(self):
        return 'I(%s)' % self._tag


class CallableInst(Plain):
    log = None

    def __call__(self, *a, **k):
        self.__dict__['_log'].append(('CALLINST', self._tag, a, k))
        return 'called-instance'


class DictSub(dict):
    def __str__(self):
        return 'D%d' % len(self)


class MapInst(UserDict):
    def __str__(self):
        return 'M'


class Falsy(Plain):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EmptyLooking(dict):
    """a mapping that is falsy although it holds keys"""
    def __bool__(self):
        return False

    def __str__(self):
        return 'E'


class Lazy(object):
    """a search list produced on demand, possibly failing half way"""
    def __init__(self, spaces, fail=None):
        self.spaces = spaces
        self.fail = fail

    def __iter__(self):
        for i, s in enumerate(self.spaces):
            if i == self.fail:
                raise UserError('search list')
            yield s
        if self.fail is not None and self.fail >= len(self.spaces):
            raise UserError('search list')


def as_list(spaces, how):
    if how == 'tuple':
        return tuple(spaces)
    if how == 'lazy':
        return Lazy(spaces)
    if how and how.startswith('fail'):
        return Lazy(spaces, int(how[4:]))
    return list(spaces)


class Builder(object):
    def __init__(self):
        self.log = []
        self.n = 0

    def build(self, nd):
        self.n += 1
        t = nd['t']
        if t == 'val':
            return nd['v']
        if t == 'none':
            return None
        if t == 'zero':
            return {'0': 0, "''": '', '[]': [], '{}': {}, 'F': False}[nd['v']]
        if t == 'dict':
            return {k: self.build(v) for k, v in nd['items'].items()}
        if t in ('inst', 'falsy', 'callinst'):
            o = {'inst': Plain, 'falsy': Falsy,
                 'callinst': CallableInst}[t](nd.get('tag', '?'))
            o.__dict__['_log'] = self.log
            if 'sp' in nd:
                # the attributes of a function-like object do not make it one
                if nd.get('cls'):
                    o.__class__ = type(str(nd['cls']), (CallableInst,), {})
                for k in nd['sp']:
                    o.__dict__[k] = 'f'
            for k, v in nd['items'].items():
                o.__dict__[k] = self.build(v)
            return o
        if t in ('dictsub', 'mapinst', 'emptylooking'):
            o = {'dictsub': DictSub, 'mapinst': MapInst,
                 'emptylooking': EmptyLooking}[t]()
            for k, v in nd['items'].items():
                o[k] = self.build(v)
            for k, v in nd.get('attrs', {}).items():
                setattr(o, k, self.build(v))
            return o
        if t == 'class':
            ns = {k: self.build(v) for k, v in nd['items'].items()}
            ns = {k: staticmethod(v) if isinstance(v, types.FunctionType)
                  else v for k, v in ns.items()}
            log, tag = self.log, nd.get('tag', '?')

            def init(self, *a):
                log.append(('CLASS', tag))
            ns['__init__'] = init
            if nd.get('meta') == 'abc':
                import abc
                return abc.ABCMeta('K', (object,), ns)
            if nd.get('meta') == 'own':
                class Meta(type):
                    __code__ = __func__ = __self__ = property(
                        lambda cls: None)

                    def __call__(cls, *a, **k):
                        log.append(('METACALL', tag))
                        return type.__call__(cls, *a, **k)
                return Meta('K', (object,), ns)
            return type('K', (object,), ns)
        if t == 'func':
            r = self.build(nd['ret'])
            log, tag = self.log, nd.get('tag', '?')

            def f(*a, **k):
                log.append(('f', tag, a, k))
                return r
            return f
        if t == 'lambda_attr':
            f = self.build({'t': 'func', 'ret': nd['ret'],
                            'tag': nd.get('tag', '?')})
            for k, v in nd['items'].items():
                setattr(f, k, self.build(v))
            return f
        if t == 'method':
            r = self.build(nd['ret'])
            log, tag = self.log, nd.get('tag', '?')

            class H(Plain):
                def m(self, *a, **k):
                    log.append(('m', tag, a, k))
                    return r
            return H('h').m
        if t == 'cmethod':
            r = self.build(nd['ret'])
            log, tag = self.log, nd.get('tag', '?')

            class H(Plain):
                @classmethod
                def m(cls, *a, **k):
                    log.append(('cm', tag, a, k))
                    return r
            return H.m
        if t == 'builtin':
            return 'Abc'.upper
        if t == 'std':
            log = self.log

            def f(*a, **k):
                log.append(('std', nd['v'], a, k))
                return 'std'
            return {'partial': lambda: functools.partial(f, 1),
                    'lru': lambda: functools.lru_cache(None)(f),
                    'wrapper': lambda: 'Abc'.__len__,
                    'slot': lambda: str.upper,
                    'ctor': lambda: collections.Counter,
                    'getter': lambda: operator.itemgetter('a'),
                    'bmeth': lambda: types.MethodType(f, 7),
                    'dmeth': lambda: {}.keys}[nd['v']]()
        if t == 'raisef':
            exc = {'V': UserError, 'K': KeyError, 'A': AttributeError,
                   'T': TypeError, 'L': LookupError}[nd['e']]
            log, tag = self.log, nd.get('tag', '?')

            def f(*a, **k):
                log.append(('r', tag, a, k))
                raise exc('user-%s' % tag)
            return f
        if t == 'prop':
            exc = {'V': UserError, 'K': KeyError, 'A': AttributeError}[
                nd['e']]

            class H(Plain):
                @property
                def p(self):
                    raise exc('prop')
            o = H('p')
            for k, v in nd.get('items', {}).items():
                o.__dict__[k] = self.build(v)
            return o
        raise ValueError(t)


class Missing(Exception):
    def __init__(self, comp):
        Exception.__init__(self, comp)
        self.comp = comp


def has(o, key):
    if isinstance(o, Mapping) and key in o:
        return True
    return hasattr(o, key)


def get(o, key):
    if isinstance(o, Mapping) and key in o:
        return o[key]
    try:
        return getattr(o, key)
    except AttributeError:
        raise Missing(key)


def ref_dotted(o, comps, execute, acs=None):
    for i, c in enumerate(comps):
        v = get(o, c)
        if execute and isinstance(v, CALLED):
            v = v()
        o = v
    return o


def ref_search(spaces, comps, execute):
    for ns in spaces:
        if has(ns, comps[0]):
            return ref_dotted(ns, comps, execute)
    raise Missing(comps[0])


NAMES = ['a', 'b', 'c', 'x', 'items', 'get', 'keys', 'p', '_u', 'real',
         'len', 'update', 'upper']


def rand_leaf(rng):
    return rng.choice([{'t': 'val', 'v': rng.choice(['s', 'tt', '<&>', 7,
                                                      3.5, True])},
                       {'t': 'none'},
                       {'t': 'zero', 'v': rng.choice(
                           ['0', "''", '[]', '{}', 'F'])},
                       {'t': 'builtin'},
                       {'t': 'std', 'v': rng.choice(
                           ['partial', 'lru', 'wrapper', 'ctor', 'getter',
                            'bmeth', 'dmeth'])}])


def rand_node(rng, depth):
    if depth <= 0 or rng.random() < .12:
        return rand_leaf(rng)
    t = rng.choice(['dict', 'dict', 'inst', 'inst', 'dictsub', 'mapinst',
                    'func', 'method', 'class', 'callinst', 'cmethod',
                    'lambda_attr', 'falsy', 'emptylooking', 'raisef',
                    'prop'])
    tag = 't%d' % rng.randrange(1000)

    def items(n=None):
        return {rng.choice(NAMES): rand_node(rng, depth - 1)
                for _ in range(n if n is not None else rng.randint(1, 3))}
    if t in ('dict', 'inst', 'falsy', 'callinst', 'class', 'prop'):
        d = {'t': t, 'items': items(), 'tag': tag}
        if t == 'prop':
            d['e'] = rng.choice('VKA')
        if t == 'callinst' and rng.random() < .5:
            d['sp'] = rng.sample(['__name__', '__qualname__', '__wrapped__',
                                  '__defaults__', '__module__', '__doc__',
                                  '__get__', 'im_func', 'func_code'], 2)
            if rng.random() < .3:
                d['cls'] = rng.choice(['function', 'method', 'type'])
        if t == 'class' and rng.random() < .5:
            d['meta'] = rng.choice(['abc', 'own'])
        return d
    if t in ('dictsub', 'mapinst', 'emptylooking'):
        return {'t': t, 'items': items(),
                'attrs': {rng.choice(['a', 'b', 'c', 'x', '_u']):
                          rand_node(rng, depth - 1)
                          for _ in range(rng.randint(0, 2))}}
    if t in ('func', 'method', 'cmethod'):
        return {'t': t, 'ret': rand_node(rng, depth - 1), 'tag': tag}
    if t == 'lambda_attr':
        return {'t': t, 'ret': rand_node(rng, depth - 1), 'tag': tag,
                'items': items()}
    return {'t': 'raisef', 'e': rng.choice('VKATL'), 'tag': tag}


def children(nd):
    out = {}
    if nd['t'] == 'prop':
        out['p'] = {'t': 'none'}
    for k, v in nd.get('items', {}).items():
        out.setdefault(k, v)
    for k, v in nd.get('attrs', {}).items():
        out.setdefault(k, v)
    return out


def rand_name(rng, node):
    """a dotted name that mostly exists"""
    comps = []
    nd = node
    for _ in range(rng.randint(1, 5)):
        ch = {}
        for _i in range(4):
            ch = children(nd)
            if ch:
                break
            if 'ret' in nd:
                nd = nd['ret']
            else:
                break
        if ch and rng.random() < .9:
            k = rng.choice(sorted(ch))
            comps.append(k)
            nd = ch[k]
        else:
            comps.append(rng.choice(NAMES + ['zz', 'q']))
            if rng.random() < .7:
                break
    return comps or ['a']
