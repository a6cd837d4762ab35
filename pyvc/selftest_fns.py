"""functions for pyvc/selftest.py: executed by CPython and by pyvc"""


def cat(a, b):
    return a + '-' + b


def find(a, b):
    return a.find(b)


def find_from(a, b, n):
    return a.find(b, n)


def rfind(a, b):
    return a.rfind(b)


def rfind_const(a):
    return a.rfind('a')


def starts(a, b):
    return a.startswith(b) and not a.endswith(b + 'x')


def sliced(a, n):
    return a[n:] + a[:n] + a[-1:]


def middle(a, n, m):
    return a[n:m]


def index(a, n):
    try:
        return a[n]
    except IndexError:
        return 'none'


def contains(a, b):
    if b in a:
        return 'in'
    return 'out'


def replace(a, b):
    return a.replace(b, '<>')


def arith(n, m):
    x = n * 3 - m
    if x > 4:
        x += 1
    elif x == 4:
        x = -x
    return x // 2 + x % 2


def compare(a, b):
    return (a == b, a != b, len(a) < len(b))


def chain(n, m):
    return 0 <= n < m or m < 0


def tryfin(a, n):
    log = []
    try:
        try:
            log.append('t')
            if n > 0:
                raise ValueError(a)
            log.append('n')
        except ValueError as e:
            log.append('e' + e.args[0])
            if n > 1:
                raise KeyError(a)
        else:
            log.append('l')
        finally:
            log.append('f')
    except KeyError:
        log.append('k')
    return ''.join(log)


def whiles(n):
    i = s = 0
    while i < n:
        i += 1
        if i == 2:
            continue
        if i > 4:
            break
        s += i
    else:
        s += 100
    return s


def scan(a):
    out = []
    for ch in 'ab,b':
        if ch in a:
            out.append(ch)
    return '|'.join(out)


def dicts(a, n):
    d = {'k': n, 'a': a}
    d.setdefault('z', n)
    d.update({'y': 2})
    return d.get('k'), d.get('a'), len(d), d.pop('z', None), 'q' in d


def closure(n):
    acc = []

    def add(x, y=2, *rest, **kw):
        acc.append(x + y + len(rest) + len(kw))
        return acc
    add(n)
    add(n, 1, 5, 6, z=1)
    return acc[0] * 10 + acc[1]


def fmt(a, n):
    return 'x%sy' % a + '%d' % n + str(n) + '%(p)s' % {'p': a}


def neg(a, n):
    return not a or not n


class Thing(object):
    size = 3

    def __init__(self, n):
        self.n = n

    def grow(self, by=1):
        self.n += by
        return self

    @property
    def double(self):
        return self.n * 2

    @classmethod
    def make(cls, n):
        return cls(n + cls.size)


def objects(n):
    t = Thing.make(n).grow().grow(by=2)
    return t.double + t.size + getattr(t, 'nothing', 7) + \
        (1 if isinstance(t, Thing) and hasattr(t, 'n') else 0)


def comp(n):
    return [x + n for x in (1, 2, 3) if x != 2] + list(range(2))


def tern(a, n):
    x, y = (a, n) if n > 2 else (a + a, -n)
    return x, y


def first(a, n):
    g = (x for x in ('a', 'bb', 'c') if a.startswith(x) or n > 3)
    return next(g, None), next(g, 'none'), next((x for x in ()), n)


def record(a, n):
    class Details(object):
        pass
    d = Details()
    d.a, d.n = a, n
    return d.a, d.n + 1
