# Python constructs a maintainer may write; the analyser must give what Python gives (tools/selftest.py).
import functools
import itertools
import math
import operator
import re
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque, namedtuple
from contextlib import suppress
from dataclasses import dataclass, field
from enum import Enum, IntEnum


def t_loops():
    out = []
    for i, c in enumerate('abc', 1):
        if c == 'b':
            continue
        out.append((i, c))
    else:
        out.append('done')
    while out:
        if len(out) == 1:
            break
        out.pop(0)
    else:
        out.append('never')
    return out


def t_for_else():
    for x in [1, 2, 3]:
        if x == 2:
            break
    else:
        x = 9
    return x


def t_comp():
    return [x * y for x in range(3) for y in range(2) if x != y], {k: v for k, v in zip('ab', [1, 2])}, sorted({3, 1, 2}), \
        list(x for x in (1, 2, 3) if x > 1)


def t_zip():
    a = [1, 2, 3]
    return list(zip(a, a[1:])), list(reversed(a)), a[::-1], a[-2:], list(map(lambda x: x + 1, a)), list(filter(None, [0, 1, 2]))


def t_minmax():
    return min([3, 1, 2]), max([3, 1, 2], key=lambda x: -x), max([], default=7), min(4, 2), sum([1, 2, 3]), sum(x for x in (1, 2)), \
        any(x > 2 for x in [1, 2]), all(x > 0 for x in [1, 2]), abs(-3), divmod(7, 2), round(2.4), pow(2, 3)


def t_dicts():
    d = {'a': 1}
    d.setdefault('b', []).append(2)
    e = {**d, 'c': 3}
    e.update(x=1)
    f = dict(d, z=0)
    g = d | {'q': 1}
    del e['a']
    return list(e.items()), e.pop('c'), e.pop('nope', None), sorted(f), list(g), d.get('zz', 5), 'a' in d, dict.fromkeys('ab', 0), \
        list(d), len(d), dict([('k', 'v')]), next(iter(d)), [*d], list(d.values())


def t_default():
    d = defaultdict(list)
    d['a'].append(1)
    d['b']
    return dict(d), len(d), OrderedDict([('a', 1)])['a'], Counter('aab')['a']


def t_deque():
    q = deque([1, 2])
    q.append(3)
    q.appendleft(0)
    return q.popleft(), q.pop(), list(q), len(q)


def t_itertools():
    return list(itertools.chain([1], [2, 3])), list(itertools.chain.from_iterable([[1], [2]])), \
        list(itertools.takewhile(lambda x: x < 2, [1, 2, 1])), list(itertools.dropwhile(lambda x: x < 2, [1, 2, 1])), \
        list(itertools.islice([1, 2, 3], 2)), list(itertools.zip_longest([1, 2], [3])), \
        [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])], list(itertools.accumulate([1, 2, 3])), \
        list(itertools.islice(itertools.count(2), 2)), list(itertools.repeat('x', 2))


def t_functools():
    add = functools.partial(lambda a, b: a + b, 1)
    return functools.reduce(lambda a, b: a * b, [1, 2, 3]), add(2), functools.reduce(operator.add, [1, 2], 10)


@functools.lru_cache(maxsize=None)
def cached(x):
    return x + 1


def t_cache():
    return cached(1), cached(1)


def t_operator():
    return sorted([{'a': 2}, {'a': 1}], key=operator.itemgetter('a')), operator.attrgetter('real')(3), operator.itemgetter(0, 1)([5, 6])


def t_strings():
    s = ' a-b '
    return s.strip(), s.split('-'), 'x'.join(['a', 'b']), s.find('b'), s.replace('a', 'c'), s.upper(), s.partition('-'), \
        'abc'[1:], 'abc'[-1], 'abc'.startswith(('a', 'b')), '%s-%d' % ('a', 3), '{0}{1}{x}'.format(1, 2, x=3), f"{'a':>4}|{3:03d}", \
        'a\nb'.splitlines(), 'a' * 3, 'ab'.index('b'), 'aXb'.lower(), s.isspace(), 'a b'.split(), 'abc'.rjust(5, '.'), repr('a\n'), \
        'a,b'.rsplit(',', 1), 'abc'.removeprefix('a'), ''.join(reversed('abc')), str(3), ord('a'), chr(98), 'b' in 'abc', 'a' < 'b'


def t_unpack():
    a, *b = [1, 2, 3]
    (c, d), e = (1, 2), 3
    x = y = 4
    *f, g = 'abc'
    return a, b, c, d, e, x, y, f, g, [*b, *[9]], (*b, 1)


def t_try():
    out = []
    try:
        out.append({}['a'])
    except KeyError as error:
        out.append(error.args[0])
    else:
        out.append('else')
    finally:
        out.append('finally')
    with suppress(KeyError):
        {}['b']
        out.append('not here')
    try:
        [][0]
    except (KeyError, IndexError):
        out.append('index')
    try:
        try:
            int('x')
        except ValueError:
            raise TypeError('t') from None
    except TypeError as e:
        out.append(str(e))
    return out


def t_walrus():
    out = []
    if (n := len([1, 2])) > 1:
        out.append(n)
    while (m := len(out)) < 3:
        out.append(m)
    return out


def t_match():
    out = []
    for x in [1, 'a', (1, 2), {'k': 3}, None]:
        match x:
            case 1:
                out.append('one')
            case 'a' | 'b':
                out.append('ab')
            case (a, b):
                out.append(a + b)
            case {'k': v}:
                out.append(v)
            case _:
                out.append('other')
    return out


class Base:
    limit = 3
    __slots__ = ()

    @property
    def twice(self):
        return self.limit * 2

    @classmethod
    def make(cls):
        return cls()

    @staticmethod
    def plus(x):
        return x + 1

    def __len__(self):
        return 2

    def __iter__(self):
        yield 1
        yield 2

    def __eq__(self, other):
        return isinstance(other, Base)

    def __contains__(self, x):
        return x == 5

    def __getitem__(self, i):
        return i * 10

    def __call__(self, x):
        return x


class Derived(Base):
    def __init__(self, a=1, *args, k=2, **kw):
        super().__init__()
        self.a, self.args, self.k, self.kw = a, args, k, kw

    def __repr__(self):
        return f'D({self.a})'


def t_classes():
    d = Derived(1, 2, 3, k=4, z=5)
    return d.twice, Derived.make().a, d.plus(1), len(d), list(d), d == Base(), d.args, d.k, d.kw, repr(d), 5 in d, d[2], d(7), \
        isinstance(d, Base), type(d).__name__, hasattr(d, 'nope'), getattr(d, 'nope', 6), issubclass(Derived, Base), callable(d), \
        Derived.limit, d.__class__.__name__


@dataclass
class Point:
    x: int
    y: int = 2
    z: list = field(default_factory=list)


Pair = namedtuple('Pair', ['a', 'b'])


def t_records():
    p = Point(1)
    p.z.append(3)
    q = Pair(1, b=2)
    return p.x, p.y, p.z, p == Point(1, 2, [3]), q.a, q[1], list(q), q._replace(a=5).a


class Color(Enum):
    RED = 1
    GREEN = 2


class Level(IntEnum):
    LOW = 1
    HIGH = 2


def t_enums():
    return Color.RED is Color.RED, Color.RED == Color.GREEN, Color(2) is Color.GREEN, Color['RED'].name, Color.RED.value, \
        [c.name for c in Color], Level.HIGH > Level.LOW, {Color.RED: 1}[Color.RED], Color.RED in (Color.RED,), Level.HIGH + 1


def t_closures():
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n
    fs = [lambda x, i=i: x + i for i in range(3)]
    inc()
    inc()
    return n, [f(1) for f in fs]


def gen(n):
    for i in range(n):
        got = yield i
    return 9


def outer():
    x = yield from gen(2)
    yield x


def t_generators():
    g = gen(3)
    return next(g), next(g), list(g), next(g, 'end'), list(outer())


def t_sets():
    a = {1, 2}
    a.add(3)
    a |= {4}
    return sorted(a), sorted(a - {1}), sorted(a & {1, 9}), 2 in a, len(a), a >= {1}, sorted(a ^ {1, 7}), frozenset([1]) == {1}, a.isdisjoint({9})


def t_lists():
    a = [3, 1, 2]
    a.sort()
    a.insert(0, 9)
    a.extend([7])
    a += [8]
    a.remove(7)
    b = a[:]
    a[0] = 5
    del a[-1]
    a[1:2] = [6, 6]
    return a, b, a.index(6), a.count(6), a.pop(), [0] * 2, a == b, [1] < [2], a.copy(), b.reverse(), b, list(range(5, 0, -2)), [[1], [2]][1][0]


def t_re():
    m = re.match(r'(?P<k>a+)(b)?', 'aac')
    return m.group('k'), m[2], m.span(1), m.start(), m.end('k'), m.groups(), m.groupdict(), m.lastgroup, re.sub('a', 'x', 'aa'), \
        re.split(',', 'a,b'), [x.group() for x in re.finditer('a', 'aba')], re.findall('a(b)?', 'aab'), re.escape('a.b'), \
        re.compile('^a$', re.MULTILINE).search('b\na').start(), re.fullmatch('a', 'ab')


def t_numbers():
    return 7 // 2, 7 % 3, -7 // 2, 2 ** 3, 1 if 2 > 1 > 0 else 3, not 0, None or 4, 0 and 5, math.inf > 5, int('3') + 1, 5 & 3, 1 << 2, True + 1, \
        bool([]), float('inf') > 1, 3 != 4, ~1


def t_args(*args, **kw):
    def f(a, /, b, *, c=3, **rest):
        return a, b, c, rest
    return f(1, 2), f(1, b=2, c=4, d=5), f(*[1, 2], **{'c': 0})


def t_global():
    global COUNT
    COUNT = 1
    COUNT += 1
    return COUNT


COUNT = 0


def t_sorted():
    return sorted('bca'), sorted([(1, 'b'), (1, 'a')]), sorted([3, 1], reverse=True), sorted(['b', 'A'], key=str.lower), \
        list(enumerate(['a'], start=1)), list(map(str, [1])), tuple([1]), list((1, 2)), list('ab'), set('a') == {'a'}


def t_assert():
    try:
        assert 1 == 2, 'no'
    except AssertionError as e:
        return str(e)


def t_chain():
    x = ChainMap({'a': 1}, {'b': 2})
    return x['b'], 'a' in x


def t_vars():
    class X:
        pass
    x = X()
    x.a = 1
    setattr(x, 'b', 2)
    delattr(x, 'a')
    return vars(x), x.__dict__ == {'b': 2}, dir is not None, id(x) == id(x)


def t_slices():
    s = slice(1, 3)
    return [0, 1, 2, 3][s], 'abcd'[::2], (1, 2, 3)[-2:], [1, 2, 3, 4][1:-1]


def t_compare():
    return (1, 2) < (1, 3), 'a' == 'a', [1, [2]] == [1, [2]], {'a': 1} == {'a': 1}, None is None, (1,) + (2,), (0,) * 2, 1 == 1.0, {'a': [1]} != {'a': [2]}


def t_lambda_default():
    f = lambda *a, **k: (a, k)
    return f(1, x=2), (lambda: 3)(), [(lambda y: y * 2)(z) for z in (1, 2)]


def t_nested():
    d = {'r': {'l': (1, 2)}}
    d['r']['m'] = d['r']['l'][0] + 1
    a, b = d['r']['l']
    d['r'].setdefault('n', {})['o'] = 1
    return d, a, b


def t_while_iter():
    it = iter([1, 2, 3])
    out = []
    while True:
        try:
            out.append(next(it))
        except StopIteration:
            break
    for x in it:
        out.append(x)
    return out


def t_with():
    class Ctx:
        def __enter__(self):
            return 5

        def __exit__(self, *exc):
            return True
    out = []
    with Ctx() as c:
        out.append(c)
        raise ValueError
    return out


def t_augment():
    d = {'a': 1}
    d['a'] += 1
    l = [[0]]
    l[0] += [1]
    s = 'a'
    s += 'b'
    return d, l, s
