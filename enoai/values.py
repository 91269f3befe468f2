"""Abstract values.

Scalars are constants (C), enum members (E) or opaque terms (T) that carry the
provenance of the value (which regex group, which dictionary field, ...).
Everything mutable lives in the abstract heap and is referred to by R(addr).
"""
import functools


class V:
    __slots__ = ('_h', '_k', '_r')

    def key(self):
        raise NotImplementedError

    def __eq__(self, other):
        if self is other:
            return True
        if not isinstance(other, V) or type(other) is not type(self):
            return False
        return hash(self) == hash(other) and self.key() == other.key()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h


class C(V):
    """A Python constant (None, bool, int, float, str, bytes, Ellipsis)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (type(self.v).__name__, self.v)

    def __repr__(self):
        return repr(self.v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


class E(V):
    """Member of an Enum class of the analysed program."""
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def key(self):
        return (self.cls, self.name)

    def __repr__(self):
        return f'{self.name}'


class R(V):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def key(self):
        return self.a

    def __repr__(self):
        return f'@{self.a}'


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return self.items

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class T(V):
    """Opaque scalar term.  kind: str int bool any callable."""
    __slots__ = ('kind', 'op', 'args', 'opt')

    def __init__(self, kind, op, args=(), opt=False):
        self.kind, self.op, self.args, self.opt = kind, op, tuple(args), opt

    def key(self):
        return (self.op, self.args)          # opt/kind do not affect identity

    def nonnull(self):
        if not self.opt:
            return self
        return T(self.kind, self.op, self.args, False)

    def __repr__(self):
        if self.op == 'lin':
            c, terms = self.args
            parts = [f'{"" if k == 1 else "-" if k == -1 else str(k) + "*"}{t!r}' for t, k in terms]
            if c:
                parts.append(str(c))
            return '(' + '+'.join(parts) + ')'
        if self.op == 'field':
            return f'{self.args[0]!r}.{self.args[1]}'
        return f'{self.op}{self.args!r}' if self.args else self.op


class F(V):
    """A function: AST node + defining environment + evaluated defaults."""
    __slots__ = ('node', 'env', 'defaults', 'kwdefaults', 'name', 'module', 'qual')

    def __init__(self, node, env, defaults, kwdefaults, name, module, qual):
        self.node, self.env, self.defaults, self.kwdefaults = node, env, tuple(defaults), tuple(kwdefaults)
        self.name, self.module, self.qual = name, module, qual

    def key(self):
        return (self.module, self.qual, getattr(self.node, 'lineno', 0), getattr(self.node, 'col_offset', 0),
                self.env, self.defaults)

    def __repr__(self):
        return f'<fn {self.qual}>'


class BM(V):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_

    def key(self):
        return (self.fn, self.self)

    def __repr__(self):
        return f'<bound {self.fn!r} of {self.self!r}>'


class B(V):
    """A builtin function, builtin class, or method of a builtin ('str.rjust')."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return f'<builtin {self.name}>'


class W(V):
    """Decorator wrapper: staticmethod / classmethod / property / partial."""
    __slots__ = ('what', 'fn', 'extra')

    def __init__(self, what, fn, extra=()):
        self.what, self.fn, self.extra = what, fn, tuple(extra)

    def key(self):
        return (self.what, self.fn, self.extra)

    def __repr__(self):
        return f'<{self.what} {self.fn!r}>'


class M(V):
    """Module."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def key(self):
        return self.name

    def __repr__(self):
        return f'<module {self.name}>'


class Sup(V):
    __slots__ = ('cls', 'self')

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_

    def key(self):
        return (self.cls, self.self)


class Slc(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return (self.lo, self.hi, self.step)


class Top(V):
    """No information.  Operations on Top yield Top and are counted."""
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def key(self):
        return ()

    def __repr__(self):
        return 'TOP'


# ---------------------------------------------------------------- integers
def _tk(t):
    try:
        return t._k
    except AttributeError:
        t._k = repr(t)
        return t._k


def pure(v):
    """a scalar that mentions no object of the heap"""
    try:
        return v._r
    except AttributeError:
        pass
    if isinstance(v, (C, E)):
        r = True
    elif isinstance(v, T):
        r = _pure_args(v.args)
    elif isinstance(v, Tup):
        r = all(pure(x) for x in v.items)
    else:
        r = False
    v._r = r
    return r


def _pure_args(xs):
    for x in xs:
        if isinstance(x, V):
            if not pure(x):
                return False
        elif isinstance(x, tuple):
            if not _pure_args(x):
                return False
    return True


def lin(v):
    """-> (const, {atom: coef}) or None"""
    if isinstance(v, C):
        if isinstance(v.v, bool):
            return int(v.v), {}
        if isinstance(v.v, int):
            return v.v, {}
        return None
    if isinstance(v, T) and v.kind == 'int':
        if v.op == 'lin':
            return v.args[0], dict(v.args[1])
        return 0, {v.nonnull(): 1}
    return None


def mklin(c, atoms):
    atoms = {a: k for a, k in atoms.items() if k}
    if not atoms:
        return C(c)
    if c == 0 and len(atoms) == 1:
        (a, k), = atoms.items()
        if k == 1:
            return a
    return T('int', 'lin', (c, tuple(sorted(atoms.items(), key=lambda p: _tk(p[0])))))


def linadd(x, y, sign=1):
    c = x[0] + sign * y[0]
    d = dict(x[1])
    for a, k in y[1].items():
        d[a] = d.get(a, 0) + sign * k
    return c, {a: k for a, k in d.items() if k}


# ---------------------------------------------------------------- strings
def concat(parts):
    """Normalised string concatenation of str-valued values."""
    flat = []
    for p in parts:
        if isinstance(p, T) and p.op == 'concat':
            flat.extend(p.args)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, C):
            if p.v == '':
                continue
            if out and isinstance(out[-1], C):
                out[-1] = C(out[-1].v + p.v)
                continue
        elif isinstance(p, T):
            p = p.nonnull()
        out.append(p)
    if not out:
        return C('')
    if len(out) == 1:
        return out[0]
    return T('str', 'concat', out)


SOFT = {'find', 'rfind', 'count', 'char', 'in', 'slice', 'cross', 'away', 'border', 'beyond', 'awayend'}


@functools.lru_cache(maxsize=None)
def soft(t):
    """an operation on the text of the document that the line model does not decide"""
    op = doc = False
    for x in subterms(t):
        if isinstance(x, T):
            op = op or x.op in SOFT or x.op.startswith('m:')
            doc = doc or x.op == 'part'
    return op and doc


def subterms(v):
    """All values nested inside a value."""
    yield v
    if isinstance(v, T):
        if v.op == 'lin':
            for t, _k in v.args[1]:
                yield from subterms(t)
        else:
            for x in v.args:
                if isinstance(x, V):
                    yield from subterms(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, V):
                            yield from subterms(y)
    elif isinstance(v, Tup):
        for x in v.items:
            yield from subterms(x)
    elif isinstance(v, BM):
        yield from subterms(v.self)
    elif isinstance(v, W):
        for x in v.extra:
            if isinstance(x, V):
                yield from subterms(x)


def symbolic(v):
    """a key whose equality with another one is not settled by its structure"""
    return isinstance(v, T) or isinstance(v, Tup) and any(symbolic(x) for x in v.items)
