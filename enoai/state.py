"""Abstract states: heap + facts about opaque terms.

Facts are: nullness, truthiness, equality of terms, and a small numeric
domain (interval sets over linear forms, with difference-bound closure).
"""
from collections import ChainMap
from .values import *

NONNEG = {'len', 'find', 'mb', 'me', 'line', 'pos', 'rlo', 'rhi', 'count', 'nat'}
INF = None


# ------------------------------------------------------------ interval sets
def _lo(a, b):
    return a if b is None else b if a is None else max(a, b)


def _hi(a, b):
    return a if b is None else b if a is None else min(a, b)


def iv_meet(x, y):
    out = []
    for a, b in x:
        for c, d in y:
            lo, hi = _lo(a, c), _hi(b, d)
            if lo is None or hi is None or lo <= hi:
                out.append((lo, hi))
    return tuple(out)


def iv_sat(op, k):
    """{ s | s op k }"""
    return {'<': ((None, k - 1),), '<=': ((None, k),), '>': ((k + 1, None),), '>=': ((k, None),),
            '==': ((k, k),), '!=': ((None, k - 1), (k + 1, None))}[op]


NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
ALLIV = ((None, None),)


# ------------------------------------------------------------ heap objects
class EnvO:
    __slots__ = ('vars', 'parent', 'kind', 'mod')

    def __init__(self, vars, parent, kind, mod):
        self.vars, self.parent, self.kind, self.mod = vars, parent, kind, mod

    def copy(self):
        return EnvO(dict(self.vars), self.parent, self.kind, self.mod)


class ClsO:
    __slots__ = ('name', 'mod', 'bases', 'attrs', 'enum')

    def __init__(self, name, mod, bases, attrs, enum=False):
        self.name, self.mod, self.bases, self.attrs, self.enum = name, mod, bases, attrs, enum

    def copy(self):
        return ClsO(self.name, self.mod, self.bases, dict(self.attrs), self.enum)


class InstO:
    __slots__ = ('cls', 'attrs', 'ghost')

    def __init__(self, cls, attrs, ghost=None):
        self.cls, self.attrs, self.ghost = cls, attrs, ghost or {}

    def copy(self):
        return InstO(self.cls, dict(self.attrs), dict(self.ghost))


class DictO:
    """keys: known-present entries; opt: undecided optional entries (Provider or V);
    variants: undecided alternatives of shapes; sym: entries with symbolic keys;
    rest: provider of further unknown symbolic entries."""
    __slots__ = ('keys', 'opt', 'variants', 'sym', 'rest', 'tag', 'ghost', 'kind')

    def __init__(self, keys=None, opt=None, variants=None, sym=(), rest=None, tag='', ghost=None, kind='dict'):
        self.keys = keys if keys is not None else {}
        self.opt = opt if opt is not None else {}
        self.variants, self.sym, self.rest, self.tag = variants, sym, rest, tag
        self.ghost = ghost or {}
        self.kind = kind

    def copy(self):
        return DictO(dict(self.keys), dict(self.opt), self.variants, self.sym, self.rest, self.tag,
                     dict(self.ghost), self.kind)


class ListO:
    __slots__ = ('items', 'tag', 'ghost', 'kind')

    def __init__(self, items=(), tag='', ghost=None, kind='list'):
        self.items, self.tag, self.ghost, self.kind = tuple(items), tag, ghost or {}, kind

    def copy(self):
        return ListO(self.items, self.tag, dict(self.ghost), self.kind)


class GenO:
    """A started generator function: runs when it is first consumed."""
    __slots__ = ('fn', 'frame', 'env', 'qn')

    def __init__(self, fn, frame, env, qn):
        self.fn, self.frame, self.env, self.qn = fn, frame, env, qn

    def copy(self):
        return GenO(self.fn, self.frame, self.env, self.qn)


class ArrO:
    """list of symbolic length: [default] * n with recorded symbolic writes"""
    __slots__ = ('length', 'default', 'writes', 'tag')

    def __init__(self, length, default, writes=(), tag=''):
        self.length, self.default, self.writes, self.tag = length, default, writes, tag

    def copy(self):
        return ArrO(self.length, self.default, self.writes, self.tag)


class MatO:
    """A successful regex match: `variants` = group-participation sets still possible."""
    __slots__ = ('info', 'string', 'pos', 'variants', 'whole')

    def __init__(self, info, string, pos, variants, whole):
        self.info, self.string, self.pos, self.variants, self.whole = info, string, pos, variants, whole

    def copy(self):
        return MatO(self.info, self.string, self.pos, self.variants, self.whole)


class DocMat:
    """A successful match on a line of an abstract document: group -> None or (text, begin, end)."""
    __slots__ = ('groups', 'names', 'string', 'pos', 'ngroups')

    def __init__(self, groups, names, string, pos, ngroups):
        self.groups, self.names, self.string, self.pos, self.ngroups = groups, names, string, pos, ngroups

    def copy(self):
        return DocMat(self.groups, self.names, self.string, self.pos, self.ngroups)


class Seg:
    """'minimum or more' further list elements, each made by `prov`."""
    __slots__ = ('prov', 'min')

    def __init__(self, prov, min=0):
        self.prov, self.min = prov, min

    def __eq__(self, o):
        return isinstance(o, Seg) and o.prov.name == self.prov.name and o.min == self.min

    def __hash__(self):
        return hash((self.prov.name, self.min))

    def __repr__(self):
        return f'Seg({self.prov.name}>={self.min})'


class Provider:
    """fn(engine, state, owner_addr, key) -> V ; deterministic."""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<{self.name}>'


class State:
    __slots__ = ('base', 'heap', 'none', 'truth', 'eqs', 'iv', 'subs', 'log', 'nxt', 'frozen', 'taint', 'gens', 'graph')

    def __init__(self):
        self.base = {}
        self.heap = {}
        self.none, self.truth, self.eqs, self.iv, self.subs = {}, {}, {}, {}, {}
        self.graph = None        # difference constraints of iv as a graph, until iv changes
        self.log = ()
        self.gens = {}           # generator expressions already consumed: Gen -> number of elements taken (None: all)
        self.nxt = 1
        self.taint = False       # a branch was taken on unknown information
        self.frozen = 0          # addresses below this belong to import time

    def fork(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.none, s.truth, s.eqs = dict(self.none), dict(self.truth), dict(self.eqs)
        s.iv, s.subs, s.graph = dict(self.iv), dict(self.subs), self.graph
        s.gens = dict(self.gens) if self.gens else {}
        s.log, s.nxt, s.frozen, s.taint = self.log, self.nxt, self.frozen, self.taint
        return s

    def freeze(self):
        """End of import: everything allocated so far becomes the shared base heap."""
        b = dict(self.base)
        b.update(self.heap)
        self.base, self.heap = b, {}
        self.frozen = self.nxt

    def get(self, a):
        o = self.heap.get(a)
        return o if o is not None else self.base[a]

    def alloc(self, obj):
        a = self.nxt
        self.nxt += 1
        self.heap[a] = obj
        return R(a)

    def mut(self, a):
        """private copy of object a for writing"""
        o = self.get(a).copy()
        self.heap[a] = o
        return o

    def event(self, *e):
        self.log = self.log + (e,)

    # ---------------------------------------------------- integers
    def norm(self, form):
        c, atoms = form
        for _ in range(50):
            for a in atoms:
                if a in self.subs:
                    k = atoms[a]
                    rest = {x: y for x, y in atoms.items() if x is not a and x != a}
                    sc, sa = self.subs[a]
                    c, atoms = linadd((c, rest), (k * sc, {x: k * y for x, y in sa.items()}))
                    break
            else:
                break
        return c, atoms

    @staticmethod
    def _canon(atoms):
        """-> (sign, key) with key an ordered tuple whose first coefficient is positive"""
        items = sorted(atoms.items(), key=lambda p: repr(p[0]))
        sign = 1 if items[0][1] > 0 else -1
        return sign, tuple((a, k * sign) for a, k in items)

    def form_iv(self, key):
        iv = self.iv.get(key, ALLIV)
        lo, hi = self._closure(key)
        return iv_meet(iv, ((lo, hi),))

    @staticmethod
    def _node(nodes, low, t):
        i = nodes.get(t)
        if i is None:
            i = nodes[t] = len(nodes)
            if t.op in NONNEG:
                low.add(i)
        return i

    @staticmethod
    def _ends(key):
        """(x, y) of a form x - y or x (y None), else None"""
        if len(key) == 1 and key[0][1] == 1:
            return key[0][0], None
        if len(key) == 2 and key[0][1] == 1 and key[1][1] == -1:
            return key[0][0], key[1][0]

    def _graph(self):
        """({atom: number}, {number: edges}, later edges, atoms that are not negative); atom None is zero"""
        nodes, low, succ = {None: 0}, set(), {}
        for key, iv in self.iv.items():
            if not iv:
                continue
            xy = self._ends(key)
            if xy is None:
                continue
            lo, hi = iv[0][0], iv[-1][1]
            i, j = self._node(nodes, low, xy[0]), self._node(nodes, low, xy[1])
            if hi is not None:
                succ.setdefault(j, []).append((i, hi))
            if lo is not None:
                succ.setdefault(i, []).append((j, -lo))
        return nodes, succ, (), low

    def _closure(self, key):
        """bounds (lo, hi) of the form from difference constraints"""
        xy = self._ends(key)
        if xy is None:
            # sum of single-atom bounds
            lo = hi = 0
            for a, k in key:
                al, ah = self._closure(((a, 1),))
                if k < 0:
                    al, ah = ah, al
                lo = None if lo is None or al is None else lo + k * al
                hi = None if hi is None or ah is None else hi + k * ah
            return lo, hi
        x, y = xy
        if self.graph is None:
            self.graph = self._graph()
        nodes, succ, extra, low = self.graph
        if x not in nodes and (y is None or y not in nodes):
            return (0 if y is None and x.op in NONNEG else None), None
        x, y = self._node(nodes, low, x), self._node(nodes, low, y)
        if extra:
            new = {}
            for u, v, w in extra:
                if u not in new:
                    new[u] = list(succ.get(u, ()))
                new[u].append((v, w))
            succ = ChainMap(new, succ)

        def sp(src, dst):
            dist, todo = {src: 0}, [src]
            for _ in range(len(nodes) + 1):
                nxt = []
                for u in todo:
                    d = dist[u]
                    for v, w in (*succ.get(u, ()), (0, 0)) if u in low else succ.get(u, ()):
                        if v not in dist or d + w < dist[v]:
                            dist[v] = d + w
                            nxt.append(v)
                if not nxt:
                    break
                todo = nxt
            return dist.get(dst)
        hi = sp(y, x)
        lo = sp(x, y)
        return (None if lo is None else -lo), hi

    def compare(self, op, a, b):
        """a op b over integers -> list of (bool, state); None if not integers"""
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return None
        c, atoms = self.norm(linadd(la, lb, -1))
        if not atoms:
            return [({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op], self)]
        sign, key = self._canon(atoms)
        # sign*S + c op 0   with S = key form
        k = -c * sign
        o = op if sign > 0 else {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
        iv = self.form_iv(key)
        pos, neg = iv_meet(iv, iv_sat(o, k)), iv_meet(iv, iv_sat(NEG[o], k))
        if pos and not neg:
            return [(True, self)]
        if neg and not pos:
            return [(False, self)]
        if not pos and not neg:
            return []
        if any(isinstance(t, T) and soft(t) for t in atoms):
            self.taint = True
        s2 = self.fork()
        self._set(key, pos)
        s2._set(key, neg)
        return [(True, self), (False, s2)]

    def _set(self, key, iv):
        self.iv[key] = iv
        grown, self.graph = self.graph, None
        if grown is not None and len(grown[2]) < 24 and iv and (iv[0][0] is None or iv[0][0] != iv[-1][1]):
            nodes, succ, extra, low = grown
            xy = self._ends(key)
            if xy is not None:
                lo, hi = iv[0][0], iv[-1][1]
                i, j = self._node(nodes, low, xy[0]), self._node(nodes, low, xy[1])
                extra += (() if hi is None else ((j, i, hi),)) + (() if lo is None else ((i, j, -lo),))
            self.graph = nodes, succ, extra, low
        if len(iv) == 1 and iv[0][0] is not None and iv[0][0] == iv[0][1]:
            val = iv[0][0]
            # substitute one unit-coefficient atom (the last one) by the rest
            cand = [(a, k) for a, k in key if abs(k) == 1]
            if cand:
                a, k = cand[-1]
                rest = {x: -y * k for x, y in key if x != a}
                self.subs[a] = (val * k, rest)
                old = self.iv
                self.iv = {}
                for kk, v in old.items():
                    if kk == key:
                        continue
                    c2, at2 = self.norm((0, dict(kk)))
                    if not at2:
                        continue
                    sg, nk = self._canon(at2)
                    # sg*form(nk) + c2 in v
                    moved = []
                    for lo, hi in v:
                        lo2 = None if lo is None else lo - c2
                        hi2 = None if hi is None else hi - c2
                        if sg < 0:
                            lo2, hi2 = (None if hi2 is None else -hi2), (None if lo2 is None else -lo2)
                        moved.append((lo2, hi2))
                    moved = tuple(sorted(moved, key=lambda p: (p[0] is not None, p[0] or 0)))
                    self.iv[nk] = iv_meet(self.iv.get(nk, ALLIV), moved)

    def eqclass(self, x):
        """terms known to be equal to x (transitively); facts about marker constants (tuples) do not count"""
        seen, todo = {x}, [x]
        while todo:
            y = todo.pop()
            for k, tv in self.eqs.items():
                if tv and y in k:
                    for z in k:
                        if z not in seen and not (isinstance(z, C) and isinstance(z.v, tuple)):
                            seen.add(z)
                            todo.append(z)
        return seen

    def known_eq(self, x, y):
        """True / False when the recorded facts settle x == y, else None"""
        if x == y:
            return True
        if not self.eqs:
            return None
        cx = self.eqclass(x)
        if y in cx:
            return True
        cy = self.eqclass(y)
        kx, ky = [z for z in cx if isinstance(z, C)], [z for z in cy if isinstance(z, C)]
        if kx and ky and kx[0] != ky[0]:
            return False
        for k, tv in self.eqs.items():
            if not tv and len(k) == 2:
                p, q = tuple(k)
                if p in cx and q in cy or q in cx and p in cy:
                    return False
        return None

    def assume(self, op, a, b):
        """constrain; returns False if contradictory"""
        r = self.compare_probe(op, a, b)
        if r is None:
            return True
        return r

    def compare_probe(self, op, a, b):
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return None
        c, atoms = self.norm(linadd(la, lb, -1))
        if not atoms:
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
        sign, key = self._canon(atoms)
        k = -c * sign
        o = op if sign > 0 else {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
        pos = iv_meet(self.form_iv(key), iv_sat(o, k))
        if not pos:
            return False
        self._set(key, pos)
        return True

    def proves(self, op, a, b):
        la, lb = lin(a), lin(b)
        if la is None or lb is None:
            return False
        c, atoms = self.norm(linadd(la, lb, -1))
        if not atoms:
            return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0, '!=': c != 0}[op]
        sign, key = self._canon(atoms)
        k = -c * sign
        o = op if sign > 0 else {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
        return not iv_meet(self.form_iv(key), iv_sat(NEG[o], k))

    def inteq(self, a, b):
        """provably equal integers (or structurally equal)"""
        if a == b:
            return True
        return self.proves('==', a, b)
