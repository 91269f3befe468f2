"""Expression transfer functions of the abstract interpreter (mixin of Engine)."""
import ast
import builtins as pybuiltins
import re
from .values import *
from .state import *
from . import regex as rx


class Gen(V):
    """A generator expression, consumed lazily: AST node, creating frame, first iterable."""
    __slots__ = ('node', 'fr', 'it')

    def __init__(self, node, fr, it):
        self.node, self.fr, self.it = node, fr, it

    def key(self):
        return (id(self.node), self.fr.env, self.it)

    def __repr__(self):
        return f'<genexpr line {self.node.lineno}>'


class ExprMixin:
    # ------------------------------------------------------------ dispatch
    def ev(self, n, fr, st, out):
        self.steps += 1
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            from .interp import Unsupported
            raise Unsupported(f'{type(n).__name__} at {self.site(n, fr)}')
        return m(n, fr, st, out)

    def evlist(self, nodes, fr, st, out):
        """yield (list of values, state), left to right"""
        if not nodes:
            yield [], st
            return
        head, rest = nodes[0], nodes[1:]
        if isinstance(head, ast.Starred):
            for v, s in self.ev(head.value, fr, st, out):
                for vals, s1 in self.iterate(v, s, out, head, fr):
                    for more, s2 in self.evlist(rest, fr, s1, out):
                        yield vals + more, s2
            return
        for v, s in self.ev(head, fr, st, out):
            for more, s2 in self.evlist(rest, fr, s, out):
                yield [v] + more, s2

    # ------------------------------------------------------------ atoms
    def ex_Constant(self, n, fr, st, out):
        yield C(n.value), st

    def ex_Name(self, n, fr, st, out):
        v = self.lookup(n.id, fr, st)
        if v == 'unboundlocal':
            self.throw(out, st, 'UnboundLocalError', f"cannot access local variable '{n.id}' before it is assigned",
                       n, fr)
        elif v is None:
            self.throw(out, st, 'NameError', f"name '{n.id}' is not defined", n, fr)
        else:
            yield v, st

    def ex_Tuple(self, n, fr, st, out):
        for vals, s in self.evlist(n.elts, fr, st, out):
            yield Tup(vals), s

    def ex_List(self, n, fr, st, out):
        for vals, s in self.evlist(n.elts, fr, st, out):
            yield s.alloc(ListO(vals)), s

    def ex_Set(self, n, fr, st, out):
        for vals, s in self.evlist(n.elts, fr, st, out):
            ded = []
            for v in vals:
                if v not in ded:
                    ded.append(v)
            yield s.alloc(ListO(ded, kind='set')), s

    def ex_Dict(self, n, fr, st, out):
        def go(pairs, r, s):
            if not pairs:
                yield r, s
                return
            (k, v), rest = pairs[0], pairs[1:]
            if k is None:
                for d, s1 in self.ev(v, fr, s, out):
                    for s2 in self.dupdate(r.a, d, s1, out, n, fr):
                        yield from go(rest, r, s2)
                return
            for kv, s1 in self.ev(k, fr, s, out):
                for vv, s2 in self.ev(v, fr, s1, out):
                    for s3 in self.dset(r.a, kv, vv, s2, n, fr):
                        yield from go(rest, r, s3)
        r = st.alloc(DictO({}, kind='dict'))
        yield from go(list(zip(n.keys, n.values)), r, st)

    def dupdate(self, a, d, st, out, node, fr):
        if isinstance(d, R) and isinstance(st.get(d.a), DictO):
            for s in self.settle(d.a, st):
                o = s.get(d.a)
                states = [s]
                for k, v in list(o.keys.items()) + list(o.sym):
                    states = [y for x in states for y in self.dset(a, k, v, x, node, fr)]
                yield from states
            return
        if isinstance(d, Top):
            self.vague('dict update from unknown', node, fr)
            yield st
            return
        for vals, s in self.iterate(d, st, out, node, fr):
            states = [s]
            for p in vals:
                nxt = []
                for x in states:
                    for kv, y in self.iterate(p, x, out, node, fr):
                        if len(kv) == 2:
                            nxt.extend(self.dset(a, kv[0], kv[1], y, node, fr))
                states = nxt
            yield from states

    def ex_JoinedStr(self, n, fr, st, out):
        def go(vals, acc, s):
            if not vals:
                yield concat(acc), s
                return
            v, rest = vals[0], vals[1:]
            if isinstance(v, ast.Constant):
                yield from go(rest, acc + [C(v.value)], s)
                return
            for x, s1 in self.ev(v.value, fr, s, out):
                spec = [(C(''), s1)]
                if v.format_spec is not None:
                    spec = list(self.ev(v.format_spec, fr, s1, out))
                for sp, s2 in spec:
                    if v.conversion == 114:
                        conv = list(self.to_repr(x, s2, out, n, fr))
                    else:
                        conv = list(self.to_str(x, s2, out, n, fr))
                    for y, s3 in conv:
                        if not (isinstance(sp, C) and sp.v == ''):
                            if isinstance(x, C) and isinstance(sp, C):
                                try:
                                    y = C(format(x.v, sp.v))
                                except Exception as e:
                                    self.throw(out, s3, type(e).__name__, str(e), n, fr)
                                    continue
                            else:
                                y = self.aligned(x, sp, s3)
                        yield from go(rest, acc + [y], s3)
        yield from go(n.values, [], st)

    def aligned(self, x, sp, st):
        """text x under a format specification: padding to a width as rjust/ljust, else opaque"""
        al = sp.v[:1] if isinstance(sp, C) else sp.args[0].v if isinstance(sp, T) and sp.op == 'concat' and \
            len(sp.args) == 2 and isinstance(sp.args[0], C) else ''
        if al in ('>', '<') and isinstance(x, T) and x.kind == 'str' and not x.opt:
            n = None
            if isinstance(sp, C) and sp.v[1:].isdigit():
                n = C(int(sp.v[1:]))
            elif isinstance(sp, T) and isinstance(sp.args[1], T) and sp.args[1].op == 'str' and len(sp.args[0].v) == 1:
                n = sp.args[1].args[0]
            if n is not None:
                return T('str', 'm:rjust' if al == '>' else 'm:ljust', (x, n))
        return T('str', 'format', (x, sp))

    def template_text(self, fields, args, kw, st, out, node, fr):
        """text of a format string whose fields [(literal, name, conversion)] are looked up in args and kw"""
        def go(i, acc, auto, s):
            if i == len(fields):
                yield concat(acc), s
                return
            lit, name, conv = fields[i]
            acc = acc + [C(lit)]
            if name is None:
                yield from go(i + 1, acc, auto, s)
                return
            if name == '':
                name, auto = str(auto), auto + 1
            x = args[int(name)] if name.isdigit() and int(name) < len(args) else kw.get(name)
            if x is None:
                self.throw(out, s, 'IndexError' if name.isdigit() else 'KeyError', f'format field {name}', node, fr)
                return
            for y, s2 in (self.to_repr if conv == 'r' else self.to_str)(x, s, out, node, fr):
                yield from go(i + 1, acc + [y], auto, s2)
        yield from go(0, [], 0, st)

    def ex_FormattedValue(self, n, fr, st, out):
        for v, s in self.ev(n.value, fr, st, out):
            yield from self.to_str(v, s, out, n, fr)

    def ex_Starred(self, n, fr, st, out):
        yield from self.ev(n.value, fr, st, out)

    def ex_NamedExpr(self, n, fr, st, out):
        for v, s in self.ev(n.value, fr, st, out):
            for s2 in self.setname(n.target.id, v, fr, s, n):
                yield v, s2

    def ex_Lambda(self, n, fr, st, out):
        yield from self.mkfunc(n, fr, st, out)

    def ex_Slice(self, n, fr, st, out):
        parts = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        for vals, s in self.evlist(parts, fr, st, out):
            yield Slc(*vals), s

    def ex_Index(self, n, fr, st, out):
        yield from self.ev(n.value, fr, st, out)

    # ------------------------------------------------------------ operators
    def ex_UnaryOp(self, n, fr, st, out):
        for v, s in self.ev(n.operand, fr, st, out):
            if isinstance(n.op, ast.Not):
                for b, s2 in self.truth(v, s):
                    yield C(not b), s2
            elif isinstance(v, C):
                try:
                    r = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(n.op)](v.v)
                    yield C(r), s
                except TypeError as e:
                    self.throw(out, s, 'TypeError', str(e), n, fr)
            elif lin(v) is not None:
                for w, s2 in self.deref(v, s):
                    if w == NONE:
                        self.throw(out, s2, 'TypeError', 'bad operand type for unary operator: NoneType', n, fr)
                    elif isinstance(n.op, ast.USub):
                        yield mklin(*linadd((0, {}), lin(w), -1)), s2
                    else:
                        yield w, s2
            else:
                self.vague('unary operator', n, fr)
                yield Top('unary'), s

    def ex_BoolOp(self, n, fr, st, out):
        is_and = isinstance(n.op, ast.And)

        def go(vals, s):
            for v, s1 in self.ev(vals[0], fr, s, out):
                if len(vals) == 1:
                    yield v, s1
                    continue
                for b, s2 in self.truth(v, s1):
                    if b is is_and:
                        yield from go(vals[1:], s2)
                    else:
                        yield self.refined(v, b, s2), s2
        yield from go(n.values, st)

    @staticmethod
    def refined(v, b, st):
        """value v known to have truth b"""
        if isinstance(v, T):
            if not b and v in st.none and st.none[v]:
                return NONE
            if v.kind == 'bool':
                return C(b)
            if not b and v.kind == 'callable':
                return NONE
        return v

    def ex_IfExp(self, n, fr, st, out):
        for v, s in self.ev(n.test, fr, st, out):
            for b, s2 in self.truth(v, s):
                yield from self.ev(n.body if b else n.orelse, fr, s2, out)

    def ex_Compare(self, n, fr, st, out):
        def go(left, ops, comps, s):
            for right, s1 in self.ev(comps[0], fr, s, out):
                for b, s2 in self.compare_op(ops[0], left, right, s1, out, n, fr):
                    if not isinstance(b, bool):
                        yield b, s2
                    elif not b or len(ops) == 1:
                        yield C(b), s2
                    else:
                        yield from go(right, ops[1:], comps[1:], s2)
        for l, s in self.ev(n.left, fr, st, out):
            yield from go(l, n.ops, n.comparators, s)

    def compare_op(self, op, a, b, st, out, node, fr):
        """yield (bool, state)"""
        if isinstance(op, ast.Is):
            yield from self.ident(a, b, st)
        elif isinstance(op, ast.IsNot):
            for r, s in self.ident(a, b, st):
                yield not r, s
        elif isinstance(op, ast.Eq):
            yield from self.eqv(a, b, st)
        elif isinstance(op, ast.NotEq):
            for r, s in self.eqv(a, b, st):
                yield not r, s
        elif isinstance(op, ast.In):
            yield from self.contains(b, a, st, out, node, fr)
        elif isinstance(op, ast.NotIn):
            for r, s in self.contains(b, a, st, out, node, fr):
                yield not r, s
        else:
            sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
            yield from self.order(sym, a, b, st, out, node, fr)

    def order(self, sym, a, b, st, out, node, fr):
        for x, s0 in self.deref(self.plain(a, st), st):
            for y, s in self.deref(self.plain(b, st), s0):
                meth = {'<': ('__lt__', '__gt__'), '<=': ('__le__', '__ge__'), '>': ('__gt__', '__lt__'),
                        '>=': ('__ge__', '__le__')}[sym]
                user = next(((f, p, q) for p, q, m in ((x, y, meth[0]), (y, x, meth[1]))
                             if isinstance(p, R) and isinstance(s.get(p.a), InstO)
                             for f in [self.class_attr(s.get(p.a).cls, m, s)[0]] if isinstance(f, F)), None)
                if user is not None:
                    for r, s1 in self.call(BM(user[0], user[1]), [user[2]], {}, s, fr, node, out):
                        yield from self.truth(r, s1)
                    continue
                if isinstance(x, R) and isinstance(y, R) and isinstance(s.get(x.a), ListO) and isinstance(s.get(y.a), ListO):
                    kinds = {s.get(x.a).kind, s.get(y.a).kind}
                    if kinds in ({'list'}, {'set'}):
                        for s1 in self.force(x.a, s):
                            for s2 in self.force(y.a, s1):
                                xs, ys = list(s2.get(x.a).items), list(s2.get(y.a).items)
                                if kinds == {'list'}:
                                    yield from self.order(sym, Tup(xs), Tup(ys), s2, out, node, fr)
                                    continue
                                if sym in ('>', '>='):
                                    xs, ys = ys, xs
                                ok, live = False, [s2]
                                for v in xs:
                                    nxt = []
                                    for z in live:
                                        for b, w in self.member(ys, v, z):
                                            if b:
                                                nxt.append(w)
                                            else:
                                                yield False, w
                                    live = nxt
                                for w in live:
                                    yield sym in ('<=', '>=') or len(xs) < len(ys), w
                        continue
                if isinstance(x, Tup) and isinstance(y, Tup) and not (x.items and y.items):
                    p, q = len(x.items), len(y.items)
                    yield {'<': p < q, '<=': p <= q, '>': p > q, '>=': p >= q}[sym], s
                    continue
                if isinstance(x, C) and isinstance(y, C):
                    try:
                        yield {'<': lambda: x.v < y.v, '<=': lambda: x.v <= y.v, '>': lambda: x.v > y.v,
                               '>=': lambda: x.v >= y.v}[sym](), s
                    except TypeError as e:
                        self.throw(out, s, 'TypeError', str(e), node, fr)
                    continue
                inf = None
                if isinstance(y, C) and isinstance(y.v, float) and lin(x) is not None:
                    if y.v in (float('inf'), float('-inf')):
                        inf = {'<': y.v > 0, '<=': y.v > 0, '>': y.v < 0, '>=': y.v < 0}[sym]
                elif isinstance(x, C) and isinstance(x.v, float) and lin(y) is not None:
                    if x.v in (float('inf'), float('-inf')):
                        inf = {'<': x.v < 0, '<=': x.v < 0, '>': x.v > 0, '>=': x.v > 0}[sym]
                if inf is not None:
                    yield inf, s
                    continue
                r = s.compare(sym, x, y)
                if r is not None:
                    yield from r
                    continue
                if isinstance(x, Tup) and isinstance(y, Tup) and x.items and y.items:
                    # lexicographic
                    for eq, s1 in self.eqv(x.items[0], y.items[0], s):
                        if eq:
                            if len(x.items) == 1 or len(y.items) == 1:
                                yield {'<': len(x.items) < len(y.items), '<=': len(x.items) <= len(y.items),
                                       '>': len(x.items) > len(y.items), '>=': len(x.items) >= len(y.items)}[sym], s1
                            else:
                                yield from self.order(sym, Tup(x.items[1:]), Tup(y.items[1:]), s1, out, node, fr)
                        else:
                            yield from self.order(sym, x.items[0], y.items[0], s1, out, node, fr)
                    continue
                bad = None
                for p in (x, y):
                    if isinstance(p, C) and (p.v is None or isinstance(p.v, str)) or isinstance(p, (E, F, M)) or \
                            isinstance(p, R) and isinstance(s.get(p.a), (DictO, InstO)):
                        bad = p
                q = y if bad is x else x
                if bad is not None and (lin(q) is not None or isinstance(q, C) and q.v is None):
                    self.throw(out, s, 'TypeError', f"'{sym}' not supported between {self.typename(x, s)} and "
                                                    f"{self.typename(y, s)}", node, fr)
                    continue
                if isinstance(x, T) and isinstance(y, T) or isinstance(x, (T, Top)) or isinstance(y, (T, Top)):
                    if isinstance(x, (T, C)) and isinstance(y, (T, C)):
                        t = T('bool', 'cmp' + sym, (x, y))
                        yield from self.truth(t, s)
                    else:
                        self.vague('comparison', node, fr)
                        yield True, s.fork()
                        yield False, s
                    continue
                self.vague('comparison', node, fr)
                yield True, s.fork()
                yield False, s

    def contains(self, cont, item, st, out, node, fr):
        if isinstance(cont, T) and cont.opt:
            for c, s in self.deref(cont, st):
                yield from self.contains(c, item, s, out, node, fr)
            return
        if isinstance(cont, R):
            o = st.get(cont.a)
            if isinstance(o, DictO):
                if isinstance(item, Top):
                    st.taint = True
                    yield True, st.fork()
                    yield False, st
                    return
                for p, _v, s in self.dget(cont.a, item, st):
                    yield p, s
                return
            if isinstance(o, GenO) or isinstance(o, ListO) and o.kind == 'iter':
                for vals, s in self.iterate(cont, st, out, node, fr):
                    yield from self.member(vals, item, s)
                return
            if isinstance(o, ListO):
                for s in self.force(cont.a, st):
                    yield from self.member(list(s.get(cont.a).items), item, s)
                return
            if isinstance(o, ArrO):
                st.taint = True
                yield True, st.fork()
                yield False, st
                return
            if isinstance(o, InstO):
                f, _ = self.class_attr(o.cls, '__contains__', st)
                if isinstance(f, F):
                    for r, s in self.call(BM(f, cont), [item], {}, st, fr, node, out):
                        yield from self.truth(r, s)
                    return
                f, _ = self.class_attr(o.cls, '__iter__', st)
                if isinstance(f, F):
                    for vals, s in self.iterate(cont, st, out, node, fr):
                        yield from self.member(vals, item, s)
                    return
            if isinstance(o, ClsO) and o.enum:
                yield from self.member([x for x in o.attrs.values() if isinstance(x, E)], item, st)
                return
            self.throw(out, st, 'TypeError', f'argument of type {self.typename(cont, st)} is not iterable', node, fr)
            return
        if isinstance(cont, Tup):
            yield from self.member(list(cont.items), item, st)
            return
        if isinstance(cont, C):
            if isinstance(cont.v, str):
                if isinstance(item, C):
                    if isinstance(item.v, str):
                        yield item.v in cont.v, st
                        return
                elif isinstance(item, T) and item.kind in ('str', 'any'):
                    if not cont.v and st.truth.get(item) is True:
                        yield False, st
                        return
                    yield from self.truth(T('bool', 'in', (item, cont)), st)
                    return
            elif isinstance(cont.v, (tuple, frozenset)):
                yield from self.member([C(x) for x in cont.v], item, st)
                return
            self.throw(out, st, 'TypeError', f'argument of type {self.typename(cont, st)} is not iterable', node, fr)
            return
        if isinstance(cont, T):
            if cont.kind == 'str' and isinstance(item, C) and not isinstance(item.v, str):
                self.throw(out, st, 'TypeError', "'in <string>' requires string as left operand", node, fr)
                return
            if cont.kind in ('str', 'any'):
                if cont.kind == 'str' and isinstance(item, C) and len(item.v) == 1:
                    al = self.alphabet_of(cont)
                    if al is not None and item.v not in al:
                        yield False, st
                        return
                if self.doc is not None:
                    r = self.doc.has(item, cont, st)
                    if r is not None:
                        yield r, st
                        return
                yield from self.truth(T('bool', 'in', (item, cont)), st)
                return
            self.throw(out, st, 'TypeError', f'argument of type {cont.kind} is not iterable', node, fr)
            return
        if isinstance(cont, Gen):
            for vals, s in self.iterate(cont, st, out, node, fr):
                yield from self.member(vals, item, s)
            return
        self.vague('membership test', node, fr)
        st.taint = True
        yield True, st.fork()
        yield False, st

    def alphabet_of(self, t):
        if t.op == 'grp':
            inf = self.regexes.get(t.args[0].v)
            if inf is not None:
                n = t.args[3].v
                return inf.alphabet(n)
        return None

    def member(self, vals, item, st):
        live = [st]
        for v in vals:
            nxt = []
            for s in live:
                for b, s1 in (self.ident(v, item, s) if v == item else self.eqv(item, v, s)):
                    if b:
                        yield True, s1
                    else:
                        nxt.append(s1)
            live = nxt
        for s in live:
            yield False, s

    def ex_BinOp(self, n, fr, st, out):
        for a, s in self.ev(n.left, fr, st, out):
            for b, s1 in self.ev(n.right, fr, s, out):
                yield from self.binop(n.op, a, b, s1, out, n, fr)

    def plain(self, v, st):
        """members of IntEnum / StrEnum stand for their value in arithmetic and comparisons"""
        if isinstance(v, E) and v.cls in self.enums and {'IntEnum', 'StrEnum', 'int', 'str'} & set(
                self.class_names(self.enums[v.cls], st)):
            return v.value
        return v

    DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.BitOr: 'or',
              ast.BitAnd: 'and', ast.BitXor: 'xor', ast.Div: 'truediv', ast.LShift: 'lshift', ast.RShift: 'rshift'}

    def binop(self, op, a, b, st, out, node, fr):
        a, b = self.plain(a, st), self.plain(b, st)
        for x, y, pre in ((a, b, '__'), (b, a, '__r')):
            if isinstance(x, R) and isinstance(st.get(x.a), InstO) and type(op) in self.DUNDER:
                f, _ = self.class_attr(st.get(x.a).cls, pre + self.DUNDER[type(op)] + '__', st)
                if isinstance(f, F):
                    yield from self.call(BM(f, x), [y], {}, st, fr, node, out)
                    return
        if isinstance(a, T) and a.opt or isinstance(b, T) and b.opt:
            for x, s in self.deref(a, st):
                for y, s2 in self.deref(b, s):
                    yield from self.binop(op, x, y, s2, out, node, fr)
            return
        if isinstance(a, C) and isinstance(b, C):
            import operator as o
            fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
                  ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor,
                  ast.LShift: o.lshift, ast.RShift: o.rshift}.get(type(op))
            try:
                yield C(fn(a.v, b.v)), st
            except Exception as e:
                self.throw(out, st, type(e).__name__, str(e), node, fr)
            return
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            if isinstance(op, ast.Add):
                yield mklin(*linadd(la, lb)), st
            elif isinstance(op, ast.Sub):
                yield mklin(*linadd(la, lb, -1)), st
            elif isinstance(op, ast.Mult) and (not la[1] or not lb[1]):
                k, f = (la[0], lb) if not la[1] else (lb[0], la)
                yield mklin(k * f[0], {x: k * y for x, y in f[1].items()}), st
            else:
                yield T('int', 'op' + type(op).__name__, (a, b)), st
            return
        sa = isinstance(a, C) and isinstance(a.v, str) or isinstance(a, T) and a.kind == 'str'
        sb = isinstance(b, C) and isinstance(b.v, str) or isinstance(b, T) and b.kind == 'str'
        if isinstance(op, ast.Add):
            if sa and sb:
                yield concat([a, b]), st
                return
            if (sa and isinstance(b, T) and b.kind == 'any') or (sb and isinstance(a, T) and a.kind == 'any'):
                # may fail in the caller's own value; treat as string concatenation
                yield concat([a, b]), st
                return
            if isinstance(a, Tup) and isinstance(b, Tup):
                yield Tup(a.items + b.items), st
                return
            if isinstance(a, R) and isinstance(b, R):
                oa, ob = st.get(a.a), st.get(b.a)
                if isinstance(oa, ListO) and isinstance(ob, ListO):
                    for s1 in self.force(a.a, st):
                        for s2 in self.force(b.a, s1):
                            yield s2.alloc(ListO(s2.get(a.a).items + s2.get(b.a).items)), s2
                    return
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Tup) and isinstance(y, C) and isinstance(y.v, int):
                    yield Tup(x.items * y.v), st
                    return
                if isinstance(x, R) and isinstance(st.get(x.a), ListO):
                    items = st.get(x.a).items
                    if isinstance(y, C) and isinstance(y.v, int):
                        yield st.alloc(ListO(items * y.v)), st
                        return
                    if lin(y) is not None and len(items) == 1 and not isinstance(items[0], Seg):
                        yield st.alloc(ArrO(y, items[0])), st
                        return
                if isinstance(x, C) and isinstance(x.v, str) and lin(y) is not None:
                    yield T('str', 'repeat', (x, y)), st
                    return
                if isinstance(x, T) and x.kind == 'str' and lin(y) is not None:
                    yield T('str', 'repeat', (x, y)), st
                    return
        if isinstance(op, ast.Mod) and isinstance(a, C) and isinstance(a.v, str):
            vals = list(b.items) if isinstance(b, Tup) else [b]
            bits = re.split(r'%([srd])', a.v)
            if '%' not in ''.join(bits[::2]) and len(bits) // 2 == len(vals) and not isinstance(b, R) and not any(
                    c == 'd' and lin(v) is None for c, v in zip(bits[1::2], vals)):
                fields = [(l, str(i) if i < len(vals) else None, 'r' if i < len(vals) and bits[2 * i + 1] == 'r' else None)
                          for i, l in enumerate(bits[::2])]
                yield from self.template_text(fields, vals, {}, st, out, node, fr)
                return
        if isinstance(op, ast.Mod) and sa:
            yield T('str', 'percent', (a, b)), st
            return
        if isinstance(op, (ast.BitOr, ast.Sub, ast.BitAnd, ast.BitXor)) and isinstance(a, R) and isinstance(b, R) and all(
                isinstance(st.get(x.a), ListO) and st.get(x.a).kind == 'set' for x in (a, b)):
            for s1 in self.force(a.a, st):
                for s2 in self.force(b.a, s1):
                    yield from self.set_op(type(op), list(s2.get(a.a).items), list(s2.get(b.a).items), s2)
            return
        if isinstance(op, ast.BitOr) and isinstance(a, R) and isinstance(b, R):
            oa, ob = st.get(a.a), st.get(b.a)
            if isinstance(oa, DictO) and isinstance(ob, DictO):
                r = st.alloc(DictO({}))
                for s in self.dupdate(r.a, a, st, out, node, fr):
                    for s2 in self.dupdate(r.a, b, s, out, node, fr):
                        yield r, s2
                return
        if isinstance(a, Top) or isinstance(b, Top) or isinstance(a, T) and a.kind == 'any' or \
                isinstance(b, T) and b.kind == 'any':
            self.vague('arithmetic on unknown', node, fr)
            yield Top('binop'), st
            return
        known = (C, E, Tup, F, M)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)) and all(
                isinstance(x, known) or isinstance(x, T) and x.kind in ('str', 'int', 'bool') or
                isinstance(x, R) and isinstance(st.get(x.a), (DictO, ClsO, InstO)) or
                isinstance(x, R) and isinstance(st.get(x.a), ListO) and st.get(x.a).kind == 'list' for x in (a, b)):
            ta, tb = self.typename(a, st), self.typename(b, st)
            self.throw(out, st, 'TypeError', f'unsupported operand type(s) for {type(op).__name__}: {ta} and {tb}',
                       node, fr)
            return
        self.vague(f'operator {type(op).__name__}', node, fr)
        yield Top('binop'), st

    def set_op(self, op, xs, ys, st):
        """| & - ^ of two sets (membership of symbolic members is decided by case distinction)"""
        def pick(vals, other, want, s):
            live = [([], s)]
            for v in vals:
                live = [(acc + [v] if b is want else acc, z) for acc, y in live for b, z in self.member(other, v, y)]
            return live
        if op is ast.BitAnd:
            res = pick(xs, ys, True, st)
        elif op is ast.Sub:
            res = pick(xs, ys, False, st)
        elif op is ast.BitOr:
            res = [(xs + more, s) for more, s in pick(ys, xs, False, st)]
        else:
            res = [(l + r, s2) for l, s in pick(xs, ys, False, st) for r, s2 in pick(ys, xs, False, s)]
        for vals, s in res:
            yield s.alloc(ListO(vals, kind='set')), s

    # ------------------------------------------------------------ subscripts
    def ex_Subscript(self, n, fr, st, out):
        for o, s in self.ev(n.value, fr, st, out):
            for k, s1 in self.ev(n.slice, fr, s, out):
                yield from self.getitem(o, k, s1, out, n, fr)

    def getitem(self, o, k, st, out, node, fr):
        if isinstance(o, T) and o.opt:
            for x, s in self.deref(o, st):
                yield from self.getitem(x, k, s, out, node, fr)
            return
        if isinstance(o, R):
            obj = st.get(o.a)
            if isinstance(obj, DictO):
                if isinstance(k, Top):
                    self.vague('unknown dictionary key', node, fr)
                    yield Top('item'), st
                    return
                if isinstance(k, R) and isinstance(st.get(k.a), (ListO, DictO)):
                    self.throw(out, st, 'TypeError', 'unhashable type', node, fr)
                    return
                for p, v, s in self.dget(o.a, k, st):
                    if p:
                        yield v, s
                    elif obj.kind == 'defaultdict':
                        d = obj.ghost.get('factory')
                        for v2, s2 in self.call(d, [], {}, s, fr, node, out):
                            for s3 in self.dset(o.a, k, v2, s2, node, fr):
                                yield v2, s3
                    else:
                        self.throw(out, s, 'KeyError', f'key {k!r} absent', node, fr)
                        s.mut(out[-1][1].a).attrs['args'] = Tup((k,))
                return
            if isinstance(obj, ListO):
                if isinstance(k, Slc) and obj.kind == 'list':
                    yield from self.slice_list(o.a, k, st, out, node, fr)
                    return
                yield from self.list_get(o.a, k, st, out, node, fr)
                return
            if isinstance(obj, ArrO):
                yield from self.arr_get(o.a, k, st, out, node, fr)
                return
            if isinstance(obj, DocMat):
                yield from self.docmatch('group', o, [k], st, out, node, fr)
                return
            if isinstance(obj, MatO):
                yield from self.match_group(o, k, st, out, node, fr)
                return
            if isinstance(obj, InstO):
                f, _ = self.class_attr(obj.cls, '__getitem__', st)
                if isinstance(f, F):
                    yield from self.call(BM(f, o), [k], {}, st, fr, node, out)
                    return
            if isinstance(obj, ClsO) and obj.enum and isinstance(k, C):
                if isinstance(obj.attrs.get(k.v), E):
                    yield obj.attrs[k.v], st
                else:
                    self.throw(out, st, 'KeyError', f'{k!r}', node, fr)
                return
            self.throw(out, st, 'TypeError', f"'{self.typename(o, st)}' object is not subscriptable", node, fr)
            return
        if isinstance(o, Tup):
            if isinstance(k, Slc):
                try:
                    yield Tup(o.items[self.pyslice(k)]), st
                except (TypeError, AttributeError):
                    self.vague('tuple slice', node, fr)
                    yield Top('slice'), st
                return
            if isinstance(k, C) and isinstance(k.v, int):
                if -len(o.items) <= k.v < len(o.items):
                    yield o.items[k.v], st
                else:
                    self.throw(out, st, 'IndexError', 'tuple index out of range', node, fr)
                return
            if lin(k) is not None:
                for i in range(len(o.items)):
                    live = st.fork()
                    for b, s in live.compare('==', k, C(i)):
                        if b:
                            yield o.items[i], s
                return
        if isinstance(o, C) and isinstance(o.v, (str, tuple)):
            if isinstance(k, C) and isinstance(k.v, int):
                try:
                    yield C(o.v[k.v]), st
                except IndexError:
                    self.throw(out, st, 'IndexError', 'string index out of range', node, fr)
                return
            if isinstance(k, Slc):
                try:
                    yield C(o.v[self.pyslice(k)]), st
                    return
                except (TypeError, AttributeError):
                    pass
                if self.doc is not None:
                    r = self.doc.slice(o, k.lo, k.hi, st)
                    if r is not None:
                        yield r, st
                        return
                yield T('str', 'slice', (o, k.lo, k.hi)), st
                return
        if isinstance(o, C):
            self.throw(out, st, 'TypeError', f"'{self.typename(o, st)}' object is not subscriptable", node, fr)
            return
        if isinstance(o, T) and o.kind == 'str':
            if isinstance(k, Slc):
                lo = k.lo if k.lo != NONE else C(0)
                if isinstance(lo, T) and lo.kind not in ('int', 'any') or isinstance(k.hi, T) and \
                        k.hi.kind not in ('int', 'any'):
                    self.throw(out, st, 'TypeError', 'slice indices must be integers', node, fr)
                    return
                if k.step != NONE and k.step != C(1):
                    yield T('str', 'slice3', (o, lo, k.hi, k.step)), st
                    return
                if self.doc is not None:
                    r = self.doc.slice(o, k.lo, k.hi, st)
                    if r is not None:
                        yield r, st
                        return
                yield T('str', 'slice', (o, lo, k.hi)), st
                return
            if lin(k) is None and not isinstance(k, Top):
                self.throw(out, st, 'TypeError', 'string indices must be integers', node, fr)
                return
            if lin(k) is not None and self.doc is not None:
                r = self.doc.char(o, k, st)
                if r is not None:
                    yield r, st
                    return
            if lin(k) is not None:
                n = self.strlen(o, st)
                if isinstance(k, C) and k.v < 0:
                    bad = st.compare('<', n, C(-k.v))
                else:
                    bad = st.compare('>=', k, n)
                for b, s in bad:
                    if b:
                        self.throw(out, s, 'IndexError', 'string index out of range', node, fr)
                    else:
                        yield T('str', 'char', (o, k)), s
                return
            yield T('str', 'char', (o, k)), st
            return
        if isinstance(o, T) and o.kind in ('int', 'bool', 'callable'):
            self.throw(out, st, 'TypeError', f"'{o.kind}' object is not subscriptable", node, fr)
            return
        if isinstance(o, (F, BM, M, E)):
            self.throw(out, st, 'TypeError', f"'{self.typename(o, st)}' object is not subscriptable", node, fr)
            return
        self.vague('subscript of unknown', node, fr)
        yield Top('item'), st

    def strlen(self, v, st):
        if isinstance(v, C):
            return C(len(v.v))
        if self.doc is not None:
            n = self.doc.len_of(v.nonnull())
            if n is not None:
                return n
        v = v.nonnull()
        t = T('int', 'len', (v,))
        tv = st.truth.get(v)
        if tv is True:
            st.assume('>=', t, C(1))
        elif tv is False:
            st.assume('==', t, C(0))
        return t

    @staticmethod
    def pyslice(k):
        return slice(*(x.v if isinstance(x, C) else (_ for _ in ()).throw(TypeError()) for x in (k.lo, k.hi, k.step)))

    def slice_list(self, a, k, st, out, node, fr):
        full = (k.lo == NONE or k.lo == C(0)) and k.hi == NONE and (k.step == NONE or k.step == C(1))
        if full:
            o = st.get(a)
            if isinstance(o, ListO):
                for s in self.force(a, st):
                    yield s.alloc(ListO(s.get(a).items, kind=o.kind)), s
                return
        for s in self.force(a, st):
            items = s.get(a).items
            try:
                yield s.alloc(ListO(items[self.pyslice(k)])), s
                continue
            except TypeError:
                pass
            # symbolic bounds: enumerate
            lo = k.lo if k.lo != NONE else C(0)
            hi = k.hi if k.hi != NONE else C(len(items))
            if k.step == NONE and lin(lo) is not None and lin(hi) is not None:
                done = False
                live = [s]
                for i in range(len(items) + 1):
                    for j in range(i, len(items) + 1):
                        s1 = s.fork()
                        if s1.assume('==', lo, C(i)) and s1.assume('==', hi, C(j)):
                            done = True
                            yield s1.alloc(ListO(items[i:j])), s1
                if done:
                    continue
            self.vague('list slice', node, fr)
            yield Top('slice'), s

    def list_get(self, a, k, st, out, node, fr):
        o = st.get(a)
        # fast paths that need not force the whole list
        if isinstance(k, C) and isinstance(k.v, int) and not isinstance(k.v, bool) and o.kind not in ('set', 'iter'):
            it = o.items
            if k.v >= 0 and len(it) > k.v and not any(isinstance(x, Seg) for x in it[:k.v + 1]):
                yield it[k.v], st
                return
            if k.v < 0 and len(it) >= -k.v and not any(isinstance(x, Seg) for x in it[k.v:]):
                yield it[k.v], st
                return
        if o.kind in ('set', 'iter'):
            self.throw(out, st, 'TypeError', f"'{o.kind}' object is not subscriptable", node, fr)
            return
        for s in self.force(a, st):
            items = s.get(a).items
            if isinstance(k, C) and isinstance(k.v, int):
                if -len(items) <= k.v < len(items):
                    yield items[k.v], s
                else:
                    self.throw(out, s, 'IndexError', 'list index out of range', node, fr)
            elif lin(k) is not None:
                for kk, s0 in self.deref(k, s):
                    if kk == NONE:
                        self.throw(out, s0, 'TypeError', 'list indices must be integers', node, fr)
                        continue
                    live = s0
                    hit = False
                    for i in range(-len(items), len(items)):
                        s1 = live.fork()
                        if s1.assume('==', kk, C(i)):
                            yield items[i], s1
                    s1 = live.fork()
                    if s1.assume('>=', kk, C(len(items))):
                        self.throw(out, s1, 'IndexError', 'list index out of range', node, fr)
                    s1 = live
                    if s1.assume('<', kk, C(-len(items))):
                        self.throw(out, s1, 'IndexError', 'list index out of range', node, fr)
            elif isinstance(k, Top):
                yield Top('item'), s
            else:
                self.throw(out, s, 'TypeError', f'list indices must be integers, not {self.typename(k, s)}', node, fr)

    def arr_get(self, a, k, st, out, node, fr):
        o = st.get(a)
        if isinstance(k, Slc):
            self.vague('array slice', node, fr)
            yield Top('slice'), st
            return
        if lin(k) is None:
            if isinstance(k, Top):
                yield Top('item'), st
                return
            self.throw(out, st, 'TypeError', 'list indices must be integers', node, fr)
            return
        ok = self.arr_inrange(o, k, st)
        if ok is False:
            s2 = st.fork()
            self.throw(out, s2, 'IndexError', f'index {k!r} not provably inside the list', node, fr)
        k2 = self.arr_key(o, k)
        live = st
        for x, v in reversed(o.writes):
            if x == k2 or live.inteq(x, k2):
                yield v, live
                return
            r = live.compare('==', x, k2)
            if r is None:
                continue
            nxt = None
            for b, s in r:
                if b:
                    yield v, s
                else:
                    nxt = s
            if nxt is None:
                return
            live = nxt
        if o.default is not None:
            yield o.default, live

    # ------------------------------------------------------------ attributes
    def ex_Attribute(self, n, fr, st, out):
        for o, s in self.ev(n.value, fr, st, out):
            yield from self.getattr_(o, n.attr, s, out, n, fr)

    def attr_error(self, o, name, st, out, node, fr):
        self.throw(out, st, 'AttributeError', f"'{self.typename(o, st)}' object has no attribute '{name}'", node, fr)

    def getattr_(self, o, name, st, out, node, fr):
        if isinstance(o, T) and o.opt:
            for x, s in self.deref(o, st):
                yield from self.getattr_(x, name, s, out, node, fr)
            return
        if isinstance(o, R):
            obj = st.get(o.a)
            if isinstance(obj, InstO):
                if self.opaque_attr is not None and isinstance(obj.cls, B) and obj.cls.name.startswith('opaque:'):
                    yield from self.opaque_attr(self, o, name, st, out, node, fr)
                    return
                cv, owner = self.class_attr(obj.cls, name, st)
                if isinstance(cv, W) and cv.what == 'property':
                    yield from self.call(BM(cv.fn, o), [], {}, st, fr, node, out)
                    return
                if name in obj.attrs:
                    yield obj.attrs[name], st
                    return
                opt = obj.ghost.get('opt')
                if opt and name in opt:
                    for p, v, s in self.inst_opt(o.a, name, st):
                        if p:
                            yield v, s
                        else:
                            yield from self.getattr_(o, name, s, out, node, fr)
                    return
                if name == '__class__':
                    yield obj.cls, st
                    return
                if name == '__dict__':
                    yield st.alloc(DictO({C(k): v for k, v in obj.attrs.items()})), st
                    return
                if cv is None or isinstance(cv, tuple):
                    if isinstance(cv, tuple):
                        b = cv[1]
                        if b.name in BUILTIN_EXC_NAMES and name in ('args', 'with_traceback', '__str__', '__init__',
                                                                    '__traceback__', '__cause__', '__context__'):
                            if name == 'args':
                                yield obj.attrs.get('args', Tup(())), st
                            else:
                                yield BM(B(f'{b.name}.{name}'), o), st
                            return
                        if name in ('__init__', '__str__', '__repr__', '__eq__', '__hash__', '__doc__', '__module__'):
                            yield BM(B(f'object.{name}'), o), st
                            return
                    g, _ = self.class_attr(obj.cls, '__getattr__', st)
                    if isinstance(g, F):
                        yield from self.call(BM(g, o), [C(name)], {}, st, fr, node, out)
                        return
                    self.attr_error(o, name, st, out, node, fr)
                    return
                yield self.bind(cv, o, obj.cls), st
                return
            if isinstance(obj, ClsO):
                cv, owner = self.class_attr(o, name, st)
                if name == '__name__' or name == '__qualname__':
                    yield C(obj.name), st
                    return
                if name == '__members__' and obj.enum:
                    yield st.alloc(DictO({C(k): v for k, v in obj.attrs.items() if isinstance(v, E)})), st
                    return
                if name == '__mro__':
                    yield Tup(self.mro(o, st)), st
                    return
                if cv is None or isinstance(cv, tuple):
                    if isinstance(cv, tuple) and name in ('__init__', '__new__', '__str__', '__repr__', '__doc__',
                                                          '__module__', '__setattr__', '__getattribute__'):
                        yield B(f'{cv[1].name}.{name}'), st
                        return
                    self.throw(out, st, 'AttributeError', f"type object '{obj.name}' has no attribute '{name}'",
                               node, fr)
                    return
                if isinstance(cv, W):
                    if cv.what == 'staticmethod':
                        yield cv.fn, st
                    elif cv.what == 'classmethod':
                        yield BM(cv.fn, o), st
                    else:
                        yield cv, st
                    return
                yield cv, st
                return
            if isinstance(obj, DocMat):
                if name in ('group', 'groups', 'groupdict', 'start', 'end', 'span'):
                    yield BM(B('match.' + name), o), st
                    return
                self.vague(f'match.{name}', node, fr)
                yield Top(name), st
                return
            if isinstance(obj, MatO):
                if name in ('group', 'groups', 'groupdict', 'start', 'end', 'span', 'expand'):
                    yield BM(B('match.' + name), o), st
                    return
                if name in ('string', 'pos', 'lastindex', 'lastgroup', 're', 'endpos'):
                    if name == 'string':
                        yield obj.string, st
                    elif name == 'pos':
                        yield obj.pos, st
                    elif name == 'lastindex':
                        yield T('int', 'lastindex', (C(obj.info.pattern), obj.string, obj.pos)), st
                    else:
                        yield Top(name), st
                    return
                self.attr_error(o, name, st, out, node, fr)
                return
            if isinstance(obj, GenO) or isinstance(obj, ListO) and obj.kind == 'iter':
                if name in ('__next__', '__iter__'):
                    yield BM(B(f'iter.{name}'), o), st
                elif isinstance(obj, GenO) and name in ('send', 'close', 'throw'):
                    self.vague(f'generator.{name}', node, fr)
                    yield Top(name), st
                else:
                    self.attr_error(o, name, st, out, node, fr)
                return
            kind = 'dict' if isinstance(obj, DictO) else getattr(obj, 'kind', 'list') if isinstance(obj, ListO) \
                else 'list'
            if isinstance(obj, EnvO):
                self.vague('attribute of environment', node, fr)
                yield Top(), st
                return
            if hasattr(getattr(pybuiltins, kind, list), name):
                yield BM(B(f'{kind}.{name}'), o), st
            else:
                self.attr_error(o, name, st, out, node, fr)
            return
        if isinstance(o, M):
            yield from self.module_attr(o, name, st, out, node, fr)
            return
        if isinstance(o, Sup):
            cv, owner = self.class_attr(st.get(o.self.a).cls if isinstance(st.get(o.self.a), InstO) else o.self,
                                        name, st, after=o.cls)
            if cv is None:
                self.throw(out, st, 'AttributeError', f"'super' object has no attribute '{name}'", node, fr)
            elif isinstance(cv, tuple):
                yield BM(B(f'{cv[1].name}.{name}'), o.self), st
            elif isinstance(cv, W) and cv.what == 'property':
                yield from self.call(BM(cv.fn, o.self), [], {}, st, fr, node, out)
            else:
                yield self.bind(cv, o.self, None), st
            return
        if isinstance(o, E):
            c = self.enums.get(o.cls)
            if name == 'name' or name == '_name_':
                yield C(o.name), st
                return
            if name == 'value' or name == '_value_':
                yield o.value, st
                return
            cv, owner = self.class_attr(c, name, st)
            if cv is None or isinstance(cv, tuple):
                self.attr_error(o, name, st, out, node, fr)
                return
            if isinstance(cv, W) and cv.what == 'property':
                yield from self.call(BM(cv.fn, o), [], {}, st, fr, node, out)
                return
            yield self.bind(cv, o, c), st
            return
        if isinstance(o, F):
            if name == '__name__' or name == '__qualname__':
                yield C(o.name), st
                return
            if name in ('__doc__', '__module__', '__dict__', '__defaults__', '__code__', '__wrapped__'):
                yield Top(name), st
                return
            yield from self.raise_attr(o, name, st, out, node, fr)
            return
        if isinstance(o, BM):
            if name == '__name__':
                yield (C(o.fn.name) if isinstance(o.fn, (F, B)) else Top()), st
                return
            if name == '__self__':
                yield o.self, st
                return
            if name == '__func__':
                yield o.fn, st
                return
            yield from self.raise_attr(o, name, st, out, node, fr)
            return
        if isinstance(o, W) and o.what == 'property' and name in ('setter', 'getter', 'deleter'):
            yield BM(B('property.' + name), o), st
            return
        if isinstance(o, B):
            if name == '__name__':
                yield C(o.name), st
                return
            t = getattr(pybuiltins, o.name, None)
            if isinstance(t, type) and hasattr(t, name):
                yield B(f'{o.name}.{name}'), st
                return
            if o.name.startswith('ext:'):
                yield self.ext_attr(o.name[4:], name), st
                return
            yield from self.raise_attr(o, name, st, out, node, fr)
            return
        if isinstance(o, Tup):
            if hasattr(tuple, name):
                yield BM(B('tuple.' + name), o), st
            else:
                yield from self.raise_attr(o, name, st, out, node, fr)
            return
        if isinstance(o, C):
            if isinstance(o.v, (int, float)) and name in ('real', 'imag', 'numerator', 'denominator') and not hasattr(
                    getattr(o.v, name), '__call__'):
                yield C(getattr(o.v, name)), st
                return
            if hasattr(type(o.v), name):
                yield BM(B(f'{type(o.v).__name__}.{name}'), o), st
            else:
                yield from self.raise_attr(o, name, st, out, node, fr)
            return
        if isinstance(o, T):
            if o.op == 'pattern':
                if name in ('search', 'match', 'fullmatch', 'finditer', 'findall', 'sub', 'split', 'subn'):
                    yield BM(B('pattern.' + name), o), st
                elif name == 'pattern':
                    yield o.args[0], st
                else:
                    yield Top(name), st
                return
            if self.opaque_attr is not None and o.kind == "callable":
                r = self.opaque_attr(self, o, name, st, out, node, fr)
                if r is not None:
                    yield from r
                    return
            if o.kind in ('str', 'int', 'bool'):
                if hasattr({'str': str, 'int': int, 'bool': bool}[o.kind], name):
                    yield BM(B(f'{o.kind}.{name}'), o), st
                else:
                    yield from self.raise_attr(o, name, st, out, node, fr)
                return
            if o.kind == 'callable' and name == '__name__':
                yield T('str', 'fname', (o,)), st
                return
            yield T('any', 'attr', (o, C(name))), st
            return
        if isinstance(o, Gen):
            self.vague('generator attribute', node, fr)
            yield Top(), st
            return
        self.vague('attribute of unknown', node, fr)
        yield Top('attr'), st

    def raise_attr(self, o, name, st, out, node, fr):
        self.attr_error(o, name, st, out, node, fr)
        return
        yield

    def bind(self, cv, inst, cls):
        if isinstance(cv, F):
            return BM(cv, inst)
        if isinstance(cv, W):
            if cv.what == 'staticmethod':
                return cv.fn
            if cv.what == 'classmethod':
                return BM(cv.fn, cls)
        return cv

    def inst_opt(self, a, name, st):
        """undecided instance attribute: yield (present, value, state)"""
        p = st.get(a).ghost['opt'][name]
        s2 = st.fork()
        m = s2.mut(a)
        m.ghost = dict(m.ghost, opt={k: v for k, v in m.ghost['opt'].items() if k != name})
        yield False, None, s2
        m = st.mut(a)
        m.ghost = dict(m.ghost, opt={k: v for k, v in m.ghost['opt'].items() if k != name})
        v = p.fn(self, st, R(a), name)
        st.mut(a).attrs[name] = v
        yield True, v, st

    def has_attr(self, o, name, st, out, node, fr):
        """yield (bool, state)"""
        if isinstance(o, T) and o.opt:
            for x, s in self.deref(o, st):
                yield from self.has_attr(x, name, s, out, node, fr)
            return
        if isinstance(o, R):
            obj = st.get(o.a)
            if isinstance(obj, InstO):
                if name in obj.attrs:
                    yield True, st
                    return
                opt = obj.ghost.get('opt')
                if opt and name in opt:
                    for p, _v, s in self.inst_opt(o.a, name, st):
                        if p:
                            yield True, s
                        else:
                            yield from self.has_attr(o, name, s, out, node, fr)
                    return
        sink = []
        got = False
        for _v, s in self.getattr_(o, name, st, sink, node, fr):
            if isinstance(_v, Top):
                yield True, s.fork()
                yield False, s
            else:
                yield True, s
        for _sig, e, s in sink:
            if 'AttributeError' in self.exc_class_names(e, s):
                yield False, s
            else:
                out.append((_sig, e, s))

    def module_attr(self, o, name, st, out, node, fr):
        if o.name.startswith('ext:'):
            yield self.ext_attr(o.name[4:], name), st
            return
        env = st.get(self.mods[o.name]).vars
        if name in env:
            yield env[name], st
            return
        if f'{o.name}.{name}' in self.mods:
            yield M(f'{o.name}.{name}'), st
            return
        if name == '__name__':
            yield C(o.name), st
            return
        if name == '__file__':
            yield Top('file'), st
            return
        self.throw(out, st, 'AttributeError', f"module '{o.name}' has no attribute '{name}'", node, fr)

    # ------------------------------------------------------------ comprehensions
    def comp(self, n, gens, elt, fr, st, out, first=None):
        """yield (list of elt results, state); elt: callable(frame, state) -> iterator of (value, state)"""
        def bound(idx):
            s = set()
            for g in gens:
                for x in ast.walk(g.target):
                    if isinstance(x, ast.Name):
                        s.add(x.id)
            return s
        env = st.alloc(EnvO({}, fr.env, 'function', fr.mod))
        cf = type(fr)(env.a, fr.mod, fr.qual, frozenset(bound(0)), fr.globals, fr.fn, False, fr.cls, fr.selfv,
                      fr.nonlocals)

        def level(i, s, pre):
            if i == len(gens):
                for v, s1 in elt(cf, s):
                    yield [v], s1
                return
            g = gens[i]
            if i == 0:
                src = [(first, s)] if first is not None else self.ev(g.iter, fr, s, out)
            else:
                src = self.ev(g.iter, cf, s, out)
            for it, s1 in src:
                for vals, s2 in self.iterate(it, s1, out, g.iter, fr):
                    live = [([], s2)]
                    for val in vals:
                        nxt = []
                        for acc, x in live:
                            for y in self.assign(g.target, val, cf, x, out):
                                for ok, z in self.conds(g.ifs, cf, y, out):
                                    if not ok:
                                        nxt.append((acc, z))
                                        continue
                                    for more, w in level(i + 1, z, acc):
                                        nxt.append((acc + more, w))
                        if len(nxt) > 2:
                            nxt = self.dedupe_vals(nxt, id(n))
                        live = nxt
                    yield from live
        self.stack.append(env.a)
        try:
            res = list(level(0, st, []))
        finally:
            self.stack.pop()
        yield from res

    def dedupe_vals(self, pairs, site=None):
        shape = lambda v, s: v.a < s.frozen if type(v) is R else v.op if type(v) is T else v if type(v) in (C, E) else 0
        return self.distinct(pairs, [tuple((type(v), shape(v, s)) for v in vals) + self.outline(s) for vals, s in pairs],
                             lambda p: self.canon(p[1], tuple(p[0])), site)

    def conds(self, ifs, fr, st, out):
        if not ifs:
            yield True, st
            return
        for v, s in self.ev(ifs[0], fr, st, out):
            for b, s2 in self.truth(v, s):
                if not b:
                    yield False, s2
                else:
                    yield from self.conds(ifs[1:], fr, s2, out)

    def ex_ListComp(self, n, fr, st, out):
        for vals, s in self.comp(n, n.generators, lambda f, x: self.ev(n.elt, f, x, out), fr, st, out):
            yield s.alloc(ListO(vals)), s

    def ex_SetComp(self, n, fr, st, out):
        for vals, s in self.comp(n, n.generators, lambda f, x: self.ev(n.elt, f, x, out), fr, st, out):
            ded = []
            for v in vals:
                if v not in ded:
                    ded.append(v)
            yield s.alloc(ListO(ded, kind='set')), s

    def ex_DictComp(self, n, fr, st, out):
        def elt(f, x):
            for k, s in self.ev(n.key, f, x, out):
                for v, s2 in self.ev(n.value, f, s, out):
                    yield Tup((k, v)), s2
        for vals, s in self.comp(n, n.generators, elt, fr, st, out):
            r = s.alloc(DictO({}))
            states = [s]
            for p in vals:
                states = [y for x in states for y in self.dset(r.a, p.items[0], p.items[1], x, n, fr)]
            for x in states:
                yield r, x

    def ex_GeneratorExp(self, n, fr, st, out):
        for it, s in self.ev(n.generators[0].iter, fr, st, out):
            g = Gen(n, fr, it)
            s.gens.pop(g, None)
            yield g, s

    def gen_values(self, g, st, out):
        n = g.node
        yield from self.comp(n, n.generators, lambda f, x: self.ev(n.elt, f, x, out), g.fr, st, out, first=g.it)

    def gen_first(self, g, st, out):
        """lazily: yield (found, value, state) for the first element of the generator"""
        n = g.node
        if len(n.generators) != 1:
            for vals, s in self.gen_values(g, st, out):
                yield (True, vals[0], s) if vals else (False, None, s)
            return
        gen = n.generators[0]
        fr = g.fr
        names = frozenset(x.id for x in ast.walk(gen.target) if isinstance(x, ast.Name))
        env = st.alloc(EnvO({}, fr.env, 'function', fr.mod))
        cf = type(fr)(env.a, fr.mod, fr.qual, names, fr.globals, fr.fn, False, fr.cls, fr.selfv, fr.nonlocals)
        self.stack.append(env.a)
        res = []
        try:
            for vals, s in self.iterate(g.it, st, out, gen.iter, fr):
                live = [s]
                for v in vals:
                    nxt = []
                    for x in live:
                        for y in self.assign(gen.target, v, cf, x, out):
                            for ok, z in self.conds(gen.ifs, cf, y, out):
                                if ok:
                                    for e, w in self.ev(n.elt, cf, z, out):
                                        res.append((True, e, w))
                                else:
                                    nxt.append(z)
                    live = nxt
                res.extend((False, None, x) for x in live)
        finally:
            self.stack.pop()
        yield from res

    def gen_anyall(self, g, want, st, out):
        """any (want True) / all (want False) with short circuit -> (bool, state)"""
        if not isinstance(g, Gen) or len(g.node.generators) != 1:
            src = self.gen_values(g, st, out) if isinstance(g, Gen) else self.iterate(g, st, out, None, None)
            for vals, s in src:
                live = [s]
                for v in vals:
                    nxt = []
                    for x in live:
                        for b, y in self.truth(v, x):
                            if b is want:
                                yield want, y
                            else:
                                nxt.append(y)
                    live = nxt
                for x in live:
                    yield (not want), x
            return
        n, gen, fr = g.node, g.node.generators[0], g.fr
        names = frozenset(x.id for x in ast.walk(gen.target) if isinstance(x, ast.Name))
        env = st.alloc(EnvO({}, fr.env, 'function', fr.mod))
        cf = type(fr)(env.a, fr.mod, fr.qual, names, fr.globals, fr.fn, False, fr.cls, fr.selfv, fr.nonlocals)
        self.stack.append(env.a)
        res = []
        try:
            for vals, s in self.iterate(g.it, st, out, gen.iter, fr):
                live = [s]
                for v in vals:
                    nxt = []
                    for x in live:
                        for y in self.assign(gen.target, v, cf, x, out):
                            for ok, z in self.conds(gen.ifs, cf, y, out):
                                if not ok:
                                    nxt.append(z)
                                    continue
                                for e, w in self.ev(n.elt, cf, z, out):
                                    for b, u in self.truth(e, w):
                                        if b is want:
                                            res.append((want, u))
                                        else:
                                            nxt.append(u)
                    live = nxt
                res.extend((not want, x) for x in live)
        finally:
            self.stack.pop()
        yield from res

    # ------------------------------------------------------------ calls
    def ex_Call(self, n, fr, st, out):
        # zero-argument super
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and \
                self.lookup('super', fr, st) == B('super'):
            c = self.defcls.get(id(fr.fn.node)) if fr.fn is not None else None
            if c is not None and fr.selfv is not None:
                yield Sup(c, fr.selfv), st
                return
        for f, s in self.ev(n.func, fr, st, out):
            for args, s1 in self.evlist(n.args, fr, s, out):
                for kw, s2 in self.evkw(n.keywords, fr, s1, out):
                    yield from self.call(f, args, kw, s2, fr, n, out)

    def evkw(self, kws, fr, st, out):
        if not kws:
            yield {}, st
            return
        k, rest = kws[0], kws[1:]
        for v, s in self.ev(k.value, fr, st, out):
            if k.arg is not None:
                for more, s2 in self.evkw(rest, fr, s, out):
                    yield {k.arg: v, **more}, s2
                continue
            if isinstance(v, R) and isinstance(s.get(v.a), DictO):
                for s1 in self.settle(v.a, s):
                    d = {kk.v: vv for kk, vv in s1.get(v.a).keys.items() if isinstance(kk, C)}
                    for more, s2 in self.evkw(rest, fr, s1, out):
                        yield {**d, **more}, s2
            else:
                self.vague('** of unknown', k.value, fr)
                for more, s2 in self.evkw(rest, fr, s, out):
                    yield dict(more), s2

    def call(self, f, args, kw, st, fr, node, out):
        """yield (value, state)"""
        if isinstance(f, BM):
            if isinstance(f.fn, B):
                yield from self.builtin_method(f.fn.name, f.self, args, kw, st, fr, node, out)
                return
            yield from self.call(f.fn, [f.self] + list(args), kw, st, fr, node, out)
            return
        if isinstance(f, F):
            yield from self.call_fn(f, args, kw, st, fr, node, out)
            return
        if isinstance(f, R):
            o = st.get(f.a)
            if isinstance(o, ClsO):
                yield from self.instantiate(f, args, kw, st, fr, node, out)
                return
            if isinstance(o, InstO):
                if isinstance(o.cls, B) and self.opaque_call is not None:
                    yield from self.opaque_call(self, f, args, kw, st, fr, node, out)
                    return
                c, _ = self.class_attr(o.cls, '__call__', st)
                if isinstance(c, F):
                    yield from self.call(BM(c, f), args, kw, st, fr, node, out)
                    return
            self.throw(out, st, 'TypeError', f"'{self.typename(f, st)}' object is not callable", node, fr)
            return
        if isinstance(f, W):
            if f.what == 'partial':
                yield from self.call(f.fn, list(f.extra[0].items) + list(args), {**dict(
                    (k.v, v) for k, v in (p.items for p in f.extra[1].items)), **kw}, st, fr, node, out)
                return
            if f.what == 'staticmethod':
                yield from self.call(f.fn, args, kw, st, fr, node, out)
                return
            if f.what in ('itemgetter', 'attrgetter') and args:
                def pick(o, k, s):
                    if f.what == 'itemgetter':
                        yield from self.getitem(o, k, s, out, node, fr)
                        return
                    live = [(o, s)]
                    for part in k.v.split('.'):
                        live = [p for v, x in live for p in self.getattr_(v, part, x, out, node, fr)]
                    yield from live
                ks = [f.fn] + list(f.extra[0].items if f.extra else ())
                live = [([], st)]
                for k in ks:
                    live = [(acc + [v], y) for acc, x in live for v, y in pick(args[0], k, x)]
                for acc, x in live:
                    yield (acc[0] if len(ks) == 1 else Tup(acc)), x
                return
            if f.what == 'methodcaller' and args and isinstance(f.fn, C):
                for m, s in self.getattr_(args[0], f.fn.v, st, out, node, fr):
                    yield from self.call(m, list(f.extra[0].items), {k.v: v for k, v in (
                        p.items for p in f.extra[1].items)}, s, fr, node, out)
                return
            self.vague('call of decorator object', node, fr)
            yield Top('call'), st
            return
        if isinstance(f, B):
            if '.' in f.name:
                base, meth = f.name.split('.', 1)
                if args and meth not in ('fromkeys', 'maketrans', 'join') or meth in ('join',) and args:
                    yield from self.builtin_method(f.name, args[0], args[1:], kw, st, fr, node, out)
                    return
            yield from self.builtin(f.name, args, kw, st, fr, node, out)
            return
        if isinstance(f, T):
            if f.opt:
                for x, s in self.deref(f, st):
                    if x == NONE:
                        self.throw(out, s, 'TypeError', "'NoneType' object is not callable", node, fr)
                    else:
                        yield from self.call(x, args, kw, s, fr, node, out)
                return
            if f.kind in ('callable', 'any') and self.opaque_call is not None:
                yield from self.opaque_call(self, f, args, kw, st, fr, node, out)
                return
            if f.kind in ('str', 'int', 'bool'):
                self.throw(out, st, 'TypeError', f"'{f.kind}' object is not callable", node, fr)
                return
        if isinstance(f, (C, E, Tup, M)):
            self.throw(out, st, 'TypeError', f"'{self.typename(f, st)}' object is not callable", node, fr)
            return
        self.vague('call of unknown', node, fr)
        yield Top('call'), st

    def bind_args(self, f, args, kw, st, out, node, fr):
        """-> dict of parameters or None after recording a TypeError"""
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            vals[a.vararg.arg] = Tup(extra)
        elif extra:
            self.throw(out, st, 'TypeError', f'{f.name}() takes {len(names)} positional arguments but {len(args)} '
                                             f'were given', node, fr)
            return None
        rest = {}
        kwonly = [p.arg for p in a.kwonlyargs]
        for k, v in kw.items():
            if (k in names and k not in [p.arg for p in a.posonlyargs]) or k in kwonly:
                if k in vals:
                    self.throw(out, st, 'TypeError', f"{f.name}() got multiple values for argument '{k}'", node, fr)
                    return None
                vals[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            vals[a.kwarg.arg] = st.alloc(DictO({C(k): v for k, v in rest.items()}))
        elif rest:
            self.throw(out, st, 'TypeError', f"{f.name}() got an unexpected keyword argument '{next(iter(rest))}'",
                       node, fr)
            return None
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[nme] = f.defaults[j]
                else:
                    self.throw(out, st, 'TypeError', f"{f.name}() missing required argument '{nme}'", node, fr)
                    return None
        for nme, d in zip(kwonly, f.kwdefaults):
            if nme not in vals:
                if d is None:
                    self.throw(out, st, 'TypeError', f"{f.name}() missing required keyword argument '{nme}'", node, fr)
                    return None
                vals[nme] = d
        return vals

    def call_fn(self, f, args, kw, st, fr, node, out):
        qn = f'{f.module}:{f.qual}'
        hook = self.call_hooks.get(qn)
        if hook is not None:
            r = hook(self, f, args, kw, st, fr, node, out)
            if r is not None:
                yield from r
                return
        vals = self.bind_args(f, args, kw, st, out, node, fr)
        if vals is None:
            return
        self.visited_funcs.add(qn)
        nid = id(f.node)
        depth = self.active.get(nid, 0)
        if depth >= self.rec_limits.get(qn, self.rec_limit):
            self.cut(f'recursion limit at {qn}')
            return
        if nid not in self.scopes:
            from .interp import scope_of
            self.scopes[nid] = scope_of(f.node)
        loc, glo, non, gen = self.scopes[nid]
        env = st.alloc(EnvO(vals, f.env, 'function', f.module))
        first = (f.node.args.posonlyargs + f.node.args.args)
        selfv = vals[first[0].arg] if first else None
        nf = type(fr or self.topframe)(env.a, f.module, f.qual, loc, glo, f, gen, None, selfv, non)
        self.active[nid] = depth + 1
        self.stack.append(env.a)
        if self.trace is not None:
            self.trace(qn, len(self.stack))
        if gen:
            self.active[nid] = depth
            self.stack.pop()
            yield st.alloc(GenO(f, nf, env.a, qn)), st
            return
        try:
            if isinstance(f.node, ast.Lambda):
                lout = []
                res = [('ret', v, s) for v, s in self.ev(f.node.body, nf, st, lout)] + lout
            else:
                res = self.block(f.node.body, nf, st)
        finally:
            self.stack.pop()
            self.active[nid] = depth
        fin = []
        for sig, v, s in res:
            if sig == 'exc':
                out.append((sig, v, s))
            elif sig == 'ret':
                fin.append((v, s))
            elif sig == 'next':
                fin.append((NONE, s))
            else:
                from .interp import Unsupported
                raise Unsupported(f'{sig} escaping {qn}')
        if len(fin) > 1:
            fin = [(v, s) for (v,), s in self.dedupe_vals([((v,), s) for v, s in fin], nid)]
        if self.ret_hook is not None:
            self.ret_hook(qn, vals, fin)
        yield from fin

    def run_gen(self, a, st, out):
        """run the body of a generator: its object becomes an iterator over what it yields -> states"""
        g = st.get(a)
        if not isinstance(g, GenO):
            yield st
            return
        nid = id(g.fn.node)
        depth = self.active.get(nid, 0)
        if depth >= self.rec_limits.get(g.qn, self.rec_limit + 2):
            self.cut(f'recursion limit at {g.qn}')
            return
        self.active[nid] = depth + 1
        self.stack.append(g.env)
        self.rets.append(R(a))
        try:
            res = self.block(g.fn.node.body, g.frame, st)
        finally:
            self.rets.pop()
            self.stack.pop()
            self.active[nid] = depth
        for sig, v, s in res:
            if sig == 'exc':
                out.append((sig, v, s))
            else:
                ys = s.get(g.env).vars.get('$yields', Tup(()))
                s.heap[a] = ListO(ys.items, kind='iter', ghost={'ret': v if sig == 'ret' else NONE})
                yield s

    def ex_Yield(self, n, fr, st, out):
        src = self.ev(n.value, fr, st, out) if n.value is not None else [(NONE, st)]
        for v, s in src:
            m = s.mut(fr.env)
            m.vars['$yields'] = Tup(m.vars.get('$yields', Tup(())).items + (v,))
            yield NONE, s

    def ex_YieldFrom(self, n, fr, st, out):
        for v, s in self.ev(n.value, fr, st, out):
            for vals, s1 in self.iterate(v, s, out, n, fr):
                m = s1.mut(fr.env)
                m.vars['$yields'] = Tup(m.vars.get('$yields', Tup(())).items + tuple(vals))
                o = s1.get(v.a) if isinstance(v, R) else None
                yield (o.ghost.get('ret', NONE) if isinstance(o, ListO) else NONE), s1

    def instantiate(self, c, args, kw, st, fr, node, out):
        o = st.get(c.a)
        hook = self.call_hooks.get(f'{o.mod}:{o.name}')
        if hook is not None:
            r = hook(self, c, args, kw, st, fr, node, out)
            if r is not None:
                yield from r
                return
        if o.enum:
            for v in args[:1]:
                if isinstance(v, E) and v.cls == f'{o.mod}.{o.name}':
                    yield v, st
                    return
                for m in o.attrs.values():
                    if isinstance(m, E) and m.value == v:
                        yield m, st
                        return
                if isinstance(v, C):
                    self.throw(out, st, 'ValueError', f'{v!r} is not a valid {o.name}', node, fr)
                    return
            self.vague('enum construction', node, fr)
            yield Top('enum'), st
            return
        inst = st.alloc(InstO(c, {}, {'site': self.site(node, fr) if node is not None and fr is not None else ''}))
        init, owner = self.class_attr(c, '__init__', st)
        if isinstance(init, F):
            for _r, s in self.call_fn(init, [inst] + list(args), kw, st, fr, node, out):
                yield inst, s
            return
        names = self.class_names(c, st)
        if 'BaseException' in names:
            st.mut(inst.a).attrs['args'] = Tup(args)
        elif args or kw:
            self.throw(out, st, 'TypeError', f'{o.name}() takes no arguments', node, fr)
            return
        yield inst, st


BUILTIN_EXC_NAMES = {n for n in dir(pybuiltins) if isinstance(getattr(pybuiltins, n), type)
                     and issubclass(getattr(pybuiltins, n), BaseException)}
