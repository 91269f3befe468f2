"""Transfer functions for Python builtins, builtin methods and the few standard-library names enolib uses."""
import ast
import builtins as pybuiltins
import math
import re as pyre
import string
from .values import *
from .state import *
from . import regex as rx
from .expr import Gen

STR_TO_STR = {'rjust', 'ljust', 'center', 'replace', 'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'title',
              'capitalize', 'zfill', 'expandtabs', 'translate', 'casefold', 'swapcase', 'removeprefix', 'removesuffix',
              'format', 'format_map'}
STR_TO_BOOL = {'startswith', 'endswith', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'isupper', 'islower',
               'isidentifier', 'isnumeric', 'isdecimal', 'isprintable', 'istitle', 'isascii'}
META = set('.^$*+?{}[]\\|()')


RUN = '\ue001'               # a run of dashes of unknown length in a pattern


class LibMixin:
    # ------------------------------------------------------------ conversions
    def to_str(self, v, st, out, node, fr):
        if isinstance(v, T) and v.opt:
            for x, s in self.deref(v, st):
                yield from self.to_str(x, s, out, node, fr)
            return
        if isinstance(v, C):
            yield C(str(v.v)), st
        elif isinstance(v, T):
            yield (v if v.kind == 'str' else T('str', 'str', (v,))), st
        elif isinstance(v, E):
            yield C(f'{v.cls.rsplit(".", 1)[1]}.{v.name}'), st
        elif isinstance(v, R) and isinstance(st.get(v.a), InstO):
            o = st.get(v.a)
            for nm in ('__str__', '__repr__'):
                f, _ = self.class_attr(o.cls, nm, st)
                if isinstance(f, F):
                    yield from self.call(BM(f, v), [], {}, st, fr, node, out)
                    return
            a = o.attrs.get('args')
            if isinstance(a, Tup) and len(a.items) == 1:
                yield from self.to_str(a.items[0], st, out, node, fr)
                return
            yield T('str', 'str', (v,)), st
        elif isinstance(v, Tup):
            yield T('str', 'repr', (v,)), st
        else:
            yield T('str', 'str', (v,)), st

    def to_repr(self, v, st, out, node, fr):
        if isinstance(v, C):
            yield C(repr(v.v)), st
            return
        if isinstance(v, R) and isinstance(st.get(v.a), InstO):
            f, _ = self.class_attr(st.get(v.a).cls, '__repr__', st)
            if isinstance(f, F):
                yield from self.call(BM(f, v), [], {}, st, fr, node, out)
                return
        yield T('str', 'repr', (v,)), st

    def typeof(self, v, st):
        if isinstance(v, C):
            return B('NoneType' if v.v is None else type(v.v).__name__)
        if isinstance(v, Tup):
            return B('tuple')
        if isinstance(v, E):
            return self.enums[v.cls]
        if isinstance(v, (F, BM)):
            return B('function')
        if isinstance(v, M):
            return B('module')
        if isinstance(v, T) and not v.opt and v.kind in ('str', 'int', 'bool'):
            return B(v.kind)
        if isinstance(v, R):
            o = st.get(v.a)
            if isinstance(o, InstO):
                return o.cls
            if isinstance(o, ClsO):
                return B('type')
            if isinstance(o, DictO):
                return B('dict')
            if isinstance(o, GenO):
                return B('generator')
            if isinstance(o, ListO):
                return B('iterator' if o.kind == 'iter' else o.kind)
            if isinstance(o, ArrO):
                return B('list')
            if isinstance(o, (MatO, DocMat)):
                return B('re.Match')
        return None

    def isinst(self, v, c, st):
        """-> list of (bool, state)"""
        if isinstance(c, Tup):
            res, live = [], [st]
            for x in c.items:
                nxt = []
                for s in live:
                    for b, s2 in self.isinst(v, x, s):
                        if b:
                            res.append((True, s2))
                        else:
                            nxt.append(s2)
                live = nxt
            return res + [(False, s) for s in live]
        if isinstance(v, T) and v.opt:
            res = []
            for x, s in self.deref(v, st):
                res.extend(self.isinst(x, c, s))
            return res
        t = self.typeof(v, st)
        if t is None or isinstance(c, Top):
            if isinstance(v, T) and isinstance(c, (B, R)):
                if v.kind == 'callable':
                    return [(False, st)] if c in (B('str'), B('int'), B('dict'), B('list')) else \
                        list(self.truth(T('bool', 'isinstance', (v, c)), st))
                return list(self.truth(T('bool', 'isinstance', (v, c)), st))
            return [(True, st.fork()), (False, st)]
        if isinstance(c, B):
            if isinstance(t, B):
                a, b = getattr(pybuiltins, t.name, None), getattr(pybuiltins, c.name, None)
                if isinstance(a, type) and isinstance(b, type):
                    return [(issubclass(a, b), st)]
                return [(t == c or c.name == 'object', st)]
            return [(c.name == 'object' or c.name in self.class_names(t, st), st)]
        if isinstance(t, R) and isinstance(c, R):
            return [(c in self.mro(t, st), st)]
        return [(False, st)]

    # ------------------------------------------------------------ sorting helper
    def keyed(self, vals, keyf, st, out, node, fr):
        if keyf is None or keyf == NONE:
            yield list(vals), st
            return
        def go(rest, acc, s):
            if not rest:
                yield acc, s
                return
            for k, s1 in self.call(keyf, [rest[0]], {}, s, fr, node, out):
                yield from go(rest[1:], acc + [k], s1)
        yield from go(list(vals), [], st)

    def stable_sort(self, pairs, reverse, st, out, node, fr):
        """insertion sort of (key, value) with branching comparisons -> (list, state)"""
        def insert(lst, p, i, s):
            # invariant: lst sorted; try to insert p scanning from the right
            if i == 0:
                yield [p] + lst, s
                return
            q = lst[i - 1]
            for b, s1 in self.order('>' if not reverse else '<', q[0], p[0], s, out, node, fr):
                if b:
                    yield from insert(lst, p, i - 1, s1)
                else:
                    yield lst[:i] + [p] + lst[i:], s1

        def insert_at(lst, p, s):
            def go(i, s):
                if i == 0:
                    yield [p] + lst, s
                    return
                for b, s1 in self.order('>' if not reverse else '<', lst[i - 1][0], p[0], s, out, node, fr):
                    if b:
                        yield from go(i - 1, s1)
                    else:
                        yield lst[:i] + [p] + lst[i:], s1
            yield from go(len(lst), s)

        states = [([], st)]
        for p in pairs:
            states = [y for lst, s in states for y in insert_at(lst, p, s)]
        yield from states

    # ------------------------------------------------------------ builtin functions
    def builtin(self, name, args, kw, st, fr, node, out):
        m = getattr(self, 'bf_' + name.replace(':', '_').replace('.', '_'), None)
        if m is not None:
            try:
                yield from m(args, kw, st, fr, node, out)
            except IndexError:
                self.throw(out, st, 'TypeError', f'{name}() got too few arguments', node, fr)
            return
        if name in self.BUILTIN_EXC:
            yield st.alloc(InstO(B(name), {'args': Tup(args)},
                                 {'site': self.site(node, fr) if node is not None and fr is not None else ''})), st
            return
        if name.startswith('ext:'):
            yield from self.ext_call(name[4:], args, kw, st, fr, node, out)
            return
        if name in ('print', 'open', 'input', 'eval', 'exec', '__import__', 'compile'):
            st.event('io', name, self.site(node, fr))
            yield Top(name), st
            return
        if all(isinstance(a, C) for a in args) and not kw and name in ('abs', 'ord', 'chr', 'round', 'divmod', 'pow',
                                                                       'float', 'hash', 'bytes', 'ascii', 'format'):
            try:
                r = getattr(pybuiltins, name)(*(a.v for a in args))
                yield (Tup(C(x) for x in r) if isinstance(r, tuple) else C(r)), st
            except Exception as e:
                self.throw(out, st, type(e).__name__, str(e), node, fr)
            return
        if name in ('id', 'hash'):
            yield T('int', name, tuple(args)), st
            return
        self.vague(f'builtin {name}', node, fr)
        yield Top(name), st

    def bf_len(self, args, kw, st, fr, node, out):
        v = args[0]
        if isinstance(v, T) and v.opt:
            for x, s in self.deref(v, st):
                yield from self.bf_len([x], kw, s, fr, node, out)
            return
        if isinstance(v, Tup):
            yield C(len(v.items)), st
        elif isinstance(v, C) and isinstance(v.v, (str, tuple, bytes)):
            yield C(len(v.v)), st
        elif isinstance(v, T) and v.kind == 'str':
            yield self.strlen(v, st), st
        elif isinstance(v, R) and isinstance(st.get(v.a), ListO):
            for s in self.force(v.a, st):
                yield C(len(s.get(v.a).items)), s
        elif isinstance(v, R) and isinstance(st.get(v.a), ArrO):
            yield st.get(v.a).length, st
        elif isinstance(v, R) and isinstance(st.get(v.a), DictO):
            for s in self.settle(v.a, st):
                o = s.get(v.a)
                yield C(len(o.keys) + len(o.sym)), s
        elif isinstance(v, R) and isinstance(st.get(v.a), InstO):
            f, _ = self.class_attr(st.get(v.a).cls, '__len__', st)
            if isinstance(f, F):
                yield from self.call(BM(f, v), [], {}, st, fr, node, out)
            else:
                self.throw(out, st, 'TypeError', f"object of type '{self.typename(v, st)}' has no len()", node, fr)
        elif isinstance(v, Top) or isinstance(v, T) and v.kind == 'any':
            self.vague('len of unknown', node, fr)
            yield T('int', 'len', (v,)), st
        else:
            self.throw(out, st, 'TypeError', f"object of type '{self.typename(v, st)}' has no len()", node, fr)

    def bf_range(self, args, kw, st, fr, node, out):
        a = list(args)
        if len(a) == 1:
            a = [C(0)] + a
        if len(a) == 2:
            a.append(C(1))
        for x in a:
            if isinstance(x, C) and not isinstance(x.v, int):
                self.throw(out, st, 'TypeError', 'range() needs integers', node, fr)
                return
        yield T('range', 'range', a), st

    def bf_enumerate(self, args, kw, st, fr, node, out):
        start = args[1] if len(args) > 1 else kw.get('start', C(0))
        v = args[0]
        if isinstance(v, R) and isinstance(st.get(v.a), ArrO):
            for pairs, s in self.arr_pairs(v.a, st):
                yield s.alloc(ListO([Tup((mklin(*linadd(lin(i), lin(start))), e)) for i, e in pairs], kind='iter')), s
            return
        for vals, s in self.iterate(v, st, out, node, fr):
            l = lin(start) or (0, {})
            yield s.alloc(ListO([Tup((mklin(l[0] + i, l[1]), e)) for i, e in enumerate(vals)], kind='iter')), s

    def bf_reversed(self, args, kw, st, fr, node, out):
        for vals, s in self.iterate(args[0], st, out, node, fr):
            yield s.alloc(ListO(list(reversed(vals)), kind='iter')), s

    def bf_sorted(self, args, kw, st, fr, node, out):
        rev = kw.get('reverse', FALSE)
        for vals, s in self.iterate(args[0], st, out, node, fr):
            for keys, s1 in self.keyed(vals, kw.get('key'), s, out, node, fr):
                for b, s2 in self.truth(rev, s1):
                    for lst, s3 in self.stable_sort(list(zip(keys, vals)), b, s2, out, node, fr):
                        yield s3.alloc(ListO([v for _k, v in lst])), s3

    def bf_zip(self, args, kw, st, fr, node, out):
        def go(rest, acc, s):
            if not rest:
                yield s.alloc(ListO([Tup(p) for p in zip(*acc)], kind='iter')), s
                return
            for vals, s1 in self.iterate(rest[0], s, out, node, fr):
                yield from go(rest[1:], acc + [vals], s1)
        yield from go(list(args), [], st)

    def bf_map(self, args, kw, st, fr, node, out):
        if len(args) != 2:
            for z, s in self.bf_zip(args[1:], {}, st, fr, node, out):
                for vals, s1 in self.iterate(z, s, out, node, fr):
                    live = [([], s1)]
                    for v in vals:
                        live = [(acc + [r], y) for acc, x in live
                                for r, y in self.call(args[0], list(v.items), {}, x, fr, node, out)]
                    for acc, x in live:
                        yield x.alloc(ListO(acc, kind='iter')), x
            return
        for vals, s in self.iterate(args[1], st, out, node, fr):
            for res, s1 in self.keyed(vals, args[0], s, out, node, fr):
                yield s1.alloc(ListO(res, kind='iter')), s1

    def bf_filter(self, args, kw, st, fr, node, out):
        for vals, s in self.iterate(args[1], st, out, node, fr):
            live = [([], s)]
            for v in vals:
                nxt = []
                for acc, x in live:
                    src = [(v, x)] if args[0] == NONE else self.call(args[0], [v], {}, x, fr, node, out)
                    for r, y in src:
                        for b, z in self.truth(r, y):
                            nxt.append((acc + [v] if b else acc, z))
                live = nxt
            for acc, x in live:
                yield x.alloc(ListO(acc, kind='iter')), x

    def bf_any(self, args, kw, st, fr, node, out):
        for b, s in self.gen_anyall(args[0], True, st, out):
            yield C(b), s

    def bf_all(self, args, kw, st, fr, node, out):
        for b, s in self.gen_anyall(args[0], False, st, out):
            yield C(b), s

    def minmax(self, op, args, kw, st, fr, node, out):
        src = self.iterate(args[0], st, out, node, fr) if len(args) == 1 else [(list(args), st)]
        for vals, s in src:
            if not vals:
                if 'default' in kw:
                    yield kw['default'], s
                else:
                    self.throw(out, s, 'ValueError', 'min()/max() of an empty sequence', node, fr)
                continue
            for keys, s1 in self.keyed(vals, kw.get('key'), s, out, node, fr):
                live = [(0, s1)]
                for i in range(1, len(vals)):
                    nxt = []
                    for best, x in live:
                        for b, y in self.order(op, keys[i], keys[best], x, out, node, fr):
                            nxt.append((i if b else best, y))
                    live = nxt
                for best, x in live:
                    yield vals[best], x

    def bf_min(self, args, kw, st, fr, node, out):
        yield from self.minmax('<', args, kw, st, fr, node, out)

    def bf_max(self, args, kw, st, fr, node, out):
        yield from self.minmax('>', args, kw, st, fr, node, out)

    def bf_sum(self, args, kw, st, fr, node, out):
        start = args[1] if len(args) > 1 else kw.get('start', C(0))
        for vals, s in self.iterate(args[0], st, out, node, fr):
            live = [(start, s)]
            for v in vals:
                live = [y for acc, x in live for y in self.binop(ast.Add(), acc, v, x, out, node, fr)]
            yield from live

    def bf_next(self, args, kw, st, fr, node, out):
        g = args[0]
        if isinstance(g, R) and isinstance(st.get(g.a), GenO):
            for s in self.run_gen(g.a, st, out):
                yield from self.bf_next(args, kw, s, fr, node, out)
            return
        if isinstance(g, R) and isinstance(st.get(g.a), InstO):
            f, _ = self.class_attr(st.get(g.a).cls, '__next__', st)
            if isinstance(f, F):
                sink = []
                yield from self.call(BM(f, g), [], {}, st, fr, node, sink)
                for sig, v, s in sink:
                    if len(args) > 1 and sig == 'exc' and 'StopIteration' in self.exc_class_names(v, s):
                        yield args[1], s
                    else:
                        out.append((sig, v, s))
                return
        if isinstance(g, Gen) and (g not in st.gens or st.gens[g] is not None):
            n = st.gens.get(g, 0)
            src = self.gen_first(g, st, out) if not n else (
                (len(vals) > n, vals[n] if len(vals) > n else None, s) for vals, s in self.gen_values(g, st, out))
            for ok, v, s in src:
                s.gens[g] = n + 1 if ok else None
                if ok:
                    yield v, s
                elif len(args) > 1:
                    yield args[1], s
                else:
                    self.throw(out, s, 'StopIteration', '', node, fr)
            return
        if isinstance(g, Gen):
            if len(args) > 1:
                yield args[1], st
            else:
                self.throw(out, st, 'StopIteration', '', node, fr)
            return
        if isinstance(g, R) and isinstance(st.get(g.a), ListO):
            if st.get(g.a).kind != 'iter':
                self.throw(out, st, 'TypeError', f"'{self.typename(g, st)}' object is not an iterator", node, fr)
                return
            for s in self.force(g.a, st):
                items = s.get(g.a).items
                if items:
                    s.mut(g.a).items = items[1:]
                    yield items[0], s
                elif len(args) > 1:
                    yield args[1], s
                else:
                    self.throw(out, s, 'StopIteration', '', node, fr)
            return
        self.vague('next', node, fr)
        yield Top('next'), st

    def bf_iter(self, args, kw, st, fr, node, out):
        if len(args) > 1:
            self.vague('iter with a sentinel', node, fr)
            yield Top('iter'), st
            return
        g = args[0]
        if isinstance(g, Gen) or isinstance(g, R) and (isinstance(st.get(g.a), GenO) or isinstance(
                st.get(g.a), ListO) and st.get(g.a).kind == 'iter'):
            yield g, st
            return
        if isinstance(g, R) and isinstance(st.get(g.a), InstO):
            f, _ = self.class_attr(st.get(g.a).cls, '__iter__', st)
            if isinstance(f, F):
                yield from self.call(BM(f, g), [], {}, st, fr, node, out)
                return
        for vals, s in self.iterate(args[0], st, out, node, fr):
            yield s.alloc(ListO(vals, kind='iter')), s

    def bf_isinstance(self, args, kw, st, fr, node, out):
        for b, s in self.isinst(args[0], args[1], st):
            yield C(b), s

    def bf_issubclass(self, args, kw, st, fr, node, out):
        names = self.class_names(args[0], st)
        cs = args[1].items if isinstance(args[1], Tup) else [args[1]]
        yield C(any((c.name if isinstance(c, B) else st.get(c.a).name) in names for c in cs)), st

    @staticmethod
    def no_name(n, st):
        """certainly not the name of an attribute"""
        return isinstance(n, C) and not isinstance(n.v, str) or isinstance(n, (E, Tup, F, BM)) or \
            isinstance(n, R) and isinstance(st.get(n.a), (DictO, ListO, InstO)) and not isinstance(n, B) or \
            isinstance(n, T) and n.kind in ('int', 'bool', 'none')

    def bf_hasattr(self, args, kw, st, fr, node, out):
        if self.no_name(args[1], st):
            self.throw(out, st, 'TypeError', 'attribute name must be string', node, fr)
            return
        if isinstance(args[1], C):
            for b, s in self.has_attr(args[0], args[1].v, st, out, node, fr):
                yield C(b), s
            return
        self.vague('hasattr with computed name', node, fr)
        yield TRUE, st.fork()
        yield FALSE, st

    def bf_getattr(self, args, kw, st, fr, node, out):
        o, n = args[0], args[1]
        if self.no_name(n, st):
            self.throw(out, st, 'TypeError', 'attribute name must be string', node, fr)
            return
        if not isinstance(n, C):
            self.vague('getattr with computed name', node, fr)
            st.event('dynattr', o, n)
            yield Top('getattr'), st
            return
        if len(args) < 3:
            yield from self.getattr_(o, n.v, st, out, node, fr)
            return
        sink = []
        yield from self.getattr_(o, n.v, st, sink, node, fr)
        for sig, e, s in sink:
            if 'AttributeError' in self.exc_class_names(e, s):
                yield args[2], s
            else:
                out.append((sig, e, s))

    def bf_setattr(self, args, kw, st, fr, node, out):
        o, n, v = args
        if isinstance(n, C):
            for s in self.setattr_(o, n.v, v, st, out, node, fr):
                yield NONE, s
            return
        if isinstance(o, R) and isinstance(st.get(o.a), ClsO):
            st.event('classattr', o.a, n, v, self.site(node, fr), 'base' if o.a < st.frozen else '')
        else:
            st.event('write', o.a if isinstance(o, R) else 0, 'setattr', n, self.site(node, fr), 'dyn')
        yield NONE, st

    def bf_delattr(self, args, kw, st, fr, node, out):
        st.event('write', args[0].a if isinstance(args[0], R) else 0, 'delattr', args[1], self.site(node, fr), 'dyn')
        if isinstance(args[0], R) and isinstance(st.get(args[0].a), InstO) and isinstance(args[1], C):
            st.mut(args[0].a).attrs.pop(args[1].v, None)
        yield NONE, st

    def bf_callable(self, args, kw, st, fr, node, out):
        v = args[0]
        for x, s in self.deref(v, st):
            if isinstance(x, (F, BM, B, W)):
                yield TRUE, s
            elif isinstance(x, R):
                o = s.get(x.a)
                yield C(isinstance(o, ClsO) or isinstance(o, InstO) and
                        isinstance(self.class_attr(o.cls, '__call__', s)[0], F)), s
            elif isinstance(x, T) and x.kind == 'callable':
                yield TRUE, s
            elif isinstance(x, T) and x.kind == 'any':
                for b, s2 in self.truth(T('bool', 'callable', (x,)), s):
                    yield C(b), s2
            elif isinstance(x, Top):
                yield TRUE, s.fork()
                yield FALSE, s
            else:
                yield FALSE, s

    def bf_repr(self, args, kw, st, fr, node, out):
        yield from self.to_repr(args[0], st, out, node, fr)

    def bf_str(self, args, kw, st, fr, node, out):
        if not args:
            yield C(''), st
            return
        yield from self.to_str(args[0], st, out, node, fr)

    def bf_int(self, args, kw, st, fr, node, out):
        if not args:
            yield C(0), st
            return
        v = args[0]
        if isinstance(v, C):
            try:
                yield C(int(v.v, *(a.v for a in args[1:])) if len(args) > 1 else int(v.v)), st
            except Exception as e:
                self.throw(out, st, type(e).__name__, str(e), node, fr)
            return
        if lin(v) is not None:
            yield v, st
            return
        self.throw(out, st.fork(), 'ValueError', 'invalid literal for int()', node, fr)
        yield T('int', 'int', (v,)), st

    def bf_bool(self, args, kw, st, fr, node, out):
        if not args:
            yield FALSE, st
            return
        for b, s in self.truth(args[0], st):
            yield C(b), s

    def bf_list(self, args, kw, st, fr, node, out):
        if not args:
            yield st.alloc(ListO(())), st
            return
        v = args[0]
        if isinstance(v, R) and isinstance(st.get(v.a), ListO) and st.get(v.a).kind != 'iter':
            for s in self.force(v.a, st):
                yield s.alloc(ListO(s.get(v.a).items)), s
            return
        if isinstance(v, R) and isinstance(st.get(v.a), ArrO):
            o = st.get(v.a)
            yield st.alloc(ArrO(o.length, o.default, o.writes, o.tag)), st
            return
        for vals, s in self.iterate(v, st, out, node, fr):
            yield s.alloc(ListO(vals)), s

    def bf_tuple(self, args, kw, st, fr, node, out):
        if not args:
            yield Tup(()), st
            return
        for vals, s in self.iterate(args[0], st, out, node, fr):
            yield Tup(vals), s

    def bf_set(self, args, kw, st, fr, node, out):
        if not args:
            yield st.alloc(ListO((), kind='set')), st
            return
        for vals, s in self.iterate(args[0], st, out, node, fr):
            # distinctness of symbolic members is decided here
            live = [([], s)]
            for v in vals:
                nxt = []
                for acc, x in live:
                    for b, y in self.member(acc, v, x):
                        nxt.append((acc if b else acc + [v], y))
                live = nxt
            for acc, x in live:
                yield x.alloc(ListO(acc, kind='set')), x

    bf_frozenset = bf_set

    def bf_dict(self, args, kw, st, fr, node, out):
        r = st.alloc(DictO({}))
        states = [st]
        if args:
            states = list(self.dupdate(r.a, args[0], st, out, node, fr))
        for s in states:
            for k, v in kw.items():
                s.mut(r.a).keys[C(k)] = v
            yield r, s

    def bf_dict_fromkeys(self, args, kw, st, fr, node, out):
        r = st.alloc(DictO({}))
        for vals, s in self.iterate(args[0], st, out, node, fr):
            states = [s]
            for k in vals:
                states = [y for x in states for y in self.dset(r.a, k, args[1] if len(args) > 1 else NONE, x, node, fr)]
            for x in states:
                yield r, x

    def bf_type(self, args, kw, st, fr, node, out):
        for x, s in self.deref(args[0], st):
            t = self.typeof(x, s)
            if t is None:
                yield (T('any', 'type', (x,)) if isinstance(x, T) else Top('type')), s
            else:
                yield t, s

    def bf_staticmethod(self, args, kw, st, fr, node, out):
        yield W('staticmethod', args[0]), st

    def bf_classmethod(self, args, kw, st, fr, node, out):
        yield W('classmethod', args[0]), st

    def bf_property(self, args, kw, st, fr, node, out):
        yield W('property', args[0], (args[1] if len(args) > 1 else None,)), st

    def bf_slice(self, args, kw, st, fr, node, out):
        a = list(args)
        if len(a) == 1:
            a = [NONE] + a
        yield Slc(a[0], a[1], a[2] if len(a) > 2 else NONE), st

    def bf_locals(self, args, kw, st, fr, node, out):
        yield st.alloc(DictO({C(k): v for k, v in st.get(fr.env).vars.items() if not k.startswith('$')})), st

    def bf_super(self, args, kw, st, fr, node, out):
        yield Sup(args[0], args[1]), st

    def bf_object(self, args, kw, st, fr, node, out):
        yield st.alloc(InstO(B('object'), {})), st

    def bf_vars(self, args, kw, st, fr, node, out):
        yield from self.getattr_(args[0], '__dict__', st, out, node, fr)

    # ------------------------------------------------------------ builtin methods
    def builtin_method(self, name, self_, args, kw, st, fr, node, out):
        base, meth = name.split('.', 1)
        if base.startswith('ext:'):
            yield from self.ext_call(name[4:], [self_] + list(args), kw, st, fr, node, out)
            return
        if base.startswith('opaque:') and self.opaque_method is not None:
            yield from self.opaque_method(self, base, meth, self_, args, kw, st, fr, node, out)
            return
        if base == 'iter':
            yield from (self.bf_next if meth == '__next__' else self.bf_iter)([self_], {}, st, fr, node, out)
        elif base == 'str':
            yield from self.str_method(meth, self_, args, kw, st, fr, node, out)
        elif base in ('list', 'set', 'frozenset'):
            yield from self.list_method(meth, self_, args, kw, st, fr, node, out)
        elif base == 'dict':
            yield from self.dict_method(meth, self_, args, kw, st, fr, node, out)
        elif base == 'tuple':
            if meth == 'index' or meth == 'count':
                r = st.alloc(ListO(self_.items))
                yield from self.list_method(meth, r, args, kw, st, fr, node, out)
            else:
                self.vague(f'tuple.{meth}', node, fr)
                yield Top(), st
        elif base == 'match':
            yield from self.match_method(meth, self_, args, kw, st, fr, node, out)
        elif base == 'pattern':
            yield from self.pattern_method(meth, self_, args, kw, st, fr, node, out)
        elif base == 'property':
            ex = list(self_.extra) or [None]
            if meth == 'setter':
                ex[0] = args[0]
            yield W('property', self_.fn if meth != 'getter' else args[0], tuple(ex)), st
        elif meth == '__init__':
            if base in self.BUILTIN_EXC and isinstance(self_, R):
                st.mut(self_.a).attrs['args'] = Tup(args)
            elif base == 'object' and (args or kw):
                self.throw(out, st, 'TypeError', 'object.__init__() takes exactly one argument', node, fr)
                return
            yield NONE, st
        elif meth == 'with_traceback':
            yield self_, st
        elif meth in ('__str__', '__repr__'):
            yield T('str', 'repr', (self_,)), st
        elif meth == '__eq__' and args:
            for b, s in self.ident(self_, args[0], st):
                yield C(b), s
        elif meth == '__hash__':
            yield T('int', 'hash', (self_,)), st
        elif base in ('int', 'float', 'bool') and isinstance(self_, C):
            try:
                yield C(getattr(self_.v, meth)(*(a.v for a in args))), st
            except Exception:
                self.vague(name, node, fr)
                yield Top(), st
        else:
            self.vague(f'method {name}', node, fr)
            yield Top(name), st

    def str_method(self, meth, v, args, kw, st, fr, node, out):
        if isinstance(v, T) and v.opt:
            for x, s in self.deref(v, st):
                if x == NONE:
                    self.attr_error(x, meth, s, out, node, fr)
                else:
                    yield from self.str_method(meth, x, args, kw, s, fr, node, out)
            return
        if meth == 'join':
            for vals, s in self.iterate(args[0], st, out, node, fr):
                def go(rest, acc, x):
                    if not rest:
                        yield acc, x
                        return
                    p = rest[0]
                    if isinstance(p, T) and p.opt:
                        for q, y in self.deref(p, x):
                            yield from go([q] + rest[1:], acc, y)
                        return
                    if isinstance(p, C) and not isinstance(p.v, str) or isinstance(p, T) and p.kind in ('int', 'bool') \
                            or isinstance(p, (R, E, Tup, F, BM)):
                        self.throw(out, x, 'TypeError', f'sequence item: expected str instance, '
                                                        f'{self.typename(p, x)} found', node, fr)
                        return
                    yield from go(rest[1:], acc + [p], x)
                for items, x in go(vals, [], s):
                    if any(isinstance(i, Top) for i in items):
                        yield Top('join'), x
                        continue
                    parts = []
                    for i, p in enumerate(items):
                        if i:
                            parts.append(v)
                        parts.append(p)
                    yield concat(parts), x
            return
        if isinstance(v, C) and all(isinstance(a, C) or isinstance(a, Tup) and all(isinstance(z, C) for z in a.items)
                                    for a in args) and all(isinstance(a, C) for a in kw.values()):
            try:
                r = getattr(v.v, meth)(*((tuple(z.v for z in a.items) if isinstance(a, Tup) else a.v) for a in args),
                                       **{k: a.v for k, a in kw.items()})
            except Exception as e:
                self.throw(out, st, type(e).__name__, str(e), node, fr)
                return
            if isinstance(r, list):
                yield st.alloc(ListO([C(x) for x in r])), st
            elif isinstance(r, tuple):
                yield Tup(C(x) for x in r), st
            else:
                yield C(r), st
            return
        if any(isinstance(a, Top) for a in args):
            self.vague(f'str.{meth} on unknown', node, fr)
            yield Top(meth), st
            return
        if self.doc is not None:
            r = self.doc.method(self, meth, v, args, kw, st, fr, node, out)
            if r is not None:
                yield from r
                return
        if meth == 'format' and isinstance(v, C):
            try:
                fields = [(l, n, c) for l, n, s, c in string.Formatter().parse(v.v) if not s or n is None]
                whole = list(string.Formatter().parse(v.v))
            except ValueError:
                fields, whole = None, []
            if fields is not None and len(fields) == len(whole) and all(
                    n is None or n.isidentifier() or n == '' or n.isdigit() for _l, n, _c in fields):
                yield from self.template_text(fields, list(args), kw, st, out, node, fr)
                return
        targs = tuple(args) + tuple(Tup((C(k), x)) for k, x in sorted(kw.items()))
        if meth in ('rjust', 'ljust', 'center', 'zfill', 'expandtabs') and args and \
                isinstance(args[0], C) and not isinstance(args[0].v, int):
            self.throw(out, st, 'TypeError', f'{meth}() needs an integer', node, fr)
            return
        if meth == 'replace' and len(args) >= 2 and args[0] == args[1]:
            yield v, st
            return
        if meth in STR_TO_STR:
            yield T('str', 'm:' + meth, (v,) + targs), st
            return
        if meth in STR_TO_BOOL:
            for b, s in self.truth(T('bool', 'm:' + meth, (v,) + targs), st):
                yield C(b), s
            return
        if meth in ('find', 'rfind', 'index', 'rindex'):
            lo = args[1] if len(args) > 1 and args[1] != NONE else C(0)
            hi = args[2] if len(args) > 2 else NONE
            sub = args[0]
            t = T('int', 'find' if meth in ('find', 'index') else 'rfind', (v, sub, lo, hi))
            miss = st.fork()
            key = frozenset((t, C(('found',))))
            known = st.eqs.get(key)
            sublen = self.strlen(sub, st) if isinstance(sub, (C, T)) else C(0)
            end = hi if hi != NONE else self.strlen(v, st)
            if known is not True:
                miss.eqs[key] = False
                if meth in ('index', 'rindex'):
                    self.throw(out, miss, 'ValueError', 'substring not found', node, fr)
                else:
                    yield C(-1), miss
            if known is not False:
                st.eqs[key] = True
                ok = True
                if lin(lo) is not None:
                    ok = st.assume('>=', t, lo) and ok
                if lin(end) is not None and lin(sublen) is not None:
                    ok = st.assume('<=', mklin(*linadd(lin(t), lin(sublen))), end) and ok
                if ok:
                    yield t, st
            return
        if meth == 'count':
            yield T('int', 'count', (v,) + targs), st
            return
        if meth in ('split', 'rsplit', 'splitlines', 'partition', 'rpartition'):
            if meth in ('partition', 'rpartition'):
                yield Tup(T('str', f'm:{meth}{i}', (v,) + targs) for i in range(3)), st
                return
            def elem(eng, s, owner, j):
                return T('str', f'm:{meth}', (v,) + targs + (C(j),))
            yield st.alloc(ListO((Seg(Provider(f'{meth}', elem), 0 if meth == 'splitlines' else 1),))), st
            return
        if meth == 'encode':
            yield T('bytes', 'encode', (v,) + targs), st
            return
        if meth in ('__len__',):
            yield self.strlen(v, st), st
            return
        if isinstance(v, T) and v.kind == 'any' or hasattr(str, meth):
            self.vague(f'str.{meth}', node, fr)
            yield Top(meth), st
            return
        self.attr_error(v, meth, st, out, node, fr)

    def list_method(self, meth, r, args, kw, st, fr, node, out):
        a = r.a
        o = st.get(a)
        if isinstance(o, ArrO):
            if meth == 'copy':
                yield st.alloc(ArrO(o.length, o.default, o.writes, o.tag)), st
                return
            self.vague(f'list.{meth} on symbolic-length list', node, fr)
            yield Top(meth), st
            return
        if meth in ('append', 'add'):
            if o.kind == 'set':
                for s in self.force(a, st):
                    for b, s2 in self.member(list(s.get(a).items), args[0], s):
                        self.note_write(s2, a, 'add', None, node, fr)
                        if not b:
                            m = s2.mut(a)
                            m.items = m.items + (args[0],)
                        yield NONE, s2
                return
            self.note_write(st, a, 'append', None, node, fr)
            m = st.mut(a)
            m.items = m.items + (args[0],)
            yield NONE, st
        elif meth in ('extend', 'update'):
            v = args[0]
            if isinstance(v, R) and isinstance(st.get(v.a), ListO) and meth == 'extend' and st.get(v.a).kind != 'iter':
                self.note_write(st, a, 'extend', None, node, fr)
                m = st.mut(a)
                m.items = m.items + st.get(v.a).items
                yield NONE, st
                return
            for vals, s in self.iterate(v, st, out, node, fr):
                self.note_write(s, a, 'extend', None, node, fr)
                m = s.mut(a)
                m.items = m.items + tuple(x for x in vals if meth == 'extend' or x not in m.items)
                yield NONE, s
        elif meth == 'insert':
            for s in self.force(a, st):
                items = list(s.get(a).items)
                if isinstance(args[0], C):
                    items.insert(args[0].v, args[1])
                    self.note_write(s, a, 'insert', args[0], node, fr)
                    s.mut(a).items = tuple(items)
                else:
                    self.vague('insert', node, fr)
                yield NONE, s
        elif meth == 'pop':
            for s in self.force(a, st):
                items = list(s.get(a).items)
                i = args[0] if args else C(-1)
                if isinstance(i, C):
                    try:
                        v = items.pop(i.v)
                    except IndexError:
                        self.throw(out, s, 'IndexError', 'pop from empty list', node, fr)
                        continue
                    self.note_write(s, a, 'pop', i, node, fr)
                    s.mut(a).items = tuple(items)
                    yield v, s
                else:
                    self.vague('pop', node, fr)
                    yield Top(), s
        elif meth in ('remove', 'discard', 'index'):
            for s in self.force(a, st):
                items = list(s.get(a).items)
                live = [s]
                for i, v in enumerate(items):
                    nxt = []
                    for x in live:
                        for b, y in ([(True, x)] if v == args[0] else self.eqv(v, args[0], x)):
                            if not b:
                                nxt.append(y)
                            elif meth == 'index':
                                yield C(i), y
                            else:
                                self.note_write(y, a, 'remove', None, node, fr)
                                y.mut(a).items = tuple(items[:i] + items[i + 1:])
                                yield NONE, y
                    live = nxt
                for x in live:
                    if meth == 'discard':
                        yield NONE, x
                    else:
                        self.throw(out, x, 'ValueError' if o.kind != 'set' else 'KeyError', f'{meth}: value not present', node, fr)
        elif meth == 'sort':
            for s in self.force(a, st):
                vals = list(s.get(a).items)
                for keys, s1 in self.keyed(vals, kw.get('key'), s, out, node, fr):
                    for b, s2 in self.truth(kw.get('reverse', FALSE), s1):
                        for lst, s3 in self.stable_sort(list(zip(keys, vals)), b, s2, out, node, fr):
                            self.note_write(s3, a, 'sort', None, node, fr)
                            s3.mut(a).items = tuple(v for _k, v in lst)
                            yield NONE, s3
        elif meth == 'reverse':
            for s in self.force(a, st):
                self.note_write(s, a, 'reverse', None, node, fr)
                s.mut(a).items = tuple(reversed(s.get(a).items))
                yield NONE, s
        elif meth == 'copy':
            for s in self.force(a, st):
                yield s.alloc(ListO(s.get(a).items, kind=o.kind)), s
        elif meth == 'clear':
            self.note_write(st, a, 'clear', None, node, fr)
            st.mut(a).items = ()
            yield NONE, st
        elif meth == 'count':
            for s in self.force(a, st):
                live = [(0, s)]
                for v in s.get(a).items:
                    nxt = []
                    for n, x in live:
                        for b, y in self.eqv(v, args[0], x):
                            nxt.append((n + b, y))
                    live = nxt
                for n, x in live:
                    yield C(n), x
        elif meth in ('union', 'intersection', 'difference', 'symmetric_difference', 'isdisjoint', 'issubset', 'issuperset',
                      'difference_update', 'intersection_update') and o.kind == 'set' and len(args) == 1:
            for vals, s in self.iterate(args[0], st, out, node, fr):
                for s1 in self.force(a, s):
                    items = list(s1.get(a).items)
                    op = {'union': ast.BitOr, 'symmetric_difference': ast.BitXor, 'difference': ast.Sub, 'issubset': ast.Sub,
                          'difference_update': ast.Sub}.get(meth, ast.BitAnd)
                    xs, ys = (vals, items) if meth == 'issuperset' else (items, vals)
                    for v, s2 in self.set_op(ast.Sub if meth == 'issuperset' else op, xs, ys, s1):
                        if meth in ('isdisjoint', 'issubset', 'issuperset'):
                            yield C(not s2.get(v.a).items), s2
                        elif meth.endswith('_update'):
                            s2.mut(a).items = s2.get(v.a).items
                            yield NONE, s2
                        else:
                            yield v, s2
        elif meth in ('__len__', '__iter__', '__getitem__', '__contains__'):
            if meth == '__len__':
                yield from self.bf_len([r], {}, st, fr, node, out)
            elif meth == '__iter__':
                yield from self.bf_iter([r], {}, st, fr, node, out)
            elif meth == '__getitem__':
                yield from self.getitem(r, args[0], st, out, node, fr)
            else:
                for b, s in self.contains(r, args[0], st, out, node, fr):
                    yield C(b), s
        else:
            self.vague(f'list.{meth}', node, fr)
            yield Top(meth), st

    def dict_method(self, meth, r, args, kw, st, fr, node, out):
        a = r.a
        if meth == 'get':
            d = args[1] if len(args) > 1 else kw.get('default', NONE)
            for p, v, s in self.dget(a, args[0], st):
                yield (v if p else d), s
        elif meth in ('items', 'keys', 'values'):
            for s in self.settle(a, st):
                o = s.get(a)
                pairs = list(o.keys.items()) + list(o.sym)
                if meth == 'items':
                    yield s.alloc(ListO([Tup(p) for p in pairs])), s
                elif meth == 'keys':
                    yield s.alloc(ListO([k for k, _ in pairs], kind='set')), s
                else:
                    yield s.alloc(ListO([v for _, v in pairs])), s
        elif meth == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            for p, v, s in self.dget(a, args[0], st):
                if p:
                    yield v, s
                else:
                    for s2 in self.dset(a, args[0], d, s, node, fr):
                        yield d, s2
        elif meth == 'pop':
            for p, v, s in self.dget(a, args[0], st):
                if p:
                    for s2 in self.ddel(a, args[0], s, out, node, fr):
                        yield v, s2
                elif len(args) > 1:
                    yield args[1], s
                else:
                    self.throw(out, s, 'KeyError', f'pop of absent key {args[0]!r}', node, fr)
                    s.mut(out[-1][1].a).attrs['args'] = Tup((args[0],))
        elif meth == 'update':
            states = [st]
            if args:
                states = list(self.dupdate(a, args[0], st, out, node, fr))
            for s in states:
                live = [s]
                for k, v in kw.items():
                    live = [y for x in live for y in self.dset(a, C(k), v, x, node, fr)]
                for x in live:
                    yield NONE, x
        elif meth == 'copy':
            o = st.get(a).copy()
            o.tag = ''
            yield st.alloc(o), st
        elif meth == 'clear':
            self.note_write(st, a, 'clear', None, node, fr)
            m = st.mut(a)
            m.keys, m.opt, m.variants, m.sym, m.rest = {}, {}, None, (), None
            yield NONE, st
        elif meth == '__contains__':
            for p, _v, s in self.dget(a, args[0], st):
                yield C(p), s
        elif meth == 'popitem':
            for s in self.settle(a, st):
                o = s.get(a)
                pairs = list(o.keys.items())
                if o.sym or not pairs:
                    if not o.sym:
                        self.throw(out, s, 'KeyError', 'popitem(): dictionary is empty', node, fr)
                        continue
                    self.vague('popitem', node, fr)
                    yield Top('popitem'), s
                    continue
                for s2 in self.ddel(a, pairs[-1][0], s, out, node, fr):
                    yield Tup(pairs[-1]), s2
        elif meth in ('__getitem__', '__setitem__', '__len__', '__iter__'):
            if meth == '__getitem__':
                yield from self.getitem(r, args[0], st, out, node, fr)
            elif meth == '__setitem__':
                for s in self.dset(a, args[0], args[1], st, node, fr):
                    yield NONE, s
            elif meth == '__len__':
                yield from self.bf_len([r], {}, st, fr, node, out)
            else:
                yield from self.bf_iter([r], {}, st, fr, node, out)
        else:
            self.vague(f'dict.{meth}', node, fr)
            yield Top(meth), st

    # ------------------------------------------------------------ regular expressions
    def compile_pattern(self, p, flags, st, node, fr):
        """-> pattern term (kind 'pattern') or None"""
        if isinstance(p, C):
            pat, terms = p.v, None
        elif isinstance(p, T):
            parts = p.args if p.op == 'concat' else (p,)
            pat = ''
            for x in parts:
                if isinstance(x, C):
                    pat += x.v
                elif isinstance(x, T) and x.op == 'reescape':
                    pat += rx.PLACEHOLDER
                elif isinstance(x, T) and x.op == 'part' and x.args[2] == C('run') and x.args[1] == C('mop'):
                    pat += RUN
                elif isinstance(x, T) and x.op == 'grp' and self.alphabet_of(x) is not None and \
                        len(self.alphabet_of(x)) == 1 and not (self.alphabet_of(x) & META):
                    ch = next(iter(self.alphabet_of(x)))
                    pat += ch * max(1, self.regexes[x.args[0].v].minwidth(x.args[3].v))
                else:
                    st.event('regex-raw', x, self.site(node, fr))
                    pat += rx.PLACEHOLDER
            terms = p
        else:
            return None
        try:
            inf = rx.info(pat.replace(RUN, '--'), flags)
        except pyre.error as e:
            return e
        self.regexes[pat] = inf
        self.regex_sites.setdefault(pat, self.site(node, fr) if node is not None and fr is not None else '')
        return T('pattern', 'pattern', (C(pat), C(int(flags))) + ((terms,) if terms is not None else ()))

    def pattern_method(self, meth, p, args, kw, st, fr, node, out):
        if self.doc is not None and meth in ('search', 'match', 'fullmatch') and args:
            r = self.doc.match(self, meth, p, args, kw, st, fr, node, out)
            if r is not None:
                yield from r
                return
        inf = self.regexes[p.args[0].v]
        if len(p.args) == 2 and args and all(isinstance(x, C) for x in args) and all(isinstance(x, C) for x in kw.values()) and \
                all(isinstance(x.v, (str, int)) for x in args) and isinstance(args[0].v, str):
            py = pyre.compile(p.args[0].v, p.args[1].v)
            res = getattr(py, meth)(*(x.v for x in args), **{k: x.v for k, x in kw.items()})

            def lift(r):
                if isinstance(r, pyre.Match):
                    n = py.groups + 1
                    return self.new_record('re_ConstMatch', st, spans=Tup(Tup(C(i) for i in r.span(i)) for i in range(n)), values=Tup(
                        C(r.group(i)) for i in range(n)), names=st.alloc(DictO({C(k): C(i) for k, i in py.groupindex.items()})),
                        string=C(r.string), lastgroup=C(r.lastgroup), lastindex=C(r.lastindex), re=p)
                if isinstance(r, tuple):
                    return Tup(lift(x) for x in r)
                return C(r)
            if meth in ('finditer', 'findall', 'split'):
                yield st.alloc(ListO([lift(x) for x in res], kind='iter' if meth == 'finditer' else 'list')), st
            else:
                yield lift(res), st
            return
        if meth in ('search', 'match', 'fullmatch'):
            if not args:
                self.throw(out, st, 'TypeError', 'missing string', node, fr)
                return
            s_ = args[0]
            for x, s in self.deref(s_, st):
                if x == NONE or lin(x) is not None:
                    self.throw(out, s, 'TypeError', 'expected string or bytes-like object', node, fr)
                    continue
                if isinstance(x, (R, E, F)):
                    self.throw(out, s, 'TypeError', 'expected string or bytes-like object', node, fr)
                    continue
                pos = args[1] if len(args) > 1 else kw.get('pos', C(0))
                mid = (C(p.args[0].v), x, pos, p.args[2] if len(p.args) > 2 else NONE, C(meth))
                key = frozenset((T('any', 'matched', mid), C(('?',))))
                known = s.eqs.get(key)
                if known is not True:
                    miss = s.fork()
                    miss.eqs[key] = False
                    yield NONE, miss
                if known is False:
                    continue
                s.eqs[key] = True
                m = MatO(inf, x, pos, None, meth)
                m.variants = tuple(sorted((tuple(sorted(g)) for g in inf.variants), key=repr))
                r = s.alloc(m)
                b0, e0 = self.mterm(m, 'mb', 0, mid), self.mterm(m, 'me', 0, mid)
                m.whole = (meth, mid)
                ok = True
                if isinstance(b0, T):
                    ok = s.assume('>=', b0, pos)
                if lin(pos) is not None:
                    ok = ok and s.assume('<=', mklin(*linadd(lin(b0), (inf.minwidth(), {}))), e0)
                    ok = ok and s.assume('<=', e0, self.strlen(x, s))
                if ok:
                    yield r, s
            return
        if meth in ('sub', 'subn'):
            yield T('str', 're.sub', (p,) + tuple(args)), st
            return
        self.vague(f'pattern.{meth}', node, fr)
        yield Top(meth), st

    @staticmethod
    def mterm(m, what, n, mid=None):
        mid = mid or m.whole[1]
        meth = mid[4].v
        if n == 0 and what == 'mb' and meth in ('match', 'fullmatch'):
            return mid[2]
        return T('int', what, (mid[0], mid[1], mid[2], C(n)) + mid[3:])

    def match_decide(self, r, n, st):
        """does group n participate?  yield (bool, state)"""
        m = st.get(r.a)
        if n == 0:
            yield True, st
            return
        inn = tuple(v for v in m.variants if n in v)
        ex = tuple(v for v in m.variants if n not in v)
        if inn and ex:
            s2 = st.fork()
            s2.mut(r.a).variants = ex
            yield False, s2
            st.mut(r.a).variants = inn
            yield True, st
        elif inn:
            yield True, st
        else:
            yield False, st

    def group_term(self, m, n, st):
        mid = m.whole[1]
        t = T('str', 'grp', (mid[0], mid[1], mid[2], C(n)) + mid[3:])
        mn, mx = m.info.minwidth(n if n else None), m.info.maxwidth(n if n else None)
        if mx == 0:
            return C('')
        if mn >= 1:
            st.truth[t] = True
        return t

    def span_terms(self, m, n, st):
        b, e = self.mterm(m, 'mb', n), self.mterm(m, 'me', n)
        if n:
            b0, e0 = self.mterm(m, 'mb', 0), self.mterm(m, 'me', 0)
            mn, mx = m.info.minwidth(n), m.info.maxwidth(n)
            st.assume('>=', b, b0)
            st.assume('<=', mklin(*linadd(lin(b), (mn, {}))), e)
            st.assume('<=', e, e0)
            if mx < 1000:
                st.assume('<=', e, mklin(*linadd(lin(b), (mx, {}))))
        return b, e

    def group_no(self, m, k):
        if k is None:
            return 0
        if isinstance(k, C):
            if isinstance(k.v, int):
                return k.v if 0 <= k.v <= m.info.ngroups else None
            return m.info.groupnames.get(k.v)
        return 'vague'

    def match_group(self, r, k, st, out, node, fr):
        m = st.get(r.a)
        n = self.group_no(m, k)
        if n == 'vague':
            self.vague('match group with computed index', node, fr)
            yield Top('group'), st
            return
        if n is None:
            self.throw(out, st, 'IndexError', 'no such group', node, fr)
            return
        for b, s in self.match_decide(r, n, st):
            yield (self.group_term(s.get(r.a), n, s) if b else NONE), s

    def docmatch(self, meth, r, args, st, out, node, fr):
        m = st.get(r.a)
        def num(k):
            if isinstance(k, C):
                n = k.v if isinstance(k.v, int) else m.names.get(k.v)
                return n if n is not None and 0 <= n <= m.ngroups else None
            return 'vague'
        if meth == 'group':
            ns = [num(k) for k in (args or [C(0)])]
            if 'vague' in ns:
                self.vague('match group with computed index', node, fr)
                yield Top('group'), st
                return
            if None in ns:
                self.throw(out, st, 'IndexError', 'no such group', node, fr)
                return
            vals = [m.groups[n][0] if m.groups.get(n) else NONE for n in ns]
            yield (vals[0] if len(vals) == 1 else Tup(vals)), st
        elif meth == 'groups':
            d = args[0] if args else NONE
            yield Tup([m.groups[n][0] if m.groups.get(n) else d for n in range(1, m.ngroups + 1)]), st
        elif meth == 'groupdict':
            yield st.alloc(DictO({C(k): (m.groups[n][0] if m.groups.get(n) else NONE) for k, n in m.names.items()})), st
        else:
            n = num(args[0]) if args else 0
            if n == 'vague':
                self.vague('match span with computed index', node, fr)
                yield Top(meth), st
                return
            if n is None:
                self.throw(out, st, 'IndexError', 'no such group', node, fr)
                return
            g = m.groups.get(n)
            x, y = (g[1], g[2]) if g else (C(-1), C(-1))
            yield {'start': x, 'end': y, 'span': Tup((x, y))}[meth], st

    def match_method(self, meth, r, args, kw, st, fr, node, out):
        m = st.get(r.a)
        if isinstance(m, DocMat):
            yield from self.docmatch(meth, r, args, st, out, node, fr)
            return
        if meth == 'group':
            if len(args) <= 1:
                yield from self.match_group(r, args[0] if args else C(0), st, out, node, fr)
                return
            def go(rest, acc, s):
                if not rest:
                    yield Tup(acc), s
                    return
                for v, s1 in self.match_group(r, rest[0], s, out, node, fr):
                    yield from go(rest[1:], acc + [v], s1)
            yield from go(list(args), [], st)
            return
        if meth == 'groups':
            def go(n, acc, s):
                if n > m.info.ngroups:
                    yield Tup(acc), s
                    return
                for v, s1 in self.match_group(r, C(n), s, out, node, fr):
                    yield from go(n + 1, acc + [v], s1)
            yield from go(1, [], st)
            return
        if meth == 'groupdict':
            names = list(m.info.groupnames)
            def go(ns, acc, s):
                if not ns:
                    yield s.alloc(DictO(dict(acc))), s
                    return
                for v, s1 in self.match_group(r, C(ns[0]), s, out, node, fr):
                    yield from go(ns[1:], acc + [(C(ns[0]), v)], s1)
            yield from go(names, [], st)
            return
        if meth in ('start', 'end', 'span'):
            n = self.group_no(m, args[0] if args else None)
            if n == 'vague':
                self.vague('match span with computed index', node, fr)
                yield Top(meth), st
                return
            if n is None:
                self.throw(out, st, 'IndexError', 'no such group', node, fr)
                return
            for b, s in self.match_decide(r, n, st):
                if b:
                    x, y = self.span_terms(s.get(r.a), n, s)
                else:
                    s.event('span-of-absent-group', n, self.site(node, fr))
                    x = y = C(-1)
                yield {'start': x, 'end': y, 'span': Tup((x, y))}[meth], s
            return
        self.vague(f'match.{meth}', node, fr)
        yield Top(meth), st

    # ------------------------------------------------------------ other modules
    def ext_attr(self, mod, name):
        if mod == 'math' and hasattr(math, name) and isinstance(getattr(math, name), float):
            return C(getattr(math, name))
        if mod == 'enum':
            return B(name) if name in ('Enum', 'IntEnum', 'Flag', 'StrEnum') else B(f'ext:enum.{name}')
        if mod == 're' and name.isupper():
            return C(int(getattr(pyre, name)))
        if mod == 'string':
            import string
            if isinstance(getattr(string, name, None), str):
                return C(getattr(string, name))
        if mod == 'sys' and name == 'maxsize':
            import sys
            return C(sys.maxsize)
        std = self.std_name(f'{mod}.{name}')
        return std if std is not None else B(f'ext:{mod}.{name}')

    def new_record(self, cls, st, **attrs):
        return st.alloc(InstO(self.std_name(cls), attrs, {}))

    def run_source(self, src, names, st):
        """executes generated class definitions with the given names bound -> (environment, state)"""
        from .interp import Fr
        env = st.alloc(EnvO(dict(names), None, 'function', 'enostd'))
        tree = ast.parse(src)
        self.keep.append(tree)
        self.stack.append(env.a)
        res = self.block(tree.body, Fr(env.a, 'enostd', '<generated>'), st)
        self.stack.pop()
        if len(res) != 1 or res[0][0] != 'next':
            return None, st
        return env.a, res[0][2]

    def fields_of(self, c, st):
        res = []
        for k in reversed(self.mro(c, st)):
            if isinstance(k, R):
                res += [n for n in self.annot.get(k.a, ()) if n not in res]
        return res

    def dataclass(self, c, st, node, fr):
        names, bound, sig, body = self.fields_of(c, st), {}, [], []
        for n in names:
            d, _ = self.class_attr(c, n, st)
            if isinstance(d, W) and d.what == 'field':
                spec = {k.v: v for k, v in (p.items for p in d.extra[0].items)}
                if 'default_factory' in spec:
                    bound['_f_' + n], bound['_missing'] = spec['default_factory'], C('<missing>')
                    sig.append(f'{n}=_missing')
                    body.append(f'self.{n} = _f_{n}() if {n} is _missing else {n}')
                    st.mut(c.a).attrs.pop(n, None)
                    continue
                d = spec.get('default')
            if d is None or isinstance(d, tuple):
                sig.append(n)
            else:
                bound['_d_' + n] = d
                sig.append(f'{n}=_d_{n}')
            body.append(f'self.{n} = {n}')
        if isinstance(self.class_attr(c, '__post_init__', st)[0], F):
            body.append('self.__post_init__()')
        own = '(' + ''.join(f'self.{n}, ' for n in names) + ')'
        src = f'def __init__(self, {", ".join(sig)}):\n    ' + '\n    '.join(body or ['pass']) + \
            f'\n\ndef __eq__(self, other):\n    return self.__class__ is other.__class__ and {own} == ' + \
            own.replace('self.', 'other.') + '\n'
        env, st = self.run_source(src, bound, st)
        if env is None:
            return None, st
        m = st.mut(c.a)
        for k in ('__init__', '__eq__'):
            if k not in m.attrs:
                m.attrs[k] = st.get(env).vars[k]
        return c, st

    def namedtuple(self, name, fields, defaults, extra, st):
        d = dict(defaults)
        own = '(' + ''.join(f'self.{n}, ' for n in fields) + ')'
        src = f'''class {name}:
    _fields = {tuple(fields)!r}

    def __init__(self, {", ".join(n + (f"=_d_{n}" if n in d else "") for n in fields)}):
        pass
''' + ''.join(f'        self.{n} = {n}\n' for n in fields) + f'''
    def __iter__(self):
        return iter({own})

    def __getitem__(self, i):
        return {own}[i]

    def __len__(self):
        return {len(fields)}

    def __eq__(self, other):
        return isinstance(other, ({name}, tuple)) and {own} == tuple(other)

    def __contains__(self, x):
        return x in {own}

    def __lt__(self, other):
        return {own} < tuple(other)

    def index(self, x):
        return {own}.index(x)

    def _asdict(self):
        return {{{", ".join(f"'{n}': self.{n}" for n in fields)}}}

    def _replace(self, **changes):
        return {name}(**{{**self._asdict(), **changes}})

    @classmethod
    def _make(cls, values):
        return cls(*values)
'''
        env, st = self.run_source(src, {'_d_' + n: v for n, v in d.items()}, st)
        if env is None:
            return None, st
        c = st.get(env).vars[name]
        if extra:
            st.mut(c.a).attrs.update(extra)
        return c, st

    def std_name(self, name):
        """what pystd.py defines for a name of the standard library"""
        env = self.mods.get('enostd')
        return None if env is None else self.st.get(env).vars.get(name.replace('.', '_'))

    def deepcopy(self, v, st, memo):
        if not isinstance(v, (R, Tup)):
            return v
        if isinstance(v, Tup):
            xs = [self.deepcopy(x, st, memo) for x in v.items]
            return None if None in xs else Tup(xs)
        if v.a in memo:
            return memo[v.a]
        o = st.get(v.a)
        if isinstance(o, DictO) and not (o.opt or o.variants or o.sym or o.rest):
            n = DictO({})
            memo[v.a] = r = st.alloc(n)
            for k, x in o.keys.items():
                y = self.deepcopy(x, st, memo)
                if y is None:
                    return None
                n.keys[k] = y
            return r
        if isinstance(o, ListO) and not any(isinstance(x, Seg) for x in o.items):
            n = ListO((), kind=o.kind)
            memo[v.a] = r = st.alloc(n)
            xs = [self.deepcopy(x, st, memo) for x in o.items]
            if None in xs:
                return None
            n.items = tuple(xs)
            return r
        return None

    def ext_call(self, name, args, kw, st, fr, node, out):
        if self.ext_hook is not None:
            r = self.ext_hook(self, name, args, kw, st, fr, node, out)
            if r is not None:
                yield from r
                return
        if name == 're.compile':
            flags = args[1] if len(args) > 1 else kw.get('flags', C(0))
            t = self.compile_pattern(args[0], flags.v if isinstance(flags, C) else 0, st, node, fr)
            if isinstance(t, Exception):
                self.throw(out, st, 'ValueError', f're.error: {t}', node, fr)
            elif t is None:
                self.vague('re.compile of unknown', node, fr)
                yield Top('re'), st
            else:
                yield t, st
            return
        if name in ('re.search', 're.match', 're.fullmatch', 're.sub', 're.findall', 're.split', 're.finditer'):
            t = self.compile_pattern(args[0], 0, st, node, fr)
            if isinstance(t, T):
                yield from self.pattern_method(name[3:], t, args[1:], kw, st, fr, node, out)
            else:
                self.vague(name, node, fr)
                yield Top(name), st
            return
        if name == 're.escape':
            if isinstance(args[0], C):
                yield C(pyre.escape(args[0].v)), st
            else:
                yield T('str', 'reescape', (args[0],)), st
            return
        if name == 'html.escape':
            for x, s in self.deref(args[0], st):
                if x == NONE:
                    self.throw(out, s, 'AttributeError', "'NoneType' object has no attribute 'replace'", node, fr)
                elif isinstance(x, C):
                    import html
                    yield C(html.escape(x.v)), s
                else:
                    yield T('str', 'escape', (x,) + tuple(v for k, v in sorted(kw.items()) if v == FALSE)), s
            return
        if name in ('functools.wraps',):
            yield B('ext:identity'), st
            return
        if name in ('identity', 'abc.abstractmethod', 'typing.cast', 'enum.unique', 'typing.final'):
            yield args[-1], st
            return
        if name == 'dataclasses.dataclass':
            if args and isinstance(args[0], R):
                c, s = self.dataclass(args[0], st, node, fr)
                if c is not None:
                    yield c, s
                    return
            elif not args:
                yield B('ext:dataclasses.dataclass'), st
                return
        if name == 'dataclasses.field':
            yield W('field', NONE, (Tup(Tup((C(k), v)) for k, v in kw.items()),)), st
            return
        if name == 'collections.namedtuple' and len(args) == 2 and isinstance(args[0], C) and set(kw) <= {'defaults'}:
            live = [([C(x) for x in args[1].v.replace(',', ' ').split()], st)] if isinstance(args[1], C) and isinstance(
                args[1].v, str) else list(self.iterate(args[1], st, out, node, fr))
            for vals, s in live:
                for ds, s1 in (self.iterate(kw['defaults'], s, out, node, fr) if 'defaults' in kw else [([], s)]):
                    if all(isinstance(v, C) and isinstance(v.v, str) for v in vals):
                        names = [v.v for v in vals]
                        c, s2 = self.namedtuple(args[0].v, names, list(zip(names[len(names) - len(ds):], ds)), None, s1)
                        if c is not None:
                            yield c, s2
                            continue
                    self.vague(name, node, fr)
                    yield Top(name), s1
            return
        if name == 'functools.partial':
            yield W('partial', args[0], (Tup(args[1:]), Tup(Tup((C(k), v)) for k, v in kw.items()))), st
            return
        if name == 'itertools.chain':
            def go(rest, acc, s):
                if not rest:
                    yield s.alloc(ListO(acc, kind='iter')), s
                    return
                for vals, s1 in self.iterate(rest[0], s, out, node, fr):
                    yield from go(rest[1:], acc + vals, s1)
            yield from go(list(args), [], st)
            return
        if name == 'itertools.islice' and all(isinstance(x, C) for x in args[1:]):
            base = args[0]
            if isinstance(base, R) and isinstance(st.get(base.a), InstO) and 'count' in st.get(base.a).ghost:
                start, step = st.get(base.a).ghost['count']
                stop = args[1].v if len(args) == 2 else args[2].v
                src = [([mklin(*linadd(lin(start), lin(C(i * step)))) for i in range(stop)], st)]
            else:
                src = self.iterate(base, st, out, node, fr)
            for vals, s in src:
                yield s.alloc(ListO(vals[slice(*(x.v for x in args[1:]))], kind='iter')), s
            return
        if name == 'itertools.count' and all(lin(x) is not None for x in args[:1]) and not kw and len(args) < 2:
            yield st.alloc(InstO(B('ext:itertools.count'), {}, {'count': (args[0] if args else C(0), 1)})), st
            return
        if name == 'itertools.repeat' and len(args) == 2:
            n = args[1]
            if isinstance(n, C):
                yield st.alloc(ListO([args[0]] * n.v, kind='iter')), st
                return
        if name == 'itertools.tee' and (len(args) == 1 or isinstance(args[1], C)):
            for vals, s in self.iterate(args[0], st, out, node, fr):
                yield Tup(s.alloc(ListO(vals, kind='iter')) for _ in range(args[1].v if len(args) > 1 else 2)), s
            return
        if name in ('operator.itemgetter', 'operator.attrgetter', 'operator.methodcaller') and args:
            yield W(name[9:], args[0], (Tup(args[1:]), Tup(Tup((C(k), v)) for k, v in kw.items()))), st
            return
        if name == 'collections.defaultdict':
            d = DictO({}, kind='defaultdict')
            d.ghost['factory'] = args[0] if args else NONE
            yield st.alloc(d), st
            return
        if name == 'collections.OrderedDict':
            yield from self.bf_dict(args, kw, st, fr, node, out)
            return
        if name in ('copy.copy',) and isinstance(args[0], R):
            o = st.get(args[0].a)
            if isinstance(o, (DictO, ListO, InstO)):
                c = o.copy()
                if hasattr(c, 'tag'):
                    c.tag = ''
                yield st.alloc(c), st
                return
        if name == 'copy.deepcopy':
            r = self.deepcopy(args[0], st, {})
            if r is not None:
                yield r, st
                return
        if name in ('functools.lru_cache', 'functools.cache', 'functools.cached_property'):
            st.event('cache', name, self.site(node, fr))
            if args and isinstance(args[0], F):
                yield args[0], st
            else:
                yield B('ext:identity'), st
            return
        if name in ('enum.auto',):
            yield T('int', 'auto', (C(self.freshid()),)), st
            return
        if name.startswith('typing.'):
            yield Top('typing'), st
            return
        st.event('extcall', name, self.site(node, fr) if node is not None and fr is not None else '')
        self.vague(f'call of {name}', node, fr)
        yield Top(name), st
