"""Abstract interpreter for the Python subset used by enolib.

eval functions are generators of (value, state); raising outcomes are appended
to `out` as ('exc', exception value, state).  Statement functions return lists
of (signal, value, state) with signal in next/ret/brk/cont/exc.

Lists of unknown length are k-limited, unknown dictionaries are disjunctions of
declared shapes that are refined by the questions the program asks of them.
"""
import ast
import builtins as pybuiltins
import os
import sys
from .values import *
from .state import *
from . import regex as rx
from .expr import ExprMixin, Gen
from .lib import LibMixin


class Budget(Exception):
    pass


class Unsupported(Exception):
    pass


class Fr:
    __slots__ = ('env', 'fn', 'mod', 'qual', 'locals', 'globals', 'gen', 'cls', 'selfv', 'nonlocals')

    def __init__(self, env, mod, qual, locals_=frozenset(), globals_=frozenset(), fn=None, gen=False, cls=None,
                 selfv=None, nonlocals=frozenset()):
        self.env, self.mod, self.qual, self.locals, self.globals = env, mod, qual, locals_, globals_
        self.fn, self.gen, self.cls, self.selfv, self.nonlocals = fn, gen, cls, selfv, nonlocals


def scope_of(node):
    """(local names, global names, nonlocal names, is generator) of a function body"""
    loc, glo, non = set(), set(), set()
    gen = False
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(p.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)

    def walk(n):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    loc.add(m.target.id)
            walk(n.generators[0].iter)
            return
        if isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    return frozenset(loc - glo - non), frozenset(glo), frozenset(non), gen


BUILTIN_FUNCS = {'len', 'range', 'enumerate', 'reversed', 'sorted', 'zip', 'map', 'filter', 'any', 'all', 'min', 'max',
                 'sum', 'next', 'iter', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'setattr', 'delattr',
                 'callable', 'repr', 'print', 'abs', 'ord', 'chr', 'id', 'hash', 'vars', 'format', 'open', 'eval',
                 'exec', 'input', '__import__', 'compile', 'globals', 'locals', 'divmod', 'round', 'pow', 'ascii'}
BUILTIN_TYPES = {'list', 'dict', 'tuple', 'set', 'frozenset', 'str', 'int', 'bool', 'float', 'bytes', 'object', 'type',
                 'super', 'staticmethod', 'classmethod', 'property'}
BUILTIN_EXC = {n for n in dir(pybuiltins) if isinstance(getattr(pybuiltins, n), type)
               and issubclass(getattr(pybuiltins, n), BaseException)}
EXTERNAL = {'re', 'math', 'enum', 'html', 'itertools', 'functools', 'collections', 'operator', 'string', 'typing',
            'copy', 'abc', 'dataclasses', 'contextlib', 'types', 'textwrap', 'bisect', 'warnings', 'inspect', 'os',
            'sys', 'io', 'time', 'random', 'datetime', 'threading', 'json', 'pathlib', 'weakref', 'logging', 'uuid',
            'secrets', 'subprocess', 'socket', 'tempfile', 'pprint', 'unicodedata', 'gc', 'numbers', 'keyword'}


class Engine(ExprMixin, LibMixin):
    BUILTIN_EXC = BUILTIN_EXC

    def __init__(self, root, package='enolib', k=2):
        self.root, self.package = root, package
        self.k = k
        self.klimit = {}
        self.rec_limit = 2
        self.while_cap = 3
        self.symrange_cap = 2
        self.max_steps = 4_000_000
        self.steps = 0
        self.trees = {}
        self.scopes = {}
        self.stack = []
        self.active = {}
        self.rets = []
        self.visited_funcs = set()
        self.visited_lines = set()
        self.cuts = {}
        self.imprecise = {}
        self.loop_hooks = {}         # id(ast node) -> hook
        self.call_hooks = {}         # qualified function name -> handler
        self.opaque_call = None      # handler for calls of T callables
        self.opaque_attr = None
        self.fresh = 0
        self.mods = {}               # module name -> env addr (in base state)
        self.st = State()
        self.loading = []
        self.imported_external = {}
        self.docinv = None
        self.regexes = {}
        self.regex_sites = {}
        self.enums = {}
        self.defcls = {}
        self.rec_limits = {}
        self.ret_hook = None
        self.trace = None
        self.ext_hook = None
        self.opaque_method = None
        self.comparing = set()
        self.tried = {}              # how often looking for equal states helped: place -> [compared, equal, left out]
        self.annot = {}              # class address -> names of its annotated attributes, in order
        self.keep = []               # generated syntax trees (functions are identified by their node)
        self.endless = set()         # loops that came back to a state they had been in
        self.doc = None              # abstract document whose text is being analysed
        self.roots = []              # values the caller holds on to across a call
        self.topframe = Fr(None, package, '<analysis>')

    # ------------------------------------------------------------ bookkeeping
    def cut(self, why):
        self.cuts[why] = self.cuts.get(why, 0) + 1

    def vague(self, why, node=None, fr=None):
        k = why if node is None else f'{why} @{self.site(node, fr)}'
        self.imprecise[k] = self.imprecise.get(k, 0) + 1
        loc = sys._getframe(1).f_locals          # the abstract state at hand is no longer exact
        for n in ('s', 'st'):
            if isinstance(loc.get(n), State):
                loc[n].taint = True

    def freshid(self):
        self.fresh += 1
        return self.fresh

    def site(self, node, fr):
        return f'{fr.mod.replace(".", "/")}.py:{getattr(node, "lineno", 0)} in {fr.qual}'

    def new_str(self, name, nonempty=False, st=None):
        t = T('str', 'sym', (name, self.freshid()))
        if nonempty:
            st.truth[t] = True
        return t

    def new_int(self, name, st=None, lo=None):
        t = T('int', 'nat' if lo == 0 else 'sym', (name, self.freshid()))
        return t

    # ------------------------------------------------------------ modules
    def path_of(self, name):
        rel = name.replace('.', '/')
        for p in (f'{rel}.py', f'{rel}/__init__.py'):
            f = os.path.join(self.root, p)
            if os.path.isfile(f):
                return f
        return None

    def tree(self, name):
        if name not in self.trees:
            p = self.path_of(name)
            with open(p, encoding='utf-8') as fh:
                self.trees[name] = ast.parse(fh.read(), p)
        return self.trees[name]

    def is_pkg(self, name):
        p = self.path_of(name)
        return p is not None and p.endswith('__init__.py')

    def load(self, name):
        """execute a module body on the base state"""
        if name in self.mods:
            return
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return
        if name not in self.trees and self.path_of(name) is None:
            raise Unsupported(f'no module {name}')
        st = self.st
        env = st.alloc(EnvO({}, None, 'module', name))
        self.mods[name] = env.a
        st.get(env.a).vars['__name__'] = C(name)
        fr = Fr(env.a, name, '<module>')
        self.stack.append(env.a)
        res = self.block(self.tree(name).body, fr, st)
        self.stack.pop()
        if len(res) != 1 or res[0][0] != 'next':
            raise Unsupported(f'module {name} body did not execute straight: {res[:3]}')
        self.st = res[0][2]
        if '.' in name:
            parent, child = name.rsplit('.', 1)
            self.st.mut(self.mods[parent]).vars.setdefault(child, M(name))

    def finish_import(self):
        self.st.freeze()

    def load_all(self):
        return self.load_modules()

    def load_modules(self, extra=()):
        base = os.path.join(self.root, self.package)
        names = []
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    names.append(rel)
        import enoai.pystd as std
        self.trees['enostd'] = ast.parse(open(std.__file__, encoding='utf-8').read(), std.__file__)
        for n in ['enostd', self.package] + sorted(names) + list(extra):
            self.load(n)
        self.finish_import()
        self.st.taint = False        # what is unknown at import time taints where it is used
        return names

    def resolve_from(self, fr, node):
        if node.level == 0:
            return node.module
        base = fr.mod if self.is_pkg(fr.mod) else fr.mod.rsplit('.', 1)[0]
        for _ in range(node.level - 1):
            base = base.rsplit('.', 1)[0]
        return base + ('.' + node.module if node.module else '')

    def global_value(self, mod, name):
        """value of a module-level name in the base state"""
        self.load(mod)
        return self.st.get(self.mods[mod]).vars.get(name)

    # ------------------------------------------------------------ exceptions
    def mkexc(self, st, cls, msg, node, fr):
        return st.alloc(InstO(B(cls), {'args': Tup((C(msg),))},
                              {'site': self.site(node, fr) if node is not None else '', 'msg': msg, 'engine': True}))

    def throw(self, out, st, cls, msg, node, fr):
        out.append(('exc', self.mkexc(st, cls, msg, node, fr), st))

    def exc_class_names(self, v, st):
        """names of all classes of an exception instance / class value"""
        o = st.get(v.a) if isinstance(v, R) else None
        c = o.cls if isinstance(o, InstO) else v
        return self.class_names(c, st)

    def class_names(self, c, st):
        names = []
        for x in self.mro(c, st):
            if isinstance(x, B):
                pc = getattr(pybuiltins, x.name, None)
                if isinstance(pc, type):
                    names.extend(k.__name__ for k in pc.__mro__)
                else:
                    names.append(x.name)
                    if x.name.startswith('opaque:') and x.name.endswith('Error'):
                        names += ['Exception', 'BaseException']
            else:
                names.append(st.get(x.a).name)
        return names

    def mro(self, c, st):
        if isinstance(c, B):
            return [c]
        o = st.get(c.a)
        seqs = [self.mro(b, st) for b in o.bases] + [list(o.bases)]
        res = [c]
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                break
            res.append(cand)
            seqs = [[x for x in s if x != cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def class_attr(self, c, name, st, after=None):
        m = self.mro(c, st)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for x in m:
            if isinstance(x, R):
                o = st.get(x.a)
                if name in o.attrs:
                    return o.attrs[name], x
            else:
                return ('builtin', x), x
        return None, None

    # ------------------------------------------------------------ facts on values
    def known_none(self, v, st):
        """True / False / None (unknown)"""
        if isinstance(v, C):
            return v.v is None
        if isinstance(v, T):
            if not v.opt and v.kind not in ('any',):
                return False
            if not v.opt and v.kind == 'any' and v.op in ('ret', 'attr'):
                pass
            if v in st.none:
                return st.none[v]
            if st.truth.get(v) is True:
                return False
            return None if (v.opt or v.kind == 'any') else False
        if isinstance(v, Top):
            return None
        return False

    def isnone(self, v, st):
        k = self.known_none(v, st)
        if k is not None:
            return [(k, st)]
        if isinstance(v, Top):
            st.taint = True
            return [(True, st.fork()), (False, st)]
        s2 = st.fork()
        s2.none[v] = True
        st.none[v] = False
        return [(False, st), (True, s2)]

    def deref(self, v, st):
        """resolve optional terms: yields (None const | non-null value, state)"""
        if isinstance(v, T) and v.opt:
            for b, s in self.isnone(v, st):
                yield (NONE if b else v.nonnull()), s
        else:
            yield v, st

    def truth(self, v, st):
        if isinstance(v, C):
            return [(bool(v.v), st)]
        if isinstance(v, Tup):
            return [(bool(v.items), st)]
        if isinstance(v, T):
            if v in st.truth:
                return [(st.truth[v], st)]
            if self.known_none(v, st) is True:
                return [(False, st)]
            if v.kind == 'int':
                if not v.opt:
                    return st.compare('!=', v, C(0))
            if v.kind in ('callable', 'pattern') and not v.opt:
                return [(True, st)]
            if v.kind == 'range' or v.kind == 'bool' and v.opt:
                pass
            if v.kind == 'str' and v.opt and v not in st.none:
                res = []
                for b, s in self.isnone(v, st):
                    res.extend([(False, s)] if b else self.truth(v.nonnull(), s))
                return res
            if v.kind == 'str':
                if v.op == 'concat' and any(isinstance(p, C) and p.v or isinstance(p, T) and st.truth.get(p) is True
                                            for p in v.args):
                    return [(True, st)]
                if v.op == 'concat':
                    res, live = [], [st]
                    for p in v.args:
                        nxt = []
                        for s in live:
                            for b, s1 in self.truth(p, s):
                                if b:
                                    s1.truth[v] = True
                                    res.append((True, s1))
                                else:
                                    nxt.append(s1)
                        live = nxt
                    for s in live:
                        s.truth[v] = False
                        res.append((False, s))
                    return res
                res = st.compare('>', T('int', 'len', (v.nonnull(),)), C(0))
                for b, s in res:
                    s.truth[v.nonnull()] = b
                return res
            if soft(v):
                st.taint = True
            s2 = st.fork()
            st.truth[v] = True
            s2.truth[v] = False
            if v.kind == 'callable':
                s2.none[v] = True
            return [(True, st), (False, s2)]
        if isinstance(v, Top):
            st.taint = True
            return [(True, st.fork()), (False, st)]
        if isinstance(v, R):
            o = st.get(v.a)
            if isinstance(o, ListO) and o.kind == 'iter':
                return [(True, st)]
            if isinstance(o, ListO):
                if any(not isinstance(i, Seg) or i.min > 0 for i in o.items):
                    return [(True, st)]
                if not o.items:
                    return [(False, st)]
                s2 = st.fork()
                s2.mut(v.a).items = ()
                st.mut(v.a).items = (Seg(o.items[0].prov, 1),) + o.items[1:]
                return [(True, st), (False, s2)]
            if isinstance(o, DictO):
                if o.keys or o.sym or o.variants:
                    return [(True, st)]
                if not o.opt and o.rest is None:
                    return [(False, st)]
                return [(True, st.fork()), (False, st)]
            if isinstance(o, ArrO):
                return st.compare('>', o.length, C(0))
            if isinstance(o, InstO):
                # user classes with __bool__/__len__
                for special in ('__bool__', '__len__'):
                    f, _ = self.class_attr(o.cls, special, st)
                    if isinstance(f, F):
                        res, sink = [], []
                        for r, s in self.call(BM(f, v), [], {}, st, None, None, sink):
                            res.extend(self.truth(r, s))
                        return res
        return [(True, st)]

    def eqv(self, a, b, st):
        """a == b -> list of (bool, state)"""
        if a == b and not isinstance(a, Top):
            return [(True, st)]
        if isinstance(a, E) != isinstance(b, E):
            a, b = self.plain(a, st), self.plain(b, st)
        if isinstance(a, Top) or isinstance(b, Top):
            st.taint = True
            return [(True, st.fork()), (False, st)]
        if isinstance(a, C) and isinstance(b, C):
            try:
                return [(a.v == b.v, st)]
            except Exception:
                return [(False, st)]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, C) and x.v is None and isinstance(y, T):
                return self.isnone(y, st)
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            return st.compare('==', a, b)
        if isinstance(a, T) or isinstance(b, T):
            x, y = (a, b) if isinstance(a, T) else (b, a)
            if isinstance(y, (R, F, BM, M, B, E)) and x.kind != 'any':
                return [(False, st)]
            if isinstance(y, C) and x.kind == 'str' and not isinstance(y.v, str):
                return [(False, st)]
            if isinstance(y, C) and x.kind == 'int' and not isinstance(y.v, (int, float)):
                return [(False, st)]
            if isinstance(y, T) and {x.kind, y.kind} == {'str', 'int'}:
                return [(False, st)]
            if isinstance(y, C) and isinstance(y.v, str) and x.kind == 'str' and y.v == '':
                res = []
                for z, s in self.deref(x, st):
                    if z == NONE:
                        res.append((False, s))
                    else:
                        res.extend((not b, s2) for b, s2 in self.truth(z, s))
                return res
            if isinstance(y, C) and isinstance(y.v, str) and st.truth.get(x) is False:
                return [(False, st)]
            if isinstance(y, C) and isinstance(y.v, str) and x.op == 'grp':
                al = self.alphabet_of(x)
                inf = self.regexes[x.args[0].v]
                if al is not None and (set(y.v) - al or not
                                       inf.minwidth(x.args[3].v) <= len(y.v) <= inf.maxwidth(x.args[3].v)):
                    return [(False, st)]
            if isinstance(y, C) and isinstance(y.v, bool) and x.kind == 'bool':
                return [(bv == y.v, s) for bv, s in self.truth(x, st)]
            key = frozenset((x, y))
            known = st.known_eq(x, y)
            if known is not None:
                return [(known, st)]
            if soft(x) or isinstance(y, T) and soft(y):
                st.taint = True
            s2 = st.fork()
            st.eqs[key] = True
            s2.eqs[key] = False
            return [(True, st), (False, s2)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return [(False, st)]
            res = [(True, st)]
            for x, y in zip(a.items, b.items):
                nxt = []
                for t, s in res:
                    if not t:
                        nxt.append((False, s))
                    else:
                        nxt.extend(self.eqv(x, y, s))
                res = nxt
            return res
        if isinstance(a, R) and isinstance(b, R):
            oa, ob = st.get(a.a), st.get(b.a)
            if isinstance(oa, ListO) and isinstance(ob, ListO):
                if 'iter' in (oa.kind, ob.kind) or ('set' in (oa.kind, ob.kind)) and oa.kind != ob.kind:
                    return [(False, st)]
                if oa.kind == 'set':
                    if any(isinstance(i, Seg) for i in oa.items + ob.items):
                        st.taint = True
                        return [(True, st.fork()), (False, st)]
                    if len(oa.items) != len(ob.items):
                        return [(False, st)]
                    res, live = [], [st]
                    for x in oa.items:
                        nxt = []
                        for s in live:
                            for b, s2 in self.member(list(ob.items), x, s):
                                if b:
                                    nxt.append(s2)
                                else:
                                    res.append((False, s2))
                        live = nxt
                    return res + [(True, s) for s in live]
                if not any(isinstance(i, Seg) for i in oa.items + ob.items):
                    return self.eqv(Tup(oa.items), Tup(ob.items), st)
                return [(True, st.fork()), (False, st)]
            if isinstance(oa, DictO) and isinstance(ob, DictO):
                plain = [not (o.opt or o.variants or o.sym or o.rest or o.tag) and len(o.keys) < 9 and all(
                    isinstance(k, C) for k in o.keys) for o in (oa, ob)]
                if all(plain):
                    if set(oa.keys) != set(ob.keys):
                        return [(False, st)]
                    return self.eqv(Tup(oa.keys.values()), Tup(ob.keys[k] for k in oa.keys), st)
                open_ = [o.opt or o.variants or o.sym or o.rest or o.tag or any(symbolic(k) for k in o.keys) for o in (oa, ob)]
                if any(open_) or set(oa.keys) != set(ob.keys) or oa.keys.get(C('line')) != ob.keys.get(C('line')):
                    return [(False, st)]     # distinct instruction records of a document differ in their line
                if (a, b) in self.comparing:  # records that contain themselves: Python would not come to an end here
                    st.taint = True
                    return [(True, st)]
                self.comparing.add((a, b))
                try:
                    res, rest = [(True, st)], sorted(oa.keys, key=lambda k: isinstance(oa.keys[k], R))
                    for k in rest:
                        res = [y for t, x in res for y in (self.eqv(x.get(a.a).keys[k], x.get(b.a).keys[k], x) if t
                                                           else [(t, x)])]
                    return res
                finally:
                    self.comparing.discard((a, b))
            if isinstance(oa, InstO):
                f, _ = self.class_attr(oa.cls, '__eq__', st)
                if isinstance(f, F):
                    res, sink = [], []
                    for r, s in self.call(BM(f, a), [b], {}, st, None, None, sink):
                        res.extend(self.truth(r, s))
                    return res
        return [(False, st)]

    def ident(self, a, b, st):
        """a is b"""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, C) and x.v is None:
                return self.isnone(y, st)
        if isinstance(a, R) and isinstance(b, R):
            return [(a == b, st)]
        if isinstance(a, C) and isinstance(b, C):
            return [(a == b, st)]
        if isinstance(a, E) or isinstance(b, E):
            if isinstance(a, E) and isinstance(b, E):
                return [(a == b, st)]
            if isinstance(a, (T, Top)) or isinstance(b, (T, Top)):
                x, y = (a, b) if isinstance(a, (T, Top)) else (b, a)
                if isinstance(x, T) and x.kind != 'any':
                    return [(False, st)]
                return self.eqv(a, b, st)
            return [(False, st)]
        if isinstance(a, C) and isinstance(a.v, bool) or isinstance(b, C) and isinstance(b.v, bool):
            x, y = (a, b) if isinstance(b, C) else (b, a)
            if isinstance(x, T) and x.kind == 'bool':
                return [(t == y.v, s) for t, s in self.truth(x, st)]
            if isinstance(x, T) and x.kind not in ('any',):
                return [(False, st)]
        return self.eqv(a, b, st)

    # ------------------------------------------------------------ lists
    def force(self, a, st):
        """yield states in which list a has a known number of elements (k-limited)"""
        o = st.get(a)
        if isinstance(o, ArrO) or not any(isinstance(i, Seg) for i in o.items):
            yield st
            return
        idx = next(i for i, x in enumerate(o.items) if isinstance(x, Seg))
        seg = o.items[idx]
        k = max(self.klimit.get(seg.prov.name, self.k), seg.min)
        self.cut(f'k-limit {seg.prov.name}<={k}')
        for n in range(seg.min, k + 1):
            s = st.fork() if n < k else st
            vals = []
            for j in range(n):
                vals.append(seg.prov.fn(self, s, R(a), j))
            cur = s.get(a)
            s.mut(a).items = cur.items[:idx] + tuple(vals) + cur.items[idx + 1:]
            yield from self.force(a, s)

    def iterate(self, v, st, out, node, fr):
        """yield (list of element values, state)"""
        if isinstance(v, Tup):
            yield list(v.items), st
            return
        if isinstance(v, C) and isinstance(v.v, (str, tuple)):
            yield [C(x) for x in v.v], st
            return
        if isinstance(v, R):
            o = st.get(v.a)
            if isinstance(o, GenO):
                for s in self.run_gen(v.a, st, out):
                    yield from self.iterate(v, s, out, node, fr)
                return
            if isinstance(o, ListO):
                for s in self.force(v.a, st):
                    vals = list(s.get(v.a).items)
                    if o.kind == 'iter':
                        s.mut(v.a).items = ()
                    yield vals, s
                return
            if isinstance(o, ArrO):
                for pairs, s in self.arr_pairs(v.a, st):
                    yield [e for _, e in pairs], s
                return
            if isinstance(o, DictO):
                for s in self.settle(v.a, st):
                    o2 = s.get(v.a)
                    yield list(o2.keys) + [k for k, _ in o2.sym], s
                return
            if isinstance(o, ClsO) and o.enum:
                yield [x for x in o.attrs.values() if isinstance(x, E)], st
                return
            if isinstance(o, InstO):
                f, _ = self.class_attr(o.cls, '__iter__', st)
                if isinstance(f, F):
                    for r, s in self.call(BM(f, v), [], {}, st, fr, node, out):
                        nx = self.class_attr(s.get(r.a).cls, '__next__', s)[0] if isinstance(r, R) and isinstance(
                            s.get(r.a), InstO) else None
                        if isinstance(nx, F):
                            yield from self.drain(BM(nx, r), [], s, out, node, fr)
                        else:
                            yield from self.iterate(r, s, out, node, fr)
                    return
                f, _ = self.class_attr(o.cls, '__getitem__', st)
                if isinstance(f, F):
                    self.vague('iteration through __getitem__', node, fr)
                    yield [Top('elem')], st
                    return
                self.throw(out, st, 'TypeError', f'object of class {self.class_names(o.cls, st)[0]} is not iterable',
                           node, fr)
                return
        if isinstance(v, C) or isinstance(v, T) and v.kind in ('int', 'callable') and not v.opt or \
                isinstance(v, T) and self.known_none(v, st) is True:
            tn = 'NoneType' if not isinstance(v, C) or v.v is None else type(v.v).__name__
            self.throw(out, st, 'TypeError', f'{tn} object is not iterable', node, fr)
            return
        if isinstance(v, T) and v.opt:
            for b, s in self.isnone(v, st):
                yield from self.iterate(NONE if b else v.nonnull(), s, out, node, fr)
            return
        if isinstance(v, T) and v.op == 'range':
            yield from self.range_values(v, st)
            return
        if isinstance(v, Gen):
            taken = st.gens.get(v, 0)
            if taken is None:
                yield [], st
                return
            for vals, s in self.gen_values(v, st, out):
                s.gens[v] = None
                yield vals[taken:], s
            return
        if isinstance(v, T) and v.kind == 'str':
            yield [], st.fork()
            yield [T('str', 'char', (v, 0))], st
            return
        self.vague('iteration over unknown value', node, fr) if fr else None
        yield [], st.fork()
        yield [Top('elem')], st

    def drain(self, nx, acc, st, out, node, fr):
        """call an iterator object's __next__ until it raises StopIteration"""
        if len(acc) > 24:
            self.cut('elements of an iterator object')
            return
        sink = []
        for v, s in self.call(nx, [], {}, st, fr, node, sink):
            yield from self.drain(nx, acc + [v], s, out, node, fr)
        for sig, v, s in sink:
            if sig == 'exc' and 'StopIteration' in self.exc_class_names(v, s):
                yield acc, s
            else:
                out.append((sig, v, s))

    def range_values(self, v, st):
        lo, hi, step = v.args
        ll, lh = lin(lo), lin(hi)
        if isinstance(lo, C) and isinstance(hi, C) and isinstance(step, C):
            yield [C(i) for i in range(lo.v, hi.v, step.v)], st
            return
        # symbolic bounds: none, or representative values
        op = '<' if not (isinstance(step, C) and isinstance(step.v, int) and step.v < 0) else '>'
        for b, s in (st.compare(op, lo, hi) or [(True, st.fork()), (False, st)]):
            if not b:
                yield [], s
                continue
            i = T('int', 'sym', ('i', self.freshid()))
            if op == '<':
                s.assume('>=', i, lo)
                s.assume('<', i, hi)
            else:
                s.assume('<=', i, lo)
                s.assume('>', i, hi)
            self.cut('symbolic range: one representative index')
            yield [i], s

    def arr_values(self, o):
        vals = []
        for _, v in o.writes:
            if v not in vals:
                vals.append(v)
        if o.default is not None and o.default not in vals:
            vals.append(o.default)
        return vals

    def arr_pairs(self, a, st):
        """representatives of enumerate(array)"""
        o = st.get(a)
        for b, s in (st.compare('>', o.length, C(0)) or [(True, st)]):
            if not b:
                yield [], s
                continue
            self.cut('symbolic array: one representative index')
            vals = self.arr_values(s.get(a))
            for n, val in enumerate(vals):
                s2 = s.fork() if n < len(vals) - 1 else s
                i = T('int', 'sym', ('i', self.freshid()))
                s2.assume('>=', i, C(0))
                s2.assume('<', i, o.length)
                o2 = s2.mut(a)
                o2.writes = tuple((x, y) for x, y in o2.writes if x != i) + ((i, val),)
                yield [(i, val)], s2

    # ------------------------------------------------------------ dictionaries
    def materialise(self, p, st, a, key):
        return p.fn(self, st, R(a), key.v if isinstance(key, C) else key) if isinstance(p, Provider) else p

    def dget(self, a, key, st, pure=False):
        """yield (present, value, state) for dict a and key"""
        o = st.get(a)
        open_ = symbolic(key)
        if isinstance(key, (C, E, B, R, F, Tup, BM, M)) and not open_ or key in o.keys:
            if key in o.keys:
                yield True, o.keys[key], st
                return
            if key in o.opt:
                s2 = st.fork()
                del s2.mut(a).opt[key]
                yield False, None, s2
                m = st.mut(a)
                p = m.opt.pop(key)
                v = self.materialise(p, st, a, key)
                st.get(a).keys[key] = v
                yield True, v, st
                return
            if o.variants:
                yield from self.dget_variants(a, key, st)
                return
            if not o.sym and o.rest is None:
                yield False, None, st
                return
        # symbolic key or symbolic entries
        cands = [(k, v) for k, v in o.sym]
        if open_ and (o.keys or o.opt):
            for ck in list(o.opt):
                # decide presence first
                for pres, _v, s in self.dget(a, ck, st):
                    yield from self.dget(a, key, s)
                return
            cands += [(k, v) for k, v in o.keys.items()]
        states = [st]
        for k2, v2 in cands:
            nxt = []
            for s in states:
                for eq, s1 in self.eqv(key, k2, s):
                    if eq:
                        yield True, v2, s1
                    else:
                        nxt.append(s1)
            states = nxt
        for s in states:
            if o.rest is None:
                yield False, None, s
            else:
                s2 = s.fork()
                s2.eqs[frozenset((key, C(('absent', a))))] = True
                yield False, None, s2
                v = self.materialise(o.rest, s, a, key)
                m = s.mut(a)
                m.sym = m.sym + ((key, v),)
                yield True, v, s

    def dget_variants(self, a, key, st):
        o = st.get(a)
        groups = {}
        for name, shape in o.variants:
            ent = shape.get(key.v if isinstance(key, C) else key)
            if ent is None:
                groups.setdefault(('absent',), []).append((name, shape))
            else:
                mode, p = ent
                tag = p.name if isinstance(p, Provider) else p
                if mode == 'opt':
                    groups.setdefault(('absent',), []).append((name, shape))
                groups.setdefault(('present', tag), []).append((name, shape))
        items = list(groups.items())
        for n, (g, vs) in enumerate(items):
            s = st.fork() if n < len(items) - 1 else st
            m = s.mut(a)
            ck = key.v if isinstance(key, C) else key
            if g[0] == 'absent':
                m.variants = tuple((nm, {k: e for k, e in sh.items() if k != ck}) for nm, sh in vs)
                self.collapse(m)
                yield False, None, s
            else:
                p = vs[0][1][ck][1]
                m.variants = tuple((nm, {k: e for k, e in sh.items() if k != ck}) for nm, sh in vs)
                self.collapse(m)
                v = self.materialise(p, s, a, key)
                s.get(a).keys[key] = v
                yield True, v, s

    @staticmethod
    def collapse(m):
        """single remaining variant: move its entries to opt / pending required"""
        pass

    def settle(self, a, st):
        """decide every undecided key of dict a"""
        o = st.get(a)
        if o.opt:
            k = next(iter(o.opt))
            for _p, _v, s in self.dget(a, k, st):
                yield from self.settle(a, s)
            return
        if o.variants:
            for name, shape in o.variants:
                if shape:
                    k = next(iter(shape))
                    for _p, _v, s in self.dget(a, C(k) if not isinstance(k, V) else k, st):
                        yield from self.settle(a, s)
                    return
        yield st

    def note_write(self, st, a, what, key, node, fr):
        o = st.get(a)
        tag = getattr(o, 'tag', '')
        if a < st.frozen or tag:
            st.event('write', a, what, key, self.site(node, fr) if node is not None and fr is not None else '?',
                     'base' if a < st.frozen else tag)

    @staticmethod
    def same_key(x, y, st):
        """provably the same key"""
        if x == y or st.known_eq(x, y):
            return True
        if isinstance(x, Tup) and isinstance(y, Tup):
            return len(x.items) == len(y.items) and all(Engine.same_key(p, q, st) for p, q in zip(x.items, y.items))
        return bool(lin(x) is not None and lin(y) is not None and st.proves('==', x, y))

    def dset(self, a, key, val, st, node=None, fr=None):
        """yield states after a[key] = val"""
        o = st.get(a)
        if isinstance(key, Top):
            self.vague('store under unknown key', node, fr)
            yield st
            return
        had = None
        if key in o.keys:
            had = True
        elif isinstance(key, (C, E)) and (key in o.opt or o.variants and any(
                (key.v if isinstance(key, C) else key) in sh for _, sh in o.variants)):
            had = 'maybe'
        elif symbolic(key) or o.sym or o.rest is not None:
            # symbolic store
            done = False
            for i, (k2, _v2) in enumerate(o.sym):
                if self.same_key(k2, key, st):
                    self.note_write(st, a, 'set', key, node, fr)
                    m = st.mut(a)
                    m.sym = m.sym[:i] + ((k2, val),) + m.sym[i + 1:]
                    done = True
                    break
            if not done:
                for pres, _v, s in self.dget(a, key, st):
                    self.note_write(s, a, 'set', key, node, fr)
                    m = s.mut(a)
                    repl = False
                    for i, (k2, _v2) in enumerate(m.sym):
                        if self.same_key(k2, key, s):
                            m.sym = m.sym[:i] + ((k2, val),) + m.sym[i + 1:]
                            repl = True
                            break
                    if not repl:
                        if pres and symbolic(key):
                            for ck in m.keys:
                                if self.same_key(ck, key, s):
                                    m.keys[ck] = val
                                    repl = True
                                    break
                        if not repl:
                            m.sym = m.sym + ((key, val),)
                    yield s
                return
            yield st
            return
        self.note_write(st, a, 'set' if had else 'new', key, node, fr)
        m = st.mut(a)
        m.opt.pop(key, None)
        if m.variants:
            ck = key.v if isinstance(key, C) else key
            m.variants = tuple((nm, {k: e for k, e in sh.items() if k != ck}) for nm, sh in m.variants)
        m.keys[key] = val
        yield st

    def ddel(self, a, key, st, out, node, fr):
        for pres, _v, s in self.dget(a, key, st):
            if not pres:
                self.throw(out, s, 'KeyError', f'del of absent key {key!r}', node, fr)
                continue
            self.note_write(s, a, 'del', key, node, fr)
            m = s.mut(a)
            if key in m.keys:
                del m.keys[key]
            else:
                if any(p[0] == key for p in m.sym):
                    m.sym = tuple(p for p in m.sym if p[0] != key)
                else:
                    m.sym = tuple(p for p in m.sym if not self.same_key(p[0], key, s))
                    for ck in [k for k in m.keys if self.same_key(k, key, s)]:
                        del m.keys[ck]
            yield s

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr, st):
        """-> list of (sig, val, state)"""
        done = []
        live = [st]
        for s in stmts:
            nxt = []
            for x in live:
                for sig, val, s2 in self.stmt(s, fr, x):
                    if sig == 'next':
                        nxt.append(s2)
                    else:
                        done.append((sig, val, s2))
            if len(nxt) > 6:
                nxt = self.dedupe(nxt, id(s))
            live = nxt
            if not live:
                break
        done.extend(('next', None, s) for s in live)
        return done

    def stmt(self, s, fr, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget(f'step budget exhausted at {self.site(s, fr)}')
        self.visited_lines.add((fr.mod, s.lineno))
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'{type(s).__name__} at {self.site(s, fr)}')
        return m(s, fr, st)

    def st_Expr(self, s, fr, st):
        out = []
        res = [('next', None, s2) for _v, s2 in self.ev(s.value, fr, st, out)]
        return res + out

    def st_Pass(self, s, fr, st):
        return [('next', None, st)]

    st_Global = st_Nonlocal = st_Pass

    def st_Assert(self, s, fr, st):
        out, res = [], []
        for v, s1 in self.ev(s.test, fr, st, out):
            for b, s2 in self.truth(v, s1):
                if b:
                    res.append(('next', None, s2))
                elif s.msg is None:
                    out.append(('exc', s2.alloc(InstO(B('AssertionError'), {'args': Tup(())}, {'site': self.site(s, fr)})), s2))
                else:
                    for m, s3 in self.ev(s.msg, fr, s2, out):
                        out.append(('exc', s3.alloc(InstO(B('AssertionError'), {'args': Tup((m,))},
                                                          {'site': self.site(s, fr)})), s3))
        return res + out

    def st_Return(self, s, fr, st):
        if s.value is None:
            return [('ret', NONE, st)]
        out = []
        res = [('ret', v, s2) for v, s2 in self.ev(s.value, fr, st, out)]
        return res + out

    def st_Break(self, s, fr, st):
        return [('brk', None, st)]

    def st_Continue(self, s, fr, st):
        return [('cont', None, st)]

    def st_Raise(self, s, fr, st):
        out = []
        res = []
        if s.exc is None:
            cur = st.get(fr.env).vars.get('$exc')
            if cur is None:
                self.throw(out, st, 'RuntimeError', 'no active exception to re-raise', s, fr)
                return out
            return [('exc', cur, st)]
        for v, s1 in self.ev(s.exc, fr, st, out):
            if s.cause is not None:
                for _c, s1 in self.ev(s.cause, fr, s1, out):
                    break
            if isinstance(v, B) or isinstance(v, R) and isinstance(s1.get(v.a), ClsO):
                for inst, s2 in self.call(v, [], {}, s1, fr, s, out):
                    res.append(('exc', inst, s2))
                continue
            if isinstance(v, R) and isinstance(s1.get(v.a), InstO) and 'BaseException' in self.exc_class_names(v, s1):
                o = s1.mut(v.a)
                o.ghost.setdefault('raised_at', self.site(s, fr))
                res.append(('exc', v, s1))
            elif isinstance(v, (T, Top)):
                res.append(('exc', v, s1))
            else:
                self.throw(out, s1, 'TypeError', 'exceptions must derive from BaseException', s, fr)
        return res + out

    def st_If(self, s, fr, st):
        out, res = [], []
        for v, s1 in self.ev(s.test, fr, st, out):
            for b, s2 in self.truth(v, s1):
                res.extend(self.block(s.body if b else s.orelse, fr, s2))
        if len(res) > 6:
            res = self.dedupe_sigs(res, id(s))
        return res + out

    def st_Assign(self, s, fr, st):
        out, res = [], []
        for v, s1 in self.ev(s.value, fr, st, out):
            states = [s1]
            for t in s.targets:
                states = [y for x in states for y in self.assign(t, v, fr, x, out)]
            res.extend(('next', None, x) for x in states)
        return res + out

    def st_AnnAssign(self, s, fr, st):
        if s.value is None:
            return [('next', None, st)]
        out, res = [], []
        for v, s1 in self.ev(s.value, fr, st, out):
            res.extend(('next', None, x) for x in self.assign(s.target, v, fr, s1, out))
        return res + out

    def st_AugAssign(self, s, fr, st):
        out, res = [], []
        load = ast.copy_location(self.as_load(s.target), s.target)
        for cur, s1 in self.ev(load, fr, st, out):
            for v, s2 in self.ev(s.value, fr, s1, out):
                if isinstance(cur, R) and isinstance(s2.get(cur.a), ListO) and isinstance(s.op, ast.Add):
                    # in-place extend
                    for vals, s3 in self.iterate(v, s2, out, s, fr):
                        self.note_write(s3, cur.a, 'extend', None, s, fr)
                        m = s3.mut(cur.a)
                        m.items = m.items + tuple(vals)
                        res.extend(('next', None, x) for x in self.assign(s.target, cur, fr, s3, out))
                    continue
                for r, s3 in self.binop(s.op, cur, v, s2, out, s, fr):
                    res.extend(('next', None, x) for x in self.assign(s.target, r, fr, s3, out))
        return res + out

    def as_load(self, t):
        t2 = ast.parse(ast.unparse(t), mode='eval').body
        for n in ast.walk(t2):
            if hasattr(n, 'lineno'):
                n.lineno, n.col_offset = t.lineno, t.col_offset
        return t2

    def st_Delete(self, s, fr, st):
        out = []
        states = [st]
        for t in s.targets:
            nxt = []
            for x in states:
                if isinstance(t, ast.Name):
                    e = x.mut(fr.env)
                    if t.id in e.vars:
                        del e.vars[t.id]
                        nxt.append(x)
                    else:
                        self.throw(out, x, 'NameError', f'del of unbound {t.id}', s, fr)
                elif isinstance(t, ast.Attribute):
                    for o, s1 in self.ev(t.value, fr, x, out):
                        if isinstance(o, R) and isinstance(s1.get(o.a), (InstO, ClsO)):
                            if t.attr in s1.get(o.a).attrs:
                                self.note_write(s1, o.a, 'delattr', C(t.attr), s, fr)
                                del s1.mut(o.a).attrs[t.attr]
                                nxt.append(s1)
                            else:
                                self.throw(out, s1, 'AttributeError', f'del of absent attribute {t.attr}', s, fr)
                        else:
                            nxt.append(s1)
                elif isinstance(t, ast.Subscript):
                    for o, s1 in self.ev(t.value, fr, x, out):
                        for k, s2 in self.ev(t.slice, fr, s1, out):
                            if isinstance(o, R) and isinstance(s2.get(o.a), DictO):
                                nxt.extend(self.ddel(o.a, k, s2, out, s, fr))
                            elif isinstance(o, R) and isinstance(s2.get(o.a), ListO) and isinstance(k, C):
                                for s3 in self.force(o.a, s2):
                                    items = list(s3.get(o.a).items)
                                    try:
                                        del items[k.v]
                                    except IndexError:
                                        self.throw(out, s3, 'IndexError', 'list index out of range', s, fr)
                                        continue
                                    self.note_write(s3, o.a, 'delitem', k, s, fr)
                                    s3.mut(o.a).items = tuple(items)
                                    nxt.append(s3)
                            else:
                                self.vague('del of unknown subscript', s, fr)
                                nxt.append(s2)
                else:
                    raise Unsupported(f'del {type(t).__name__}')
            states = nxt
        return [('next', None, x) for x in states] + out

    # --- loops
    def st_For(self, s, fr, st):
        out, res = [], []
        exits = []
        hook = self.loop_hooks.get(id(s))
        for it, s1 in self.ev(s.iter, fr, st, out):
            for vals, s2 in self.iterate(it, s1, out, s.iter, fr):
                live = [s2]
                for v in vals:
                    nxt = []
                    for x in live:
                        for y in self.assign(s.target, v, fr, x, out):
                            for sig, val, z in self.block(s.body, fr, y):
                                if sig in ('next', 'cont'):
                                    nxt.append(z)
                                elif sig == 'brk':
                                    exits.append(z)
                                else:
                                    res.append((sig, val, z))
                    live = self.dedupe(nxt) if len(nxt) > 2 else nxt
                for x in live:
                    res.extend(self.block(s.orelse, fr, x)) if s.orelse else res.append(('next', None, x))
        res.extend(('next', None, x) for x in exits)
        if len(res) > 2:
            res = self.dedupe_sigs(res, id(s))
        return res + out

    def st_While(self, s, fr, st):
        out, res, exits = [], [], []
        hook = self.loop_hooks.get(id(s))
        if hook is not None and hook.active(self, s, fr, st):
            return hook.run(self, s, fr, st)
        seen = set()
        live = [st]
        rounds = 0
        while live:
            nxt = []
            for x in live:
                for v, s1 in self.ev(s.test, fr, x, out):
                    for b, s2 in self.truth(v, s1):
                        if not b:
                            if s.orelse:
                                res.extend(self.block(s.orelse, fr, s2))
                            else:
                                exits.append(s2)
                            continue
                        for sig, val, z in self.block(s.body, fr, s2):
                            if sig in ('next', 'cont'):
                                nxt.append(z)
                            elif sig == 'brk':
                                exits.append(z)
                            else:
                                res.append((sig, val, z))
            rounds += 1
            live = []
            for x in nxt:
                c = self.canon(x)
                if c not in seen:
                    seen.add(c)
                    live.append(x)
                elif self.doc is not None:
                    self.endless.add(self.site(s, fr))
            plain = len(live) == 1 and not exits and not res and not out and rounds < 64
            if rounds >= self.while_cap and live and not plain:
                self.cut(f'while unrolled {rounds}x at {self.site(s, fr)}')
                break
        res.extend(('next', None, x) for x in exits)
        if len(res) > 2:
            res = self.dedupe_sigs(res, id(s))
        return res + out

    # --- definitions
    def mkfunc(self, node, fr, st, out):
        """yields (F, state)"""
        name = getattr(node, 'name', '<lambda>')
        qual = name if fr.qual == '<module>' else f'{fr.qual}.{name}'
        a = node.args

        def go(nodes, acc, s):
            if not nodes:
                yield acc, s
                return
            if nodes[0] is None:
                yield from go(nodes[1:], acc + [None], s)
                return
            for v, s1 in self.ev(nodes[0], fr, s, out):
                yield from go(nodes[1:], acc + [v], s1)
        for ds, s1 in go(list(a.defaults), [], st):
            for ks, s2 in go(list(a.kw_defaults), [], s1):
                yield F(node, fr.env, ds, ks, name, fr.mod, qual), s2

    def st_FunctionDef(self, s, fr, st):
        out, res = [], []
        for f, s1 in self.mkfunc(s, fr, st, out):
            states = [(f, s1)]
            for d in reversed(s.decorator_list):
                nxt = []
                for v, x in states:
                    for dv, y in self.ev(d, fr, x, out):
                        nxt.extend(self.call(dv, [v], {}, y, fr, s, out))
                states = nxt
            for v, x in states:
                res.extend(('next', None, y) for y in self.setname(s.name, v, fr, x, s))
        return res + out

    def st_ClassDef(self, s, fr, st):
        out, res = [], []
        bases = []
        cur = st
        for b in s.bases:
            got = list(self.ev(b, fr, cur, out))
            if len(got) != 1:
                raise Unsupported('class base')
            v, cur = got[0]
            bases.append(v)
        env = cur.alloc(EnvO({}, fr.env, 'class', fr.mod))
        qual = s.name if fr.qual == '<module>' else f'{fr.qual}.{s.name}'
        cf = Fr(env.a, fr.mod, qual)
        self.stack.append(env.a)
        r = self.block(s.body, cf, cur)
        self.stack.pop()
        for sig, val, s1 in r:
            if sig != 'next':
                res.append((sig, val, s1))
                continue
            attrs = dict(s1.get(env.a).vars)
            attrs.pop('$exc', None)
            annots = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and
                      'ClassVar' not in ast.dump(x.annotation)]
            if B('ext:typing.NamedTuple') in bases:
                c, s1 = self.namedtuple(s.name, annots, [(n, attrs[n]) for n in annots if n in attrs],
                                        {k: v for k, v in attrs.items() if k not in annots}, s1)
                if c is None:
                    raise Unsupported('NamedTuple class')
                for v in attrs.values():
                    f = v.fn if isinstance(v, W) else v
                    if isinstance(f, F):
                        self.defcls[id(f.node)] = c
                res.extend(('next', None, y) for y in self.setname(s.name, c, fr, s1, s))
                continue
            enum = any(isinstance(b, B) and b.name in ('Enum', 'IntEnum', 'Flag', 'StrEnum') or
                       isinstance(b, R) and s1.get(b.a).enum for b in bases)
            c = s1.alloc(ClsO(s.name, fr.mod, tuple(b for b in bases if b != B('object')) or (B('object'),), attrs, enum))
            if annots:
                self.annot[c.a] = annots
            if enum:
                at = s1.get(c.a).attrs
                for k, v in list(at.items()):
                    if not k.startswith('_') and isinstance(v, (C, Tup, T)):
                        at[k] = E(f'{fr.mod}.{s.name}', k, v)
                self.enums = getattr(self, 'enums', {})
                self.enums[f'{fr.mod}.{s.name}'] = c
            # remember the defining class for zero-argument super()
            for v in attrs.values():
                f = v.fn if isinstance(v, W) else v
                if isinstance(f, F):
                    self.defcls = getattr(self, 'defcls', {})
                    self.defcls[id(f.node)] = c
            states = [(c, s1)]
            for d in reversed(s.decorator_list):
                nxt = []
                for v, x in states:
                    for dv, y in self.ev(d, fr, x, out):
                        nxt.extend(self.call(dv, [v], {}, y, fr, s, out))
                states = nxt
            for v, x in states:
                res.extend(('next', None, y) for y in self.setname(s.name, v, fr, x, s))
        return res + out

    def st_Import(self, s, fr, st):
        for al in s.names:
            name = al.name
            if name.split('.')[0] == self.package:
                self.load(name)
                v = M(name if al.asname else name.split('.')[0])
            else:
                self.imported_external.setdefault(name.split('.')[0], self.site(s, fr))
                v = M('ext:' + name)
            st = next(iter(self.setname(al.asname or name.split('.')[0], v, fr, st, s)))
        return [('next', None, st)]

    def st_ImportFrom(self, s, fr, st):
        mod = self.resolve_from(fr, s)
        if mod.split('.')[0] != self.package and mod not in self.trees:
            self.imported_external.setdefault(mod.split('.')[0], self.site(s, fr))
            for al in s.names:
                st = next(iter(self.setname(al.asname or al.name, self.ext_attr(mod, al.name), fr, st, s)))
            return [('next', None, st)]
        if not self.st.frozen:
            self.st = st
            self.load(mod)
            for al in s.names:
                env = self.st.get(self.mods[mod])
                if al.name != '*' and al.name not in env.vars and self.path_of(f'{mod}.{al.name}'):
                    self.load(f'{mod}.{al.name}')
            st = self.st
        for al in s.names:
            env = st.get(self.mods[mod])
            if al.name == '*':
                for k, v in list(env.vars.items()):
                    if not k.startswith('_'):
                        st = next(iter(self.setname(k, v, fr, st, s)))
                continue
            if al.name in env.vars:
                v = env.vars[al.name]
            elif f'{mod}.{al.name}' in self.mods:
                v = M(f'{mod}.{al.name}')
            else:
                out = []
                self.throw(out, st, 'ImportError', f'cannot import {al.name} from {mod}', s, fr)
                return out
            st = next(iter(self.setname(al.asname or al.name, v, fr, st, s)))
        return [('next', None, st)]

    # --- try
    def st_Try(self, s, fr, st):
        pre = self.block(s.body, fr, st)
        res = []
        for sig, val, s1 in pre:
            if sig == 'next':
                res.extend(self.block(s.orelse, fr, s1) if s.orelse else [('next', None, s1)])
            elif sig != 'exc':
                res.append((sig, val, s1))
            else:
                res.extend(self.handlers(s.handlers, val, fr, s1))
        if s.finalbody:
            fin = []
            for sig, val, s1 in res:
                for sig2, val2, s2 in self.block(s.finalbody, fr, s1):
                    fin.append((sig, val, s2) if sig2 == 'next' else (sig2, val2, s2))
            res = fin
        return res

    def handlers(self, hs, exc, fr, st):
        if not hs:
            return [('exc', exc, st)]
        h = hs[0]
        out, res = [], []
        if h.type is None:
            return self.run_handler(h, exc, fr, st)
        for cv, s1 in self.ev(h.type, fr, st, out):
            classes = list(cv.items) if isinstance(cv, Tup) else [cv]
            names = set()
            for c in classes:
                names.add(c.name if isinstance(c, B) else s1.get(c.a).name if isinstance(c, R) else '?')
            if isinstance(exc, (T, Top)):
                res.extend(self.run_handler(h, exc, fr, s1.fork()))
                res.extend(self.handlers(hs[1:], exc, fr, s1))
            elif names & set(self.exc_class_names(exc, s1)):
                res.extend(self.run_handler(h, exc, fr, s1))
            else:
                res.extend(self.handlers(hs[1:], exc, fr, s1))
        return res + out

    def run_handler(self, h, exc, fr, st):
        e = st.mut(fr.env)
        old = e.vars.get('$exc')
        e.vars['$exc'] = exc
        if h.name:
            e.vars[h.name] = exc
        res = []
        for sig, val, s in self.block(h.body, fr, st):
            m = s.mut(fr.env)
            if old is None:
                m.vars.pop('$exc', None)
            else:
                m.vars['$exc'] = old
            if h.name:
                m.vars.pop(h.name, None)
            res.append((sig, val, s))
        return res

    def st_With(self, s, fr, st):
        return self.with_items(s, list(s.items), fr, st)

    def with_items(self, s, items, fr, st):
        if not items:
            return self.block(s.body, fr, st)
        out, res = [], []
        item = items[0]
        for v, s1 in self.ev(item.context_expr, fr, st, out):
            inst = isinstance(v, R) and isinstance(s1.get(v.a), InstO) and not isinstance(s1.get(v.a).cls, B)
            enter = self.class_attr(s1.get(v.a).cls, '__enter__', s1)[0] if inst else None
            exit_ = self.class_attr(s1.get(v.a).cls, '__exit__', s1)[0] if inst else None
            if not (isinstance(enter, F) and isinstance(exit_, F)):
                self.vague('context manager', s, fr)
                s1.taint = True
                starts = [(v, s1)]
                exit_ = None
            else:
                starts = list(self.call(BM(enter, v), [], {}, s1, fr, s, out))
            for w, s2 in starts:
                for s3 in (self.assign(item.optional_vars, w, fr, s2, out) if item.optional_vars is not None else [s2]):
                    for sig, val, s4 in self.with_items(s, items[1:], fr, s3):
                        if exit_ is None:
                            res.append((sig, val, s4))
                        elif sig == 'exc':
                            t = self.typeof(val, s4)
                            for r, s5 in self.call(BM(exit_, v), [t if t is not None else Top('class'), val, Top('traceback')], {},
                                                   s4, fr, s, out):
                                for b, s6 in self.truth(r, s5):
                                    res.append(('next', None, s6) if b else (sig, val, s6))
                        else:
                            self.rets.append(val if isinstance(val, V) else NONE)
                            for _r, s5 in self.call(BM(exit_, v), [NONE, NONE, NONE], {}, s4, fr, s, out):
                                res.append((sig, val, s5))
                            self.rets.pop()
        return res + out

    def st_Match(self, s, fr, st):
        out, res = [], []
        for v, s1 in self.ev(s.subject, fr, st, out):
            live = [s1]
            for case in s.cases:
                nxt = []
                for x in live:
                    for ok, y in self.pattern(case.pattern, v, fr, x, out):
                        if not ok:
                            nxt.append(y)
                            continue
                        if case.guard is None:
                            res.extend(self.block(case.body, fr, y))
                            continue
                        for g, z in self.ev(case.guard, fr, y, out):
                            for b, w in self.truth(g, z):
                                if b:
                                    res.extend(self.block(case.body, fr, w))
                                else:
                                    nxt.append(w)
                live = nxt
            res.extend(('next', None, x) for x in live)
        return res + out

    def pattern(self, p, v, fr, st, out):
        if isinstance(p, ast.MatchValue):
            for w, s1 in self.ev(p.value, fr, st, out):
                yield from self.eqv(v, w, s1)
        elif isinstance(p, ast.MatchSingleton):
            yield from self.ident(v, C(p.value), st)
        elif isinstance(p, ast.MatchAs):
            if p.pattern is None:
                for s in (self.setname(p.name, v, fr, st, p) if p.name else [st]):
                    yield True, s
            else:
                for ok, s in self.pattern(p.pattern, v, fr, st, out):
                    if ok and p.name:
                        for s2 in self.setname(p.name, v, fr, s, p):
                            yield True, s2
                    else:
                        yield ok, s
        elif isinstance(p, ast.MatchOr):
            live = [st]
            for q in p.patterns:
                nxt = []
                for x in live:
                    for ok, y in self.pattern(q, v, fr, x, out):
                        if ok:
                            yield True, y
                        else:
                            nxt.append(y)
                live = nxt
            for x in live:
                yield False, x
        elif isinstance(p, ast.MatchMapping):
            if not (isinstance(v, R) and isinstance(st.get(v.a), DictO)):
                if isinstance(v, (Top, T)):
                    raise Unsupported('mapping pattern on unknown')
                yield False, st
                return
            live = [st]
            for k, q in zip(p.keys, p.patterns):
                nxt = []
                for x in live:
                    for kv, y in self.ev(k, fr, x, out):
                        for present, w, z in self.dget(v.a, kv, y):
                            if not present:
                                yield False, z
                                continue
                            for ok, u in self.pattern(q, w, fr, z, out):
                                if ok:
                                    nxt.append(u)
                                else:
                                    yield False, u
                live = nxt
            if p.rest:
                raise Unsupported('mapping pattern with rest')
            for x in live:
                yield True, x
        elif isinstance(p, ast.MatchClass) and not p.patterns:
            for c, s1 in self.ev(p.cls, fr, st, out):
                for ok, s2 in self.isinst(v, c, s1):
                    if not ok:
                        yield False, s2
                        continue
                    live = [s2]
                    for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                        nxt = []
                        for x in live:
                            for w, y in self.getattr_(v, a, x, out, p, fr):
                                for ok2, z in self.pattern(q, w, fr, y, out):
                                    if ok2:
                                        nxt.append(z)
                                    else:
                                        yield False, z
                        live = nxt
                    for x in live:
                        yield True, x
        elif isinstance(p, ast.MatchSequence):
            if not isinstance(v, Tup) and not (isinstance(v, R) and isinstance(st.get(v.a), ListO) and st.get(v.a).kind == 'list'):
                if isinstance(v, Top) or isinstance(v, T) and v.kind == 'any':
                    raise Unsupported('sequence pattern on unknown')
                yield False, st
                return
            if not isinstance(v, Tup):
                for s in self.force(v.a, st):
                    yield from self.pattern(p, Tup(s.get(v.a).items), fr, s, out)
                return
            pats, vals = list(p.patterns), list(v.items)
            star = next((i for i, q in enumerate(pats) if isinstance(q, ast.MatchStar)), None)
            if star is not None and len(vals) >= len(pats) - 1:
                n = len(vals) - len(pats) + 1
                rest = st.alloc(ListO(vals[star:star + n]))
                vals[star:star + n] = [rest]
                pats[star] = ast.MatchAs(pattern=None, name=pats[star].name)
            if len(pats) != len(vals):
                yield False, st
                return
            live = [st]
            for q, w in zip(pats, vals):
                nxt = []
                for x in live:
                    for ok, y in self.pattern(q, w, fr, x, out):
                        if ok:
                            nxt.append(y)
                        else:
                            yield False, y
                live = nxt
            for x in live:
                yield True, x
        else:
            raise Unsupported(f'match pattern {type(p).__name__}')

    # ------------------------------------------------------------ names
    def setname(self, name, v, fr, st, node):
        """yield states"""
        if name in fr.globals:
            a = self.mods[fr.mod]
            self.note_write(st, a, 'global', C(name), node, fr)
            st.mut(a).vars[name] = v
        elif name in fr.nonlocals:
            a = st.get(fr.env).parent
            while a is not None and name not in st.get(a).vars:
                a = st.get(a).parent
            if a is not None:
                st.mut(a).vars[name] = v
        else:
            st.mut(fr.env).vars[name] = v
        yield st

    def lookup(self, name, fr, st):
        """-> value or None (unbound) or 'unboundlocal'"""
        e = st.get(fr.env)
        if name in e.vars:
            return e.vars[name]
        if name in fr.locals:
            return 'unboundlocal'
        if name not in fr.globals:
            a = e.parent
            while a is not None:
                o = st.get(a)
                if o.kind != 'class' and name in o.vars:
                    return o.vars[name]
                a = o.parent
        g = st.get(self.mods[fr.mod]).vars
        if name in g:
            return g[name]
        if name in BUILTIN_FUNCS or name in BUILTIN_TYPES or name in BUILTIN_EXC:
            return B(name)
        if name not in ('__file__', '__doc__', '__builtins__', '__path__', '__spec__', '__loader__', '__package__') and \
                hasattr(pybuiltins, name) and callable(getattr(pybuiltins, name)):
            return B(name)
        if name in ('__file__', '__doc__', '__path__', '__spec__', '__loader__', '__package__'):
            return Top(name)
        if name == 'NotImplemented':
            return C(NotImplemented)
        if name == '__debug__':
            return TRUE
        return None

    def assign(self, t, v, fr, st, out):
        """yield states"""
        if isinstance(t, ast.Name):
            yield from self.setname(t.id, v, fr, st, t)
        elif isinstance(t, ast.Attribute):
            for o, s in self.ev(t.value, fr, st, out):
                yield from self.setattr_(o, t.attr, v, s, out, t, fr)
        elif isinstance(t, ast.Subscript):
            for o, s1 in self.ev(t.value, fr, st, out):
                for k, s2 in self.ev(t.slice, fr, s1, out):
                    yield from self.setitem(o, k, v, s2, out, t, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for vals, s in self.iterate(v, st, out, t, fr):
                star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
                if star is None and len(vals) != len(t.elts) or star is not None and len(vals) < len(t.elts) - 1:
                    if isinstance(v, (T, Top)):
                        vals = [Top('unpack')] * len(t.elts)
                    else:
                        self.throw(out, s, 'ValueError', f'cannot unpack {len(vals)} values into {len(t.elts)} targets',
                                   t, fr)
                        continue
                live = [s]
                if star is not None:
                    n_after = len(t.elts) - star - 1
                    mid = vals[star:len(vals) - n_after]
                    vals = vals[:star] + [mid] + vals[len(vals) - n_after:]
                for e, w in zip(t.elts, vals):
                    nxt = []
                    for x in live:
                        if isinstance(e, ast.Starred):
                            w2 = x.alloc(ListO(w))
                            nxt.extend(self.assign(e.value, w2, fr, x, out))
                        else:
                            nxt.extend(self.assign(e, w, fr, x, out))
                    live = nxt
                yield from live
        elif isinstance(t, ast.Starred):
            yield from self.assign(t.value, v, fr, st, out)
        else:
            raise Unsupported(f'assignment to {type(t).__name__}')

    def setattr_(self, o, name, v, st, out, node, fr):
        if isinstance(o, R):
            obj = st.get(o.a)
            if isinstance(obj, InstO):
                p, _ = self.class_attr(obj.cls, name, st)
                if isinstance(p, W) and p.what == 'property':
                    if len(p.extra) and p.extra[0] is not None and isinstance(p.extra[0], F):
                        for _r, s in self.call(BM(p.extra[0], o), [v], {}, st, fr, node, out):
                            yield s
                    else:
                        self.throw(out, st, 'AttributeError', f'property {name} has no setter', node, fr)
                    return
                if o.a < st.frozen:
                    st.event('write', o.a, 'setattr', C(name), self.site(node, fr), 'base')
                st.mut(o.a).attrs[name] = v
                yield st
                return
            if isinstance(obj, ClsO):
                st.event('classattr', o.a, name, v, self.site(node, fr), 'base' if o.a < st.frozen else '')
                st.mut(o.a).attrs[name] = v
                yield st
                return
            self.throw(out, st, 'AttributeError', f'{type(obj).__name__} object has no attribute {name}', node, fr)
            return
        if isinstance(o, M) and o.name in self.mods:
            st.event('write', self.mods[o.name], 'global', C(name), self.site(node, fr), 'base')
            st.mut(self.mods[o.name]).vars[name] = v
            yield st
            return
        if isinstance(o, (T, Top)):
            if isinstance(o, T) and self.known_none(o, st) is not True:
                st.event('opaqueset', o, name, v, self.site(node, fr))
                yield st
                return
            if isinstance(o, Top):
                yield st
                return
        if isinstance(o, F):
            st.event('write', 0, 'setattr', C(name), self.site(node, fr), 'base')
            yield st
            return
        self.throw(out, st, 'AttributeError', f'cannot set attribute {name} on {o!r}', node, fr)

    def setitem(self, o, k, v, st, out, node, fr):
        if isinstance(o, R):
            obj = st.get(o.a)
            if isinstance(obj, DictO):
                yield from self.dset(o.a, k, v, st, node, fr)
                return
            if isinstance(obj, ListO):
                if isinstance(k, Slc):
                    for vals, s in self.iterate(v, st, out, node, fr):
                        for s2 in self.force(o.a, s):
                            lo, hi = k.lo, k.hi
                            if isinstance(lo, C) and isinstance(hi, C):
                                items = list(s2.get(o.a).items)
                                items[lo.v:hi.v] = vals
                                self.note_write(s2, o.a, 'setslice', None, node, fr)
                                s2.mut(o.a).items = tuple(items)
                            else:
                                self.vague('slice store', node, fr)
                            yield s2
                    return
                for s in self.force(o.a, st):
                    items = list(s.get(o.a).items)
                    if isinstance(k, C) and isinstance(k.v, int):
                        if -len(items) <= k.v < len(items):
                            items[k.v] = v
                            self.note_write(s, o.a, 'setitem', k, node, fr)
                            s.mut(o.a).items = tuple(items)
                            yield s
                        else:
                            self.throw(out, s, 'IndexError', f'list assignment index {k.v} out of range', node, fr)
                    else:
                        done = False
                        for i in range(len(items)):
                            for b, s2 in (s.compare('==', k, C(i)) or []):
                                if b:
                                    it2 = list(items)
                                    it2[i] = v
                                    self.note_write(s2, o.a, 'setitem', k, node, fr)
                                    s2.mut(o.a).items = tuple(it2)
                                    yield s2
                                    done = True
                        if not done:
                            self.vague('list store under unknown index', node, fr)
                            yield s
                return
            if isinstance(obj, ArrO):
                yield from self.arr_set(o.a, k, v, st, out, node, fr)
                return
            if isinstance(obj, InstO):
                f, _ = self.class_attr(obj.cls, '__setitem__', st)
                if isinstance(f, F):
                    for _r, s in self.call(BM(f, o), [k, v], {}, st, fr, node, out):
                        yield s
                    return
        if isinstance(o, (T, Top)) and not (isinstance(o, T) and (o.kind in ('str', 'int', 'callable') or
                                                                  self.known_none(o, st) is True)):
            yield st
            return
        self.throw(out, st, 'TypeError', f'{self.typename(o, st)} object does not support item assignment', node, fr)

    def arr_set(self, a, k, v, st, out, node, fr):
        o = st.get(a)
        # in range?
        ok = self.arr_inrange(o, k, st)
        if ok is False:
            self.throw(out, st.fork(), 'IndexError', f'index {k!r} not provably inside 0..{o.length!r}', node, fr)
        st.event('arrset', a, k, v, self.site(node, fr), o.tag)
        m = st.mut(a)
        k2 = self.arr_key(o, k)
        m.writes = tuple((x, y) for x, y in m.writes if x != k2) + ((k2, v),)
        yield st

    def arr_key(self, o, k):
        if isinstance(k, C) and isinstance(k.v, int) and k.v < 0:
            l = lin(o.length)
            return mklin(*linadd(l, (k.v, {})))
        return k

    def arr_inrange(self, o, k, st):
        if lin(k) is None:
            return None
        if st.proves('>=', k, C(0)):
            return st.proves('<', k, o.length)
        if isinstance(k, C) and k.v < 0:
            return st.proves('>=', o.length, C(-k.v))
        if st.proves('<', k, C(0)):
            return st.proves('>=', mklin(*linadd(lin(k), lin(o.length))), C(0))
        return False

    def typename(self, v, st):
        if isinstance(v, C):
            return type(v.v).__name__
        if isinstance(v, T):
            return {'any': 'opaque'}.get(v.kind, v.kind)
        if isinstance(v, R):
            o = st.get(v.a)
            if isinstance(o, InstO):
                return self.class_names(o.cls, st)[0]
            return {'DictO': 'dict', 'ListO': 'list', 'ArrO': 'list', 'ClsO': 'type', 'MatO': 're.Match', 'DocMat': 're.Match'}.get(
                type(o).__name__, type(o).__name__)
        return {'Tup': 'tuple', 'F': 'function', 'BM': 'method', 'M': 'module', 'E': 'enum member'}.get(
            type(v).__name__, type(v).__name__)

    # ------------------------------------------------------------ canonical forms
    def canon(self, st, extra=()):
        """hashable description of what is reachable from the active frames (addresses renamed)"""
        ren, order, atoms = {}, [], {}

        def val(v):
            t = type(v)
            if t is C or t is E:
                return v
            if t is R:
                if v.a < st.frozen and v.a not in st.heap:
                    return ('B', v.a)
                if v.a not in ren:
                    ren[v.a] = len(ren)
                    order.append(v.a)
                return ('R', ren[v.a])
            if isinstance(v, T):
                if pure(v):
                    return ('T', v, v.opt)
                return ('T', v.op, tuple(arg(x) for x in v.args), v.opt)
            if isinstance(v, Tup):
                return ('tup',) + tuple(val(x) for x in v.items)
            if isinstance(v, BM):
                return ('bm', val(v.fn), val(v.self))
            if isinstance(v, W):
                return ('w', v.what, val(v.fn), tuple(arg(x) for x in v.extra))
            if isinstance(v, F):
                return ('f', id(v.node), env(v.env), tuple(arg(x) for x in v.defaults))
            return v

        def arg(x):
            if isinstance(x, V):
                return val(x)
            if isinstance(x, tuple):
                return tuple(arg(y) for y in x)
            return x

        def env(a):
            if a is None or a < st.frozen and a not in st.heap:
                return ('E', a)
            if a not in ren:
                ren[a] = len(ren)
                order.append(a)
            return ('E', ren[a])

        head = [env(a) for a in self.stack] + [arg(x) for x in extra] + [arg(x) for x in self.rets] + \
            [arg(x) for x in self.roots]
        body = []
        i = 0
        while i < len(order):
            o = st.get(order[i])
            i += 1
            if isinstance(o, EnvO):
                body.append(('env', env(o.parent), tuple(sorted((k, val(v)) for k, v in o.vars.items()) if False else
                                                        tuple((k, val(o.vars[k])) for k in sorted(o.vars)))))
            elif isinstance(o, InstO):
                body.append(('inst', val(o.cls), tuple((k, val(o.attrs[k])) for k in sorted(o.attrs)),
                             tuple(o.ghost.get('opt', ()))))
            elif isinstance(o, DictO):
                body.append(('dict', o.tag, tuple((val(k), val(v)) for k, v in o.keys.items()),
                             tuple((val(k), val(v) if isinstance(v, V) else v.name) for k, v in o.opt.items()),
                             None if not o.variants else tuple((n, tuple(sh)) for n, sh in o.variants),
                             tuple((val(k), val(v)) for k, v in o.sym), o.rest.name if o.rest else None))
            elif isinstance(o, ListO):
                body.append(('list', o.kind, tuple(x if isinstance(x, Seg) else val(x) for x in o.items)))
            elif isinstance(o, GenO):
                body.append(('gen', val(o.fn), env(o.env)))
            elif isinstance(o, ArrO):
                body.append(('arr', val(o.length), val(o.default) if o.default is not None else None,
                             tuple(sorted(((repr(k), (val(k), val(v))) for k, v in o.writes), key=lambda p: p[0]))))
            elif isinstance(o, MatO):
                body.append(('mat', o.info.pattern, val(o.string), val(o.pos), o.variants, o.whole))
            elif isinstance(o, ClsO):
                body.append(('cls', o.name, tuple((k, val(o.attrs[k])) for k in sorted(o.attrs))))
        facts = []
        for nm, d in (('n', st.none), ('t', st.truth)):
            facts.append((nm, frozenset((val(k), v) for k, v in d.items())))
        facts.append(frozenset((frozenset(val(x) for x in k), v) for k, v in st.eqs.items()))
        facts.append(frozenset((tuple((val(x), c) for x, c in k), v) for k, v in st.iv.items()))
        facts.append(frozenset((val(k), c, frozenset((val(x), y) for x, y in d.items()))
                               for k, (c, d) in st.subs.items()))
        log = tuple(tuple(arg(x) for x in e) for e in st.log)
        if st.gens:
            facts.append(frozenset(((id(g.node), env(g.fr.env), val(g.it)), n) for g, n in st.gens.items()))
        return hash((tuple(head), tuple(body), tuple(facts), log))

    @staticmethod
    def outline(s):
        """counts that equal states share"""
        return (len(s.none), sum(s.none.values()), len(s.truth), sum(s.truth.values()), len(s.eqs), sum(s.eqs.values()),
                len(s.iv), len(s.subs), len(s.log), len(s.gens))

    def distinct(self, items, keys, canon, site):
        """items without those that equal an earlier one; where that never happens it is tried less and less"""
        tried = self.tried.setdefault(site, [0, 0, 0])
        if site is not None and not tried[1] and tried[0] > 200:
            tried[2] += 1
            if tried[2] % 16:
                return items
        seen, res = set(), []
        for k, x in zip(keys, items):
            if keys.count(k) > 1:
                c = (k, canon(x))
                tried[0] += 1
                if c in seen:
                    tried[1] += 1
                    continue
                seen.add(c)
            res.append(x)
        return res

    def dedupe(self, states, site=None):
        return self.distinct(states, [self.outline(s) for s in states], self.canon, site)

    def dedupe_sigs(self, sigs, site=None):
        return self.distinct(sigs, [(sig, v is None) + self.outline(s) for sig, v, s in sigs],
                             lambda x: self.canon(x[2], (x[1],) if x[1] is not None else ()), site)
