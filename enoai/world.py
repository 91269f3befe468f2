"""The analysed program plus its environment (locale, reporter, loaders) as opaque objects."""
import os
from .values import *
from .state import *
from .interp import Engine, Fr, Budget, Unsupported
from .schema import Schema

REPO = os.environ.get('ENO_REPO', '/repo/python')


class Outcome:
    """one abstract result of calling an entry point"""
    __slots__ = ('kind', 'value', 'st')

    def __init__(self, kind, value, st):
        self.kind, self.value, self.st = kind, value, st

    def __repr__(self):
        return f'{self.kind}:{self.value!r}'


class World:
    def __init__(self, root=None, k=2, max_steps=4_000_000, specs=()):
        self.e = e = Engine(root or REPO, k=k)
        e.max_steps = max_steps
        for name, path in specs:
            import ast
            with open(path, encoding='utf-8') as fh:
                e.trees[name] = ast.parse(fh.read(), path)
        self.modules = e.load_modules(extra=[n for n, _ in specs])
        self.base = e.st
        self.messages = self.locale_names('enolib.messages.en')
        self.reporter_methods = self.reporter_api()
        e.opaque_attr = self.opaque_attr
        e.opaque_call = self.opaque_call
        e.opaque_method = self.opaque_method
        self.sc = Schema(e, k=k)

    # ------------------------------------------------------------ environment
    def locale_names(self, mod):
        e = self.e
        if mod not in e.mods:
            return {}
        out = {}
        for n, v in self.base.get(e.mods[mod]).vars.items():
            if n.startswith('__'):
                continue
            if isinstance(v, C) and isinstance(v.v, str):
                out[n] = ('str', 0)
            elif isinstance(v, F):
                a = v.node.args
                out[n] = ('fn', len(a.args) - len(v.defaults), len(a.args), [p.arg for p in a.args])
        return out

    def loader_exceptions(self):
        """exceptions a loader may raise: a rejection, one nobody mentions, and every other one the program mentions where
        it does not raise it"""
        if not hasattr(self, '_loader_exceptions'):
            import ast
            import builtins
            names = set()
            for n, t in self.e.trees.items():
                raised = {id(c) for x in ast.walk(t) if isinstance(x, ast.Raise) and x.exc is not None for c in ast.walk(x.exc)}
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and id(x) not in raised:
                        c = getattr(builtins, x.id, None)
                        if isinstance(c, type) and issubclass(c, Exception) and c is not Exception:
                            names.add(x.id)
            self._loader_exceptions = ('ValueError', 'opaque:OtherError', *sorted(names - {'ValueError'}))
        return self._loader_exceptions

    def reporter_api(self):
        """name -> (module-level function, defining class) for the methods every reporter offers"""
        e = self.e
        res = {}
        m = e.mods.get('enolib.reporters.reporter')
        if m is None:
            return res
        cls = self.base.get(m).vars.get('Reporter')
        if not isinstance(cls, R):
            return res
        for c in e.mro(cls, self.base):
            if isinstance(c, R):
                for n, v in self.base.get(c.a).attrs.items():
                    if isinstance(v, F):
                        res.setdefault(n, v)
        return res

    def opaque_attr(self, e, o, name, st, out, node, fr):
        obj = st.get(o.a) if isinstance(o, R) else None
        kind = obj.cls.name if obj is not None else None
        if kind == 'opaque:locale':
            if name not in self.messages:
                e.throw(out, st, 'AttributeError', f"locale has no message '{name}'", node, fr)
                return
            m = self.messages[name]
            name = obj.ghost.get('which', '') + name
            yield (T('str', 'msg', (C(name),)) if m[0] == 'str' else T('callable', 'msgfn', (C(name),))), st
            return
        if kind == 'opaque:reporter':
            if name not in self.reporter_methods:
                e.throw(out, st, 'AttributeError', f"reporter has no method '{name}'", node, fr)
                return
            yield BM(B(f'opaque:reporter.{name}'), o), st
            return
        if kind == 'opaque:reporterclass':
            if name == '__name__':
                yield T('str', 'attr', (C(name),)), st
                return
        if isinstance(o, T) and o.op == 'loader' and name == '__name__':
            yield T('str', 'attr', (o, C(name))), st
            return
        e.vague(f'attribute {name} of opaque value', node, fr)
        yield Top('opaque attr'), st

    def opaque_call(self, e, f, args, kw, st, fr, node, out):
        if isinstance(f, R) and st.get(f.a).cls == B('opaque:reporterclass'):
            if len(args) != 1 or kw:
                e.throw(out, st, 'TypeError', 'reporter takes the context only', node, fr)
                return
            which = st.get(f.a).ghost.get('which')
            yield st.alloc(InstO(B('opaque:reporter'), {'calls': Tup((Tup((C(which),)),) if which else ())})), st
            return
        if isinstance(f, T) and f.op == 'msgfn':
            name = f.args[0].v
            m = self.messages[name.split(':')[-1]]
            names = m[3]
            vals = list(args)
            for n in names[len(vals):]:
                if n in kw:
                    vals.append(kw.pop(n))
            if kw or not m[1] <= len(vals) <= m[2]:
                e.throw(out, st, 'TypeError', f'message {name} takes {m[2]} arguments', node, fr)
                return
            yield T('str', 'msgcall', (C(name),) + tuple(vals)), st
            return
        if isinstance(f, T) and f.op == 'loader':
            st.event('call', f, tuple(args), e.site(node, fr) if node is not None else '')
            mode = f.args[1].v if len(f.args) > 1 else 'any'
            if mode == 'any':
                for cls in self.loader_exceptions():
                    s2 = st.fork()
                    exc = s2.alloc(InstO(B(cls), {'args': Tup(())}, {'from': (f, tuple(args)), 'loader': True}))
                    out.append(('exc', exc, s2))
            n = sum(1 for ev in st.log if ev[0] == 'call')
            yield T('any', 'ret', (f,) + tuple(args), True), st
            return
        if isinstance(f, T) and f.op == 'msgcb':
            st.event('call', f, tuple(args), e.site(node, fr) if node is not None else '')
            yield T('str', 'ret', (f,) + tuple(args)), st
            return
        e.vague('call of opaque value', node, fr)
        yield Top('opaque call'), st

    def opaque_method(self, e, base, meth, self_, args, kw, st, fr, node, out):
        if base == 'opaque:reporter':
            fn = self.reporter_methods[meth]
            if e.bind_args(fn, [self_] + list(args), kw, st, out, node, fr) is None:
                return
            if meth == 'snippet':
                yield T('str', 'snippet', (st.get(self_.a).attrs['calls'],)), st
                return
            m = st.mut(self_.a)
            vals = tuple(args) + tuple(kw.values())
            fixed = []
            for v in vals:
                if isinstance(v, R) and isinstance(st.get(v.a), ListO):
                    v = Tup(tuple(x for x in st.get(v.a).items if isinstance(x, V)))
                fixed.append(v)
            m.attrs['calls'] = Tup(m.attrs['calls'].items + (Tup((C(meth),) + tuple(fixed)),))
            yield self_, st
            return
        e.vague(f'method {meth} of opaque value', node, fr)
        yield Top('opaque method'), st

    # ------------------------------------------------------------ running
    def state(self):
        return self.base.fork()

    def mod(self, name, attr):
        m = self.e.mods.get(name)
        return self.base.get(m).vars.get(attr) if m is not None else None

    def call(self, f, args, st, kw=None, dedupe=False):
        """-> [Outcome]"""
        out = []
        e = self.e
        res = [Outcome('ret', v, s) for v, s in e.call(f, list(args), dict(kw or {}), st, e.topframe, None, out)]
        return res + [Outcome('exc', v, s) for _sig, v, s in out]

    def method(self, obj, name, args, st, kw=None):
        e = self.e
        out, res = [], []
        for f, s in e.getattr_(obj, name, st, out, None, e.topframe):
            for v, s2 in e.call(f, list(args), dict(kw or {}), s, e.topframe, None, out):
                res.append(Outcome('ret', v, s2))
        return res + [Outcome('exc', v, s) for _sig, v, s in out]

    def new(self, module, cls, args, st, kw=None):
        c = self.mod(module, cls)
        if c is None:
            raise Unsupported(f'anchor vanished: {module}.{cls}')
        return self.call(c, args, st, kw)

    def describe(self, st, v, depth=2):
        """short printable form of a value"""
        if isinstance(v, R):
            o = st.get(v.a)
            if isinstance(o, InstO):
                n = self.e.class_names(o.cls, st)[0]
                if n in ('ValidationError', 'ParseError', 'Error'):
                    return f'{n}({o.attrs.get("text")!r})'
                if 'msg' in o.ghost:
                    return f'{n}({o.ghost["msg"]}; {o.ghost.get("site")})'
                return f'<{n}>'
            if isinstance(o, DictO):
                t = o.keys.get(C('type'))
                return f'<record {t!r} {o.ghost.get("role")}>' if 'role' in o.ghost else 'dict'
            if isinstance(o, ListO):
                if depth:
                    return '[' + ', '.join(self.describe(st, x, depth - 1) if isinstance(x, V) else repr(x)
                                           for x in o.items) + ']'
                return '[…]'
        return repr(v)
