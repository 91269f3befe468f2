"""Call graph of the parsing and reporting modules with the calls whose target is certain, and its cycles."""
import ast
import os
from .world import REPO


class Graph:
    def __init__(self, files):
        self.edges, self.funcs, self.calls = {}, {}, 0
        self.classes, self.modfuncs, self.imports = {}, {}, {}
        trees = {}
        for f in files:
            p = os.path.join(REPO, 'enolib', f)
            if os.path.exists(p):
                trees[f] = ast.parse(open(p, encoding='utf-8').read())
        for f, t in trees.items():
            for n in t.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[n.name] = (f, [b.id for b in n.bases if isinstance(b, ast.Name)],
                                            {m.name for m in n.body if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef))})
                elif isinstance(n, ast.FunctionDef):
                    self.modfuncs[n.name] = f
        for f, t in trees.items():
            for n in t.body:
                if isinstance(n, ast.ClassDef):
                    for m in n.body:
                        if isinstance(m, ast.FunctionDef):
                            self.visit(f, n.name, (n.name, m.name), m, {})
                elif isinstance(n, ast.FunctionDef):
                    self.visit(f, None, ('', n.name), n, {})

    def method(self, cls, name, seen=()):
        """the functions a call of name on an instance of cls can reach"""
        res = set()
        c = cls
        while c in self.classes and c not in seen:
            seen += (c,)
            if name in self.classes[c][2]:
                res.add((c, name))
                break
            c = next((b for b in self.classes[c][1] if b in self.classes), None)
        for d, (_f, bases, names) in self.classes.items():
            if cls in bases and name in names:
                res.add((d, name))
        return res

    def visit(self, f, cls, me, fn, scope):
        self.funcs[me] = (f, fn.lineno)
        self.edges.setdefault(me, {})
        own = [x for s in fn.body for x in self.inner(s)]
        scope = dict(scope)
        nested = [x for x in own if isinstance(x, ast.FunctionDef)]
        for x in nested:
            scope[x.name] = me + (x.name,)
        self_name = fn.args.args[0].arg if fn.args.args and len(me) == 2 and cls else scope.get('%self')
        scope['%self'] = self_name
        for x in nested:
            self.visit(f, cls, scope[x.name], x, scope)
        for x in own:
            if not isinstance(x, ast.Call):
                continue
            self.calls += 1
            t, g = set(), x.func
            if isinstance(g, ast.Name):
                if g.id in scope:
                    t = {scope[g.id]}
                elif g.id in self.classes:
                    t = self.method(g.id, '__init__')
                elif g.id in self.modfuncs:
                    t = {('', g.id)}
            elif isinstance(g, ast.Attribute):
                if isinstance(g.value, ast.Name) and (g.value.id == self_name or g.value.id in ('self', 'cls')) and cls:
                    t = self.method(cls, g.attr)
                elif isinstance(g.value, ast.Name) and g.value.id in self.classes:
                    t = self.method(g.value.id, g.attr)
            for y in t:
                self.edges[me].setdefault(y, x.lineno)

    def inner(self, n):
        """nodes below n, not entering nested functions (lambdas count as part of the function)"""
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return
        for c in ast.iter_child_nodes(n):
            yield from self.inner(c)

    def cycles(self):
        index, low, stack, on, res = {}, {}, [], set(), []

        def go(v):
            index[v] = low[v] = len(index)
            stack.append(v)
            on.add(v)
            for w in self.edges.get(v, ()):
                if w not in index:
                    go(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], index[w])
            if low[v] == index[v]:
                comp = set()
                while True:
                    w = stack.pop()
                    on.discard(w)
                    comp.add(w)
                    if w == v:
                        break
                if len(comp) > 1 or v in self.edges.get(v, ()):
                    res.append(comp)
        for v in list(self.edges):
            if v not in index:
                go(v)
        return res


def name(graph, fn):
    return f'{graph.funcs[fn][0]} {".".join(x for x in fn if x)}'
