"""Exponential ambiguity of regular expressions, decided on their automata.

A backtracking matcher can take exponentially many ways through a text exactly when some state of the automaton can be
reached from itself in two different ways over the same text (and matching may still fail behind it). The pairs of states
that read the same text form a finite graph; such a state shows as a strongly connected component that holds the state
paired with itself and some other pair (or a doubled edge). The search gives the loop and a text that is read in two ways."""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:                                    # pragma: no cover
    import sre_parse
    import sre_constants as sc
from . import tdfa
from .tdfa import TooComplex


END = 'end'
DOLLAR = 'dollar'                                      # at the end, or before a line break that is the last letter
ANY = 'any'                                            # a guard that is not known to be of one letter


class Surely:
    """a guard that lets these letters pass, and maybe others"""
    def __init__(self, letters):
        self.letters = letters


class Graph:
    """ε-automaton of a pattern: nodes ('char', set, next) ('eps', [(next, guard)]) ('match',); a guard is None, the set of
    letters (or END) that may follow, or ANY: look-arounds over more than one letter, back references"""

    def __init__(self, pattern, flags=0):
        tree = sre_parse.parse(pattern, flags)
        self.flags = tree.state.flags
        self.nodes, self.sets, self.inner, self.groups, self.memo = [('match',)], set(), [], {}, {}
        self.helper = tdfa.Nfa.__new__(tdfa.Nfa)
        self.helper.flags = self.flags
        self.helper.inf = tdfa.rx.RegexInfo.__new__(tdfa.rx.RegexInfo)
        self.helper.inf.flags = self.flags
        self.start = self.seq(list(tree), 0)

    def sub(self, body):
        """the automaton of a look-around"""
        h = Graph.__new__(Graph)
        h.flags, h.helper, h.groups = self.flags, self.helper, self.groups
        h.nodes, h.sets, h.inner, h.memo = [('match',)], set(), [], {}
        h.start = h.seq(list(body), 0)
        return h

    def add(self, n):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def seq(self, sub, nxt):
        for op, av in reversed(list(sub)):
            nxt = self.one(op, av, nxt)
        return nxt

    def one(self, op, av, nxt):
        cs = self.helper.chars(op, av)
        if cs is not None:
            self.sets.add(cs)
            return self.add(('char', cs, nxt))
        if op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise TooComplex('inline flags')
            self.groups[av[0]] = av[3]
            return self.seq(av[3], nxt)
        if op is sc.BRANCH:
            return self.add(('eps', [(self.seq(b, nxt), None) for b in av[1]]))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            if hi is sc.MAXREPEAT or hi > 12:
                i = self.add(None)
                first = self.seq(body, i)
                self.nodes[i] = ('eps', [(first, None), (nxt, None)])
                cur = self.add(('eps', [(first, None), (nxt, None)]))
            else:
                cur = nxt
                for _ in range(hi - min(lo, hi)):
                    cur = self.add(('eps', [(self.seq(body, cur), None), (nxt, None)]))
            for _ in range(min(lo, 4)):
                cur = self.seq(body, cur)
            return cur
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            self.inner.append(av[1])
            g = self.ahead(av[1]) if av[0] > 0 else ANY
            if g is ANY and op is sc.ASSERT_NOT and av[0] > 0:
                first = self.first(av[1])              # whatever cannot begin it may follow for certain
                if first is not None:
                    self.sets.add(first)
                    g = Surely((tdfa.U | {END, '\n'}) - first)
            elif g is not ANY:
                self.sets.add(frozenset(g - {END}))
                if op is sc.ASSERT_NOT:
                    g = (tdfa.U | {END, '\n'}) - g
            return self.add(('eps', [(nxt, g)]))
        if op is sc.AT:
            return self.add(('eps', [(nxt, self.edge(av))]))
        if op is sc.GROUPREF:                          # some text its group may read
            i = self.add(None)
            c = self.add(('char', tdfa.U, i))
            self.nodes[i] = ('eps', [(c, ANY), (nxt, ANY)])
            return i
        raise TooComplex(str(op))

    def edge(self, what):
        if what is sc.AT_END:
            return frozenset({END, '\n'}) if self.flags & re.MULTILINE else DOLLAR
        if what is sc.AT_END_STRING:
            return frozenset({END})
        return ANY

    def first(self, body):
        """the letters a text of body may begin with; None if that is not known or it may be empty"""
        h = self.sub(body)
        acc = frozenset()
        groups = [av for op, av in list(body)[:1] if op is sc.GROUPREF]
        if groups:
            return self.first(self.groups[groups[0]]) if groups[0] in self.groups else None
        for n, _g in h.ends(h.start, True):
            if n == 0:
                return None
            acc |= h.nodes[n][1]
        return acc

    def ahead(self, body):
        """the letters a look-ahead lets follow, when one letter (or the end) settles it"""
        body = list(body)
        if len(body) != 1:
            return ANY
        op, av = body[0]
        cs = self.helper.chars(op, av)
        if cs is not None:
            return frozenset(cs)
        if op is sc.AT and av in (sc.AT_END, sc.AT_END_STRING):
            return ANY if self.edge(av) is DOLLAR else self.edge(av)
        if op is sc.SUBPATTERN and not av[1] and not av[2]:
            return self.ahead(av[3])
        if op is sc.BRANCH:
            acc = frozenset()
            ends = False
            for b in av[1]:
                if len(list(b)) == 1 and list(b)[0] == (sc.AT, sc.AT_END):
                    ends = True
                    continue
                g = self.ahead(b)
                if g is ANY:
                    return ANY
                acc |= g
            if ends:                                   # $ lets the end follow, and a line break when it is the last letter
                if '\n' not in acc and not self.flags & re.MULTILINE:
                    return ANY
                acc |= {END, '\n'}
            return acc
        return ANY

    def ends(self, n, loose):
        """[(char or match node, guard)] reached from n without reading, once per way (nodes are passed once on a way)"""
        if (n, loose) not in self.memo:
            self.memo[n, loose] = list(self._ends(n, loose, (), None))
        return self.memo[n, loose]

    def _ends(self, n, loose, path, guard):
        if n in path:
            return
        node = self.nodes[n]
        if node[0] != 'eps':
            yield n, guard
            return
        for m, g in node[1]:
            if g is ANY and not loose:
                continue
            if isinstance(g, Surely):
                g = None if loose else g.letters
            if g is DOLLAR:
                g = frozenset({END, '\n'}) if loose else frozenset({END})
            both = guard if g is None or g is ANY else g if guard is None else guard & g
            yield from self._ends(m, loose, path + (n,), both)

    def step(self, ends, c):
        """{char node: ways} that read letter c; whether a match is complete when c (or END) follows"""
        res, done = {}, False
        for n, guard in ends:
            if guard is not None and c not in guard:
                continue
            if n == 0:
                done = True
            elif c in self.nodes[n][1]:
                res[n] = res.get(n, 0) + 1
        return res, done


def exponential(pattern, flags=0, loose=False, anchored=False):
    """None, or a text that is read in two ways over and over. Strictly (not loose): guards that are not of one letter let
    nothing pass, and some text makes every way fail; loose: such guards let everything pass"""
    return search(Graph(pattern, flags), loose, anchored)


def search(g, loose, anchored):
    alphabet = letters_of(g)
    chars = [i for i, n in enumerate(g.nodes) if n[0] == 'char']
    nxt = {i: {c: g.step(g.ends(g.nodes[i][2], loose), c)[0] for c in alphabet} for i in chars}
    alive, todo = set(), [n for n, _g in g.ends(g.start, loose) if n]
    while todo:
        i = todo.pop()
        if i not in alive:
            alive.add(i)
            todo += [j for ways in nxt[i].values() for j in ways]
    succ = {}

    def edges(p):
        if p not in succ:
            found = {}
            for c in alphabet:
                for x in nxt[p[0]][c]:
                    for y in nxt[p[1]][c]:
                        found.setdefault((x, y), c)
            succ[p] = found
        return succ[p]

    for comp in components([(i, i) for i in chars if i in alive], edges):
        inside = set(comp)
        if len(comp) == 1 and comp[0] not in edges(comp[0]):
            continue
        diag = [p for p in comp if p[0] == p[1]]
        other = [p for p in comp if p[0] != p[1]]
        for d in diag:
            loop = None
            if other:
                loop = word(d, other[0], edges, inside) + word(other[0], d, edges, inside)
            else:
                for p in diag:
                    for q, _c in edges(p).items():
                        twice = [c for c in alphabet if q[0] == q[1] and nxt[p[0]][c].get(q[0], 0) > 1]
                        if q in inside and twice:
                            loop = word(d, p, edges, inside) + twice[0] + word(q, d, edges, inside)
                            break
                    if loop:
                        break
            if loop and (loose or fails(g, d[0], loop, alphabet, anchored)):
                return loop
            if not loop:
                break
    for body in g.inner:
        r = search(g.sub(body), loose, False)
        if r:
            return r
    return None


def fails(g, node, loop, alphabet, anchored, limit=3000):
    """is there a text, with the loop read over and over in it, that no way through the expression accepts?"""
    def after(nodes, c):
        """states when c is read, or None when a match may be complete before it"""
        ends = [x for n in nodes for x in (g.ends(g.start, True) if n is None else g.ends(g.nodes[n][2], True))]
        res, done = g.step(ends, c)
        return None if done and not (anchored and c != END) else frozenset(res)

    start = frozenset([None])
    seen, todo = {start}, [start]
    while todo and len(seen) < limit:
        s = todo.pop(0)
        if node in s:
            pumped, ok = [s], True
            for _ in range(2 * len(g.nodes)):
                for c in loop:
                    s2 = after(pumped[-1], c)
                    ok = s2 is not None
                    if not ok:
                        break
                    pumped.append(s2)
                if not ok or len(pumped) > len(loop) and pumped[-1] == pumped[-1 - len(loop)]:
                    break
            if ok:
                tail, rest = {pumped[-1]}, [pumped[-1]]
                while rest and len(tail) < 200:
                    t = rest.pop(0)
                    if after(t, END) is not None:
                        return True
                    for c in alphabet:
                        t2 = after(t, c)
                        if t2 is not None and t2 not in tail:
                            tail.add(t2)
                            rest.append(t2)
        for c in alphabet:
            s2 = after(s, c)
            if s2 is not None and s2 and s2 not in seen:
                seen.add(s2)
                todo.append(s2)
    return False


def letters_of(g):
    """one letter of every class the sets of the automaton tell apart"""
    sets = sorted(g.sets, key=lambda s: (len(s), sorted(s)[:3]))
    groups = {}
    for c in sorted(tdfa.U | {'\n'}):
        groups.setdefault(tuple(c in s for s in sets), []).append(c)
    return [next((c for c in 'a -`1' if c in cs), cs[0]) for cs in groups.values()]


def word(a, b, edges, inside):
    """a text that leads from pair a to pair b"""
    if a == b:
        return ''
    prev, todo = {a: None}, [a]
    while todo:
        p = todo.pop(0)
        for q, c in edges(p).items():
            if q in inside and q not in prev:
                prev[q] = (p, c)
                todo.append(q)
    w = ''
    while b != a:
        b, c = prev[b]
        w = c + w
    return w


def components(roots, edges):
    """strongly connected components (Tarjan, iterative)"""
    index, low, stack, on, out = {}, {}, [], set(), []
    for root in roots:
        if root in index:
            continue
        work = [(root, iter(edges(root)))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(edges(w))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out
