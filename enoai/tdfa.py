"""Exact comparison of regular expressions, captures included, over texts of one line of any length.

Both expressions are compiled (from their parse trees) to automata with ordered choices; the product of the two
ordered-thread simulations is explored over a finite alphabet of character classes.  Capture positions are kept up to
equality, which makes the product finite.  The reference expression classifies every line into a form and marks the
borders of its parts; the table computed here says, for every form, which groups of the other expression take part and
with which of these borders their ends coincide for every line of that form."""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:                                    # pragma: no cover
    import sre_parse
    import sre_constants as sc
from . import regex as rx

NL, EOF, NLLAST = 'nl', 'eof', 'nllast'
MAXRUN = 3
U = rx.UNIVERSE | {rx.PLACEHOLDER}


class TooComplex(Exception):
    pass


class Nfa:
    """nodes: ('char', frozenset, nxt) ('split', [nxt..]) ('save', slot, nxt) ('look', neg, sub-start, nxt)
    ('at', what, nxt) ('match',)"""

    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        tree = sre_parse.parse(pattern, flags)
        self.flags = tree.state.flags
        self.ngroups = tree.state.groups - 1
        self.names = dict(tree.state.groupdict)
        self.inf = rx.RegexInfo.__new__(rx.RegexInfo)
        self.inf.flags = self.flags
        self.nodes = []
        self.add(('match',))
        self.sets = set()
        end = self.add(('save', 1, 0))
        body = self.seq(self.expand(list(tree)), end)
        self.start = self.add(('save', 0, body))
        self.nslots = 2 * (self.ngroups + 1)

    def add(self, n):
        self.nodes.append(n)
        return len(self.nodes) - 1

    def chars(self, op, av):
        neg = False
        if op is sc.LITERAL:
            s = frozenset(chr(av))
            if self.flags & re.IGNORECASE:
                s |= {chr(av).lower(), chr(av).upper()}
        elif op is sc.NOT_LITERAL:
            s = U - {chr(av)}
        elif op is sc.ANY:
            s = U if self.flags & re.DOTALL else U - {'\n'}
        elif op is sc.IN:
            acc = set()
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    acc.add(chr(a))
                elif o is sc.RANGE:
                    acc |= {c for c in U if a[0] <= ord(c) <= a[1]}
                elif o is sc.CATEGORY:
                    name = str(a)
                    pred = {'SPACE': str.isspace, 'DIGIT': str.isdigit,
                            'WORD': lambda c: c.isalnum() or c == '_' or c == rx.PLACEHOLDER}[name.split('_')[-1]]
                    base = {c for c in U if pred(c)}
                    acc |= (U - base) if 'NOT' in name else base
            s = frozenset(U - acc if neg else acc)
        else:
            return None
        return frozenset(s)

    # ---- back references to runs of one character are unrolled over the length of the run
    def refs(self, sub):
        out = set()
        for op, av in sub:
            if op is sc.GROUPREF:
                out.add(av)
            if op is sc.GROUPREF_EXISTS:
                raise TooComplex('conditional group')
            for ch in self.children(op, av):
                out |= self.refs(ch)
        return out

    def groups_in(self, sub):
        out = {}
        for op, av in sub:
            if op is sc.SUBPATTERN and av[0] is not None:
                out[av[0]] = av[3]
            for ch in self.children(op, av):
                out.update(self.groups_in(ch))
        return out

    @staticmethod
    def children(op, av):
        if op is sc.SUBPATTERN:
            return [list(av[3])]
        if op is sc.BRANCH:
            return [list(b) for b in av[1]]
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            return [list(av[2])]
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            return [list(av[1])]
        return []

    def expand(self, sub):
        """replace each smallest sequence holding both a group and references to it by its unrollings"""
        sub = list(sub)
        out = []
        gs, rs = self.groups_in(sub), self.refs(sub)
        need = [g for g in rs if g in gs]
        if not need:
            return [self._rebuild(op, av, self.expand) for op, av in sub]
        # is it contained in a single child?
        for i, (op, av) in enumerate(sub):
            mine = [g for g in need if g in self.groups_in([(op, av)]) and self._all_refs_in(sub, i, g)]
            if mine:
                rebuilt = self._rebuild(op, av, self.expand)
                sub = sub[:i] + [rebuilt] + sub[i + 1:]
        gs, rs = self.groups_in(sub), self.refs(sub)
        for g in [g for g in need if g in rs]:
            body = list(gs[g])
            if len(body) != 1 or body[0][0] not in (sc.MAX_REPEAT,):
                raise TooComplex('back reference')
            lo, hi, inner = body[0][1]
            inner = list(inner)
            if len(inner) != 1 or inner[0][0] is not sc.LITERAL or lo < 1:
                raise TooComplex('back reference')
            lit = inner[0]
            top = min(MAXRUN, hi) if hi is not sc.MAXREPEAT else MAXRUN
            alts = [self._inst(sub, g, lit, n) for n in range(top, lo - 1, -1)]
            sub = [(sc.BRANCH, (None, alts))]
        return sub

    def _all_refs_in(self, sub, i, g):
        return all(g not in self.refs([x]) for j, x in enumerate(sub) if j != i)

    def _rebuild(self, op, av, f):
        if op is sc.SUBPATTERN:
            return op, (av[0], av[1], av[2], f(list(av[3])))
        if op is sc.BRANCH:
            return op, (av[0], [f(list(b)) for b in av[1]])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            return op, (av[0], av[1], f(list(av[2])))
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            return op, (av[0], f(list(av[1])))
        return op, av

    def _inst(self, sub, g, lit, n):
        out = []
        for op, av in sub:
            if op is sc.GROUPREF and av == g:
                out.extend([lit] * n)
            elif op is sc.SUBPATTERN and av[0] == g:
                out.append((op, (g, av[1], av[2], [lit] * n)))
            else:
                out.append(self._rebuild(op, av, lambda s: self._inst(s, g, lit, n)))
        return out

    # ---- Thompson construction, from the back
    def seq(self, sub, nxt):
        for op, av in reversed(list(sub)):
            nxt = self.one(op, av, nxt)
        return nxt

    def one(self, op, av, nxt):
        cs = self.chars(op, av)
        if cs is not None:
            self.sets.add(cs)
            return self.add(('char', cs, nxt))
        if op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise TooComplex('inline flags')
            if av[0] is None:
                return self.seq(av[3], nxt)
            e = self.add(('save', 2 * av[0] + 1, nxt))
            return self.add(('save', 2 * av[0], self.seq(av[3], e)))
        if op is sc.BRANCH:
            return self.add(('split', tuple(self.seq(b, nxt) for b in av[1])))
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            greedy = op is sc.MAX_REPEAT
            if hi is sc.MAXREPEAT:
                i = self.add(None)
                b = self.seq(body, i)
                self.nodes[i] = ('split', (b, nxt) if greedy else (nxt, b))
                cur = i
            else:
                if hi > 12:
                    raise TooComplex('large repeat')
                cur = nxt
                for _ in range(hi - lo):
                    b = self.seq(body, cur)
                    cur = self.add(('split', (b, nxt) if greedy else (nxt, b)))
            if lo > 12:
                raise TooComplex('large repeat')
            for _ in range(lo):
                cur = self.seq(body, cur)
            return cur
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            if av[0] < 0:
                raise TooComplex('lookbehind')
            acc = self.add(('lookend',))
            s = self.seq(list(av[1]), acc)
            return self.add(('look', op is sc.ASSERT_NOT, s, nxt))
        if op is sc.AT:
            return self.add(('at', av, nxt))
        if op is sc.GROUPREF:
            raise TooComplex('back reference')
        raise TooComplex(str(op))

    # ---- simulation
    def at(self, what, letter, begin):
        ml = self.flags & re.MULTILINE
        if what in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            return begin == 'string' or begin == 'line' and bool(ml) and what is sc.AT_BEGINNING
        if what is sc.AT_END:
            return letter in (EOF, NLLAST) or letter == NL and bool(ml)
        if what is sc.AT_END_STRING:
            return letter == EOF
        raise TooComplex(str(what))

    def has(self, cs, letter):
        return ('\n' in cs) if letter in (NL, NLLAST) else False if letter == EOF else letter in cs

    def closure(self, threads, letter, pos, begin):
        """threads: [(pc, regs, negs)] -> ordered leaves [(kind, pc, regs, negs)]"""
        leaves, seen = [], set()

        def go(pc, regs, negs):
            n = self.nodes[pc]
            k = n[0]
            if k in ('char', 'match'):
                key = (pc, negs)
                if key in seen:
                    return
                seen.add(key)
                leaves.append((k, pc, regs, negs))
                return
            if (pc, negs) in seen:
                return
            seen.add((pc, negs))
            if k == 'split':
                for x in n[1]:
                    go(x, regs, negs)
            elif k == 'save':
                r = list(regs)
                r[n[1]] = pos
                go(n[2], tuple(r), negs)
            elif k == 'at':
                if self.at(n[1], letter, begin):
                    go(n[2], regs, negs)
            elif k == 'look':
                res = self.lookstart(n[2], letter, begin)
                # res: True (matches with this letter), False (cannot), or a frozenset still running
                if isinstance(res, bool):
                    if res != n[1]:
                        go(n[3], regs, negs)
                else:
                    if not n[1]:
                        raise TooComplex('lookahead')
                    go(n[3], regs, negs | {res})
            else:
                raise TooComplex(k)
        for pc, regs, negs in threads:
            go(pc, regs, negs)
        return leaves

    def lookset(self, pcs, letter, begin):
        """closure of a lookahead: (accepted without further letters, char nodes)"""
        acc, chars, seen = False, set(), set()
        todo = list(pcs)
        while todo:
            pc = todo.pop()
            if pc in seen:
                continue
            seen.add(pc)
            n = self.nodes[pc]
            if n[0] == 'lookend':
                acc = True
            elif n[0] == 'char':
                chars.add(pc)
            elif n[0] == 'split':
                todo.extend(n[1])
            elif n[0] == 'save':
                todo.append(n[2])
            elif n[0] == 'at':
                if self.at(n[1], letter, begin):
                    todo.append(n[2])
            else:
                raise TooComplex('nested lookaround')
        return acc, chars

    def lookstart(self, pc, letter, begin):
        acc, chars = self.lookset([pc], letter, begin)
        if acc:
            return True
        hit = frozenset(self.nodes[c][2] for c in chars if self.has(self.nodes[c][1], letter))
        if not hit:
            return False
        if any(self.final(h) for h in hit):
            return True
        return hit

    def final(self, pc, seen=None):
        """does this lookahead state accept without further input?"""
        n = self.nodes[pc]
        if n[0] == 'lookend':
            return True
        if n[0] == 'split':
            return any(self.final(x) for x in n[1])
        if n[0] == 'save':
            return self.final(n[2])
        return False

    def step(self, leaves, letter):
        """-> (next threads, match registers or None): leaves are cut behind the first match"""
        nxt, best = [], None
        for k, pc, regs, negs in leaves:
            if k == 'match':
                if any(negs) and letter not in (EOF, NL, NLLAST):
                    raise TooComplex('match before a lookahead is settled')
                best = regs
                break
            n = self.nodes[pc]
            if self.has(n[1], letter):
                nn = self.advance(negs, letter)
                if nn is not None:
                    nxt.append((n[2], regs, nn))
                    if not nn and self.universal(n[2]):
                        break                      # accepts whatever follows: nothing behind it can win
        return nxt, best

    def plain_step(self, pcs, letter, begin=None):
        out, acc, seen = set(), False, set()
        todo = list(pcs)
        while todo:
            pc = todo.pop()
            if pc in seen:
                continue
            seen.add(pc)
            n = self.nodes[pc]
            k = n[0]
            if k == 'match':
                acc = True
            elif k == 'char':
                if self.has(n[1], letter):
                    out.add(n[2])
            elif k == 'split':
                todo.extend(n[1])
            elif k == 'save':
                todo.append(n[2])
            elif k == 'at':
                if self.at(n[1], letter, begin):
                    todo.append(n[2])
            elif k == 'look':
                res = self.lookstart(n[2], letter, begin)
                if not isinstance(res, bool):
                    return None, False             # unsettled: treat as not universal
                if res != n[1]:
                    todo.append(n[3])
        return frozenset(out), acc

    def universal(self, pc):
        """from here every rest of the line is accepted"""
        if pc in self._univ:
            return self._univ[pc]
        letters = self.letters
        seen, todo, res = set(), [frozenset([pc])], True
        while todo and res:
            st = todo.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > 200:
                res = False
                break
            for e in (NL, NLLAST, EOF):
                nx, acc = self.plain_step(st, e)
                if not acc:
                    res = False
                    break
            if not res:
                break
            for a in letters:
                nx, _acc = self.plain_step(st, a)
                if not nx:
                    res = False
                    break
                todo.append(nx)
        self._univ[pc] = res
        return res

    def advance(self, negs, letter):
        """step the running negative lookaheads that started before this letter; None: one of them matched"""
        out = set()
        for pcs in negs:
            # pcs: states after having consumed the letter at which the lookahead started
            if isinstance(pcs, tuple) and pcs and pcs[0] == 'new':
                out.add(pcs[1])
                continue
            acc, chars = self.lookset(pcs, letter, None)
            if acc:
                return None
            hit = frozenset(self.nodes[c][2] for c in chars if self.has(self.nodes[c][1], letter))
            if any(self.final(h) for h in hit):
                return None
            if hit:
                out.add(hit)
        return frozenset(out)


class Sim:
    """one side of the product"""

    def __init__(self, nfa, begin):
        self.n, self.begin = nfa, begin

    def init(self):
        return ((self.n.start, (-1,) * self.n.nslots, frozenset()),), None

    def feed(self, side, letter, pos, first):
        threads, best = side
        begin = self.begin if first else None
        leaves = self.n.closure([(pc, regs, frozenset(self._old(negs))) for pc, regs, negs in threads], letter, pos, begin)
        # lookaheads started in this closure already consumed this letter: mark them so that step keeps them
        marked = []
        for k, pc, regs, negs in leaves:
            m = frozenset(x[1] if isinstance(x, tuple) else ('new', x) for x in negs)
            marked.append((k, pc, regs, m))
        nxt, b = self.n.step(marked, letter)
        return tuple(nxt), (b if b is not None else best)

    @staticmethod
    def _old(negs):
        return [('old', x) for x in negs]


def letters_of(*nfas):
    sets = set()
    for n in nfas:
        sets |= n.sets
    sets = sorted(sets, key=lambda s: (len(s), sorted(s)[:3]))
    groups = {}
    for c in sorted(U - {'\n'}):
        groups.setdefault(tuple(c in s for s in sets), []).append(c)
    def rep(cs):
        pref = [c for c in cs if c in 'a: \t'] or cs
        return pref[0]
    return [rep(cs) for cs in groups.values()]


class Table:
    """form -> end ('nl'/'nllast'/'eof') -> [variant]; a variant is None (no match) or
    {group: None | (begin borders, end borders)} with 'witness'"""

    def __init__(self, pattern, flags, ref, classify, begin='line', limit=60000, lead=False):
        self.nfa = pattern if isinstance(pattern, Nfa) else Nfa(pattern, flags)
        self.ref, self.classify = ref, classify
        self.forms = {}
        self.states = 0
        self.explore(begin, limit, lead)

    def explore(self, begin, limit, lead):
        A, R = Sim(self.nfa, begin), Sim(self.ref, begin)
        letters = letters_of(self.nfa, self.ref)
        self.letters = letters
        for n in (self.nfa, self.ref):
            n.letters, n._univ = letters, {}
        init = (A.init(), R.init())
        if lead:                                   # the expression starts by consuming the line break before the line
            init = (A.feed(init[0], NL, 'prev', False), init[1])
            if not init[0][0]:
                raise TooComplex('expression is not anchored at a line')
            A.begin = 'line'
        seen = {self.canon(init, None)[0]: None}
        todo = [(init, '')]
        first = True
        while todo:
            nxt = []
            for (a, r), word in todo:
                self.states += 1
                if self.states > limit:
                    raise TooComplex('product too large')
                for end in (NL, NLLAST, EOF):
                    self.finish(A, R, a, r, word, end, first)
                for x in letters:
                    a2 = A.feed(a, x, 'cur' if not first else 0, first)
                    r2 = R.feed(r, x, 'cur' if not first else 0, first)
                    key, st = self.canon((a2, r2), 'cur')
                    if key not in seen:
                        seen[key] = None
                        nxt.append((st, word + x if len(word) < 60 else word))
            todo = nxt
            first = False

    @staticmethod
    def canon(st, cur):
        """rename position labels by first occurrence (0 = begin of the line)"""
        m = {0: 0, -1: -1, 'prev': 'prev', 'behind': 'behind'}
        n = [0]
        def ren(x):
            if x not in m:
                n[0] += 1
                m[x] = n[0]
            return m[x]
        sides = []
        for threads, best in st:
            sides.append((tuple((pc, tuple(ren(x) for x in regs), negs) for pc, regs, negs in threads),
                          None if best is None else tuple(ren(x) for x in best)))
        res = tuple(sides)
        return res, res

    def finish(self, A, R, a, r, word, end, first):
        cur = 0 if first else 'cur'
        r2 = R.feed(r, end, cur, first)
        form = self.classify(R.n, r2[1], r2[0])
        a_threads, best = A.feed(a, end, cur, first)
        variants = []
        if a_threads and end != EOF:
            # some thread with priority over the match consumes the line break
            leaves = A.n.closure(a_threads, 'a', 'behind', 'line')
            if leaves and leaves[0][0] == 'match':
                best = leaves[0][2]
            elif any(k == 'char' for k, *_ in leaves):
                variants.append('cross')
        variants.append(best)
        # borders of the reference
        borders = {}
        def mark(name, lab):
            borders.setdefault(lab, set()).add(name)
        mark('S', 0)
        mark('E', cur)
        mark('N', 'behind')
        mark('P', 'prev')
        if r2[1] is not None:
            names = {v: k for k, v in R.n.names.items()}
            for g, nm in names.items():
                b, e = r2[1][2 * g], r2[1][2 * g + 1]
                if e != -1 and b != -1:
                    mark(nm + '.b', b)
                    mark(nm + '.e', e)
        tab = self.forms.setdefault(form, {}).setdefault(end, {})
        for v in variants:
            if v == 'cross' or v is None:
                tab.setdefault(v, (None, word))
                continue
            pres = frozenset(g for g in range(A.n.ngroups + 1) if v[2 * g + 1] != -1 and v[2 * g] != -1)
            spans = {g: (frozenset(borders.get(v[2 * g], ())), frozenset(borders.get(v[2 * g + 1], ()))) for g in pres}
            if pres in tab:
                old, w = tab[pres]
                for g in pres:
                    nb, ne = old[g][0] & spans[g][0], old[g][1] & spans[g][1]
                    if (not nb or not ne) and old[g][0] and old[g][1]:
                        w = word
                    old[g] = (nb, ne)
                tab[pres] = (old, w)
            else:
                tab[pres] = (spans, word)
