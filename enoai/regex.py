"""Static facts about a regular expression, from its parse tree (never matched against anything)."""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:                                    # pragma: no cover
    import sre_parse
    import sre_constants as sc

UNIVERSE = frozenset(chr(i) for i in range(256)) | frozenset('\u2003\u2028\u3000é漢Ωß')
SPACE = frozenset(c for c in UNIVERSE if c.isspace())
DIGIT = frozenset(c for c in UNIVERSE if c.isdigit())
WORD = frozenset(c for c in UNIVERSE if c.isalnum() or c == '_')
CATS = {sc.CATEGORY_SPACE: SPACE, sc.CATEGORY_NOT_SPACE: UNIVERSE - SPACE, sc.CATEGORY_DIGIT: DIGIT,
        sc.CATEGORY_NOT_DIGIT: UNIVERSE - DIGIT, sc.CATEGORY_WORD: WORD, sc.CATEGORY_NOT_WORD: UNIVERSE - WORD}
PLACEHOLDER = '\ue000'          # stands for arbitrary literal text (an escaped key)


class RegexInfo:
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self.tree = sre_parse.parse(pattern, flags)
        self.flags = self.tree.state.flags
        self.ngroups = self.tree.state.groups - 1
        self.groupnames = dict(self.tree.state.groupdict)
        self.nodes = {}                    # group -> subpattern node
        self._collect(self.tree)
        self.variants = self._variants(self.tree)

    # ---- tree helpers
    def _collect(self, sub):
        for op, av in sub:
            for ch in self._children(op, av):
                self._collect(ch)
            if op is sc.SUBPATTERN and av[0] is not None:
                self.nodes[av[0]] = av[3]

    @staticmethod
    def _children(op, av):
        if op is sc.SUBPATTERN:
            return [av[3]]
        if op is sc.BRANCH:
            return list(av[1])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
            return [av[2]]
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            return [av[1]]
        if op is getattr(sc, 'ATOMIC_GROUP', None):
            return [av]
        if op is sc.GROUPREF_EXISTS:
            return [x for x in av[1:] if x is not None]
        return []

    def chars(self, op, av):
        """set of characters a one-character node can match (None when not a char node)"""
        icase = self.flags & re.IGNORECASE
        def lit(n):
            c = chr(n)
            return frozenset((c, c.lower(), c.upper())) if icase else frozenset((c,))
        if op is sc.LITERAL:
            return lit(av)
        if op is sc.NOT_LITERAL:
            return UNIVERSE - lit(av)
        if op is sc.ANY:
            return UNIVERSE if self.flags & re.DOTALL else UNIVERSE - {'\n'}
        if op is sc.IN:
            neg, acc = False, frozenset()
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    acc |= lit(a)
                elif o is sc.RANGE:
                    acc |= frozenset(c for c in UNIVERSE if a[0] <= ord(c) <= a[1])
                elif o is sc.CATEGORY:
                    acc |= CATS.get(a, UNIVERSE)
            return UNIVERSE - acc if neg else acc
        return None

    # ---- participation variants, each with its consumed alphabet
    def _variants(self, sub):
        acc = {frozenset(): frozenset()}
        for op, av in sub:
            acc = self._cross(acc, self._node_variants(op, av))
        return acc

    @staticmethod
    def _cross(x, y):
        out = {}
        for g, a in x.items():
            for h, b in y.items():
                k = g | h
                out[k] = out.get(k, frozenset()) | a | b
        return out

    def _node_variants(self, op, av):
        ch = self.chars(op, av)
        if ch is not None:
            return {frozenset(): ch}
        if op is sc.SUBPATTERN:
            inner = self._variants(av[3])
            if av[0] is None:
                return inner
            return {g | {av[0]}: a for g, a in inner.items()}
        if op is sc.BRANCH:
            out = {}
            for b in av[1]:
                for g, a in self._variants(b).items():
                    out[g] = out.get(g, frozenset()) | a
            return out
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
            lo, hi, body = av
            inner = self._variants(body)
            if hi == 0:
                return {frozenset(): frozenset()}
            if hi != 1:
                more = self._cross(inner, inner)
                for g, a in more.items():
                    inner[g] = inner.get(g, frozenset()) | a
            if lo == 0:
                inner = dict(inner)
                inner.setdefault(frozenset(), frozenset())
            return inner
        if op in (sc.ASSERT,):
            return {g: frozenset() for g in self._variants(av[1])}
        if op is getattr(sc, 'ATOMIC_GROUP', None):
            return self._variants(av)
        if op is sc.GROUPREF:
            return {frozenset(): self.alphabet(av)}
        if op is sc.GROUPREF_EXISTS:
            out = {}
            for s in av[1:]:
                vs = self._variants(s) if s is not None else {frozenset(): frozenset()}
                for g, a in vs.items():
                    out[g] = out.get(g, frozenset()) | a
            return out
        return {frozenset(): frozenset()}           # AT, ASSERT_NOT

    def alphabet(self, group):
        """every character group `group` can consume"""
        node = self.nodes.get(group)
        if node is None:
            return UNIVERSE
        out = frozenset()
        for a in self._variants(node).values():
            out |= a
        return out

    def minwidth(self, group=None):
        node = self.tree if group is None else self.nodes[group]
        return node.getwidth()[0]

    def maxwidth(self, group=None):
        node = self.tree if group is None else self.nodes[group]
        return node.getwidth()[1]

    def sites(self, pred):
        """paths of char nodes (outside lookarounds) satisfying pred(chars) -> descriptions"""
        out = []

        def walk(sub, path):
            for i, (op, av) in enumerate(sub):
                ch = self.chars(op, av)
                if ch is not None:
                    if pred(ch):
                        out.append('/'.join(path) or 'top')
                    continue
                if op in (sc.ASSERT, sc.ASSERT_NOT):
                    continue
                for j, c in enumerate(self._children(op, av)):
                    p = path
                    if op is sc.SUBPATTERN and av[0] is not None:
                        p = path + [f'group {av[0]}']
                    elif op is sc.BRANCH:
                        p = path + [f'branch {j}']
                    walk(c, p)
        walk(self.tree, [])
        return out

    def literal_text(self, group):
        """the constant text of a group, or None;  '#+' style repeats give their character"""
        node = self.nodes[group]
        al = self.alphabet(group)
        if len(al) == 1 and self.minwidth(group) >= 1:
            return next(iter(al))
        txt = ''
        for op, av in node:
            if op is sc.LITERAL:
                txt += chr(av)
            else:
                return None
        return txt or None


_cache = {}


def info(pattern, flags=0):
    k = (pattern, int(flags))
    if k not in _cache:
        _cache[k] = RegexInfo(pattern, flags)
    return _cache[k]
