"""The line forms of the notation: a reference expression that classifies a line and names its parts, and the
shapes of lines (pieces with symbolic texts and lengths) used to build abstract documents."""
import re
from .values import *
from .state import DocMat, ListO
from .interp import Unsupported
from . import tdfa

WS = r'[^\S\n]*'
TEXT = r'\S[^\n]*?'                       # trimmed, non-empty (what follows is space up to the end of the line)
# an escaped key runs to the first closing run after which the line can end properly
ESC = r'(?P<bt>`+)(?!`)[^\S\n]*(?P<ekey>\S[^\n]*?)[^\S\n]*(?P<bt2>(?P=bt))'
PLAIN = r"(?P<key>[^\s>#\-`\\|:=<][^\n:=<]*?)"
SESC = r'(?P<sbt>`+)(?!`)[^\S\n]*(?P<sekey>\S[^\n]*?)[^\S\n]*(?P<sbt2>(?P=sbt))'
SPLAIN = r'(?P<skey>[^\s`<][^\n<]*?)'

LINE = (rf'{WS}(?:(?P<dop>\|){WS}(?P<dval>{TEXT})?'
        rf'|(?P<pop>\\){WS}(?P<pval>{TEXT})?'
        rf'|(?P<cop>>){WS}(?P<cval>{TEXT})?'
        rf'|(?P<iop>-)(?!-){WS}(?P<ival>{TEXT})?'
        rf'|(?P<mop>--+)(?!-){WS}(?P<mkey>{TEXT})'
        rf'|(?P<sop>#+)(?!#){WS}(?:{SPLAIN}|{SESC}){WS}(?:(?P<tcop><(?!<)|<<){WS}(?P<tmpl>{TEXT}))?'
        rf'|(?:{PLAIN}|{ESC}){WS}(?:(?P<fop>:){WS}(?P<fval>{TEXT})?|(?P<eop>=){WS}(?P<eval>{TEXT})?'
        rf'|(?P<lop><){WS}(?P<ltmpl>{TEXT}))'
        rf'|){WS}(?=\n|$)')

# a line without a proper form whose key is escaped but not closed
OPEN = r'(?P<ow>[^\S\n]*)(?P<oh>#*)(?P<ow2>[^\S\n]*)(?P<obt>`+)(?!`)(?P<orest>(?:(?!(?P=obt))[^\n])+)(?=\n|$)'

_ref = None


def ref():
    global _ref
    if _ref is None:
        _ref = tdfa.Nfa(f'(?:{LINE})|(?:{OPEN})')
    return _ref


def classify(nfa, regs, threads=()):
    """form of a line from the groups of LINE that take part"""
    if regs is None:
        return 'BAD'
    has = {n for n, g in nfa.names.items() if regs[2 * g + 1] != -1}
    if 'obt' in has:
        return 'OPEN'
    if 'dop' in has:
        return 'DIR' + ('V' if 'dval' in has else '')
    if 'pop' in has:
        return 'SPC' + ('V' if 'pval' in has else '')
    if 'cop' in has:
        return 'COM' + ('V' if 'cval' in has else '')
    if 'iop' in has:
        return 'ITEM' + ('V' if 'ival' in has else '')
    if 'mop' in has:
        return 'ML'
    if 'sop' in has:
        return 'SEC' + ('E' if 'sekey' in has else '') + ('T' if 'tmpl' in has else '')
    esc = 'E' if 'ekey' in has else ''
    if 'fop' in has:
        return 'FIELD' + esc + ('V' if 'fval' in has else '')
    if 'eop' in has:
        return 'ENTRY' + esc + ('V' if 'eval' in has else '')
    if 'lop' in has:
        return 'COPY' + esc
    return 'EMPTY'


# ------------------------------------------------------------------ shapes of lines
# piece: (name, kind, text): 'ws' any blanks, 'ws1' at least one, 'txt' non-empty text, 'run' one character repeated,
# 'run0' possibly empty run, 'lit' the text itself, 'as' the same text as an earlier piece of the line
W = ('', 'ws', None)


def keypart(key='key', esc=None):
    if not esc:
        return [(key, 'txt', None)]
    bt, ekey, bt2 = esc
    return [(bt, 'run', None), W, (ekey, 'txt', None), W, (bt2, 'as', bt)]


def opline(key, op, text, val, esc):
    k = keypart('key', ('bt', 'ekey', 'bt2') if esc else None)
    v = [W, (val, 'txt', None)] if val else []
    return [W] + k + [W, (op, 'lit', text)] + v + [W]


def section(depth, esc, op):
    k = keypart('skey', ('sbt', 'sekey', 'sbt2') if esc else None)
    t = [W, ('tcop', 'lit', op), W, ('tmpl', 'txt', None)] if op else []
    return [W, ('sop', 'lit', '#' * depth), W] + k + t + [W]


def simple(op, text, val=None):
    return [W, (op, 'lit', text), W] + ([(val, 'txt', None), W] if val else [])


SHAPES = {
    'E0': ('EMPTY', []), 'EW': ('EMPTY', [('', 'ws1', None)]),
    'DIR': ('DIR', simple('dop', '|')), 'DIRV': ('DIRV', simple('dop', '|', 'dval')),
    'SPC': ('SPC', simple('pop', '\\')), 'SPCV': ('SPCV', simple('pop', '\\', 'pval')),
    'COM': ('COM', simple('cop', '>')), 'COMV': ('COMV', simple('cop', '>', 'cval')),
    'ITEM': ('ITEM', simple('iop', '-')), 'ITEMV': ('ITEMV', simple('iop', '-', 'ival')),
    'ML': ('ML', [W, ('mop', 'run', None), W, ('mkey', 'txt', None), W]),
    'BAD': ('BAD', [('text', 'txt', None)]),
    'OPEN': ('OPEN', [('ow', 'ws', None), ('oh', 'run0', None), ('ow2', 'ws', None), ('obt', 'run', None),
                      ('orest', 'txt', None)]),
    'RAW0': ('OTHER', []), 'RAW': ('OTHER', [('raw', 'txt', None)]),
    'MLEND': ('TERM', [W, ('mop', 'same', None), W, ('mkey', 'same', None), W]),
}
CONTENT = ('RAW', 'RAW0', 'RAWF', 'RAWM', 'RAWI')     # lines inside a multiline field
for _e in ('', 'E'):
    SHAPES['FIELD' + _e] = ('FIELD' + _e, opline('key', 'fop', ':', None, _e))
    SHAPES['FIELD' + _e + 'V'] = ('FIELD' + _e + 'V', opline('key', 'fop', ':', 'fval', _e))
    SHAPES['ENTRY' + _e] = ('ENTRY' + _e, opline('key', 'eop', '=', None, _e))
    SHAPES['ENTRY' + _e + 'V'] = ('ENTRY' + _e + 'V', opline('key', 'eop', '=', 'eval', _e))
    SHAPES['COPY' + _e] = ('COPY' + _e, opline('key', 'lop', '<', 'ltmpl', _e))
    for _d in (1, 2, 3, 4):
        SHAPES[f'SEC{_e}{_d}'] = ('SEC' + _e, section(_d, _e, None))
        SHAPES[f'SEC{_e}{_d}T'] = ('SEC' + _e + 'T', section(_d, _e, '<'))
        SHAPES[f'SEC{_e}{_d}D'] = ('SEC' + _e + 'T', section(_d, _e, '<<'))


SHAPES['RAWF'] = ('FIELDV', opline('key', 'fop', ':', 'fval', ''))
SHAPES['RAWI'] = ('ITEMV', simple('iop', '-', 'ival'))
SHAPES['RAWM'] = ('ML', SHAPES['ML'][1])


class Line:
    """shape, form, pieces [(name, text, length)], begin S, end E, borders"""
    __slots__ = ('no', 'shape', 'form', 'pieces', 'S', 'E', 'borders', 'texts', 'of', 'raw')

    def text(self, name):
        return self.texts.get(name)

    def span(self, name):
        return self.borders[name + '.b'], self.borders[name + '.e']


def plus(a, b):
    return mklin(*linadd(lin(a), lin(b)))


class Doc:
    """an abstract document: a sequence of line shapes; texts may be shared between pieces through `names`
    {(line, piece): text value}"""

    def __init__(self, shapes, names=None, wide=None, salt=0):
        names = names or {}
        self.wide = None               # position inside the piece `wide` (line, number of the piece)
        self.shapes = list(shapes)
        self.lines = []
        self.lens = {}
        self.memo = {}
        self.kinds = {}
        self.nonempty = []
        pos = C(0)
        parts = []
        block = None
        for i, shape in enumerate(self.shapes):
            ln = Line()
            ln.no, ln.shape, ln.of, ln.raw = i, shape, None, shape in CONTENT
            ln.form, pieces = SHAPES[shape]
            ln.S, ln.pieces, ln.borders, ln.texts = pos, [], {'S': pos, 'P': plus(pos, C(-1))}, {}
            for j, (name, kind, text) in enumerate(pieces):
                if kind == 'lit':
                    t, n = C(text), C(len(text))
                elif kind == 'as':
                    t = ln.texts[text]
                    n = self.lens[t]
                elif kind == 'same':
                    t = self.lines[block].texts[name]
                    n = self.lens[t] if not isinstance(t, C) else C(len(t.v))
                else:
                    t = names.get((i, name)) if name else None
                    if t is None:
                        t = T('str', 'part', (C(i + salt), C(name or j), C(kind)))
                    if t not in self.kinds:
                        self.kinds[t] = 'trim' if kind == 'run' or kind == 'txt' and \
                            name not in ('raw', 'text', 'orest') else kind
                    if t not in self.lens:
                        m = {'ws': 0, 'run0': 0, 'ws1': 1, 'txt': 1, 'run': 2 if name == 'mop' else 1}[kind]
                        self.lens[t] = plus(C(m), T('int', 'nat', (t,)))
                        if wide == (i, j):
                            u, v = T('int', 'nat', (C('left'),)), T('int', 'nat', (C('right'),))
                            self.lens[t] = plus(C(2), plus(u, v))
                            self.wide = plus(pos, plus(C(1), u))
                            self.nonempty.append(t)
                        if m:
                            self.nonempty.append(t)
                    n = self.lens[t]
                if name:
                    ln.borders[name + '.b'] = pos
                    ln.texts[name] = t
                pos = plus(pos, n)
                if name:
                    ln.borders[name + '.e'] = pos
                ln.pieces.append((name, t, n))
            ln.E = pos
            ln.borders['E'] = pos
            ln.borders['N'] = plus(pos, C(1))
            self.lines.append(ln)
            if shape == 'ML':
                block = i
            if shape == 'MLEND':
                ln.of = block
            parts.extend(t for _n, t, _l in ln.pieces)
            if i + 1 < len(self.shapes):
                parts.append(C('\n'))
                pos = plus(pos, C(1))
        self.text = concat(parts)
        self.length = pos
        self.starts = {}
        for ln in self.lines:
            self.starts.setdefault(ln.S, ln)
        self.ends = {ln.E: ln for ln in reversed(self.lines)}

    def prepare(self, st):
        for t in self.nonempty:
            st.truth[t] = True
            st.none[t] = False

    # ---------------------------------------------------------------- text
    def len_of(self, v):
        """length of a text made of known pieces, or None"""
        total = C(0)
        for p in (v.args if isinstance(v, T) and v.op == 'concat' else (v,)):
            if isinstance(p, C) and isinstance(p.v, str):
                total = plus(total, C(len(p.v)))
            elif p in self.lens:
                total = plus(total, self.lens[p])
            else:
                return None
        return total

    def cells(self, v):
        """[(begin, end, piece)] of a text made of known pieces, constants split into characters; or None"""
        if v not in self.memo:
            self.memo[v] = self.cells_of(v)
        return self.memo[v]

    def cells_of(self, v):
        pos, out = C(0), []
        for p in (v.args if isinstance(v, T) and v.op == 'concat' else (v,)):
            if isinstance(p, C) and isinstance(p.v, str):
                for ch in p.v:
                    nxt = plus(pos, C(1))
                    out.append((pos, nxt, C(ch)))
                    pos = nxt
            elif p in self.lens:
                nxt = plus(pos, self.lens[p])
                out.append((pos, nxt, p))
                pos = nxt
            else:
                return None
        return out

    def covers(self, v):
        return v == self.text or self.len_of(v) is not None

    def slice(self, v, lo, hi, st):
        """text between two positions when both are borders of pieces"""
        cells = self.cells(v)
        if cells is None:
            return None
        total = cells[-1][1] if cells else C(0)
        def clip(x, d):
            if x == NONE:
                return d
            if isinstance(x, C) and isinstance(x.v, int) and x.v < 0:
                return plus(total, x)
            return x
        lo, hi = clip(lo, C(0)), clip(hi, total)
        if lin(lo) is None or lin(hi) is None:
            return None
        if st.proves('>=', lo, hi):
            return C('')
        if st.proves('>=', hi, total):
            hi = total
        if lo == hi:
            return C('')
        i = next((n for n, c in enumerate(cells) if c[0] == lo and (st.proves('<', lo, c[1]) or True)), None)
        j = next((n for n in range(len(cells) - 1, -1, -1) if cells[n][1] == hi), None)
        if i is None or j is None:
            return None
        # prefer the first cell that really starts here (pieces before it may be empty)
        return concat([c[2] for c in cells[i:j + 1]])

    def line_of(self, v, pos):
        """(line, base, begin, end) for a search in text v from position pos"""
        if v == self.text:
            ln = self.starts.get(pos)
            if ln is None:
                return None
            last = len(self.lines) - 1
            if ln.no == last:
                end = tdfa.EOF
            elif ln.no == last - 1 and not self.lines[last].pieces:
                end = tdfa.NLLAST
            else:
                end = tdfa.NL
            return ln, C(0), 'string' if ln.no == 0 else 'line', end
        if pos != C(0):
            return None
        for ln in self.lines:
            if v == concat([t for _n, t, _l in ln.pieces]):
                return ln, ln.S, 'string', tdfa.EOF
        return None

    def char(self, v, k, st):
        """character of a text at a position: exact for line breaks and operators, else some character of a piece"""
        cells = self.cells(v)
        if not cells:
            return None
        if isinstance(k, C) and k.v < 0:
            if k.v != -1:
                return None
            i = len(cells) - 1
        else:
            i = next((n for n, c in enumerate(cells) if c[0] == k and (isinstance(c[2], C) or c[2] in st.truth)), None)
            if i is None:
                return None
        p = cells[i][2]
        if isinstance(p, C):
            return p
        t = T('str', 'char', (v, k))
        st.truth[t] = True
        st.eqs[frozenset((t, C('\n')))] = False
        return t

    def breaks(self, cells):
        return [c[0] for c in cells if c[2] == C('\n')]

    def method(self, eng, meth, v, args, kw, st, fr, node, out):
        """string methods about line breaks, decided on the pieces; None when not covered"""
        cells = self.cells(v)
        if cells is None or kw or not any(not isinstance(c[2], C) for c in cells):
            return None
        nl = C('\n')
        if meth in ('find', 'index', 'rfind', 'rindex', 'count') and args and args[0] == nl:
            lo = args[1] if len(args) > 1 and args[1] != NONE else C(0)
            hi = args[2] if len(args) > 2 and args[2] != NONE else None
            if lin(lo) is None or hi is not None and lin(hi) is None:
                return None
            inside = []
            for b in self.breaks(cells):
                for op, x, y in (('>=', b, lo),) + ((('<', b, hi),) if hi is not None else ()):
                    if st.proves({'>=': '<', '<': '>='}[op], x, y):
                        break
                    if not st.proves(op, x, y):
                        return None
                else:
                    inside.append(b)
            if meth == 'count':
                return iter([(C(len(inside)), st)])
            if not inside:
                if meth in ('index', 'rindex'):
                    eng.throw(out, st, 'ValueError', 'substring not found', node, fr)
                    return iter(())
                return iter([(C(-1), st)])
            return iter([(inside[0] if meth in ('find', 'index') else inside[-1], st)])
        if meth == 'split' and args == [nl] or meth == 'split' and tuple(args) == (nl,):
            parts, cur = [], []
            for c in cells:
                if c[2] == nl:
                    parts.append(concat(cur))
                    cur = []
                else:
                    cur.append(c[2])
            parts.append(concat(cur))
            return iter([(st.alloc(ListO(parts)), st)])
        if meth in ('endswith', 'startswith') and len(args) == 1 and isinstance(args[0], C) and \
                isinstance(args[0].v, str) and len(args[0].v) == 1:
            maybe, ch = False, args[0]
            for _b, _e, p in (reversed(cells) if meth == 'endswith' else cells):
                if isinstance(p, C):
                    if p == ch and maybe:
                        return None
                    return iter([(C(p == ch), st)])
                if st.truth.get(p) is False or st.inteq(self.lens[p], C(0)):
                    continue
                k = self.kinds.get(p)
                if ch != nl and not (k == 'trim' if ch.v.isspace() else k in ('ws', 'ws1')):
                    return None
                if st.truth.get(p) is True:
                    return iter([(FALSE, st)])
                maybe = True
        if meth in ('strip', 'lstrip', 'rstrip') and (not args or tuple(args) == (NONE,)):
            ps = [c[2] for c in cells]
            blank = lambda p: p.v.isspace() if isinstance(p, C) else self.kinds.get(p) in ('ws', 'ws1')
            for side in (0, -1):
                if meth == ('rstrip', 'lstrip')[side]:
                    continue
                while ps and blank(ps[side]):
                    ps.pop(side)
                while ps and not isinstance(ps[side], C) and st.inteq(self.lens[ps[side]], C(0)):
                    ps.pop(side)
                if ps and not isinstance(ps[side], C) and self.kinds.get(ps[side]) != 'trim':
                    return None
            return iter([(concat(ps), st)])
        if meth == 'isspace' and not args:
            ks = ['blank' if isinstance(p, C) and p.v.isspace() else 'ink' if isinstance(p, C) else self.kinds.get(p)
                  for _b, _e, p in cells]
            if 'ink' in ks or 'trim' in ks:
                return iter([(FALSE, st)])
            if ks and all(k in ('blank', 'ws', 'ws1') for k in ks) and ('blank' in ks or 'ws1' in ks):
                return iter([(TRUE, st)])
        if meth == 'partition' and tuple(args) == (nl,):
            n = next((i for i, c in enumerate(cells) if c[2] == nl), None)
            if n is None:
                return iter([(Tup((v, C(''), C(''))), st)])
            return iter([(Tup((concat([c[2] for c in cells[:n]]), nl, concat([c[2] for c in cells[n + 1:]]))), st)])
        return None

    def has(self, item, cont, st):
        """item in cont, when the pieces decide it"""
        cells = self.cells(cont)
        if cells is None or not isinstance(item, C) or not isinstance(item.v, str):
            return None
        if item.v == '':
            return True
        if item.v == '\n' or item.v in ''.join(p.v for _b, _e, p in cells if isinstance(p, C)) and len(item.v) == 1:
            return any(p == item for _b, _e, p in cells)
        return None

    # ---------------------------------------------------------------- expressions
    def border(self, ln, names, base, tag):
        for n in names:
            if n in ln.borders:
                b = ln.borders[n]
                return b if base == C(0) else mklin(*linadd(lin(b), lin(base), -1))
        return T('int', 'border', (C(ln.no), tag))

    def results(self, eng, tab, form, end, ln, string, base, pos, st):
        """yield (match or None, state) for the variants of a form"""
        vs = tab.forms.get(form, {}).get(end, {})
        for k in sorted(vs, key=repr):
            spans, _w = vs[k]
            s = st.fork() if len(vs) > 1 else st
            if k is None:
                yield None, s
                continue
            if k == 'cross':
                u = T('int', 'beyond', (C(ln.no),))
                groups = {g: (T('str', 'cross', (C(ln.no), C(g))), T('int', 'cross', (C(ln.no), C(g), C(0))),
                              T('int', 'cross', (C(ln.no), C(g), C(1)))) for g in range(1, tab.nfa.ngroups + 1)}
                groups[0] = (T('str', 'cross', (C(ln.no), C(0))), self.border(ln, ['S'], base, C('s')), u)
            else:
                groups = {}
                for g in k:
                    b, e = spans[g]
                    lo, hi = self.border(ln, sorted(b), base, C(('b', g))), self.border(ln, sorted(e), base, C(('e', g)))
                    txt = self.slice(string, lo, hi, s)
                    # the part itself when the borders are those of one named part
                    for n in sorted(b):
                        nm = n[:-2]
                        if n.endswith('.b') and nm + '.e' in e and nm in ln.texts:
                            txt = ln.texts[nm]
                            break
                    if txt is None:
                        txt = T('str', 'slice', (string, lo, hi))
                    groups[g] = (txt, lo, hi)
            yield s.alloc(DocMat(groups, dict(tab.nfa.names), string, pos, tab.nfa.ngroups)), s

    def match(self, eng, meth, p, args, kw, st, fr, node, out):
        x = args[0]
        pos = args[1] if len(args) > 1 else kw.get('pos', C(0))
        pat, flags = p.args[0].v, p.args[1].v
        if isinstance(x, T) and x.opt or len(args) > 2 or 'endpos' in kw:
            return None
        if len(p.args) > 2:
            return self.match_end(eng, meth, p, pat, flags, x, pos, st, fr, node, out)
        hit = self.line_of(x, pos)
        if hit is None or hit[0].form in ('OTHER', 'TERM'):
            cells = self.cells(x)
            if cells is not None and any(not isinstance(c[2], C) for c in cells):
                raise Unsupported('expression applied to a part of the document' if hit is None else
                                  'content of a multiline field read as a line')
            return None
        ln, base, begin, end = hit
        tab = line_table(pat if meth != 'fullmatch' else f'(?:{pat})\\Z', flags, begin)
        if isinstance(tab, str):
            eng.vague(f'expression not comparable: {tab}', node, fr)
            return None
        def gen():
            for m, s in self.results(eng, tab, ln.form, end, ln, x, base, pos, st):
                if m is not None:
                    yield m, s
                    continue
                if meth == 'search' and not pat.startswith('^'):
                    s2 = s.fork()
                    far = mklin(*linadd(lin(plus(pos, C(1))), lin(T('int', 'nat', (C(('away', ln.no)),)))))
                    g = {n: (T('str', 'away', (C(ln.no), C(n))), T('int', 'away', (C(ln.no), C(n), C(0))),
                             T('int', 'away', (C(ln.no), C(n), C(1)))) for n in range(1, tab.nfa.ngroups + 1)}
                    g[0] = (T('str', 'away', (C(ln.no),)), far, T('int', 'awayend', (C(ln.no),)))
                    yield s2.alloc(DocMat(g, dict(tab.nfa.names), x, pos, tab.nfa.ngroups)), s2
                    if at_end(pat, flags):
                        continue
                yield NONE, s
        return gen()

    def match_end(self, eng, meth, p, pat, flags, x, pos, st, fr, node, out):
        """search for the closing line of a multiline field"""
        used = [t for t in subterms(p.args[2]) if isinstance(t, T) and t.op == 'part']
        nos = {t.args[0].v for t in used}
        terms = p.args[2].args if p.args[2].op == 'concat' else (p.args[2],)
        raw = [t for t in terms if isinstance(t, T) and t.op == 'part' and t.args[2] != C('run')]
        if raw:
            eng.throw(out, st, 're.error', 'text of the document is used as an expression', node, fr)
            return iter(())
        if x != self.text or meth != 'search':
            return None
        owner = next((ln for ln in self.lines if ln.shape == 'ML' and
                      {ln.texts['mop'], ln.texts['mkey']} >= set(used)), None)
        if owner is None:
            return None
        # lines whose search position is at or behind `pos`
        first = next((ln.no for ln in self.lines if ln.no > 0 and
                      (self.lines[ln.no - 1].E == pos or ln.S == pos)), None)
        if first is None:
            if pos == self.lines[-1].E or pos == plus(self.length, C(1)):
                return iter([(NONE, st)])
            return None
        lead = self.lines[first - 1].E == pos
        def gen():
            s = st
            for ln in self.lines[first:]:
                if not ln.raw and ln.form != 'TERM' or ln.of not in (None, owner.no):
                    raise Unsupported('search reaches lines outside the block')
                tabs = [term_table(pat.replace(RUN, '-' * n), flags, n) for n in (2, 3)]
                for t in tabs:
                    if isinstance(t, str):
                        raise Unsupported(t)
                end = tdfa.EOF if ln.no == len(self.lines) - 1 else \
                    tdfa.NLLAST if ln.no == len(self.lines) - 2 and not self.lines[-1].pieces else tdfa.NL
                nxt = None
                form = 'OTHER' if ln.raw else 'TERM'
                for t in tabs:
                    if t is not tabs[0] and t.forms.get(form, {}).get(end, {}) and \
                            _sig(t.forms[form][end]) == _sig(tabs[0].forms[form][end]):
                        continue
                    for m, s2 in self.results(eng, t, form, end, ln, x, C(0), pos, s.fork()):
                        if m is None:
                            nxt = s2
                        else:
                            yield m, s2
                if nxt is None:
                    return
                s = nxt
                if ln.form == 'TERM':
                    break
            yield NONE, s
        return gen()


RUN = '\ue001'


def at_end(pat, flags):
    """the expression matches at the end of every text, so that searching never fails"""
    bare = re.sub(r'\[\^', '[', pat)
    return not any(x in bare for x in ('^', r'\A', r'\b', r'\B', '(?<')) and re.match(pat, '', flags) is not None


def _sig(v):
    return repr(sorted((repr(k), sorted((g, sorted(b), sorted(e)) for g, (b, e) in (sp or {}).items()))
                       for k, (sp, _w) in v.items()))


# ------------------------------------------------------------------ tables (cached)
_tables = {}


def line_table(pattern, flags, begin):
    k = (pattern, flags, begin)
    if k not in _tables:
        try:
            _tables[k] = tdfa.Table(pattern, flags, ref(), classify, begin=begin)
        except tdfa.TooComplex as e:
            _tables[k] = str(e)
    return _tables[k]


def term_table(pattern, flags, n):
    """tables for expressions that look for the closing line of a multiline field with n dashes"""
    k = ('term', pattern, flags, n)
    if k not in _tables:
        r = tdfa.Nfa(rf'{WS}(?P<mop>-{{{n}}})(?!-){WS}(?P<mkey>{tdfa.rx.PLACEHOLDER}){WS}(?=\n|$)')
        def cls(nfa, regs, threads=()):
            return 'OTHER' if regs is None else 'TERM'
        try:
            nfa = tdfa.Nfa(pattern, flags)
            try:
                _tables[k] = tdfa.Table(nfa, flags, r, cls, begin='line', lead=True)
            except tdfa.TooComplex:
                tree = tdfa.sre_parse.parse(pattern, flags)
                first = tree[0][0] if len(tree) else None
                if first is not tdfa.sc.AT or not tree.state.flags & tdfa.re.MULTILINE:
                    raise
                _tables[k] = tdfa.Table(nfa, flags, r, cls, begin='line')
        except tdfa.TooComplex as e:
            _tables[k] = str(e)
    return _tables[k]
