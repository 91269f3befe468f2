"""Properties of parsing: every abstract document of bounded size is read by the analysed parser and compared with the
reference reading."""
import ast
import itertools
import time
import os
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'specs')
from ..values import *
from ..state import *
from ..interp import Unsupported
from ..world import World
from .. import callgraph, lines, model
from ..model import Reading
from .common import cls_name, exc_names, same, crash_site, has_top

NAMES = {'elements', 'type', 'line', 'ranges', 'parent', 'key', 'value', 'continuations', 'items', 'entries',
         'comments', 'comment', 'spaced', 'template', 'lines', 'end', 'meta', 'line_count', 'document',
         'element_operator', 'escape_begin_operator', 'escape_end_operator', 'item_operator', 'entry_operator',
         'spaced_line_continuation_operator', 'direct_line_continuation_operator', 'section_operator', 'copy_operator',
         'deep_copy_operator', 'multiline_field_operator', 'comment_operator', 'deep_copy'}


def layout_names(w):
    """record names the parser never mentions: the layout of the records is another one than the comparison knows"""
    seen = set()
    for mod, tree in w.e.trees.items():
        if not mod.startswith('enolib') or mod.startswith('enolib.messages'):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                seen.add(n.value)
            elif isinstance(n, ast.JoinedStr):
                seen.update(v.value for v in n.values if isinstance(v, ast.Constant))
            elif isinstance(n, ast.Attribute):
                seen.add(n.attr)
            elif isinstance(n, ast.Name):
                seen.add(n.id)
            elif isinstance(n, ast.keyword) and n.arg:
                seen.add(n.arg)
    return {n for n in NAMES if n not in seen and not any(
        s and n.endswith(s) and len(s) > 6 for s in seen)}


def doc_world(ob, k=2, specs=()):
    w = World(k=k, max_steps=10 ** 9, specs=[(f'spec_{s}', os.path.join(SPEC, f'{s}.py')) for s in specs])
    ob.engine(w.e)
    w.e.while_cap = 400
    w.e.rec_limit = 40
    st = w.base
    w.loc = st.alloc(InstO(B('opaque:locale'), {}))
    w.rep = st.alloc(InstO(B('opaque:reporterclass'), {}))
    w.layout = layout_names(w)
    return w


def warm():
    """fill the table cache before the obligations are forked"""
    from ..report import Ob, Alarm
    import signal
    def late(*_):
        raise Alarm()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(90)
    try:
        w = doc_world(Ob('warm', 'quick'))
        for shapes in (['FIELD', 'FIELD'], ['ML', 'RAW', 'MLEND'], ['ML'], ['BAD'], ['OPEN']):
            try:
                run(w, shapes)
            except Exception:
                pass
    except Exception:
        pass
    finally:
        signal.alarm(0)


class Mismatch:
    __slots__ = ('facet', 'what', 'sure')

    def __init__(self, facet, what, sure=True):
        self.facet, self.what, self.sure = facet, what, sure


WEIRD = {'cross', 'away', 'border', 'beyond', 'awayend'}


class Compare:
    """compare one outcome of the analysed parser with the reading of the document"""

    def __init__(self, w, doc, reading, o):
        self.w, self.doc, self.rd, self.o, self.st = w, doc, reading, o, o.st
        self.out = []
        self.recs = {}                 # line -> address of its record

    def diff(self, facet, what, sure=True):
        self.out.append(Mismatch(facet, what, sure))

    def ditto(self, v):
        """the value is made of known pieces, so that it can be told apart from another"""
        if isinstance(v, C) or isinstance(v, E):
            return True
        if isinstance(v, Tup):
            return all(self.ditto(x) for x in v.items)
        if isinstance(v, T):
            if v.opt:
                return False
            if v.op == 'part' or v.op in WEIRD or v.op in ('msg', 'msgcall'):
                return True
            if v.op == 'concat':
                return all(self.ditto(x) for x in v.args)
            if v.op == 'lin':
                return all(t.op in WEIRD or t.op == 'nat' for t, _k in v.args[1] if isinstance(t, T))
            if v.op == 'nat':
                return True
        if isinstance(v, R):
            return True
        return False

    def eq(self, facet, what, got, want):
        if got is not None and same(self.w, self.st, got, want):
            return True
        self.diff(facet, f'{what} is {self.w.describe(self.st, got) if got is not None else "not set"}'
                  f' instead of {want!r}', got is None or self.ditto(got))
        return False

    def rec(self, v, what, facet):
        if isinstance(v, R) and isinstance(self.st.get(v.a), DictO):
            d = self.st.get(v.a)
            if d.opt or d.variants or d.rest is not None:
                self.diff(facet, f'{what} is not determined', False)
                return None
            return d
        self.diff(facet, f'{what} is no record', isinstance(v, (R, C, Tup)))
        return None

    def seq(self, v, what, facet):
        if v is None:
            return []
        if isinstance(v, R) and isinstance(self.st.get(v.a), ListO):
            items = self.st.get(v.a).items
            if all(isinstance(x, V) for x in items):
                return list(items)
            self.diff(facet, f'{what} is not determined', False)
            return None
        if isinstance(v, Tup):
            return list(v.items)
        self.diff(facet, f'{what} is no list', False)
        return None

    # ------------------------------------------------------------ records
    def ranges(self, d, n, what):
        r = d.keys.get(C('ranges'))
        rd = self.rec(r, f'ranges of {what}', 'pos')
        if rd is None:
            return
        for name, (lo, hi) in n.ranges.items():
            self.eq('pos', f'range {name} of {what}', rd.keys.get(C(name)), Tup((lo, hi)))
        for name in rd.keys:
            if isinstance(name, C) and name.v not in n.ranges and name.v in NAMES:
                self.diff('pos', f'{what} has a range {name.v} the line does not have')
        self.eq('pos', f'line number of {what}', d.keys.get(C('line')), C(n.line))

    def typ(self, d, n, what, facet='struct'):
        t = d.keys.get(C('type'))
        if isinstance(t, E):
            if t.name != n.type:
                self.diff(facet, f'{what} has type {t.name} instead of {n.type}')
        else:
            self.diff(facet, f'type of {what} is {t!r}', t is None)

    def opt(self, facet, d, name, want, what):
        got = d.keys.get(C(name))
        if want is None:
            if got is not None and got != NONE:
                self.diff(facet, f'{what} has a {name} {self.w.describe(self.st, got)}', self.ditto(got))
        else:
            self.eq(facet, f'{name} of {what}', got, want)

    def list_of(self, facet, d, name, nodes, what, fn):
        got = self.seq(d.keys.get(C(name)), f'{name} of {what}', facet)
        if got is None:
            return
        if len(got) != len(nodes):
            self.diff(facet, f'{what} has {len(got)} {name} instead of {len(nodes)}')
            return
        for g, n in zip(got, nodes):
            fn(g, n)

    def cont(self, v, n):
        what = f'continuation in line {n.line + 1}'
        d = self.rec(v, what, 'struct')
        if d is None:
            return
        self.recs[n.line] = v
        self.typ(d, n, what)
        self.ranges(d, n, what)
        self.opt('struct', d, 'value', n.value, what)
        sp = d.keys.get(C('spaced'))
        if (sp is not None and sp != FALSE and sp != NONE) != n.spaced:
            self.diff('struct', f'{what} is {"not " if n.spaced else ""}spaced')

    def comment(self, v, n):
        what = f'comment in line {n.line + 1}'
        d = self.rec(v, what, 'comment')
        if d is None:
            return
        self.recs[n.line] = v
        self.typ(d, n, what, 'comment')
        self.ranges(d, n, what)
        self.opt('comment', d, 'comment', n.value, what)

    def node(self, v, n, parent, facet):
        what = 'document' if n.type == 'DOCUMENT' else f'{n.type.lower()} in line {n.line + 1}'
        d = self.rec(v, what, facet)
        if d is None:
            return
        self.typ(d, n, what, 'block' if n.multi else facet)
        if n.type != 'DOCUMENT':
            self.recs[n.line] = v
            self.ranges(d, n, what)
            self.eq('parent', f'parent of {what}', d.keys.get(C('parent')), parent)
            if n.type != 'LIST_ITEM':
                self.eq('block' if n.multi else facet, f'key of {what}', d.keys.get(C('key')), n.key)
            if n.type != 'SECTION' and not n.multi:
                self.opt('struct', d, 'value', n.value, what)
            self.list_of('comment', d, 'comments', n.comments or [], what, self.comment)
            self.list_of('struct', d, 'continuations', n.conts, what, self.cont)
            if self.raw_copies:
                self.opt('struct', d, 'template', n.template, what)
                if n.type == 'SECTION' and bool(d.keys.get(C('deep_copy')) not in (None, FALSE, NONE)) != n.deep:
                    self.diff('struct', f'{what} is {"not " if n.deep else ""}a deep copy')
        if n.type in ('DOCUMENT', 'SECTION'):
            self.list_of('hier', d, 'elements', n.kids, what, lambda g, k: self.node(g, k, v, 'hier' if k.type == 'SECTION'
                                                                                  else 'struct'))
        for t, name in (('LIST', 'items'), ('FIELDSET', 'entries')):
            if n.type == t or C(name) in d.keys:
                self.list_of('struct', d, name, n.kids if n.type == t else [], what,
                             lambda g, k: self.node(g, k, v, 'struct'))
        if n.multi:
            self.list_of('block', d, 'lines', n.lines, what, self.line)
            e = self.rec(d.keys.get(C('end')), f'end of {what}', 'block')
            if e is not None:
                self.typ(e, n.end, f'end of {what}', 'block')
                self.ranges(e, n.end, f'end of {what}')
                self.recs[n.end.line] = d.keys.get(C('end'))

    def line(self, v, n):
        what = f'content line {n.line + 1}'
        d = self.rec(v, what, 'block')
        if d is not None:
            self.typ(d, n, what, 'block')
            self.ranges(d, n, what)
            self.recs[n.line] = v

    raw_copies = True

    def context(self, ctx):
        o = self.st.get(ctx.a)
        if not isinstance(o, InstO):
            return self.diff('struct', 'no context', False)
        self.node(o.attrs.get('document'), self.rd.root, None, 'struct')
        self.eq('pos', 'line count', o.attrs.get('line_count'), C(self.rd.line_count()))
        meta = self.seq(o.attrs.get('meta'), 'meta', 'comment')
        if meta is not None:
            want = {n.line: n for n in self.rd.meta}
            seen = set()
            for v in meta:
                d = self.rec(v, 'unattached comment', 'comment')
                if d is None:
                    return
                ln = d.keys.get(C('line'))
                t = d.keys.get(C('type'))
                if isinstance(t, E) and t.name == 'COMMENT':
                    if not isinstance(ln, C) or ln.v not in want or ln.v in seen:
                        self.diff('comment', f'comment in line {ln!r} is kept as unattached', isinstance(ln, C))
                        continue
                    seen.add(ln.v)
                    self.comment(v, want[ln.v])
            for m in set(want) - seen:
                self.diff('comment', f'comment in line {m + 1} is lost')

    # ------------------------------------------------------------ errors
    def message(self, v, kind, args):
        got = self.st.get(v.a).attrs.get('text')
        want = T('str', 'msgcall', (C(kind),) + tuple(args))
        if got is None or not same(self.w, self.st, got, want):
            if isinstance(got, T) and got.op == 'msgcall' and got.args[0] == C(kind) and len(got.args) == len(want.args) \
                    and all(same(self.w, self.st, x, y) for x, y in zip(got.args, want.args)):
                return
            name = got.args[0].v if isinstance(got, T) and got.op in ('msg', 'msgcall') else None
            if name != kind:
                self.diff('error', f'error is {name or got!r} instead of {kind}', name is not None)
            else:
                self.diff('error', f'error {kind} mentions {got.args[1:]!r} instead of {tuple(args)!r}',
                          self.ditto(Tup(got.args[1:])))

    def point(self, v, ln, index, what):
        d = self.rec(v, what, 'errpos')
        if d is None:
            return
        self.eq('errpos', f'line of {what}', d.keys.get(C('line')), C(ln.no))
        self.eq('errpos', f'index of {what}', d.keys.get(C('index')), index)
        self.eq('errpos', f'column of {what}', d.keys.get(C('column')), mklin(*linadd(lin(index), lin(ln.S), -1)))

    def select(self, sel, err, what='selection'):
        d = self.rec(sel, what, 'errpos')
        if d is None:
            return
        self.point(d.keys.get(C('from')), *err.begin, f'begin of {what}')
        self.point(d.keys.get(C('to')), *err.end, f'end of {what}')

    def reported(self, snippet, reports):
        """the lines handed to the reporter"""
        if not (isinstance(snippet, T) and snippet.op == 'snippet'):
            return self.diff('report', f'snippet is {snippet!r}', isinstance(snippet, (C, E)))
        got = []
        for c in snippet.args[0].items:
            m, args = c.items[0].v, c.items[1:]
            if len(args) != 1:
                return self.diff('report', f'reporter call {m} with {len(args)} arguments', False)
            d = self.rec(args[0], 'reported line', 'report')
            if d is None:
                return
            ln = d.keys.get(C('line'))
            if not isinstance(ln, C):
                return self.diff('report', 'reported line is unknown', False)
            got.append((m, ln.v))
            ok = self.rec(d.keys.get(C('ranges')), 'ranges of reported line', 'report')
            if ok is not None and ln.v < len(self.doc.lines):
                l = self.doc.lines[ln.v]
                self.eq('report', f'range of reported line {ln.v + 1}', ok.keys.get(C('line')), Tup((l.S, l.E)))
        if len(got) != len(reports) or sorted(got) != sorted(reports):
            self.diff('report', f'reports {got} instead of {reports}')

    def error(self, exc):
        err = self.rd.error
        o = self.st.get(exc.a)
        self.message(exc, err.kind, err.args)
        if any(m.facet == 'error' for m in self.out):
            return
        self.select(o.attrs.get('selection'), err)
        self.reported(o.attrs.get('snippet'), err.reports)


def show_doc(doc):
    return ' / '.join(doc.shapes)


def explore(w, doc, reading, o):
    """mismatches of one outcome"""
    c = Compare(w, doc, reading, o)
    st = o.st
    if o.kind == 'exc':
        names = exc_names(w, st, o.value)
        if 'ParseError' not in names:
            c.diff('crash', f'{names[0] if names else "?"} escapes ({w.describe(st, o.value)})')
        elif reading.error is None:
            t = st.get(o.value.a).attrs.get('text')
            c.diff('error', f'a proper document is rejected: {t!r}')
        else:
            c.error(o.value)
    elif reading.error is not None:
        c.diff('error', f'line {reading.error.begin[0].no + 1} is accepted, {reading.error.kind} is due')
    else:
        c.context(o.value)
    return c.out


def run(w, shapes, names=None):
    doc = lines.Doc(shapes, names)
    w.e.doc = doc
    st = w.state()
    doc.prepare(st)
    w.e.endless.clear()
    outs = w.new('enolib.context', 'Context', [doc.text], st, {'locale': w.loc, 'reporter': w.rep})
    return doc, outs


# ------------------------------------------------------------------ families of documents
BLOCKS = {'B0': ['ML', 'MLEND'], 'B1': ['ML', 'RAW', 'MLEND'], 'B2': ['ML', 'RAW0', 'MLEND'],
          'B3': ['ML', 'RAW', 'RAW0', 'RAWF', 'MLEND'], 'B4': ['ML', 'RAWM', 'MLEND'], 'U0': ['ML'], 'U1': ['ML', 'RAW'], 'U2': ['ML', 'RAWF', 'RAW0'],
          'U3': ['ML', 'RAWM']}
ALL = [s for s in lines.SHAPES if s not in lines.CONTENT and s not in ('MLEND', 'ML')]
FLOW = ['FIELD', 'FIELDV', 'FIELDEV', 'ITEMV', 'ITEM', 'ENTRYV', 'ENTRYE', 'SPCV', 'SPC', 'DIRV', 'DIR', 'COMV', 'SEC1',
        'SEC2', 'E0', 'BAD', 'OPEN', 'B1', 'U1', 'COPY']
FLOW4 = ['FIELD', 'FIELDV', 'ITEMV', 'ENTRY', 'SPCV', 'DIR', 'COM', 'SEC1', 'EW', 'B1', 'COPY']
NOTES = ['COM', 'COMV', 'E0', 'EW', 'FIELD', 'FIELDEV', 'ITEM', 'ENTRYV', 'SPCV', 'DIR', 'SEC1', 'B1', 'COPY']


def expand(units):
    out = []
    for u in units:
        out += BLOCKS.get(u, (u,))
    return out


def sequences(alphabet, k, lo=1):
    """unit sequences without anything behind an unterminated block"""
    for n in range(lo, k + 1):
        for c in itertools.product(alphabet, repeat=n):
            if any(u[0] == 'U' for u in c[:-1]):
                continue
            yield expand(c)


def sections(k, fields=()):
    """section openings of every depth, no more than one level too deep and only at the end"""
    def go(seq, depth, n):
        if seq:
            yield list(seq)
        if n == 0:
            return
        for d in (1, 2, 3, 4):
            s = seq + [f'SEC{d}']
            if d > depth + 1:
                yield s
                yield s + ['FIELD']
            else:
                yield from go(s, d, n - 1)
        for f in fields:
            if not seq or not seq[-1].startswith('FIELD'):
                yield from go(seq + [f], depth, n - 1)
    return go([], 0, k)


def wanted(shapes):
    """no lines behind the line after the first error"""
    return True


def shards(n, gen):
    """split a deterministic generator of documents"""
    return [(i, (lambda i=i: itertools.islice(gen(), i, None, n))) for i in range(n)]


def skip_resolver(w):
    w.e.call_hooks['enolib.resolver:Resolver.resolve'] = lambda e, f, a, k, st, fr, n, out: iter([(NONE, st)])


WHERE = 'enolib/analyzer.py Analyzer.analyze'


def check_docs(ob, w, docs, facets, names=None, cap=25, prune=True, where=WHERE, judge=None):
    seen = {}
    unsure = {}
    for shapes in docs:
        doc = lines.Doc(shapes, names)
        rd = Reading(doc)
        if prune and rd.error is not None and rd.error.unparsed < len(shapes) - 2 and \
                rd.error.kind != 'unterminated_multiline_field':
            continue
        ob.count('documents')
        try:
            w.e.cuts.clear()
            _d, outs = run(w, shapes, names)
        except Unsupported as e:
            ob.unsure(f'not modelled: {e}')
            continue
        ob.count('paths', len(outs))
        doc = _d
        rd = Reading(doc)
        if w.e.endless:
            if 'endless' in facets:
                ob.violation('endless', f'{WHERE}: loop at {sorted(w.e.endless)[0]}',
                             f'reading does not end on a document of the form {show_doc(doc)}')
            continue
        if not outs:
            ob.unsure('no path reaches the end')
            continue
        for o in outs:
            for m in explore(w, doc, rd, o):
                if m.facet not in facets:
                    continue
                if not m.sure or o.st.taint or w.layout:
                    ob.unsure(f'{m.facet}: {m.what[:160]}' + (' (tainted)' if o.st.taint else ''))
                    continue
                site = crash_site(o.st, o.value) if m.facet == 'crash' else where
                what = ''.join(ch for ch in m.what.split(' instead of ')[0][:90] if not ch.isdigit())
                k = (m.facet, what)
                seen.setdefault(k, 0)
                seen[k] += 1
                if seen[k] <= 1 and len(seen) <= cap:
                    ob.violation(m.facet, f'{site}: {what}', f'document {show_doc(doc)}: {m.what[:400]}',
                                 document=show_doc(doc), outcome=str(o.kind))
        if len(seen) >= cap:
            return
    if w.layout:
        ob.unsure(f'record layout changed: {sorted(w.layout)}')


def parse_ob(gen, facets, resolver=False):
    def run_ob(ob):
        w = doc_world(ob)
        if not resolver:
            skip_resolver(w)
        check_docs(ob, w, gen(), facets)
    return run_ob


warmed = []


def family(label, gen, facets, n):
    if not warmed:
        warmed.append(True)
        warm()
    return [(f'{label} {i + 1}/{n}', parse_ob(g, facets)) for i, g in shards(n, gen)]


def depth(tier, q, t):
    return q if tier == 'quick' else t


def pairs():
    return sequences(ALL + list(BLOCKS), 2)


FEW = [['FIELD', 'ITEMV', 'SPCV', 'E0'], ['FIELDV', 'ENTRYV', 'DIR', 'COM'], ['SEC1', 'SEC2', 'FIELD', 'ITEMV'],
       ['FIELD', 'B1', 'SPC', 'SEC1'], ['COPY', 'ITEM', 'SPCV', 'SEC1']]
FEW_NOTES = [['FIELD', 'COMV', 'SPCV', 'E0'], ['ITEMV', 'COM', 'DIR', 'FIELDEV'], ['SEC1', 'COMV', 'FIELD', 'E0'],
             ['ENTRYV', 'COMV', 'SPC', 'FIELD'], ['COPY', 'COMV', 'ITEMV', 'B1']]


def long_few(alphabets, lo, hi):
    """longer documents over few kinds of lines, which differ in what they begin with"""
    def docs():
        for a in alphabets:
            for seq in sequences(a, hi, lo):
                yield seq
    return docs


def line_obs(tier):
    """single lines in every neighbourhood that matters for matching: alone, last, followed by a line, an empty line"""
    def docs():
        for s in ALL + ['U0', 'B1', 'B0']:
            for pre in ([], ['E0'], ['FIELD'], ['SEC1']):
                for post in ([], ['E0'], ['FIELDV'], ['EW']):
                    if s[0] == 'U' and post:
                        continue
                    yield expand(pre + [s] + post)
    return family('lines in context', docs, {'struct', 'hier', 'block', 'comment', 'crash', 'error', 'errpos', 'pos'}, 8)


def position_obs(tier):
    f = {'pos', 'errpos'}
    return family('pairs of lines', pairs, f, 8) + \
        family('longer documents', lambda: sequences(FLOW, depth(tier, 3, 4), 3), f, depth(tier, 16, 64))


def element_obs(tier):
    f = {'struct', 'error', 'crash'}
    return family('pairs of lines', pairs, f, 8) + \
        family('line sequences', lambda: sequences(FLOW4, depth(tier, 4, 5), 3), f, depth(tier, 24, 96)) + \
        family('longer, few kinds of lines', long_few(FEW, 5, depth(tier, 6, 7)), f, depth(tier, 16, 48))


def section_obs(tier):
    f = {'hier', 'parent', 'error', 'crash'}
    return family('section openings', lambda: sections(depth(tier, 6, 8)), f, 8) + \
        family('sections with fields', lambda: sections(depth(tier, 5, 7), ('FIELD', 'FIELDEV')), f, 16)


def parent_doc_obs(tier):
    return family('pairs of lines', pairs, {'parent'}, 8) + \
        family('line sequences', lambda: sequences(FLOW, depth(tier, 3, 4), 3), {'parent'}, depth(tier, 16, 64))


def comment_doc_obs(tier):
    f = {'comment', 'error', 'crash'}
    return family('comment placement', lambda: sequences(NOTES, depth(tier, 4, 5)), f, depth(tier, 24, 96)) + \
        family('longer, few kinds of lines', long_few(FEW_NOTES, 5, depth(tier, 6, 7)), f, depth(tier, 16, 48))


def misplaced_obs(tier):
    f = {'error', 'errpos', 'report', 'crash'}
    return family('pairs of lines', pairs, f, 8) + \
        family('line sequences', lambda: sequences(FLOW, depth(tier, 3, 4), 3), f, depth(tier, 16, 64)) + \
        family('section openings', lambda: sections(depth(tier, 4, 6), ('FIELD',)), f, 8)


def block_docs(n):
    def docs():
        for k in range(n + 1):
            for body in itertools.product(('RAW', 'RAW0', 'RAWF', 'RAWM', 'RAWI') if k < 3 else ('RAW', 'RAW0', 'RAWF'), repeat=k):
                for pre in ([], ['E0'], ['COM'], ['SEC1'], ['FIELD', 'ITEM']):
                    for post in ([], ['E0'], ['FIELD'], ['ITEM'], ['SPC'], ['ENTRY'], ['ML', 'RAW', 'MLEND'], None):
                        yield pre + ['ML'] + list(body) + (['MLEND'] + post if post is not None else [])
    return docs


def block_obs(tier):
    f = {'block', 'error', 'errpos', 'report', 'crash', 'struct', 'pos'}
    return family('multiline blocks', block_docs(depth(tier, 4, 6)), f, 16)


def total_obs(tier):
    f = {'crash', 'endless'}
    return family('pairs of lines', pairs, f, 8) + \
        family('line sequences', lambda: sequences(FLOW, depth(tier, 3, 4), 3), f, depth(tier, 16, 64)) + \
        family('multiline blocks', block_docs(depth(tier, 3, 6)), f, 8) + [('call depth', call_depth)]


# functions known to recurse with the text; a cycle is named after one of them if it contains one
RECURSIVE = [('resolver.py', ('Resolver', 'index')), ('resolver.py', ('Resolver', 'resolve_non_section_element')),
             ('resolver.py', ('Resolver', 'resolve_section')), ('resolver.py', ('Resolver', 'consolidate_sections')),
             ('reporters/reporter.py', ('Reporter', '_build_index', 'traverse')),
             ('reporters/reporter.py', ('Reporter', '_tag_section'))]


def call_depth(ob):
    g = callgraph.Graph(['analyzer.py', 'resolver.py', 'errors/parsing.py', 'reporters/reporter.py',
                         'reporters/text_reporter.py', 'reporters/html_reporter.py', 'reporters/terminal_reporter.py'])
    ob.count('functions in the call graph', len(g.funcs))
    ob.count('calls', g.calls)
    cycles = g.cycles()
    for comp in cycles:
        f = next((x for _f, x in RECURSIVE if x in comp), None)
        files = {g.funcs[x][0] for x in comp}
        if f is None and any(y not in g.funcs or not any(y in c for c in cycles) for x, y in RECURSIVE if x in files):
            ob.unsure(f'recursion in {sorted(files)}: a function known to recurse has gone')
            continue
        f = f or min(comp)
        ob.violation('recursion', callgraph.name(g, f), 'this function calls itself ' +
                     ('' if len(comp) == 1 else 'through ' + ', '.join(sorted('.'.join(x) for x in comp - {f})) + ' ') +
                     'while a text is read or rejected: the call depth grows with the text and ends in RecursionError')
