"""Lookup: for every line and every kind of index of every abstract document, the element, and the part of its line."""
from ..values import *
from ..state import *
from ..interp import Unsupported
from .. import lines
from ..model import Reading
from .common import cls_name, exc_names, crash_site, has_top, record_of, context_of, is_error
from . import doc as pd


# ------------------------------------------------------------------ reference
def in_continued(n, line):
    for c in n.conts:
        if c.line == line:
            return n, c
    return n, None


def locate(root, line):
    """(element, record) at a line: the element the line belongs to and the record of the line itself, if any"""
    sec = root
    while True:
        kid = None
        for k in sec.kids:
            if k.line <= line:
                kid = k
        if kid is None:
            return sec, None
        if kid.line == line:
            return kid, kid
        if kid.type == 'SECTION':
            sec = kid
            continue
        if line > kid.last().line:
            return sec, None
        if kid.multi:
            if kid.end.line == line:
                return kid, kid.end
            return kid, next(l for l in kid.lines if l.line == line)
        if kid.conts:
            return in_continued(kid, line)
        part = None
        for k in kid.kids:
            if k.line <= line:
                part = k
        if part is None:
            return kid, None
        if part.line == line:
            return part, part
        if line > part.last().line:
            return kid, None
        return in_continued(part, line)


def cases(st, tests):
    """states in which every comparison of the list is decided: [(state, [bool])]"""
    res = [(st, [])]
    for op, a, b in tests:
        nxt = []
        for s, bs in res:
            if s.proves(op, a, b):
                nxt.append((s, bs + [True]))
            elif s.proves({'>=': '<', '<=': '>'}[op], a, b):
                nxt.append((s, bs + [False]))
            else:
                for o, v in ((op, True), ({'>=': '<', '<=': '>'}[op], False)):
                    s2 = s.fork()
                    if s2.assume(o, a, b) is not False:
                        nxt.append((s2, bs + [v]))
        res = nxt
    return res


def parts_at(st, ranges, idx):
    """the name of the part an index belongs to, per case: the part that begins there, else the one it is in or behind"""
    names = list(ranges)
    tests = [t for n in names for t in (('>=', idx, ranges[n][0]), ('<=', idx, ranges[n][1]))]
    for s, bs in cases(st, tests):
        hit = [n for i, n in enumerate(names) if bs[2 * i] and bs[2 * i + 1]]
        begin = [n for n in hit if s.inteq(idx, ranges[n][0])]
        yield (begin or hit or [None])[-1] if len(begin) < 2 else None, s


# ------------------------------------------------------------------ running
class Look:
    def __init__(self, ob, facets=('found', 'crash', 'bounds')):
        self.ob = ob
        self.w = pd.doc_world(ob)
        self.facets = facets
        self.fn = self.w.mod('enolib.lookup', 'lookup')
        if self.fn is None:
            raise Unsupported('anchor vanished: enolib.lookup.lookup')
        self.seen = {}

    def note(self, tag, what, detail, sure, st, where='enolib/lookup.py lookup'):
        if tag not in self.facets:
            return
        if not sure or st.taint or self.w.layout:
            self.ob.unsure(f'{tag}: {what[:150]}' + (' (tainted)' if st.taint else ''))
            return
        key = (tag, ''.join(c for c in what.split(' instead of ')[0] if not c.isdigit())[:80])
        self.seen[key] = self.seen.get(key, 0) + 1
        if self.seen[key] == 1:
            self.ob.violation(tag, f'{where}: {key[1]}', detail[:500])

    def call(self, doc, kw):
        w = self.w
        w.e.doc = doc
        st = w.state()
        doc.prepare(st)
        w.e.endless.clear()
        self.ob.count('lookups')
        return w.call(self.fn, [doc.text], st, dict(kw, locale=w.loc, reporter=w.rep))

    def positions(self, doc, names):
        """(document, line, index) for every border of every line and for a position inside of every part"""
        for i, ln in enumerate(doc.lines):
            pos, seen = ln.S, set()
            for j, (_name, t, n) in enumerate(ln.pieces):
                if pos not in seen:
                    seen.add(pos)
                    yield doc, ln, pos
                if t in doc.lens:
                    d = lines.Doc(doc.shapes, names, (i, j))
                    if d.wide is not None:
                        yield d, d.lines[i], d.wide
                pos = lines.plus(pos, n)
            if pos not in seen:
                yield doc, ln, pos

    def judge(self, doc, o, line, idx, what):
        w = self.w
        rd = Reading(doc)
        st = o.st
        if o.kind == 'exc':
            names = exc_names(w, st, o.value)
            if (rd.error is not None or rd.copies) and 'ParseError' in names:
                return
            self.note('crash', f'{names[:1]} escapes', f'{names[:1]} for {what}', True, st, crash_site(st, o.value))
            return
        if rd.error is not None:
            self.note('found', 'lookup in a malformed document succeeds', what, True, st)
            return
        d = st.get(o.value.a) if isinstance(o.value, R) else None
        if not isinstance(d, DictO) or d.opt or d.variants:
            return self.note('found', 'result is no record', what, isinstance(o.value, C), st)
        el, rng = d.keys.get(C('element')), d.keys.get(C('range'))
        ctx = context_of(w, st, el) if isinstance(el, R) and isinstance(st.get(el.a), InstO) else None
        if ctx is None:
            return self.note('found', 'no element is returned', what, el is None or isinstance(el, C), st)
        cmp = pd.Compare(w, doc, rd, pd_outcome(ctx, st))
        cmp.context(ctx)
        recs = dict(cmp.recs)
        recs[None] = st.get(ctx.a).attrs.get('document')
        n, rec = locate(rd.root, line)
        inst = [x for x in st.get(el.a).attrs.values() if isinstance(x, R) and isinstance(st.get(x.a), DictO)]
        if recs.get(n.line) is None or len(inst) != 1:
            return self.note('found', 'element has no known record', what, False, st)
        if inst[0] != recs[n.line]:
            back = {v: k for k, v in recs.items()}
            got = back.get(inst[0], 'other')
            self.note('found', f'{"document" if got is None else "element" if isinstance(got, int) else got} found instead of '
                      f'{n.type}', f'{what}: the element in line {got if not isinstance(got, int) else got + 1} is found '
                      f'instead of the one in line {n.line if n.line is None else n.line + 1}', True, st)
            return
        attached = False
        if rec is None:
            rec = next((m for m in rd.meta if m.line == line), None)
            if rec is None and line in rd.nodes:
                attached = True
        if idx is None:
            idx = doc.lines[line].S
        ranges = {k: v for k, v in rec.ranges.items() if k != 'line'} if rec is not None else {}
        if not isinstance(rng, C):
            return self.note('found', f'range is {rng!r}', what, False, st)
        for want, s in parts_at(st, ranges, idx):
            self.ob.count('cases')
            if attached and rng == NONE:
                continue
            if attached:
                return self.note('found', 'range of an attached comment', what, False, s)
            if rng.v != want:
                self.note('found', f'range {rng.v} instead of {want}', f'{what}: range {rng.v} instead of {want}', True, s)
                return

    def outside(self, doc):
        n = len(doc.lines)
        u = T('int', 'nat', (T('int', 'free', (C('far'),)),))
        last = lines.plus(doc.length, C(1))
        for kw in ({'line': C(n)}, {'line': C(n + 3)}, {'line': C(-1)}, {'line': C(-2), 'column': C(0)},
                   {'index': C(-1)}, {'index': last}, {'index': lines.plus(last, u)}):
            rd = Reading(doc)
            what = f'lookup{tuple(kw.items())} in {pd.show_doc(doc)}'
            for o in self.call(doc, kw):
                names = exc_names(self.w, o.st, o.value) if o.kind == 'exc' else []
                if o.kind != 'exc':
                    self.note('bounds', f'{list(kw)[0]} outside the document is accepted', what, True, o.st)
                elif (rd.error is not None or rd.copies) and 'ParseError' in names:
                    continue
                elif 'IndexError' not in names:
                    self.note('bounds', f'{names[:1]} escapes', f'{what}: {names[:1]} instead of IndexError', True, o.st,
                              crash_site(o.st, o.value))

    def document(self, shapes, names=None, index=True, columns=True):
        doc = lines.Doc(shapes, names)
        self.ob.count('documents')
        show = pd.show_doc(doc)
        try:
            self.outside(doc)
            for ln in doc.lines:
                kw = {'line': C(ln.no)}
                for o in self.call(doc, kw):
                    self.judge(doc, o, ln.no, None, f'line {ln.no} of {show}')
            if not index:
                return
            for doc, ln, idx in self.positions(doc, names):
                for o in self.call(doc, {'index': idx}):
                    self.judge(doc, o, ln.no, idx, f'index {idx!r} of {show}')
                if not columns:
                    continue
                col = mklin(*linadd(lin(idx), lin(ln.S), -1))
                for o in self.call(doc, {'line': C(ln.no), 'column': col}):
                    self.judge(doc, o, ln.no, idx, f'line {ln.no} column {col!r} of {show}')
        except Unsupported as e:
            self.ob.unsure(f'not modelled: {e}')


    @staticmethod
    def found(o):
        d = o.st.get(o.value.a) if isinstance(o.value, R) else None
        el = d.keys.get(C('element')) if isinstance(d, DictO) else None
        return el if isinstance(el, R) else None

    def options(self):
        """the locale and the reporter handed to lookup speak for the element found, and for a malformed document"""
        w = self.w
        for shapes, line in ((['FIELDV', 'FIELD'], 1), (['SEC1', 'FIELD', 'ITEMV'], 2), (['BAD'], 0)):
            doc = lines.Doc(shapes)
            for kw in ({'line': C(line)}, {'index': doc.lines[line].S}):
                for o in self.call(doc, kw):
                    found = None if o.kind == 'exc' else self.found(o)
                    if o.kind != 'exc' and found is None:
                        self.note('found', 'no element', '', False, o.st)
                        continue
                    outs = [o] if o.kind == 'exc' else w.method(found, 'key_error', [C('reason')], o.st)
                    for r in outs:
                        if r.kind == 'exc' and 'ParseError' not in exc_names(w, r.st, r.value):
                            continue
                        x = r.st.get(r.value.a).attrs if isinstance(r.value, R) else {}
                        for part, op in (('text', ('msg', 'msgcall')), ('snippet', ('snippet',))):
                            v = x.get(part)
                            self.ob.count('cases')
                            if v is None or isinstance(v, T) and v.op == 'top':
                                self.note('found', f'{part} of the error unknown', '', False, r.st)
                            elif not (isinstance(v, T) and v.op in op):
                                self.note('found', f'{part} of errors not made by the given option',
                                          f'lookup{tuple(kw.items())} in {pd.show_doc(doc)}: the {part} of the error is {v!r}, '
                                          'not what the given locale or reporter makes', not has_top(v), r.st)


class pd_outcome:
    def __init__(self, value, st):
        self.kind, self.value, self.st = 'ret', value, st


def single_docs():
    for s in pd.ALL:
        pre = ['FIELD'] if s[:4] in ('ITEM', 'ENTR') else ['FIELDV'] if s[:3] in ('SPC', 'DIR') else \
            ['SEC1', 'SEC2', 'SEC3', 'SEC4'][:max(0, int(next((c for c in s if c.isdigit()), '1')) - 1)] if s.startswith('SEC') else []
        yield pre + [s]
        if s[:3] not in ('SPC', 'DIR'):
            yield pre + [s, 'E0']
    for s in lines.CONTENT:
        yield ['ML', s, 'MLEND']
    yield ['ML', 'MLEND']
    yield ['FIELDEV', 'BAD']


def obs(tier):
    if not pd.warmed:
        pd.warmed.append(True)
        pd.warm()

    def job(gen, index, columns):
        def run(ob):
            l = Look(ob)
            for s in gen():
                if isinstance(s, tuple):
                    l.document(s[0], s[1], index, columns)
                else:
                    l.document(s, None, index, columns)
            if l.w.layout:
                ob.unsure(f'record layout changed: {sorted(l.w.layout)}')
        return run

    from .report import BODIES, PRE, POST, copied_docs
    k = pd.depth(tier, 3, 4)
    out = [('options', lambda ob: Look(ob).options())]
    seqs = lambda: (s for s in pd.sequences(['FIELD', 'FIELDV', 'ITEM', 'ENTRYV', 'SPC', 'COM', 'SEC1', 'SEC2', 'E0', 'B1'], k)
                    if Reading(lines.Doc(s)).error is None)
    bodies = lambda: (p + b + q for b in BODIES for p, q in (([], ['E0']), (['FIELDV', 'E0'], ['E0', 'COM', 'SEC1', 'FIELD'])))
    for label, gen, n, index in (('single lines', single_docs, 8, True), ('structures', bodies, 8, True),
                                 ('line sequences', seqs, pd.depth(tier, 16, 64), True),
                                 ('copies', lambda: copied_docs(2), 8, True)):
        for i, g in pd.shards(n, gen):
            out.append((f'{label} {i + 1}/{n}', job(g, index, label == 'single lines')))
    return out
