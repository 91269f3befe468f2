"""Error reports: what the real reporters render for every line they are asked to report, on every abstract document."""
import itertools
import html
import re
from ..values import *
from ..state import *
from ..interp import Unsupported
from .. import lines
from ..model import Reading
from .common import exc_names, crash_site, has_top, is_error
from . import doc as pd

EMPH, IND, QUEST, SHOWN = '>', '*', '?', ' '
REPORTERS = {'text': ('enolib.reporters.text_reporter', 'TextReporter'),
             'html': ('enolib.reporters.html_reporter', 'HtmlReporter'),
             'terminal': ('enolib.reporters.terminal_reporter', 'TerminalReporter')}
SOURCE = T('str', 'source', ())
CLASSES = {EMPH: 'emphasi', IND: 'indicat', QUEST: 'question'}


# ------------------------------------------------------------------ reference: which lines carry which mark
def span(n):
    last = n.last()
    return range(n.line + 1, (last.line if last is not None else n.line) + 1)


def marks(root, nodes, calls, count):
    """line -> mark after the reporter calls [(method, argument)]; arguments are lines, lists of lines or None (document)"""
    out = {}

    def put(ls, m):
        for l in ls:
            out[l] = m

    for meth, arg in calls:
        n = nodes.get(arg) if not isinstance(arg, (list, type(None))) else None
        if meth == 'report_line':
            put([arg], EMPH)
        elif meth == 'indicate_line':
            put([arg], IND)
        elif meth == 'question_line':
            put([arg], QUEST)
        elif meth in ('report_element', 'report_elements'):
            for a in (arg if isinstance(arg, list) else [arg]):
                put([a], EMPH)
                if nodes.get(a) is not None and not (nodes[a].multi and nodes[a].end is None):
                    put(span(nodes[a]), IND)
        elif meth == 'report_comments':
            put([arg], IND)
            put([c.line for c in n.comments or ()], EMPH)
        elif meth == 'report_multiline_value':
            put([l.line for l in n.lines], EMPH)
        elif meth == 'report_missing_element':
            if arg is None:
                continue
            put([arg], IND)
            if n.type != 'SECTION':
                put(span(n), QUEST)
                continue
            at = arg + 1
            for k in n.kids:
                put(range(at, k.line), IND)
                if k.type == 'SECTION':
                    break
                put([k.line], IND)
                put(span(k), QUEST)
                at = k.last().line + 1
        else:
            raise Unsupported(f'reporter method {meth}')
    return out


def rows(tags, count):
    """the rows of a report: (line, mark), or None for lines left out"""
    if not tags:
        return [(l, QUEST) for l in range(count)]
    shown = sorted({l for t in tags for l in range(t - 2, t + 3) if 0 <= l < count})
    out = []
    before = -1
    for l in shown:
        if l != before + 1:
            out.append(None)
        out.append((l, tags.get(l, SHOWN)))
        before = l
    if before != count - 1:
        out.append(None)
    return out


# ------------------------------------------------------------------ what is rendered, as text with place holders
class Screen:
    def __init__(self):
        self.terms = []
        self.plain = []                # terms shown without being escaped

    def hole(self, t):
        if t not in self.terms:
            self.terms.append(t)
        return chr(0xE000 + self.terms.index(t))

    def show(self, v, escaped=False):
        """text of a value, or None when it is not made of known pieces"""
        if isinstance(v, C):
            s = v.v if isinstance(v.v, str) else None
            return html.escape(s, False) if escaped and s is not None else s
        if isinstance(v, T) and v.op == 'concat':
            parts = [self.show(p, escaped) for p in v.args]
            return None if any(p is None for p in parts) else ''.join(parts)
        if isinstance(v, T) and v.op == 'escape':
            return self.show(v.args[0], True)
        if isinstance(v, T) and (v.op == 'part' or v == SOURCE):
            if not escaped and v not in self.plain and not (v.op == 'part' and v.args[2] in (C('ws'), C('run'), C('as'))):
                self.plain.append(v)
            return self.hole(v)
        return None

    def line(self, ln):
        return ''.join(t.v if isinstance(t, C) else self.hole(t) for _n, t, _l in ln.pieces)


def same_line(ln, got, want, unescape):
    if unescape:
        got = html.unescape(got)
    return got == want or (ln.form == 'EMPTY' and got == '')


class Judge:
    def __init__(self, kind, w, doc, count):
        self.kind, self.w, self.doc, self.count = kind, w, doc, count

    def labels(self):
        m = self.w.e.mods.get('enolib.messages.en')
        v = self.w.base.get(m).vars if m is not None else {}
        return [x.v for x in (v.get('gutter_header'), v.get('content_header')) if isinstance(x, C)]

    def judge(self, v, want, source, st):
        """list of (what, sure)"""
        sc = Screen()
        txt = sc.show(v)
        if txt is None:
            return [(f'report is {self.w.describe(st, v)[:120]}', isinstance(v, C))]
        blank_source = source == SOURCE and st.truth.get(SOURCE) is False
        out = []
        if self.kind == 'html':
            if sc.plain:
                out.append((f'escaping: {sc.plain[0]!r} is shown without being escaped', True))
        if self.kind == 'terminal':
            txt = re.sub('\x1b\\[[0-9;]*m', '', txt)
        if source == SOURCE and not blank_source and sc.hole(SOURCE) not in txt:
            out.append(('the source is not named', True))
        labels = self.labels() if self.kind != 'terminal' else []
        for l in labels:
            if l not in txt:
                out.append((f'label {l} is missing', True))
        got, junk = self.split(txt, labels)
        if got is None:
            return out + [(f'layout: {junk!r}', False)]
        shown = []
        for i in range(max(len(got), len(want))):
            g = got[i] if i < len(got) else 'nothing'
            x = want[i] if i < len(want) else 'nothing'
            if x == 'nothing':
                out.append((f'row {self.name(g)} is shown too', True))
                break
            if g == 'nothing':
                out.append((f'row {self.name(x)} is missing', True))
                break
            if (g is None) != (x is None):
                out.append((f'row is {self.name(g)} instead of {self.name(x)}', True))
                break
            if g is None:
                continue
            if g[0] != x[0]:
                out.append((f'row shows line {g[0] + 1} instead of {x[0] + 1}', True))
                break
            if g[1] != x[1]:
                out.append((f'line {x[0] + 1} is marked {g[1]!r} instead of {x[1]!r}', True))
            ln = self.doc.lines[x[0]]
            if not same_line(ln, g[2], sc.line(ln), self.kind == 'html'):
                out.append((f'line {x[0] + 1} ({ln.form}) does not show the text of the line: {g[2]!r} for {sc.line(ln)!r}',
                            True))
        return out

    def name(self, r):
        return '...' if r is None else f'{r[1]}{r[0] + 1}' if isinstance(r, tuple) else r

    def split(self, txt, labels):
        got = []
        if self.kind == 'html':
            pat = re.compile(r'<div class="eno-report-line ?([\w-]*)"><div class="eno-report-gutter">\s*(\S+)</div>'
                             r'<div class="eno-report-content">(.*?)</div></div>')
            first = True
            for cls, num, content in pat.findall(txt):
                if first and labels and num == labels[0]:
                    first = False
                    continue
                first = False
                if num == '...':
                    got.append(None)
                elif num.isdigit():
                    ms = [m for m, c in CLASSES.items() if c in cls] or [SHOWN]
                    got.append((int(num) - 1, ms[0], content))
                else:
                    return None, num
            rest = pat.sub('', txt)
            if re.search(r'\d', rest):
                return None, rest
            return got, None
        body = txt.split('\n')
        if self.kind == 'text':
            i = next((n for n, l in enumerate(body) if all(x in l for x in labels)), None)
            if i is None:
                return None, txt[:60]
            body = body[i + 1:]
            pat = re.compile(r'^ ([ >*?]) *(\d+) \| (.*)$', re.S)
        else:
            if body and body[0].startswith(' > ') and not re.match(r' > +\d', body[0]):
                body = body[1:]
            pat = re.compile(r'^ ([ >*?]) +(\d+)  (.*)$', re.S)
        for l in body:
            m = pat.match(l)
            if m:
                got.append((int(m.group(2)) - 1, m.group(1), m.group(3)))
            elif l.strip() == '...':
                got.append(None)
            else:
                return None, l
        return got, None


# ------------------------------------------------------------------ running
def report_world(ob, kind, copies=False):
    w = pd.doc_world(ob)
    mod, cls = REPORTERS[kind]
    w.rep = w.mod(mod, cls)
    if w.rep is None:
        raise Unsupported(f'anchor vanished: {mod}.{cls}')
    if not copies:
        pd.skip_resolver(w)
    return w


def context(w, shapes, source=NONE, names=None):
    doc = lines.Doc(shapes, names)
    w.e.doc = doc
    st = w.state()
    doc.prepare(st)
    if source == SOURCE:
        st = st.fork()
    w.e.endless.clear()
    return doc, w.new('enolib.context', 'Context', [doc.text], st, {'reporter': w.rep, 'source': source})


class Run:
    def __init__(self, ob, kind, facets, copies=False):
        self.ob, self.kind, self.facets = ob, kind, facets
        self.w = report_world(ob, kind, copies)
        self.copies = copies
        self.seen = {}
        self.cls = REPORTERS[kind][1]

    def note(self, tag, what, detail, sure, st, where):
        if tag not in self.facets:
            return
        if not sure or st.taint or self.w.layout:
            self.ob.unsure(f'{tag}: {what[:150]}' + (' (tainted)' if st.taint else ''))
            return
        key = (tag, ''.join(c for c in what.split(' instead of ')[0].split(': ')[0] if not c.isdigit())[:80])
        self.seen[key] = self.seen.get(key, 0) + 1
        if self.seen[key] == 1:
            self.ob.violation(tag, f'{where}: {key[1]}', detail[:500])

    def check(self, doc, v, st, want, source, what, where):
        for msg, sure in Judge(self.kind, self.w, doc, len(doc.lines)).judge(v, want, source, st):
            tag = 'escape' if msg.startswith('escaping') else 'rows'
            self.note(tag, msg, f'{self.cls}, {what}, document {pd.show_doc(doc)}: {msg}', sure, st, where)

    def errors(self, docs, source=NONE):
        """the snippet of the parse error of every erroneous document"""
        for shapes in docs:
            rd = Reading(lines.Doc(shapes))
            if rd.error is None:
                continue
            try:
                doc, outs = context(self.w, shapes, source)
            except Unsupported as e:
                self.ob.unsure(f'not modelled: {e}')
                continue
            self.ob.count('documents')
            rd = Reading(doc)
            tags = marks(rd.root, rd.nodes, rd.error.reports, len(doc.lines))
            want = rows(tags, len(doc.lines))
            for o in outs:
                self.ob.count('reports')
                if o.kind != 'exc':
                    continue
                if not is_error(self.w, o.st, o.value, 'ParseError'):
                    n = exc_names(self.w, o.st, o.value)[:1]
                    self.note('crash', f'{n} escapes', f'{n} while reporting {pd.show_doc(doc)}', True, o.st,
                              crash_site(o.st, o.value))
                    continue
                v = o.st.get(o.value.a).attrs.get('snippet')
                if v is None:
                    self.note('rows', 'error has no snippet', '', False, o.st, self.cls)
                    continue
                self.check(doc, v, o.st, want, source, rd.error.kind, f'enolib/reporters {self.cls}')

    def direct(self, docs, methods=None, source=NONE):
        """every report method on every record of every proper document"""
        w = self.w
        for shapes in docs:
            shapes, names = shapes if self.copies else (shapes, None)
            if Reading(lines.Doc(shapes)).error is not None:
                continue
            try:
                doc, outs = context(w, shapes, source, names)
            except Unsupported as e:
                self.ob.unsure(f'not modelled: {e}')
                continue
            self.ob.count('documents')
            rd = Reading(doc)
            for o in outs:
                if o.kind != 'ret':
                    continue
                cmp = pd.Compare(w, doc, rd, o)
                cmp.context(o.value)
                if cmp.out and not self.copies:
                    self.ob.count('documents_read_otherwise')
                    continue
                root = o.st.get(o.value.a).attrs['document']
                for meth, arg in calls_on(rd, methods):
                    if any(x is not None and x not in cmp.recs for x in (arg if isinstance(arg, list) else [arg])):
                        self.ob.count('records_not_found')
                        continue
                    try:
                        self.one(doc, rd, o, cmp.recs, root, meth, arg, source)
                    except Unsupported as e:
                        self.ob.unsure(f'not modelled: {e}')

    def one(self, doc, rd, o, recs, root, meth, arg, source):
        w = self.w
        self.ob.count('reports')
        count = len(doc.lines)
        want = rows(marks(rd.root, rd.nodes, [(meth, arg)] if meth else [], count), count)
        st = o.st.fork()
        what = f'{meth}({"document" if arg is None else [x + 1 for x in arg] if isinstance(arg, list) else arg + 1})'
        for r in w.call(w.rep, [o.value], st):
            steps = []
            if r.kind == 'ret' and meth:
                s = r.st
                a = root if arg is None else recs[arg] if not isinstance(arg, list) else \
                    s.alloc(ListO([recs[x] for x in arg]))
                steps = [(r, x) for x in w.method(r.value, meth, [a], s)]
            else:
                steps = [(r, r)]
            for rep, s in steps:
                fin = [s] if s.kind == 'exc' else w.method(rep.value, 'snippet', [], s.st)
                for f in fin:
                    self.ob.count('paths')
                    if f.kind == 'exc':
                        n = exc_names(w, f.st, f.value)[:1]
                        self.note('crash', f'{n} escapes', f'{self.cls}, {what}, document {pd.show_doc(doc)}: {n}', True,
                                  f.st, crash_site(f.st, f.value))
                        continue
                    self.check(doc, f.value, f.st, want, source, what, f'enolib/reporters {self.cls}.{meth}')


def calls_on(rd, methods):
    m = methods or {'report_line', 'indicate_line', 'question_line', 'report_element', 'report_elements',
                    'report_comments', 'report_multiline_value', 'report_missing_element', ''}
    if '' in m:
        yield '', None
    if 'report_missing_element' in m:
        yield 'report_missing_element', None
    groups = {}
    for line, n in sorted(rd.nodes.items()):
        elem = n.type in ('EMPTY_ELEMENT', 'FIELD', 'FIELDSET', 'LIST', 'SECTION', 'FIELDSET_ENTRY', 'LIST_ITEM',
                          'MULTILINE_FIELD_BEGIN')
        for x in ('report_line', 'indicate_line', 'question_line'):
            if x in m:
                yield x, line
        if not elem:
            continue
        if n.comments is not None and 'report_comments' in m:
            yield 'report_comments', line
        if 'report_element' in m:
            yield 'report_element', line
        if n.multi and n.lines and 'report_multiline_value' in m:
            yield 'report_multiline_value', line
        if n.type in ('SECTION', 'FIELDSET', 'EMPTY_ELEMENT', 'LIST', 'FIELD') and 'report_missing_element' in m:
            yield 'report_missing_element', line
        groups.setdefault(id(n.parent), []).append(line)
    if 'report_elements' in m:
        for g in groups.values():
            if len(g) > 1:
                yield 'report_elements', g
                if len(g) > 2:
                    yield 'report_elements', [g[0], g[-1]]


BODIES = [['FIELD'], ['COM', 'COMV', 'COM', 'COMV', 'FIELDV', 'COMV', 'COM', 'COMV', 'FIELD'], ['FIELD', 'ENTRYV', 'E0', 'SPCV', 'COM', 'DIRV', 'ENTRY', 'E0', 'E0', 'DIRV'], ['FIELDV', 'SPCV'], ['FIELDV', 'E0', 'SPCV', 'COM', 'DIRV'], ['FIELD', 'ITEM'],
          ['FIELD', 'ITEMV', 'E0', 'COM', 'ITEM', 'SPC'], ['FIELD', 'ENTRYV'], ['FIELD', 'E0', 'ENTRYE', 'DIRV', 'E0', 'ENTRY'],
          ['FIELD', 'ITEM', 'E0', 'SPCV', 'E0', 'ITEM'],
          ['ML', 'MLEND'], ['ML', 'RAW', 'RAW0', 'MLEND'], ['COM', 'E0', 'COMV', 'COM', 'FIELDEV'], ['FIELDE', 'COMV', 'ITEMV'],
          ['SEC1'], ['SEC1', 'FIELD'], ['SEC1', 'E0', 'FIELD', 'ITEM', 'E0', 'SEC2', 'FIELD'], ['SEC1', 'SEC2', 'SEC3', 'FIELDV'],
          ['SEC1', 'FIELD', 'E0', 'FIELDV', 'SPC', 'COM', 'FIELD', 'ENTRY', 'E0', 'E0', 'SEC2', 'E0', 'ML', 'RAW', 'MLEND', 'FIELD'],
          ['SEC1', 'E0', 'SEC2', 'FIELD', 'SEC1', 'FIELD', 'SEC2'], ['SEC1', 'COM', 'SEC2', 'ML', 'MLEND', 'SEC2', 'FIELD', 'ITEM']]
PRE = [[], ['E0'], ['FIELDV', 'E0', 'E0', 'E0', 'EW'], ['SEC1', 'FIELD', 'COM']]
POST = [[], ['E0'], ['E0', 'FIELD', 'E0', 'E0'], ['E0', 'E0', 'E0', 'E0', 'FIELDV', 'SPCV', 'E0', 'E0'], ['SEC1']]


def body_docs():
    for b in BODIES:
        for p in PRE:
            for q in POST:
                yield p + b + q


def flow_docs(n):
    return pd.sequences(['FIELD', 'FIELDV', 'ITEMV', 'ENTRY', 'SPCV', 'COM', 'SEC1', 'SEC2', 'E0', 'B1'], n)


def gap_docs(n):
    """elements, items and entries whose parts are apart from each other"""
    for pre, kinds in ((['FIELDV'], ['SPCV', 'E0', 'COM']), (['FIELD', 'ITEMV'], ['ITEM', 'SPCV', 'E0', 'COM']),
                       (['FIELD', 'ENTRYV'], ['ENTRY', 'SPCV', 'E0', 'COM']), (['SEC1'], ['FIELD', 'SPCV', 'E0'])):
        for c in itertools.product(kinds, repeat=n):
            yield pre + list(c)


LOOKS = [['EW', s] for s in pd.ALL if s.rstrip('V') not in ('BAD', 'OPEN')] + \
    [['FIELD', s] for s in pd.ALL if s[:4] in ('ITEM', 'ENTR')] + [['FIELDV', s] for s in pd.ALL if s[:3] in ('SPC', 'DIR')] + \
    [['SEC1', s] for s in pd.ALL if s.startswith('SEC2')] + [['ML', s, 'MLEND'] for s in lines.CONTENT]
FAULTS = [['BAD'], ['OPEN'], ['ITEM'], ['ENTRY'], ['SPC'], ['SEC2'], ['ML'], ['ML', 'RAW', 'RAW0'], ['SEC1', 'FIELD', 'SEC3']]


def fault_docs():
    for f in FAULTS:
        for p in PRE[:2] + [['COM', 'COMV'], ['FIELDV', 'SPC', 'COM'], ['SEC1', 'FIELD', 'COM']]:
            for q in [[], ['E0'], ['FIELD', 'ITEM', 'E0', 'FIELD', 'ITEMV', 'COM']]:
                if f[0] == 'ML' and q:
                    q = ['RAW'] * len(q)
                yield p + f + q


COPIED = [['FIELDV', 'SPCV', 'COPY', 'E0'], ['FIELD', 'ITEMV', 'E0', 'ITEM', 'COPY', 'E0'], ['COPY', 'FIELD', 'ENTRYV', 'ENTRY'],
          ['FIELD', 'ENTRYV', 'COPY', 'E0', 'ENTRYV', 'COM', 'ENTRYE'], ['FIELD', 'ITEM', 'COPY', 'ITEM', 'E0'],
          ['ML', 'RAW', 'RAW0', 'MLEND', 'COPY', 'E0', 'COPYE'], ['ML', 'MLEND', 'COMV', 'COPY', 'E0'],
          ['SEC1', 'FIELDV', 'SPC', 'SEC1T', 'E0', 'E0'], ['SEC1', 'FIELD', 'ITEM', 'SEC1T', 'FIELDV', 'E0'],
          ['SEC1T', 'E0', 'SEC1', 'SEC2', 'FIELDV', 'E0'], ['SEC1', 'SEC2', 'FIELDV', 'SEC1D', 'SEC2', 'FIELD', 'E0', 'E0'],
          ['SEC1', 'SEC2', 'E0', 'FIELD', 'SEC1D', 'E0', 'FIELD', 'E0'], ['SEC1', 'FIELD', 'COPY', 'SEC1T', 'E0', 'COPY']]


def copied_docs(most=12):
    from .resolve import namings, View
    def fine(s, n):
        v = View(Reading(lines.Doc(s, n)))
        return not v.errors
    for s in COPIED:
        ns = [n for n in namings(s, 3, miss=False) if fine(s, n)]
        step = max(1, len(ns) // most)
        for n in ns[::step]:
            yield s, n


def report_obs(kinds, facets):
    def obs(tier):
        def job(kind, gen, how, **kw):
            def run(ob):
                r = Run(ob, kind, facets, how == 'copied')
                getattr(r, 'direct' if how == 'copied' else how)(gen(), **kw)
                if r.w.layout:
                    ob.unsure(f'record layout changed: {sorted(r.w.layout)}')
            return run
        out = []
        if not pd.warmed:
            pd.warmed.append(True)
            pd.warm()
        for kind in kinds:
            n = 8 if kind == 'text' else 2
            pick = body_docs if kind == 'text' else lambda: iter(BODIES)
            for i, g in pd.shards(n, pick):
                out.append((f'{kind} report methods {i + 1}/{n}', job(kind, g, 'direct')))
            for i, g in pd.shards(2, lambda: iter(LOOKS)):
                out.append((f'{kind} line kinds {i + 1}/2',
                            job(kind, g, 'direct', methods={'report_line', 'indicate_line', 'question_line'}, source=SOURCE)))
            for i, g in pd.shards(2, fault_docs):
                out.append((f'{kind} parse errors {i + 1}/2', job(kind, g, 'errors')))
            out.append((f'{kind} parse errors, named source', job(kind, lambda: iter([f for f in FAULTS]), 'errors',
                                                                   source=SOURCE)))
            if kind == 'text':
                for i, g in pd.shards(4, copied_docs):
                    out.append((f'{kind} reports on copies {i + 1}/4', job(kind, g, 'copied')))
                some = {'report_element', 'report_elements', 'report_comments', 'report_missing_element', 'report_line'}
                for i, g in pd.shards(4, lambda: gap_docs(pd.depth(tier, 3, 4))):
                    out.append((f'{kind} parts apart {i + 1}/4', job(kind, g, 'direct', methods=some)))
                k = pd.depth(tier, 3, 4)
                m = 8 if tier == 'quick' else 32
                for i, g in pd.shards(m, lambda: flow_docs(k)):
                    out.append((f'{kind} line sequences {i + 1}/{m}', job(kind, g, 'direct', methods={
                        'report_element', 'report_elements', 'report_comments', 'report_missing_element',
                        'report_multiline_value'})))
        return out
    return obs
