"""Copies: every abstract document with copies, under every coincidence of keys, is resolved by the analysed program and
compared with the reference view (content) or the set of errors it may report."""
import itertools
from ..values import *
from ..state import *
from ..interp import Unsupported
from .. import lines
from ..model import Reading
from .doc import *
from .doc import Compare
from .common import exc_names, crash_site, same

KEYS = ('key', 'ekey', 'skey', 'sekey', 'mkey')
TEMPLATES = ('ltmpl', 'tmpl')


def slots(shapes):
    """[(line, piece, 'key' or 'template')] of the names in a document, entries left out"""
    out = []
    for i, s in enumerate(shapes):
        if s in lines.CONTENT or s == 'MLEND' or s.startswith('ENTRY'):
            continue
        for name, kind, _t in lines.SHAPES[s][1]:
            if kind == 'txt' and name in KEYS:
                out.append((i, name, 'key'))
            elif kind == 'txt' and name in TEMPLATES:
                out.append((i, name, 'template'))
    return out


def growth(n):
    """restricted growth strings: partitions of n things"""
    def go(pre, m):
        if len(pre) == n:
            yield tuple(pre)
            return
        for v in range(m + 1):
            yield from go(pre + [v], max(m, v + 1))
    return go([], 0)


def namings(shapes, coincide=99, miss=True):
    """assignments of names: every coincidence of keys (at most `coincide` of them), every template any of the keys or
    none of them"""
    sl = slots(shapes)
    keys = [s for s in sl if s[2] == 'key']
    tmpl = [s for s in sl if s[2] == 'template']
    entries = [(i, 'key' if s == 'ENTRY' or s == 'ENTRYV' else 'ekey') for i, s in enumerate(shapes)
               if s.startswith('ENTRY')]
    for g in growth(len(keys)):
        if len(keys) - len(set(g)) > coincide:
            continue
        cls = sorted(set(g)) + ([99] if miss and len(tmpl) == 1 else [])
        for t in itertools.product(cls, repeat=len(tmpl)):
            for e in growth(len(entries)):
                names = {}
                for (i, p, _k), c in zip(keys + tmpl, g + t):
                    names[(i, p)] = T('str', 'part', (C(f'name{c}'), C('key'), C('txt')))
                for (i, p), c in zip(entries, e):
                    names[(i, p)] = T('str', 'part', (C(f'entry{c}'), C('key'), C('txt')))
                yield names


class Bad(Exception):
    pass


class View:
    """what a document with copies contains, or which errors it may be rejected with"""

    def __init__(self, rd):
        self.rd = rd
        self.errors = []               # (kind, payload)
        self.unspecified = False
        self.all = []
        self.walk(rd.root)
        self.find()
        self.types()
        if not self.errors:
            self.sections()

    def walk(self, sec):
        for n in sec.kids:
            self.all.append(n)
            n.tmpl = None
            if n.type == 'SECTION':
                self.walk(n)

    def find(self):
        self.deps = {}
        for n in self.all:
            if n.template is None:
                continue
            sect = n.type == 'SECTION'
            cand = [m for m in self.all if (m.type == 'SECTION') == sect and m.key == n.template and
                    not (m.template is not None and m.template == m.key)]
            if len(cand) > 1:
                self.errors.append(('two_or_more_templates_found', (n.template, n.type, cand)))
            elif not cand:
                self.errors.append(('section_not_found' if sect else 'non_section_element_not_found', n))
            else:
                n.tmpl = cand[0]
        # what has to be known before an element is
        for n in self.all:
            d = [n.tmpl] if n.tmpl is not None else []
            if n.type == 'SECTION':
                d += [k for k in n.kids if k.type == 'SECTION' and self.copies(k)]
            self.deps[n] = d
        for n in self.all:
            cyc = self.cycle(n)
            if cyc:
                self.errors.append(('cyclic_dependency', n))

    def copies(self, n):
        return n.template is not None or any(k.type == 'SECTION' and self.copies(k) for k in n.kids)

    def cycle(self, n):
        """n lies on a cycle"""
        seen, todo = set(), list(self.deps[n])
        while todo:
            x = todo.pop()
            if x is n:
                return True
            if x not in seen:
                seen.add(x)
                todo += self.deps[x]
        return False

    def is_cycle(self, nodes):
        """the elements form one cycle of dependencies"""
        nodes = list(nodes)
        first = nodes[0]
        for rest in itertools.permutations(nodes[1:]):
            seq = [first, *rest]
            if all(b in self.deps[a] for a, b in zip(seq, seq[1:] + [first])):
                return True
        return False

    def types(self):
        """types of copies, entries or items below something else"""
        done = {}
        def typ(n):
            if n in done:
                return done[n]
            t = n.type
            if n.template is not None and t != 'SECTION' and (n.tmpl is None or self.cycle(n)):
                done[n] = None             # never known
                return None
            if n.tmpl is not None and n.type != 'SECTION':
                o = typ(n.tmpl)
                if o is None:
                    done[n] = None
                    return None
                if t == 'EMPTY_ELEMENT':
                    t = 'FIELD' if o == 'MULTILINE_FIELD_BEGIN' else o
                elif o not in (t, 'EMPTY_ELEMENT'):
                    self.errors.append(('missing_list_for_list_item' if t == 'LIST' else
                                        'missing_fieldset_for_fieldset_entry', n.kids[0]))
            done[n] = t
            return t
        for n in self.all:
            n.rtype = typ(n)

    def sections(self):
        """deep copies"""
        self.base = {n: n.tmpl for n in self.all if n.type == 'SECTION'}
        self.deepmode = {n: n.deep for n in self.base}
        order, seen = [], set()
        def visit(n):
            if n in seen:
                return
            seen.add(n)
            for d in self.deps[n]:
                visit(d)
            order.append(n)
        for n in self.all:
            if n.type == 'SECTION':
                visit(n)
        for n in order:
            if n.type == 'SECTION' and n.deep:
                self.merge(n, n.tmpl)

    def merge(self, s, t):
        if not s.kids:
            return
        if t.tmpl is not None or self.base.get(t) is not None:
            # nested sections the template itself inherits
            if any(k.type == 'SECTION' for k in s.kids):
                self.unspecified = True
        for k in s.kids:
            if k.type != 'SECTION' or sum(1 for x in s.kids if x.key == k.key) != 1:
                continue
            other = [x for x in t.kids if x.key == k.key]
            if len(other) == 1 and other[0].type == 'SECTION':
                if self.base[k] is not None:
                    self.unspecified = True        # two templates for one section
                x = other[0]
                while x is not None and x is not k:
                    x = self.base.get(x)
                if x is k:                         # merged with a copy of itself
                    self.deps[k].append(other[0])
                    self.errors.append(('cyclic_dependency', k))
                    return
                self.base[k] = other[0]
                self.merge(k, other[0])

    # ------------------------------------------------------------ content
    def comments(self, n):
        if n.comments:
            return n.comments
        t = n.tmpl if n.type != 'SECTION' else self.base.get(n)
        return self.comments(t) if t is not None else None

    def kids(self, n):
        own = n.kids
        t = (self.base.get(n) if n.type == 'SECTION' else n.tmpl) if n.type != 'DOCUMENT' else None
        if t is None:
            return own
        inherited = self.kids(t)
        if not own:
            return inherited
        if n.type == 'LIST':
            return inherited + own
        keys = {k.key for k in own}
        return [k for k in inherited if k.key not in keys] + own

    def value(self, n):
        """text of a field, entry or item"""
        if n.type == 'MULTILINE_FIELD_BEGIN':
            if not n.lines:
                return NONE
            parts = []
            for i, v in enumerate(n.lines):
                if i:
                    parts.append(C('\n'))
                parts += [t for _n, t, _l in self.rd.doc.lines[v.line].pieces]
            return concat(parts)
        if n.type == 'EMPTY_ELEMENT':
            return self.value(n.tmpl)
        v = n.value
        gap = False
        for c in n.conts:
            if v is None:
                v = c.value
                gap = False
            elif c.value is None:
                gap = gap or c.spaced
            else:
                v = concat([v] + ([C(' ')] if c.spaced or gap else []) + [c.value])
                gap = False
        return NONE if v is None else v


PRETTY = {'DOCUMENT': 'document', 'EMPTY_ELEMENT': 'empty_element', 'FIELD': 'field', 'FIELDSET': 'fieldset',
          'FIELDSET_ENTRY': 'fieldset_entry', 'LIST': 'list', 'LIST_ITEM': 'list_item', 'SECTION': 'section',
          'MULTILINE_FIELD_BEGIN': 'field'}


class CompareRaw(Compare):
    def __init__(self, w, doc, rd, o, view):
        super().__init__(w, doc, rd, o)
        self.view = view

    def raw(self, v, n):
        what = 'document' if n.type == 'DOCUMENT' else f'{n.type.lower()} in line {n.line + 1}'
        d = self.rec(v, f'raw form of {what}', 'content')
        if d is None:
            return
        t = getattr(n, 'rtype', n.type)
        self.eq('content', f'type of {what}', d.keys.get(C('type')), C(PRETTY[t]))
        cs = self.view.comments(n) if n.type != 'DOCUMENT' else None
        want = None if not cs else cs[0].value if len(cs) == 1 and cs[0].value is not None else NONE
        if not cs or len(cs) == 1:
            got = d.keys.get(C('comment'))
            if want in (None, NONE):
                if got not in (None, NONE):
                    self.diff('content', f'{what} has a comment', self.ditto(got))
            else:
                self.eq('content', f'comment of {what}', got, want)
        if n.type not in ('DOCUMENT', 'LIST_ITEM'):
            self.eq('content', f'key of {what}', d.keys.get(C('key')), n.key)
        if t in ('FIELD', 'MULTILINE_FIELD_BEGIN', 'LIST_ITEM', 'FIELDSET_ENTRY'):
            self.eq('content', f'value of {what}', d.keys.get(C('value')), self.view.value(n))
        for ts, name in ((('LIST',), 'items'), (('FIELDSET',), 'entries'), (('DOCUMENT', 'SECTION'), 'elements')):
            if t in ts:
                kids = self.view.kids(n)
                got = self.seq(d.keys.get(C(name)), f'{name} of {what}', 'content')
                if got is None:
                    continue
                if len(got) != len(kids):
                    self.diff('content', f'{what} has {len(got)} {name} instead of {len(kids)}',
                              C(name) in d.keys or d.rest is None)
                    continue
                for g, k in zip(got, kids):
                    self.raw(g, k)

    # ------------------------------------------------------------ errors
    def failed(self, exc):
        o = self.st.get(exc.a)
        t = o.attrs.get('text')
        kind = t.args[0].v if isinstance(t, T) and t.op in ('msg', 'msgcall') else None
        if kind is None:
            return self.diff('error', f'error text is {t!r}', False)
        cases = [p for k, p in self.view.errors if k == kind]
        if not cases:
            due = sorted({k for k, _p in self.view.errors})
            return self.diff('error', f'error is {kind} instead of {due or "none"}')
        best = None
        for p in cases:
            keep, self.out = self.out, []
            for alt in self.cases(kind, p):
                self.out = []
                alt(o, t)
                if not self.out:
                    break
            mine, self.out = self.out, keep
            if not mine:
                return
            if best is None or len(mine) < len(best):
                best = mine
        self.out += best

    def cases(self, kind, p):
        if kind == 'two_or_more_templates_found':
            name, typ, cand = p
            copies = [n for n in self.view.all if n.template == name and (n.type == 'SECTION') == (typ == 'SECTION')]
            for n in sorted(copies, key=lambda n: n.line)[:1]:
                for a, b in itertools.permutations(cand, 2):
                    yield lambda o, t, n=n, a=a, b=b: self.expect(o, t, [name], n.line, None, [
                        ('report_line', n.line), ('question_line', a.line), ('question_line', b.line)])
        elif kind == 'cyclic_dependency':
            on = [n for n in self.view.all if self.view.cycle(n) and n.template is not None]
            for n in on:
                yield lambda o, t, n=n: self.cyclic(o, t, n)
        elif kind.endswith('_not_found'):
            yield lambda o, t: self.expect(o, t, [C(p.line + 1), p.template], p.line, None, [('report_line', p.line)])
        else:
            yield lambda o, t: self.expect(o, t, [C(p.line + 1)], p.line, None, [('report_line', p.line)])

    def expect(self, o, t, args, line, span, reports):
        got = t.args[1:]
        if len(got) != len(args) or not all(same(self.w, self.st, x, y) for x, y in zip(got, args)):
            self.diff('error', f'error {t.args[0].v} mentions {got!r} instead of {tuple(args)!r}', self.ditto(Tup(got)))
            return
        ln = self.doc.lines[line]
        b, e = span or (ln.S, ln.E)
        class Er:
            begin, end = (ln, b), (ln, e)
        self.select(o.attrs.get('selection'), Er)
        if reports is not None:
            self.reported(o.attrs.get('snippet'), reports)

    def cyclic(self, o, t, n):
        self.expect(o, t, [C(n.line + 1), n.template], n.line, n.ranges['template'], None)
        sn = o.attrs.get('snippet')
        if not (isinstance(sn, T) and sn.op == 'snippet'):
            return
        got = []
        for c in sn.args[0].items:
            d = self.rec(c.items[1], 'reported line', 'report') if len(c.items) == 2 else None
            ln = d.keys.get(C('line')) if d is not None else None
            if not isinstance(ln, C):
                return self.diff('report', 'reported line is unknown', False)
            got.append((c.items[0].v, ln.v))
        by = {x.line: x for x in self.view.all}
        if [g for g in got if g[0] == 'report_line'] != [('report_line', n.line)] or \
                any(g[0] not in ('report_line', 'indicate_line') or g[1] not in by for g in got) or \
                len({g[1] for g in got}) != len(got):
            return self.diff('report', f'reports {got} for a cycle through line {n.line + 1}')
        if not self.view.is_cycle([by[g[1]] for g in got]):
            self.diff('report', f'the reported lines {sorted(g[1] + 1 for g in got)} are no cycle')


def run_doc(w, shapes, names, raw=True, api=False):
    doc = lines.Doc(shapes, names)
    w.e.doc = doc
    st = w.state()
    doc.prepare(st)
    ks = sorted(set(names.values()), key=repr)
    for a, b in itertools.combinations(ks, 2):
        st.eqs[frozenset((a, b))] = False
    w.e.endless.clear()
    outs = []
    if api:
        return doc, w.call(w.mod('spec_view', 'view_text'), [doc.text, w.loc, w.rep], st)
    for o in w.new('enolib.context', 'Context', [doc.text], st, {'locale': w.loc, 'reporter': w.rep}):
        if o.kind == 'exc' or not raw:
            outs.append(o)
            continue
        d = o.st.get(o.value.a).attrs.get('document')
        outs += w.method(o.value, 'raw', [d], o.st)
    return doc, outs


WHERE = 'enolib/resolver.py Resolver.resolve'


def check_copies(ob, w, docs, facets, cap=20, api=False):
    seen = {}
    raw = 'content' in facets
    for shapes, names in docs:
        doc = lines.Doc(shapes, names)
        rd = Reading(doc)
        if rd.error is not None or not rd.copies:
            continue
        view = View(rd)
        if view.unspecified and not view.errors:
            ob.count('documents outside the statement')
            continue
        if raw and view.errors:
            continue
        ob.count('documents')
        ob.count('documents to be rejected', 1 if view.errors else 0)
        try:
            doc, outs = run_doc(w, shapes, names, raw, api)
        except Unsupported as e:
            ob.unsure(f'not modelled: {e}')
            continue
        rd = Reading(doc)
        view = View(rd)
        ob.count('paths', len(outs))
        title = show_names(shapes, names)
        deep = None
        if not outs and not w.e.endless:
            deep = sorted(str(c) for c in w.e.cuts if 'recursion limit at' in str(c))
            if deep:
                # far more frames than the document has lines: a recursion that is bounded by them would end
                keep, w.e.rec_limit = w.e.rec_limit, 120
                w.e.cuts.clear()
                try:
                    doc, outs = run_doc(w, shapes, names, raw, api)
                except RecursionError:
                    outs = []
                w.e.rec_limit = keep
                again = [c for c in w.e.cuts if 'recursion limit at' in str(c)]
                if outs or not again or len(again) != len(w.e.cuts):
                    deep = None
        if w.e.endless or not outs:
            if (w.e.endless or deep) and 'endless' in facets:
                what = f'loop at {sorted(w.e.endless)[0]}' if w.e.endless else deep[0]
                ob.violation('endless', f'{WHERE}: {what}', f'does not end for {title}')
                if deep:
                    return
            else:
                ob.unsure(f'no path reaches the end {w.e.cuts} {title}')
            w.e.cuts.clear()
            continue
        for o in outs:
            c = CompareRaw(w, doc, rd, o, view)
            if o.kind == 'exc':
                en = exc_names(w, o.st, o.value)
                if 'ParseError' not in en:
                    c.diff('crash', f'{en[0] if en else "?"} escapes ({w.describe(o.st, o.value)})')
                else:
                    c.failed(o.value)
            elif view.errors:
                c.diff('error', f'accepted, due is {sorted({k for k, _p in view.errors})}')
            elif raw:
                c.raw(o.value, rd.root)
            for m in c.out:
                if m.facet not in facets:
                    continue
                if not m.sure or o.st.taint or w.layout:
                    ob.unsure(f'{m.facet}: {m.what[:160]}')
                    continue
                site = crash_site(o.st, o.value) if m.facet == 'crash' else WHERE
                k = (m.facet, ''.join(ch for ch in m.what.split(' instead of ')[0][:90] if not ch.isdigit()))
                seen[k] = seen.get(k, 0) + 1
                if seen[k] == 1 and len(seen) <= cap:
                    ob.violation(m.facet, f'{site}: {k[1]}', f'document {title}: {m.what[:400]}', document=title)
        if len(seen) >= cap:
            return
    if w.layout:
        ob.unsure(f'record layout changed: {sorted(w.layout)}')


def show_names(shapes, names):
    out = []
    for i, s in enumerate(shapes):
        ks = [v.args[0].v for (j, p), v in sorted(names.items(), key=lambda x: x[0][1] in TEMPLATES) if j == i]
        out.append(s + (f'({"<".join(ks)})' if ks else ''))
    return ' / '.join(out)


# ------------------------------------------------------------------ families
ELEMS = ['COPY', 'FIELDV', 'FIELD', 'ITEMV', 'ENTRYV', 'B1', 'COMV', 'SEC1', 'COPYE']
ELEMS4 = ['COPY', 'FIELDV', 'FIELD', 'ITEMV', 'ENTRYV', 'SEC1']
SECS = ['SEC1', 'SEC1T', 'SEC1D', 'SEC2', 'SEC2T', 'SEC2D', 'SECE1T', 'FIELDV', 'COMV']
SECS4 = ['SEC1', 'SEC1T', 'SEC2', 'SEC2T', 'SEC1D', 'FIELDV']
DEEP = [['SEC1D', 'SEC2', 'SEC1', 'SEC2T'], ['SEC1D', 'SEC2', 'FIELD', 'SEC1', 'SEC2T', 'FIELD'], ['SEC1', 'SEC2', 'FIELDV', 'SEC1D', 'SEC2', 'FIELDV'], ['SEC1', 'SEC2', 'FIELD', 'SEC1T', 'SEC2', 'FIELD'],
        ['SEC1', 'SEC2', 'SEC2', 'SEC1D', 'SEC2'], ['SEC1', 'SEC2', 'SEC1D', 'SEC2', 'SEC2'],
        ['SEC1D', 'SEC2', 'FIELDV', 'SEC1', 'SEC2', 'FIELDV'],
        ['SEC1', 'FIELDV', 'SEC2', 'SEC1D', 'SEC2', 'FIELDV'], ['SEC1', 'FIELD', 'FIELD', 'SEC1T', 'FIELD', 'FIELD'],
        ['SEC1', 'SEC2', 'COMV', 'SEC3', 'FIELDV', 'SEC1D', 'SEC2', 'SEC3', 'FIELDV'],
        ['SEC1', 'SEC2', 'SEC3', 'FIELDV', 'SEC1D', 'SEC2', 'SEC3'],
        ['SEC1', 'COMV', 'SEC2', 'FIELDV', 'COMV', 'SEC1D', 'SEC2'],
        ['SEC1', 'SEC2D', 'FIELDV', 'SEC1', 'FIELD', 'FIELDV'],
        ['SEC1', 'SEC2T', 'SEC3T'], ['SEC1', 'SEC2', 'SEC3T', 'SEC1T'], ['SEC1T', 'SEC2T', 'SEC1T']]


def chain_docs(copy, plain, own, n):
    """chains of n copies with something of their own or nothing, in every order of a few"""
    name = lambda i: f'name{i}'
    for owned in itertools.product((0, 1, 2), repeat=n):
        if n > 3 and sum(1 for x in owned if x == 1) > 2 or 2 in owned[:1] or sum(owned) > 4:
            continue
        els = [[(plain, name(0), None)] + [own] * max(1, owned[0])]
        for i in range(1, n):
            els.append([(copy, name(i), name(i - 1))] + [own] * owned[i])
        yield els
        yield els[::-1]
        if n > 2:
            yield els[1:] + els[:1]


def star_docs(copy, plain, own, n):
    """n copies of one template"""
    for where in range(n + 1):
        els = [[(copy, f'name{i}', 'name0')] + [own] * (i % 2) for i in range(1, n + 1)]
        els.insert(where, [(plain, 'name0', None), own])
        yield els


def cycle_docs(copy, n):
    """cycles of n copies, with and without a way into them"""
    for order in ([*range(n)], [*range(n)][::-1], [*range(1, n), 0]):
        ring = [[(copy, f'name{i}', f'name{(i + 1) % n}')] for i in order]
        yield ring
        yield [[(copy, 'name8', 'name9')], [(copy, 'name9', 'name0')]] + ring
        yield ring + [[(copy, 'name8', 'name1')]]


def flat(els, leaves):
    """(shapes, names) with every coincidence of the keys below different elements (leaves)"""
    shapes, names, free = [], {}, []
    part = lambda c: T('str', 'part', (C(c), C('key'), C('txt')))
    for e in els:
        group = []
        for x in e:
            i = len(shapes)
            if isinstance(x, tuple):
                shapes.append(x[0])
                names[(i, 'skey' if x[0].startswith('SEC') else 'mkey' if x[0] == 'ML' else 'key')] = part(x[1])
                if x[2] is not None:
                    names[(i, 'tmpl' if x[0].startswith('SEC') else 'ltmpl')] = part(x[2])
            else:
                shapes.append(x)
                if leaves and not x.startswith('ITEM'):
                    group.append(i)
        free += group
    for g in growth(len(free)) if leaves else [()]:
        yield shapes, {**names, **{(i, 'key'): part(f'leaf{c}') for i, c in zip(free, g)}}


CHAINED = (('SEC1T', 'SEC1', 'FIELDV'), ('COPY', 'FIELD', 'ITEMV'), ('COPY', 'FIELD', 'ENTRYV'), ('SEC1D', 'SEC1', 'FIELDV'))


def chains(n, stars, few):
    def gen():
        for copy, plain, own in CHAINED:
            for els in itertools.chain(*(chain_docs(copy, plain, own, i) for i in range(3, n + 1)),
                                       star_docs(copy, plain, own, stars)):
                for i, x in enumerate(flat(els, own != 'ITEMV')):
                    keys = [v for k, v in x[1].items()]
                    if few and len(x[1]) - len(set(keys)) > few + sum(1 for e in els if e[0][2]):
                        continue
                    yield x
        for i in range(3, n + 2):
            els = [[('FIELDV', 'name0', None)]] + [[('COPY', f'name{j}', f'name{j - 1}')] for j in range(1, i)]
            for order in (els, els[::-1], els[1:] + els[:1]):
                yield from flat(order, False)
    return gen


def cycles(n):
    def gen():
        for copy in ('COPY', 'SEC1T', 'SEC1D'):
            for i in range(1, n + 1):
                for els in cycle_docs(copy, i):
                    yield from flat(els, False)
    return gen


def with_copy(seqs, most=9):
    for s in seqs:
        n = sum(1 for x in s if x.startswith('COPY') or x.endswith('T') or x.endswith('D') and x.startswith('SEC'))
        if 1 <= n <= most:
            yield s


def named(seqs, coincide=99, miss=True):
    def gen():
        for s in seqs():
            rd = Reading(lines.Doc(s))
            if rd.error is None:
                for n in namings(s, coincide, miss):
                    yield s, n
    return gen


def copies_ob(gen, facets, api=False):
    def run_ob(ob):
        check_copies(ob, doc_world(ob, specs=('view',) if api else ()), gen(), facets, api=api)
    return run_ob


def fam(label, gen, facets, n, api=False):
    return [(f'{label} {i + 1}/{n}', copies_ob(g, facets, api)) for i, g in shards(n, gen)]


def copy_obs(facets):
    def obs(tier):
        warm()
        t = tier != 'quick'
        raw = 'content' in facets
        one = lambda: with_copy(sequences(SECS4, 4, 4), 1)
        two = lambda: with_copy(sequences(SECS4, 4, 4), 2)
        more = fam('copies of copies', chains(4 if t else 3, 6, 0 if t else 1), facets, 32 if t else 8) + \
            fam('copies of copies, queried', chains(4 if t else 3, 6, 0 if t else 1), facets, 32 if t else 8, True) + \
            fam('nested sections, queried', named(lambda: DEEP, 9 if t else 1), facets, 8, True) + \
            fam('element copies, queried', named(lambda: with_copy(sequences(ELEMS, 4 if t else 3))), facets,
                64 if t else 16, True) + \
            fam('section copies, queried', named(lambda: with_copy(sequences(SECS, 4 if t else 3))), facets,
                64 if t else 16, True) \
            if raw else fam('cycles', cycles(5 if t else 4), facets, 8)
        return more + fam('nested sections', named(lambda: DEEP, 9 if t else 3 if raw else 1), facets, 24) + \
            fam('element copies', named(lambda: with_copy(sequences(ELEMS, 4 if t else 3))), facets, 64 if t else 16) + \
            fam('longer element copies', named(lambda: with_copy(sequences(ELEMS4, 5 if t else 4, 4), 2), 1, False),
                facets, 96 if t else 16) + \
            fam('section copies', named(lambda: with_copy(sequences(SECS, 4 if t else 3))), facets, 64 if t else 16) + \
            (fam('longer section copies', named(lambda: with_copy(sequences(SECS4, 5, 4), 2), 2, False), facets, 96)
             if t else fam('longer section copies', named(two, 1, False), facets, 24) if raw else
             fam('one section copy', named(one, 1), facets, 8) + fam('two section copies', named(two, 0, False), facets, 16))
    return obs
