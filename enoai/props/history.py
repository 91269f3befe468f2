"""Histories: a question asked of a document of its own, against the same question asked after others, asked again, or after
other documents were read. The document is abstract (lines of symbolic texts); the questions are those of specs/queries.py."""
import itertools
import os
from ..values import *
from ..state import *
from ..interp import Unsupported
from ..world import World
from .. import lines
from ..model import Reading
from .common import exc_names, SPEC
from . import doc as pd
from .resolve import slots

KEY = T('str', 'part', (C('name0'), C('key'), C('txt')))
OTHER = T('str', 'part', (C('name1'), C('key'), C('txt')))


def name(i):
    return T('str', 'part', (C(f'name{i}'), C('key'), C('txt')))


def history_world(ob):
    w = World(k=2, max_steps=10 ** 9, specs=[('spec_queries', os.path.join(SPEC, 'queries.py'))])
    ob.engine(w.e)
    w.e.while_cap = 400
    w.e.rec_limit = 40
    w.loc = w.base.alloc(InstO(B('opaque:locale'), {}))
    w.rep = w.base.alloc(InstO(B('opaque:reporterclass'), {}))
    w.loc2 = w.base.alloc(InstO(B('opaque:locale'), {}, {'which': 'other:'}))
    w.rep2 = w.base.alloc(InstO(B('opaque:reporterclass'), {}, {'which': 'other:'}))
    w.layout = set()
    w.parse = w.mod('enolib.parse', 'parse')
    w.one, w.many = w.mod('spec_queries', 'one'), w.mod('spec_queries', 'many')
    q = w.base.get(w.mod('spec_queries', 'QUERIES').a).items
    w.queries = [f.name for f in q]
    if w.parse is None:
        raise Unsupported('anchor vanished: enolib.parse.parse')
    return w


# ------------------------------------------------------------------ answers as plain data
def thaw(w, st, v, depth=12):
    if depth == 0:
        return ('deep',)
    if isinstance(v, C):
        return ('c', type(v.v).__name__, v.v)
    if isinstance(v, E):
        return ('e', v.cls, v.name)
    if isinstance(v, Tup):
        return ('tup',) + tuple(thaw(w, st, x, depth - 1) for x in v.items)
    if isinstance(v, T):
        return ('t', v.op, v.opt) + tuple(arg(w, st, x, depth - 1) for x in v.args)
    if isinstance(v, R):
        o = st.get(v.a)
        if isinstance(o, DictO):
            if o.opt or o.variants or o.sym or o.rest:
                return ('unknown', 'dict')
            if C('ranges') in o.keys or isinstance(o.keys.get(C('type')), E):
                return ('record', thaw(w, st, o.keys.get(C('line'), NONE), 2))
            return ('dict',) + tuple(sorted(((thaw(w, st, k, depth - 1), thaw(w, st, x, depth - 1))
                                             for k, x in o.keys.items()), key=repr))
        if isinstance(o, ListO):
            if any(isinstance(x, Seg) for x in o.items):
                return ('unknown', 'list')
            return ('list',) + tuple(thaw(w, st, x, depth - 1) for x in o.items)
        if isinstance(o, InstO):
            return ('inst', repr(o.cls))
        return ('unknown', type(o).__name__)
    if isinstance(v, (F, BM, B)):
        return ('fn', getattr(v, 'name', '?'))
    return ('unknown', repr(v))


def arg(w, st, x, depth):
    if isinstance(x, V):
        return thaw(w, st, x, depth)
    if isinstance(x, tuple):
        return tuple(arg(w, st, y, depth) for y in x)
    return x


KNOWN = {'part', 'concat', 'msg', 'msgcall', 'repeat', 'snippet', 'lin', 'nat'}


def differ(a, b):
    """True: certainly different, False: the same, None: cannot tell"""
    if a == b:
        return False
    if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b):
        return True
    if 'unknown' in (a[0], b[0]) or 'deep' in (a[0], b[0]):
        return None
    if a[0] == b[0] and a[0] in ('tup', 'list') and len(a) == len(b) or a[0] == b[0] == 'dict' and [
            x[0] for x in a[1:]] == [x[0] for x in b[1:]]:
        rs = [differ(x, y) for x, y in zip(a[1:], b[1:])]
        return True if True in rs else None if None in rs else False
    if 't' in (a[0], b[0]):
        for x in (a, b):
            if x[0] == 't' and (x[1] not in KNOWN or x[2]):
                return None
        if a[0] == b[0] == 't' and a[1] == b[1] == 'snippet':
            return differ(a[3], b[3])
        if a[0] == b[0] == 't' and ('lin' in (a[1], b[1]) or 'concat' in (a[1], b[1]) or 'repeat' in (a[1], b[1])) and a[1] != b[1]:
            return True
        return True
    return True


def rename(x, names):
    if not names or not isinstance(x, tuple):
        return x
    if x in names:
        return names[x]
    return tuple(rename(y, names) for y in x)


def first_difference(a, b, path=''):
    if a == b:
        return ''
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and a[:1] == b[:1] and a[0] in ('tup', 'list', 'dict'):
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            if x != y:
                return first_difference(x, y, f'{path}[{i}]')
    return f'at {path or "the top"}: {show(a)} instead of {show(b)}'


def show(x):
    if isinstance(x, tuple) and x:
        if x[0] == 'c':
            return repr(x[2])
        if x[0] == 't':
            return f'<{x[1]} {" ".join(show(y) for y in x[3:])}>'[:120]
        if x[0] in ('tup', 'list', 'dict'):
            return (x[0] + '(' + ', '.join(show(y) for y in x[1:]) + ')')[:160]
    return str(x)[:120]


# ------------------------------------------------------------------ running
class History:
    def __init__(self, ob):
        self.ob = ob
        self.w = history_world(ob)
        self.seen = {}

    def settled(self, st):
        """what the facts of a state say about texts: {text: the same text}, and whether that is all they say"""
        names, whole = {}, True
        for pair, same in st.eqs.items():
            if not same or len(pair) != 2:
                continue
            group = sorted(st.eqclass(next(iter(pair))), key=repr)
            if any(not isinstance(x, C) and not (isinstance(x, T) and x.op == 'part') for x in group):
                whole = False
                continue
            for x in group:
                names[thaw(self.w, st, x)] = thaw(self.w, st, next((y for y in group if isinstance(y, C)), group[0]))
        for x, tv in st.truth.items():
            if tv is False and st.none.get(x) is False and isinstance(x, T):
                if x.op != 'part':
                    whole = False
                names[thaw(self.w, st, x)] = ('c', 'str', '')
        return names, whole

    def note(self, tag, construct, detail, sure, st):
        if not sure or st.taint:
            self.ob.unsure(f'{tag}: {construct[:150]}' + (' (tainted)' if st.taint else ''))
            return
        self.ob.violation(tag, construct, detail[:600])

    def start(self, names):
        st = self.w.state()
        terms = sorted(set(names) | {KEY, OTHER}, key=repr)
        for a, b in itertools.combinations(terms + [C('nobody')], 2):
            st.eqs[frozenset((a, b))] = False
        for t in terms:
            st.none[t], st.truth[t] = False, True
        return st

    def read(self, doc, st, other=False, plain=False):
        self.w.e.doc = doc
        doc.prepare(st)
        self.w.e.endless.clear()
        if plain:
            return self.w.call(self.w.parse, [doc.text], st)
        return self.w.call(self.w.parse, [doc.text], st, {'locale': self.w.loc2 if other else self.w.loc,
                                                       'reporter': self.w.rep2 if other else self.w.rep})

    def answers(self, outs):
        """[(answer, state)]"""
        return [((o.kind,) + thaw(self.w, o.st, o.value), o.st) if o.kind == 'ret' else
                (('exc', exc_names(self.w, o.st, o.value)[0]), o.st) for o in outs]

    def ask(self, root, st, i):
        return self.answers(self.w.call(self.w.one, [root, KEY, OTHER, C(i)], st))

    def tour(self, root, st, order):
        lst = st.alloc(ListO([C(i) for i in order]))
        for o in self.w.call(self.w.many, [root, KEY, OTHER, lst], st):
            if o.kind != 'ret':
                yield [(('exc', exc_names(self.w, o.st, o.value)[0]))], o.st
                continue
            yield [('ret',) + thaw(self.w, o.st, x) for x in o.st.get(o.value.a).items], o.st

    def alone(self, root, st):
        """the answer to every question of an untouched document"""
        res = []
        for i in range(len(self.w.queries)):
            got = self.ask(root, st.fork(), i)
            self.ob.count('questions')
            if len(got) != 1 or got[0][1].taint or got[0][0][0] != 'ret':
                res.append(None)
                self.ob.unsure(f'{self.w.queries[i]}: {len(got)} answers' + (f' {got[0][0][:2]}' if len(got) == 1 else ''))
            else:
                res.append(got[0][0])
        return res

    def compare(self, tag, due, order, got, st, what, where):
        names, whole = self.settled(st)
        for pos, (i, g) in enumerate(zip(order, got)):
            if (due.get(i) if isinstance(due, dict) else due[i]) is None:
                continue
            self.ob.count('answers compared')
            d = differ(rename(g, names), rename(due[i], names))
            if d is not False:
                d = d and whole
                q = self.w.queries[i]
                self.note(tag, f'{where}: {q[2:]}', f'{what}: the answer to {q} ({pos + 1}. question) is '
                          f'{first_difference(g, due[i])}', d is True, st)
        if len(got) != len(order):
            self.note(tag, f'{where}: {got[-1][:2]}', f'{what}: {got[-1]} escapes', got[-1][0] == 'exc', st)


def show_doc(shapes, names):
    return ' / '.join(s + (f'({names[k].args[0].v})' if (k := next((k for k in names if k[0] == i), None)) else '')
                      for i, s in enumerate(shapes))


def named(shapes, pattern):
    """names for the keys of a document: pattern gives the class of every key and template in order"""
    sl = slots(shapes)
    sl += [(i, 'key' if s in ('ENTRY', 'ENTRYV') else 'ekey', 'key') for i, s in enumerate(shapes) if s.startswith('ENTRY')]
    sl.sort(key=lambda x: (x[0], x[1] in ('ltmpl', 'tmpl')))
    return {(i, p): name(c) for (i, p, _k), c in zip(sl, itertools.chain(pattern, itertools.repeat(0)))}


BLOCK = ['ML', 'RAW', 'MLEND']
DOCS = [
    (['FIELDV', 'FIELDV'], (0, 1)), (['FIELDV', 'FIELDV'], (0, 0)), (['COMV', 'FIELDV'], (0,)), (['FIELD', 'SPCV', 'DIRV'], (0,)),
    (['FIELDV', 'SPCV', 'COM', 'DIR'], (0,)), (['COMV', 'FIELD', 'ENTRYV', 'COMV', 'ENTRYV'], (0, 1, 2)),
    (['FIELD', 'ENTRYV', 'ENTRYV'], (0, 1, 1)), (['FIELD', 'ENTRY', 'SPCV', 'ENTRYEV'], (0, 1, 2)),
    (['FIELD', 'ITEMV', 'COMV', 'ITEMV', 'DIRV', 'ITEM'], (0,)), (['FIELD', 'ITEMV', 'FIELD', 'ITEMV'], (0, 0)),
    (['SEC1', 'FIELDV', 'FIELDV'], (0, 1, 2)), (['COMV', 'SEC1', 'FIELDV', 'SEC1', 'FIELD', 'ITEMV'], (0, 1, 0, 1)),
    (['SEC1', 'SEC2', 'FIELDV'], (0, 1, 1)), (BLOCK + ['FIELDV'], (0, 1)), (['ML', 'MLEND', 'FIELD'], (0, 1)),
    (['COMV'] + ['ML', 'RAW', 'RAW0', 'RAW', 'MLEND'], (0,)), (['FIELDE', 'FIELDEV'], (0, 1)), (['FIELD'], (0,)),
    (['E0', 'COM'], ()), (['E0'], ()), (['FIELDV', 'COPY'], (0, 1, 0)), (['FIELD', 'ENTRYV', 'COPY', 'ENTRYV'], (0, 1, 2, 0, 1)),
    (['FIELD', 'ITEMV', 'COPY', 'ITEMV'], (0, 1, 0)), (['COPY', 'COMV', 'FIELDV'], (1, 0, 0)),
    (['SEC1', 'FIELDV', 'SEC1T', 'FIELDV'], (0, 1, 2, 0, 3)), (['SEC1', 'SEC2', 'FIELDV', 'SEC1D', 'SEC2', 'FIELDV'], (0, 1, 2, 3, 0, 1, 4)),
    (BLOCK + ['COPY'], (0, 1, 0)),
]
BROKEN = [(['FIELDV', 'BAD'], (0,)), (['ML', 'RAW'], (0,)), (['DIRV'], ()), (['SEC2'], (0,)), (['FIELDV', 'COPY'], (0, 1, 2)),
          (['COPY', 'COPY'], (0, 1, 1, 0)), (['ITEMV'], ()), (['FIELDV', 'ENTRYV'], (0, 1))]
PLAIN = ('q_counts', 'q_raw', 'q_kinds', 'q_fields_all', 'q_errors')
SMALL = [0, 1, 2, 5, 8, 11, 13, 20, 24]


def repeat_ob(docs):
    def run(ob):
        h = History(ob)
        n = len(h.w.queries)
        for shapes, pattern in docs:
            names = named(shapes, pattern)
            doc = lines.Doc(shapes, names)
            outs = h.read(doc, h.start(names.values()))
            title = show_doc(shapes, names)
            ob.count('documents')
            if len(outs) != 1 or outs[0].kind != 'ret' or outs[0].st.taint:
                ob.unsure(f'document not read in one way: {title} {len(outs)}')
                continue
            root, st = outs[0].value, outs[0].st
            due = h.alone(root, st)
            orders = [list(range(n)) * 2, list(range(n))[::-1] * 2]
            if ob.tier != 'quick':
                orders += [[i for j in range(n) for i in (p, j)] for p in range(n)]
            for order in orders:
                for got, s in h.tour(root, st.fork(), order):
                    h.compare('changed', due, order, got, s, f'document {title}', 'enolib/elements')
    return run


def isolation_ob(pairs, plain=False):
    """plain: the document is read with the default options, the one before it with others"""
    def run(ob):
        h = History(ob)
        n = len(h.w.queries)
        tour = list(range(n))
        look = h.w.mod('enolib.lookup', 'lookup')
        for (sh1, p1), (sh2, p2), same, other in pairs:
            n1, n2 = named(sh1, p1), named(sh2, p2)
            d1, d2 = lines.Doc(sh1, n1, salt=0 if same else 1000), lines.Doc(sh2, n2)
            allnames = list(n1.values()) + list(n2.values())
            ob.count('pairs of documents')
            title = f'{show_doc(sh2, n2)} after {"the same" if same else show_doc(sh1, n1)}' + (
                ' for another locale and reporter' if other else '')
            fresh = h.read(d2, h.start(allnames), plain=plain)
            order = [i for i in tour if h.w.queries[i] in PLAIN] if plain else tour
            if len(fresh) != 1 or fresh[0].st.taint:
                ob.unsure(f'document not read in one way: {show_doc(sh2, n2)}')
                continue
            if fresh[0].kind == 'ret':
                due = []
                for got, s in h.tour(fresh[0].value, fresh[0].st, order):
                    due.append(got if not s.taint else None)
                due = dict(zip(order, due[0])) if len(due) == 1 and due[0] is not None else {}
                if not due:
                    ob.unsure('answers of the first reading not known')
            else:
                due = [h.failure(fresh[0])]
                if due[0][1] != ('c', 'str', 'ParseError'):
                    ob.unsure(f'{show_doc(sh2, n2)}: {show(due[0][1])}')
            st = h.start(allnames)
            for o in h.read(d1, st, other):
                h.w.e.doc, after = d1, [o.st]
                if o.kind == 'ret':
                    after = [s for _g, s in h.tour(o.value, o.st, tour)]
                if look is not None:
                    nxt = []
                    for s in after:
                        nxt += [x.st for x in h.w.call(look, [d1.text], s, {
                            'line': C(0), 'locale': h.w.loc2 if other else h.w.loc, 'reporter': h.w.rep2 if other else h.w.rep})]
                    after = nxt
                for s in after:
                    for o2 in h.read(d2, s, plain=plain):
                        if o2.kind != fresh[0].kind:
                            h.note('shared', f'enolib/parse.py parse: {o2.kind} instead of {fresh[0].kind}', title, True, o2.st)
                        elif o2.kind == 'exc':
                            ob.count('answers compared')
                            d = differ(h.failure(o2), due[0])
                            if d is not False:
                                h.note('shared', 'enolib/parse.py parse: error', f'{title}: {first_difference(h.failure(o2), due[0])}',
                                       d is True, o2.st)
                        else:
                            for got, s2 in h.tour(o2.value, o2.st, order):
                                h.compare('shared', due, order, got, s2, title, 'enolib/parse.py parse')
    return run


def failure(h, o):
    at = o.st.get(o.value.a).attrs
    return ('tup', ('c', 'str', exc_names(h.w, o.st, o.value)[0])) + tuple(
        thaw(h.w, o.st, at[k]) for k in ('text', 'selection', 'snippet') if k in at)


History.failure = failure


def repeat_obs(tier):
    pd.warm()
    return [(f'questions to document {i + 1}', repeat_ob([d])) for i, d in enumerate(DOCS)]


def isolation_obs(tier):
    pd.warm()
    firsts = DOCS + BROKEN
    seconds = DOCS + BROKEN[1:] if tier != 'quick' else [DOCS[i] for i in (2, 5, 8, 11, 13, 20, 25)] + BROKEN[1:5]
    pairs = [(a, b, False, (i + j) % 2 == 1) for j, b in enumerate(seconds) for i, a in enumerate(firsts)]
    pairs += [(b, b, True, other) for b in DOCS + BROKEN[1:] for other in (False, True)]
    if tier != 'quick':
        pairs += [(a, b, False, not other) for a, b, _s, other in pairs]
    n = 64
    obs = [(f'second documents {i + 1}/{n}', isolation_ob(pairs[i::n])) for i in range(n)]
    few = [(a, b, False, True) for b in [DOCS[i] for i in SMALL] + BROKEN[1:] for a in (DOCS[5], DOCS[23], BROKEN[3])]
    return obs + [(f'default options {i + 1}/8', isolation_ob(few[i::8], True)) for i in range(8)]
