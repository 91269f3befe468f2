"""Abstract documents: the shapes of the instruction records an analysed document consists of.

Records are created lazily; which record kind an unknown element is, which optional entries
it has and how many children it has are decided only when the analysed program asks.
The shapes themselves are guaranteed by the analyzer/resolver checks (assume-guarantee).
"""
from .values import *
from .state import *

KEYED = {'key'}


class Schema:
    def __init__(self, engine, depth=2, k=2, reporter='opaque'):
        self.e = engine
        self.depth = depth
        self.k = k
        self.chains = False  # extended templates may themselves extend or mirror a third record
        t = engine.st.get(engine.mods['enolib.constants']).vars['InstructionType']
        self.types = {n: v for n, v in engine.st.get(t.a).attrs.items() if isinstance(v, E)}
        self.input = T('str', 'input', ())
        self.line_count = T('int', 'count', (C('line_count'),))
        self.providers = {}
        engine.klimit.setdefault('items', k)
        engine.klimit.setdefault('entries', k)
        engine.klimit.setdefault('elements', k)
        engine.klimit.setdefault('continuations', k)
        engine.klimit.setdefault('comments', k)
        engine.klimit.setdefault('lines', k)
        engine.klimit.setdefault('meta', 1)

    # ---------------------------------------------------------------- providers
    def P(self, name, fn):
        if name not in self.providers:
            self.providers[name] = Provider(name, fn)
        return self.providers[name]

    def type_(self, n):
        return self.P(f'type={n}', lambda e, s, o, k, n=n: self.types[n])

    def text(self, nonempty=True):
        def fn(e, s, o, k):
            t = T('str', 'field', (o, C(k)))
            if nonempty:
                s.truth[t] = True
            return t
        return self.P(f'text{nonempty}', fn)

    def line(self):
        def fn(e, s, o, k):
            t = T('int', 'line', (o,))
            s.assume('>=', t, C(0))
            s.assume('<', t, self.line_count)
            return t
        return self.P('line', fn)

    def ranges(self, names, opt=()):
        sig = 'ranges:' + ','.join(names) + '|' + ','.join(opt)

        def fn(e, s, o, k):
            d = DictO({}, tag='doc:ranges', ghost={'owner': o, 'kind': 'ranges'})
            r = s.alloc(d)
            for n in ('line',) + tuple(names):
                d.keys[C(n)] = self.span(s, o, n)
            for n in opt:
                d.opt[C(n)] = self.P(f'span', lambda e2, s2, r2, k2: self.span(s2, s2.get(r2.a).ghost['owner'], k2))
            return r
        return self.P(sig, fn)

    def span(self, s, owner, name):
        b, e = T('int', 'rlo', (owner, C(name))), T('int', 'rhi', (owner, C(name)))
        s.assume('<=', b, e)
        s.assume('>=', b, C(0))
        s.assume('<=', e, T('int', 'len', (self.input,)))
        if name != 'line':
            s.assume('<=', T('int', 'rlo', (owner, C('line'))), b)
            s.assume('<=', e, T('int', 'rhi', (owner, C('line'))))
        return Tup((b, e))

    def children(self, name, kind, minimum, sub=None):
        """a list of `minimum` or more records"""
        def elem(e, s, o, j):
            owner = s.get(o.a).ghost.get('owner')
            if owner is None:
                raise KeyError((name, kind, s.get(o.a).ghost, s.get(o.a).tag, s.get(o.a).items))
            r = self.make(s, kind, parent=owner if kind not in ('CONTINUATION', 'COMMENT', 'MLVALUE') else None,
                          role=(name, j))
            prev = [x for x in s.get(o.a).items if isinstance(x, R)]
            return r
        seg = self.P(f'{name}', elem) if kind in ('CONTINUATION', 'COMMENT', 'MLVALUE', 'LIST_ITEM',
                                                  'FIELDSET_ENTRY') else self.P(name, elem)

        def fn(e, s, o, k):
            return s.alloc(ListO((Seg(seg, minimum),), tag='doc:' + name, ghost={'owner': o, 'name': name}))
        return self.P(f'list:{name}:{kind}:{minimum}', fn)

    def record(self, kind, role=None):
        def fn(e, s, o, k):
            return self.make(s, kind, parent=None, role=(role or kind, 0), of=o)
        return self.P(f'rec:{kind}:{role}', fn)

    # ---------------------------------------------------------------- shapes
    def shapes(self, kind, level=0):
        t, line, txt = self.type_, ('req', self.line()), self.text()
        esc = ('escape_begin_operator', 'escape_end_operator')
        com = ('opt', self.children('comments', 'COMMENT', 1))
        conts = self.children('continuations', 'CONTINUATION', 1)
        base = {'line': line, 'comments': com}
        out = []

        def add(name, typ, **kw):
            d = dict(base)
            d['type'] = ('req', t(typ))
            for k, v in kw.items():
                if v is None:
                    d.pop(k, None)
                else:
                    d[k] = v
            out.append((name, d))
        keyed = dict(key=('req', txt), parent=('req', self.parent_provider()))
        colon = ('element_operator', 'key')
        copyr = ('copy_operator', 'template', 'key')
        if kind in ('EMPTY', 'ELEMENT'):
            add('empty', 'EMPTY_ELEMENT', **keyed, ranges=('req', self.ranges(colon, esc)))
            add('empty-copy', 'EMPTY_ELEMENT', **keyed, template=('req', txt), ranges=('req', self.ranges(copyr, esc)))
        if kind in ('FIELD', 'ELEMENT', 'VALUEFIELD'):
            add('field-value', 'FIELD', **keyed, value=('req', txt), continuations=('opt', conts),
                ranges=('req', self.ranges(colon + ('value',), esc)))
            add('field-continued', 'FIELD', **keyed, continuations=('req', conts),
                ranges=('req', self.ranges(colon, esc)))
        if kind in ('FIELD', 'ELEMENT'):
            add('field-mirror', 'FIELD', **keyed, template=('req', txt),
                mirror=('req', self.record('VALUEFIELD', 'mirror')), ranges=('req', self.ranges(copyr, esc)))
        if kind in ('MULTILINE', 'ELEMENT', 'VALUEFIELD'):
            add('multiline-empty', 'MULTILINE_FIELD_BEGIN', **keyed, end=('req', self.record('END', 'end')),
                ranges=('req', self.ranges(('multiline_field_operator', 'key'))))
            add('multiline', 'MULTILINE_FIELD_BEGIN', **keyed, end=('req', self.record('END', 'end')),
                lines=('req', self.children('lines', 'MLVALUE', 1)),
                ranges=('req', self.ranges(('multiline_field_operator', 'key'))))
        for K, typ, coll, item in (('FIELDSET', 'FIELDSET', 'entries', 'FIELDSET_ENTRY'),
                                   ('LIST', 'LIST', 'items', 'LIST_ITEM')):
            if kind in (K, K + '-PLAIN', K + '-OWN', K + '-TPL', 'ELEMENT'):
                kids = self.children(coll, item, 1)
                add(f'{K.lower()}', typ, **keyed, **{coll: ('req', kids)}, ranges=('req', self.ranges(colon, esc)))
                if kind != K + '-PLAIN':
                    add(f'{K.lower()}-copy-of-empty', typ, **keyed, template=('req', txt), **{coll: ('req', kids)},
                        ranges=('req', self.ranges(copyr, esc)))
                    nxt = K + '-TPL' if self.chains and kind == K else K + '-PLAIN'
                    add(f'{K.lower()}-extend', typ, **keyed, template=('req', txt), **{coll: ('req', kids)},
                        extend=('req', self.record(nxt, 'extend')), ranges=('req', self.ranges(copyr, esc)))
                    if kind != K + '-OWN':
                        add(f'{K.lower()}-mirror', typ, **keyed, template=('req', txt),
                            mirror=('req', self.record(K + ('-PLAIN' if kind == K + '-TPL' else '-OWN'), 'mirror')), ranges=('req', self.ranges(copyr, esc)))
        if kind in ('SECTION', 'ELEMENT', 'SECTION-PLAIN', 'SECTION-OWN', 'SECTION-TPL', 'SECTION-LEAF'):
            sub = self.children('elements', 'ELEMENT' if kind != 'SECTION-LEAF' else 'LEAFELEMENT', 0)
            rng = ('section_operator', 'key')
            if kind == 'SECTION-LEAF':
                add('section', 'SECTION', **keyed, elements=('req', sub), ranges=('req', self.ranges(rng, esc)))
            else:
                add('section', 'SECTION', **keyed, elements=('req', sub), ranges=('req', self.ranges(rng, esc)))
            if kind not in ('SECTION-PLAIN', 'SECTION-LEAF'):
                copied = ('template', 'copy_operator')
                deep = ('template', 'deep_copy_operator')
                # a deep merge also gives untemplated subsections an extend / mirror target
                for nm, rr, tpl in (('', copied, True), ('-deep', deep, True), ('-merged', (), False))[
                        :1 if kind == 'SECTION-TPL' or self.chains and kind == 'SECTION' else 3]:
                    kw = dict(keyed)
                    if tpl:
                        kw['template'] = ('req', txt)
                    if nm == '-deep':
                        kw['deep_copy'] = ('req', TRUE)
                    add('section-extend' + nm, 'SECTION', **kw,
                        elements=('req', self.children('elements', 'ELEMENT', 1)),
                        extend=('req', self.record('SECTION-TPL' if self.chains and kind == 'SECTION' else 'SECTION-PLAIN',
                                                   'extend')),
                        ranges=('req', self.ranges(rng + rr, esc)))
                    if kind != 'SECTION-OWN':
                        add('section-mirror' + nm, 'SECTION', **kw,
                            elements=('req', self.empty_list()),
                            mirror=('req', self.record('SECTION-PLAIN' if kind == 'SECTION-TPL' else 'SECTION-OWN',
                                                       'mirror')),
                            ranges=('req', self.ranges(rng + rr, esc)))
        if kind == 'LIST_ITEM' or kind == 'FIELDSET_ENTRY':
            op = 'item_operator' if kind == 'LIST_ITEM' else 'entry_operator'
            ks = dict(parent=('req', self.parent_provider()))
            ro = ()
            rq = (op,)
            if kind == 'FIELDSET_ENTRY':
                ks['key'] = ('req', txt)
                ro, rq = esc, (op, 'key')
            add(kind.lower() + '-value', kind, **ks, value=('req', txt), continuations=('opt', conts),
                ranges=('req', self.ranges(rq + ('value',), ro)))
            add(kind.lower() + '-novalue', kind, **ks, continuations=('opt', conts),
                ranges=('req', self.ranges(rq, ro)))
        if kind == 'CONTINUATION':
            for sp in ('direct', 'spaced'):
                for v in (True, False):
                    kw = {'comments': None}
                    if sp == 'spaced':
                        kw['spaced'] = ('req', TRUE)
                    if v:
                        kw['value'] = ('req', txt)
                    add(f'{sp}{"-value" if v else ""}', 'CONTINUATION', **kw, ranges=('req', self.ranges(
                        (f'{sp}_line_continuation_operator',) + (('value',) if v else ()))))
        if kind == 'COMMENT':
            add('comment', 'COMMENT', comments=None, comment=('req', txt),
                ranges=('req', self.ranges(('comment_operator', 'comment'))))
            add('comment-empty', 'COMMENT', comments=None, ranges=('req', self.ranges(('comment_operator',))))
        if kind == 'MLVALUE':
            add('mlvalue', 'MULTILINE_FIELD_VALUE', comments=None, ranges=('req', self.ranges(('value',))))
        if kind == 'END':
            add('end', 'MULTILINE_FIELD_END', comments=None,
                ranges=('req', self.ranges(('multiline_field_operator', 'key'))))
        if kind == 'DOCUMENT':
            out.append(('document', {'type': ('req', t('DOCUMENT')),
                                     'elements': ('req', self.children('elements', 'ELEMENT', 0))}))
        assert out, kind
        return out

    def empty_list(self):
        return self.P('list:none', lambda e, s, o, k: s.alloc(ListO((), tag='doc:elements', ghost={'owner': o,
                                                                                                   'name': 'elements'})))

    def parent_provider(self):
        def fn(e, s, o, k):
            g = s.get(o.a).ghost
            if g.get('parent') is not None:
                return g['parent']
            kind = {'LIST_ITEM': 'LIST-OWN', 'FIELDSET_ENTRY': 'FIELDSET-OWN'}.get(g['kind'], 'SUPER')
            return self.make(s, kind, None, ('parent', 0))
        return self.P('parent', fn)

    def make(self, s, kind, parent=None, role=('root', 0), of=None):
        if kind == 'SUPER':
            shapes = self.cached('SECTION') + self.cached('DOCUMENT')
        else:
            shapes = self.cached(kind)
        d = DictO({}, variants=tuple(shapes), tag=f'doc:{kind}',
                  ghost={'kind': kind, 'parent': parent, 'role': role, 'of': of})
        return s.alloc(d)

    def cached(self, kind):
        c = self.__dict__.setdefault('_cache', {})
        if kind not in c:
            # elements inside extended / nested levels are bounded by the k-limits of their lists
            c[kind] = self.shapes(kind)
        return c[kind]

    # ---------------------------------------------------------------- contexts
    def context(self, s, document=True):
        """Context of an arbitrary successfully parsed document"""
        e = self.e
        cls = s.get(e.mods['enolib.context']).vars['Context']
        out = []
        res = list(e.call(cls, [C('')], {}, s, e.topframe, None, out))
        assert len(res) == 1, (res, out)
        ctx, s = res[0]
        m = s.mut(ctx.a)
        m.attrs['input'] = self.input
        m.attrs['source'] = T('str', 'source', (), opt=True)
        m.attrs['line_count'] = self.line_count
        s.assume('>=', self.line_count, C(1))
        m.attrs['messages'] = s.alloc(InstO(B('opaque:locale'), {}))
        m.attrs['reporter'] = s.alloc(InstO(B('opaque:reporterclass'), {}))
        if document:
            doc = self.make(s, 'DOCUMENT')
            m = s.mut(ctx.a)
            m.attrs['document'] = doc
            m.attrs['meta'] = s.alloc(ListO((Seg(self.P('meta', lambda e2, s2, o, j: self.make(s2, 'COMMENT')), 0),),
                                            tag='doc:meta', ghost={'owner': doc, 'name': 'meta'}))
        return ctx, s
