"""Query API: accessor outcome tables."""
from .common import *

KINDS = ('element', 'empty', 'field', 'fieldset', 'list', 'section')
REAL = {'element': 'SectionElement', 'empty': 'Empty', 'field': 'Field', 'fieldset': 'Fieldset', 'list': 'List',
        'section': 'Section', 'fieldset_entry': 'FieldsetEntry', 'list_item': 'ListItem'}
MISSING = {'element': 'MissingSectionElement', 'empty': 'MissingEmpty', 'field': 'MissingField',
           'fieldset': 'MissingFieldset', 'list': 'MissingList', 'section': 'MissingSection',
           'fieldset_entry': 'MissingFieldsetEntry'}
KEY = T('str', 'arg', (C('key'),))


def key_value(form, st):
    if form == 'key':
        st.truth[KEY] = True
        st.assume('>', T('int', 'len', (KEY,)), C(0))
        return KEY
    return NONE


def section_object(w, st, form, allreq=False):
    """-> (Section instance, record, state); form: document / section kinds of the schema"""
    ctx, st = w.sc.context(st)
    doc = st.get(ctx.a).attrs['document']
    if form != 'document':
        d = st.mut(doc.a)
        d.variants = None
        d.keys = {C('type'): w.sc.types['DOCUMENT'], C('elements'): st.alloc(ListO((), tag='doc:elements'))}
    o = w.new('enolib.elements.section', 'Section', [ctx, doc], st)
    assert len(o) == 1 and o[0].kind == 'ret', o
    sec, st = o[0].value, o[0].st
    if allreq and form != 'document':
        sec, st = all_required(w, sec, st)
    if form == 'document':
        if allreq:
            res = [(sec, s) for _, s in [all_required(w, sec, st)]] if False else None
        return sec, doc, st, ctx
    rec = w.sc.make(st, form, parent=doc)
    o = w.new('enolib.elements.section', 'Section', [ctx, rec, sec], st)
    assert len(o) == 1 and o[0].kind == 'ret', o
    return o[0].value, rec, o[0].st, ctx


def all_required(w, obj, st, name='all_elements_required'):
    r = [x for x in w.method(obj, name, [], st)]
    assert len(r) == 1 and r[0].kind == 'ret', r
    return obj, r[0].st


def compare_value(w, ob, rule, site, r, s, kind, rec, parent, extra):
    """returned instance is a `kind` for record rec below parent"""
    n = cls_name(w, s, r)
    if n != REAL[kind]:
        if has_top(r):
            ob.unsure('result unknown')
            return False
        ob.violation(rule, site, f'returns {w.describe(s, r)} instead of a {REAL[kind]}', **extra())
        return False
    got = record_of(w, s, r)
    if got is None:
        ob.unsure('element instance without recognisable record')
        return False
    if got != rec:
        ob.violation(rule, site, f'returns the wrong element: {w.describe(s, got)} instead of {w.describe(s, rec)}',
                     **extra())
        return False
    return True


def judge(w, ob, rule, site, outcome, spec, parent, keyv):
    """compare one outcome with one evaluation of the reference function in the same state"""
    ob.count('outcomes compared')
    st = spec.st
    if st.taint:
        ob.unsure('branch on unknown information')
        return

    def extra():
        return {'facts': facts(w, st), 'records': records(w, st)}
    exp = spec.value
    what = exp.items[0].v
    if outcome.kind == 'exc' and not is_error(w, st, outcome.value):
        o = st.get(outcome.value.a)
        ob.violation(rule + '/crash', site_of_crash(o, site), f'{cls_name(w, st, outcome.value)} escapes: '
                     f'{o.ghost.get("msg")} at {o.ghost.get("site")} (expected {show(exp)})', **extra())
        return
    if what in ('raise', 'error'):
        want = msg(exp.items[1].v, exp.items[2]) if what == 'raise' else errmsg(exp)
        if outcome.kind != 'exc':
            if has_top(outcome.value):
                ob.unsure('result unknown')
                return
            ob.violation(rule, site, f'returns {w.describe(st, outcome.value)} where an error '
                         f'"{exp.items[1].v}" is due', **extra())
            return
        text = err_text(w, st, outcome.value)
        if not same(w, st, text, want):
            if has_top(text):
                ob.unsure('error text unknown')
                return
            ob.violation(rule, site, f'reports {text!r} instead of {want!r}', **extra())
        return
    if outcome.kind == 'exc':
        ob.violation(rule, site, f'raises {w.describe(st, outcome.value)} where {show(exp)} is due', **extra())
        return
    v = outcome.value
    if what in ('text', 'is', 'bool', 'int'):
        want = exp.items[1]
        if not same(w, st, v, want):
            if has_top(v, st) or undecided_text(v, want):
                ob.unsure('result not comparable')
            else:
                ob.violation(rule, site, f'returns {w.describe(st, v)} instead of {w.describe(st, want)}', **extra())
    elif what == 'none':
        if v != NONE:
            if has_top(v):
                ob.unsure('result unknown')
            else:
                ob.violation(rule, site, f'returns {w.describe(st, v)} instead of None', **extra())
    elif what == 'missing':
        if cls_name(w, st, v) != MISSING[exp.items[1].v]:
            if has_top(v):
                ob.unsure('result unknown')
            else:
                ob.violation(rule, site, f'returns {w.describe(st, v)} instead of the missing-'
                             f'{exp.items[1].v} stand-in', **extra())
    elif what == 'value':
        compare_value(w, ob, rule, site, v, st, exp.items[1].v, exp.items[2], parent, extra)
    elif what == 'texts':
        lst = st.get(v.a) if isinstance(v, R) else None
        want = st.get(exp.items[1].a).items
        if not isinstance(lst, ListO) or len(lst.items) != len(want) or not all(
                isinstance(a, V) and same(w, st, a, b) for a, b in zip(lst.items, want)):
            if has_top(v, st) or isinstance(lst, ListO) and any(isinstance(x, Seg) or undecided_text(x, x)
                                                               for x in lst.items):
                ob.unsure('result not comparable')
            else:
                ob.violation(rule, site, f'returns {w.describe(st, v)} instead of {w.describe(st, exp.items[1])}',
                             **extra())
    elif what == 'values':
        lst = st.get(v.a) if isinstance(v, R) else None
        want = st.get(exp.items[2].a).items
        if not isinstance(lst, ListO):
            if has_top(v):
                ob.unsure('result unknown')
            else:
                ob.violation(rule, site, f'returns {w.describe(st, v)} instead of a list', **extra())
            return
        if len(lst.items) != len(want) or any(isinstance(x, Seg) for x in lst.items):
            if any(isinstance(x, Seg) for x in lst.items):
                ob.unsure('list length undecided')
                return
            ob.violation(rule, site, f'returns {len(lst.items)} elements where {len(want)} are due', **extra())
            return
        for a, b in zip(lst.items, want):
            if not compare_value(w, ob, rule, site, a, st, exp.items[1].v, b, parent, extra):
                return


def errmsg(exp):
    args = exp.items[2:]
    if isinstance(exp.items[1], R):         # ('error', values so far, message, ...)
        return errmsg(Tup((C('error'),) + exp.items[2:]))
    if args:
        return T('str', 'msgcall', (exp.items[1],) + tuple(args))
    return T('str', 'msg', (exp.items[1],))


def undecided_text(a, b):
    """terms whose difference is not evidence: operations the analysis does not interpret"""
    return any(isinstance(x, T) and x.op in ('re.sub', 'format') for v in (a, b) for x in subterms(v))


def site_of_crash(o, default):
    s = o.ghost.get('site') or default
    # drop the line number: findings are keyed by construct
    if ' in ' in s:
        f, _, q = s.partition(' in ')
        return f.split(':')[0] + ' ' + q
    return s


def show(exp):
    return '(' + ', '.join(repr(x) for x in exp.items) + ')'


def run_table(ob, w, sec, rec, st, meth, args, specname, specargs, keyv, kind):
    e = w.e
    e.roots = [sec, rec]
    site = f'{cls_name(w, st, sec)}.{meth}()'
    spec = w.mod('spec_api', specname)
    outs = w.method(sec, meth, args, st)
    ob.count('abstract outcomes', len(outs))
    if not outs:
        ob.unsure('no outcome')
    for o in outs:
        for s in w.call(spec, specargs, o.st):
            if s.kind == 'exc':
                ob.unsure(f'reference function: {w.describe(s.st, s.value)}')
                continue
            judge(w, ob, 'accessor-table', site, o, s, sec, keyv)
    ob.sample(f'{site} key={keyv!r}: {len(outs)} abstract outcomes')


def single_obs(tier):
    k = 2 if tier == 'quick' else 3
    obs = []
    for kind in KINDS:
        for mode, meth in ((None, kind), (False, f'optional_{kind}'), (True, f'required_{kind}')):
            for kf in ('key', 'nokey'):
                for form in ('document', 'SECTION'):
                    for allreq in (False, True):
                        if form == 'document' and allreq:
                            continue

                        def fn(ob, kind=kind, mode=mode, meth=meth, kf=kf, form=form, allreq=allreq):
                            w = world(ob, k=k)
                            st = w.state()
                            sec, rec, st, ctx = section_object(w, st, form, allreq)
                            kv = key_value(kf, st)
                            args = [kv] if kf == 'key' else []
                            run_table(ob, w, sec, rec, st, meth, args, 'single',
                                      [rec, kv, C(kind), C(mode), C(allreq)], kv, kind)
                        obs.append((f'{meth}/{kf}/{form}/{"allreq" if allreq else "free"}', fn))
    return obs


# ------------------------------------------------------------------------------------ plural accessors
PLURAL = {'elements': 'element', 'fields': 'field', 'fieldsets': 'fieldset', 'lists': 'list', 'sections': 'section'}


def instance(w, st, module, cls, kind, parent=None):
    """-> (instance, record, state): a wrapper object around an arbitrary record of a kind"""
    ctx, st = w.sc.context(st)
    rec = w.sc.make(st, kind, parent=parent)
    o = w.new(f'enolib.elements.{module}', cls, [ctx, rec], st)
    if len(o) != 1 or o[0].kind != 'ret':
        raise Unsupported(f'constructor of {cls}')
    return o[0].value, rec, o[0].st, ctx


WRAPPERS = {'fieldset': ('fieldset', 'Fieldset', ('FIELDSET', 'EMPTY')), 'list': ('list', 'List', ('LIST', 'EMPTY')),
            'field': ('field', 'Field', ('FIELD', 'MULTILINE', 'EMPTY')), 'empty': ('empty', 'Empty', ('EMPTY',)),
            'fieldset_entry': ('fieldset_entry', 'FieldsetEntry', ('FIELDSET_ENTRY',)),
            'list_item': ('list_item', 'ListItem', ('LIST_ITEM',)),
            'section': ('section', 'Section', ('SECTION',)),
            'document': ('section', 'Section', ('DOCUMENT',)),
            'section_element': ('section_element', 'SectionElement', ('ELEMENT',)),
            'element': ('element', 'Element', ('ELEMENT', 'LIST_ITEM', 'FIELDSET_ENTRY', 'DOCUMENT'))}


def wrap(w, st, name, kind):
    m, c, _ = WRAPPERS[name]
    return instance(w, st, m, c, kind)


def plural_obs(tier):
    k = 2 if tier == 'quick' else 3
    obs = []
    for meth, kind in PLURAL.items():
        for kf in ('key', 'nokey'):
            for form in ('document', 'SECTION'):
                def fn(ob, meth=meth, kind=kind, kf=kf, form=form):
                    w = world(ob, k=k)
                    st = w.state()
                    sec, rec, st, ctx = section_object(w, st, form)
                    kv = key_value(kf, st)
                    run_table(ob, w, sec, rec, st, meth, [kv] if kf == 'key' else [], 'plural',
                              [rec, kv, C(kind)], kv, kind)
                obs.append((f'{meth}/{kf}/{form}', fn))
    for kf in ('key', 'nokey'):
        for meth, kind, name, form, spec in (('elements', 'element', 'section', 'SECTION', 'plural'),
                                             ('entries', 'fieldset_entry', 'fieldset', 'FIELDSET', 'plural_entries'),
                                             ('items', 'list_item', 'list', 'LIST', 'list_items')):
            if name == 'list' and kf == 'key':
                continue

            def chained(ob, kf=kf, meth=meth, kind=kind, name=name, form=form, spec=spec):
                w = chained_copies(world(ob, k=1 if name == 'section' else 2 if tier == 'quick' else 3))
                obj, rec, st, ctx = wrap(w, w.state(), name, form)
                kv = key_value(kf, st)
                run_table(ob, w, obj, rec, st, meth, [kv] if kf == 'key' else [], spec,
                          {'plural': [rec, kv, C(kind)], 'plural_entries': [rec, kv], 'list_items': [rec]}[spec], kv, kind)
            obs.append((f'{meth}/{kf}/{form}/copy of a copy', chained))
    for kf in ('key', 'nokey'):
        for form in ('FIELDSET', 'EMPTY'):
            def fn(ob, kf=kf, form=form):
                w = world(ob, k=k + 1)
                st = w.state()
                obj, rec, st, ctx = wrap(w, st, 'fieldset', form)
                kv = key_value(kf, st)
                run_table(ob, w, obj, rec, st, 'entries', [kv] if kf == 'key' else [], 'plural_entries', [rec, kv],
                          kv, 'fieldset_entry')
            obs.append((f'entries/{kf}/{form}', fn))
    for form in ('LIST', 'EMPTY'):
        for meth, spec in (('items', 'list_items'), ('length', 'list_length')):
            def fn(ob, form=form, meth=meth, spec=spec):
                w = world(ob, k=k + 1)
                st = w.state()
                obj, rec, st, ctx = wrap(w, st, 'list', form)
                run_table(ob, w, obj, rec, st, meth, [], spec, [rec], NONE, 'list_item')
            obs.append((f'{meth}/{form}', fn))
    return obs


def entry_obs(tier):
    """Fieldset.entry / optional_entry / required_entry"""
    k = 2 if tier == 'quick' else 3
    obs = []
    for mode, meth in ((None, 'entry'), (False, 'optional_entry'), (True, 'required_entry')):
        for kf in ('key', 'nokey'):
            for form in ('FIELDSET', 'EMPTY'):
                for allreq in (False, True):
                    def fn(ob, mode=mode, meth=meth, kf=kf, form=form, allreq=allreq):
                        w = world(ob, k=k + 1)
                        st = w.state()
                        obj, rec, st, ctx = wrap(w, st, 'fieldset', form)
                        if allreq:
                            obj, st = all_required(w, obj, st, 'all_entries_required')
                        kv = key_value(kf, st)
                        run_table(ob, w, obj, rec, st, meth, [kv] if kf == 'key' else [], 'single_entry',
                                  [rec, kv, C(mode), C(allreq)], kv, 'fieldset_entry')
                    obs.append((f'{meth}/{kf}/{form}/{"allreq" if allreq else "free"}', fn))
    return obs


# ------------------------------------------------------------------------------------ text accessors
LOADER = T('callable', 'loader', (C('loader'), C('any')))


def loader_events(st, f=LOADER):
    return [ev for ev in st.log if ev[0] == 'call' and ev[1] == f]


def judge_loaded(w, ob, rule, site, outcome, spec):
    """outcome of an accessor that takes a loader, against the text that is due"""
    ob.count('outcomes compared')
    st, exp = spec.st, spec.value
    if st.taint:
        ob.unsure('branch on unknown information')
        return

    def extra():
        return {'facts': facts(w, st), 'records': records(w, st)}
    what = exp.items[0].v
    calls = loader_events(outcome.st)
    if what != 'text':
        if calls:
            ob.violation(rule + '/loader', site, 'calls the loader although there is nothing to load', **extra())
            return
        judge(w, ob, rule, site, outcome, spec, None, None)
        return
    text = exp.items[1]
    if len(calls) != 1:
        ob.violation(rule + '/loader', site, f'calls the loader {len(calls)} times for one text', **extra())
        return
    args = calls[0][2]
    if len(args) != 1 or not same(w, st, args[0], text):
        if args and (has_top(args[0], st) or undecided_text(args[0], text)):
            ob.unsure('loader argument not comparable')
        else:
            ob.violation(rule + '/loader', site, f'passes {args!r} to the loader instead of {text!r}', **extra())
        return
    v = outcome.value
    if outcome.kind == 'ret':
        if v != T('any', 'ret', (LOADER, args[0])):
            if has_top(v):
                ob.unsure('result unknown')
            else:
                ob.violation(rule + '/loader', site, f'returns {w.describe(st, v)} instead of what the loader returned',
                             **extra())
        return
    o = st.get(v.a)
    if o.ghost.get('loader'):
        if o.cls == B('ValueError'):
            ob.violation(rule + '/loader', site, 'lets a ValueError of the loader escape as it is', **extra())
        return
    if not is_error(w, st, v):
        ob.violation(rule + '/crash', site_of_crash(o, site), f'{cls_name(w, st, v)} escapes: {o.ghost.get("msg")} at '
                     f'{o.ghost.get("site")}', **extra())
        return
    t = err_text(w, st, v)
    exc = t.args[1] if isinstance(t, T) and t.op == 'msgcall' and len(t.args) == 2 else None
    if isinstance(exc, T) and exc.op == 'str' and exc.args:
        exc = exc.args[0]
    xo = st.get(exc.a) if isinstance(exc, R) else None
    if has_top(t):
        ob.unsure('error text unknown')
    elif t.op != 'msgcall' or t.args[0] != exp.items[2]:
        ob.violation(rule + '/loader', site, f'reports {t!r} for a rejected text instead of {exp.items[2]!r}', **extra())
    elif not (isinstance(xo, InstO) and xo.ghost.get('loader')):
        if isinstance(exc, T):
            ob.unsure('error message derived from the exception')
        else:
            ob.violation(rule + '/loader', site, f'reports {exc!r} instead of the message of the loader', **extra())
    elif xo.cls != B('ValueError'):
        ob.violation(rule + '/loader', site, f'turns a {xo.cls.name} of the loader into a validation error', **extra())


def text_run(ob, w, obj, rec, st, meth, args, specmod, specname, specargs, loaded):
    w.e.roots = [obj, rec]
    site = f'{cls_name(w, st, obj)}.{meth}()'
    spec = w.mod(f'spec_{specmod}', specname)
    outs = w.method(obj, meth, args, st)
    ob.count('abstract outcomes', len(outs))
    if not outs:
        ob.unsure('no outcome')
    for o in outs:
        for s in w.call(spec, specargs, o.st):
            if s.kind == 'exc':
                ob.unsure(f'reference function: {w.describe(s.st, s.value)}')
                continue
            if loaded:
                judge_loaded(w, ob, 'text-accessor', site, o, s)
            else:
                judge(w, ob, 'text-accessor', site, o, s, obj, None)
    ob.sample(f'{site}: {len(outs)} abstract outcomes')


VALUED = ('field', 'fieldset_entry', 'list_item')


def value_obs(tier, loaded=False):
    k = 3 if tier == 'quick' else 4
    obs = []
    for name in VALUED:
        for kind in WRAPPERS[name][2]:
            for req in (False, True):
                mode = 'required' if req else 'optional'
                meth = f'{mode}_value' if loaded else f'{mode}_string_value'

                def fn(ob, name=name, kind=kind, req=req, meth=meth):
                    w = world(ob, k=k, specs=('values',))
                    st = w.state()
                    obj, rec, st, ctx = wrap(w, st, name, kind)
                    inp = st.get(ctx.a).attrs['input']
                    text_run(ob, w, obj, rec, st, meth, [LOADER] if loaded else [], 'values', 'read_value',
                             [inp, rec, C(req)], loaded)
                obs.append((f'{name}.{meth}/{kind}', fn))
    for kind, lm in [(x, y) for x in WRAPPERS['list'][2] for y in (('ok', 'any') if loaded else ('ok',))]:
        for req in (False, True):
            mode = 'required' if req else 'optional'
            meth = f'{mode}_values' if loaded else f'{mode}_string_values'

            def fn(ob, kind=kind, req=req, meth=meth, lm=lm):
                w = world(ob, k=1 if lm == 'any' else 2, specs=('values', 'api'))
                w.e.klimit['continuations'] = 1
                st = w.state()
                obj, rec, st, ctx = wrap(w, st, 'list', kind)
                inp = st.get(ctx.a).attrs['input']
                if loaded:
                    list_loaded(ob, w, obj, rec, st, meth, inp, req, T('callable', 'loader', (C('loader'), C(lm))))
                else:
                    text_run(ob, w, obj, rec, st, meth, [], 'values', 'list_values', [inp, rec, C(req)], False)
            obs.append((f'list.{meth}/{kind}/{lm}', fn))
    return obs


def list_loaded(ob, w, obj, rec, st, meth, inp, req, LOADER):
    """each item with a value goes to the loader once, in order; the results come back in that order"""
    w.e.roots = [obj, rec]
    site = f'List.{meth}()'
    outs = w.method(obj, meth, [LOADER], st)
    ob.count('abstract outcomes', len(outs))
    for o in outs:
        for s in w.call(w.mod('spec_values', 'list_values'), [inp, rec, C(req)], o.st):
            ob.count('outcomes compared')
            if s.kind == 'exc' or s.st.taint:
                ob.unsure('reference')
                continue
            st = s.st
            exp = s.value

            def extra():
                return {'facts': facts(w, st), 'records': records(w, st)}
            passed = [ev[2][0] for ev in loader_events(o.st, LOADER) if len(ev[2]) == 1]
            due = [x for x in st.get(exp.items[1].a).items if x != NONE]
            for a, b in zip(passed, due):
                if not same(w, st, a, b):
                    ob.violation('text-accessor/loader', site, f'passes {a!r} to the loader where {b!r} is due', **extra())
            if len(passed) > len(due):
                ob.violation('text-accessor/loader', site, f'calls the loader {len(passed)} times for {len(due)} values',
                             **extra())
                continue
            if o.kind == 'ret':
                lst = st.get(o.value.a) if isinstance(o.value, R) else None
                if not isinstance(lst, ListO) or exp.items[0].v == 'error':
                    ob.violation('text-accessor/loader', site, f'returns {w.describe(st, o.value)}', **extra())
                    continue
                want = [x if x == NONE else T('any', 'ret', (LOADER, x)) for x in st.get(exp.items[1].a).items]
                if len(want) != len(lst.items) or not all(a == b or isinstance(b, T) and isinstance(a, T) and
                                                          a.op == 'ret' and same(w, st, a.args[1], b.args[1])
                                                          for a, b in zip(lst.items, want)):
                    ob.violation('text-accessor/loader', site, f'returns {w.describe(st, o.value)} instead of {want!r}',
                                 **extra())
            elif not is_error(w, st, o.value) and not st.get(o.value.a).ghost.get('loader'):
                ob.violation('text-accessor/crash', site_of_crash(st.get(o.value.a), site), w.describe(st, o.value), **extra())
            elif not is_error(w, st, o.value) and st.get(o.value.a).cls == B('ValueError'):
                ob.violation('text-accessor/loader', site, 'lets a ValueError of the loader escape as it is', **extra())
            elif is_error(w, st, o.value) and len(passed) == len(due) and exp.items[0].v == 'error' and \
                    not any(isinstance(x, R) for x in subterms(err_text(w, st, o.value))) and \
                    not same(w, st, err_text(w, st, o.value), errmsg(Tup((C('error'),) + exp.items[2:]))):
                ob.violation('text-accessor', site, f'reports {err_text(w, st, o.value)!r}', **extra())
    ob.sample(f'{site}: {len(outs)} abstract outcomes')


def comment_obs(tier, loaded=False):
    k = 3 if tier == 'quick' else 4
    obs = []
    for name in ('field', 'empty', 'fieldset', 'list', 'section', 'fieldset_entry', 'list_item', 'section_element'):
        for kind in WRAPPERS[name][2]:
            for req in (False, True):
                mode = 'required' if req else 'optional'
                meth = f'{mode}_comment' if loaded else f'{mode}_string_comment'

                def fn(ob, name=name, kind=kind, req=req, meth=meth):
                    w = world(ob, k=k, specs=('values',))
                    st = w.state()
                    obj, rec, st, ctx = wrap(w, st, name, kind)
                    text_run(ob, w, obj, rec, st, meth, [LOADER] if loaded else [], 'values', 'read_comment',
                             [rec, C(req)], loaded)
                obs.append((f'{name}.{meth}/{kind}', fn))
    return obs


def key_obs(tier, loaded=False):
    obs = []
    for name in ('field', 'empty', 'fieldset', 'list', 'section', 'fieldset_entry', 'list_item', 'section_element',
                 'element'):
        for kind in WRAPPERS[name][2]:
            if kind == 'DOCUMENT':
                continue
            meth = 'key' if loaded else 'string_key'

            def fn(ob, name=name, kind=kind, meth=meth):
                w = world(ob, k=2, specs=('values',))
                st = w.state()
                obj, rec, st, ctx = wrap(w, st, name, kind)
                text_run(ob, w, obj, rec, st, meth, [LOADER] if loaded else [], 'values', 'read_key', [rec], loaded)
            obs.append((f'{name}.{meth}/{kind}', fn))
    return obs
