"""Client programs: small callers of the public API, evaluated abstractly over every document within the bounds.

A client returns a list of checks (label, actual, expected); `expected` is a tuple
  ('same', value) | ('wraps', class, record) | ('error', message[, argument]) | ('errortext', text)
  | ('instance', class) | ('reports', [records]) | ('any',)
"""
from .common import *
from .api import wrap, instance, section_object, errmsg, undecided_text, site_of_crash, show, WRAPPERS


def reported(st, exc):
    """[(reporter method, arguments...)] recorded in the snippet of an error"""
    sn = st.get(exc.a).attrs.get('snippet')
    if isinstance(sn, T) and sn.op == 'snippet':
        return [c.items for c in sn.args[0].items]
    return None


def judge_check(w, ob, rule, site, st, label, actual, exp):
    ob.count('client observations')
    form = exp.items[0].v

    def extra():
        return {'facts': facts(w, st), 'records': records(w, st)}

    def bad(text):
        ob.violation(rule, f'{site}: {label}', text, **extra())
    if isinstance(actual, R) and isinstance(st.get(actual.a), InstO) and form not in ('error', 'errortext', 'reports', 'reportsall',
                                                                                      'any') \
            and exc_names(w, st, actual) and 'Exception' in exc_names(w, st, actual):
        bad(f'raises {w.describe(st, actual)}, expected {describe_exp(w, st, exp)}')
        return
    if form == 'same':
        if not same(w, st, actual, exp.items[1]):
            if has_top(actual, st) or undecided_text(actual, exp.items[1]):
                ob.unsure('result not comparable')
            else:
                bad(f'is {w.describe(st, actual)} instead of {w.describe(st, exp.items[1])}')
    elif form in ('wraps', 'instance'):
        n = cls_name(w, st, actual)
        if n != exp.items[1].v:
            if has_top(actual):
                ob.unsure('result unknown')
            else:
                bad(f'is {w.describe(st, actual)} instead of a {exp.items[1].v}')
        elif form == 'wraps':
            r = record_of(w, st, actual)
            if r is None:
                ob.unsure('element instance without recognisable record')
            elif r != exp.items[2]:
                bad(f'stands for {w.describe(st, r)} instead of {w.describe(st, exp.items[2])}')
    elif form in ('error', 'errortext'):
        want = errmsg(exp) if form == 'error' else exp.items[1]
        if not (isinstance(actual, R) and isinstance(st.get(actual.a), InstO) and is_error(w, st, actual)):
            if has_top(actual):
                ob.unsure('result unknown')
            else:
                bad(f'yields {w.describe(st, actual)} where the error {want!r} is due')
        else:
            text = err_text(w, st, actual)
            if not same(w, st, text, want):
                if has_top(text):
                    ob.unsure('error text unknown')
                else:
                    bad(f'reports {text!r} instead of {want!r}')
    elif form == 'reportsall':
        calls = reported(st, actual) if isinstance(actual, R) and is_error(w, st, actual) else None
        if calls is None:
            ob.unsure('report unknown')
        else:
            flat = [y for c in calls for x in c[1:] for y in (x.items if isinstance(x, Tup) else (x,))]
            want = st.get(exp.items[1].a).items
            recs = [r for r in flat if is_doc_record(st, r)]
            lost = [r for r in want if r not in recs]
            extra_ = [r for r in recs if r not in want]
            if lost or extra_:
                bad(f'reports {[w.describe(st, r) for r in recs]}, due are {[w.describe(st, r) for r in want]}')
    elif form == 'reports':
        calls = reported(st, actual) if isinstance(actual, R) and is_error(w, st, actual) else None
        if calls is None:
            if has_top(actual) or isinstance(actual, R) and is_error(w, st, actual):
                ob.unsure('report unknown')
            else:
                bad(f'yields {w.describe(st, actual)} where an error is due')
        else:
            recs = [x for c in calls for x in c[1:] if is_doc_record(st, x)]
            want = st.get(exp.items[1].a).items
            if not any(r in want for r in recs):
                bad(f'reports {[w.describe(st, r) for r in recs]} instead of one of '
                    f'{[w.describe(st, r) for r in want]}')


def describe_exp(w, st, exp):
    return '(' + ', '.join(w.describe(st, x) for x in exp.items) + ')'


def run_client(ob, w, rule, site, spec, fn, args, st, roots):
    w.e.roots = list(roots)
    f = w.mod(f'spec_{spec}', fn)
    outs = w.call(f, args, st)
    ob.count('abstract outcomes', len(outs))
    if not outs:
        ob.unsure('no outcome')
    for o in outs:
        if o.st.taint:
            ob.unsure('branch on unknown information')
            continue
        if o.kind == 'exc':
            x = o.st.get(o.value.a)
            if str(x.ghost.get('site', '')).startswith('spec_'):
                if x.ghost.get('msg'):
                    # an API method or module used by the client is gone
                    ob.violation(rule + '/crash', site, f'{w.describe(o.st, o.value)}', facts=facts(w, o.st))
                    continue
            if has_top(o.value, o.st):
                ob.unsure('exception unknown')
                continue
            ob.violation(rule + '/crash', site_of_crash(x, site), f'{site}: {w.describe(o.st, o.value)} escapes',
                         facts=facts(w, o.st), records=records(w, o.st))
            continue
        v = o.value
        lst = o.st.get(v.a).items if isinstance(v, R) and isinstance(o.st.get(v.a), ListO) else None
        if lst is None:
            ob.unsure('client result')
            continue
        for c in lst:
            label, actual, exp = c.items
            judge_check(w, ob, rule, site, o.st, label.v, actual, exp)
    ob.sample(f'{site}: {len(outs)} abstract runs of the client')


INNER = T('str', 'arg', (C('inner'),))


def strarg(st, t):
    st.truth[t] = True
    st.assume('>', T('int', 'len', (t,)), C(0))
    return t


def two_keys(st):
    k, i = strarg(st, T('str', 'arg', (C('key'),))), strarg(st, INNER)
    return k, i


def client(rule, spec, fn, maker, k=2, site=None, **limits):
    """obligation: run client fn of spec module; maker(w, st) -> (args, st, roots)"""
    def ob_fn(ob):
        w = world(ob, k=k, specs=(spec,))
        w.e.rec_limit = 5 if spec == 'clients' and rule in ('missing', 'all-required') else 2
        for n, v in limits.items():
            w.e.klimit[n] = v
        if rule == 'touched':
            summarise_texts(w)
        args, st, roots = maker(w, w.state())
        run_client(ob, w, rule, site or fn, spec, fn, args, st, roots)
    return ob_fn


def sec_maker(form, *extra, keys=True):
    def mk(w, st):
        sec, rec, st, ctx = section_object(w, st, form)
        k, i = two_keys(st)
        args = {'sec': sec, 'rec': rec, 'key': k, 'inner': i}
        return [args[x] if isinstance(x, str) and x in args else C(x) for x in extra], st, [sec, rec]
    return mk


def wrap_maker(name, kind, *extra):
    def mk(w, st):
        obj, rec, st, ctx = wrap(w, st, name, kind)
        k, i = two_keys(st)
        args = {'obj': obj, 'rec': rec, 'key': k, 'inner': i}
        return [args[x] if isinstance(x, str) and x in args else C(x) for x in extra], st, [obj, rec]
    return mk


CASTS = ('empty', 'field', 'fieldset', 'list', 'section')


def cast_obs(tier):
    obs = []
    for name, kinds, casts in (('section_element', ('ELEMENT',), CASTS),
                               ('element', ('ELEMENT', 'LIST_ITEM', 'FIELDSET_ENTRY', 'DOCUMENT'),
                                CASTS + ('fieldset_entry', 'list_item'))):
        for kind in kinds:
            for c in casts:
                obs.append((f'{name}.to_{c}/{kind}', client('cast-table', 'clients', 'cast_once', wrap_maker(
                    name, kind, 'obj', 'rec', c), site=f'{name}.to_{c}/yields_{c}')))
                if kind == 'ELEMENT' and c in CASTS:
                    for d in CASTS:
                        if c != d:
                            obs.append((f'{name}.to_{c} then to_{d}', client('cast-table', 'clients', 'cast_twice',
                                        wrap_maker(name, kind, 'obj', 'rec', c, d), site=f'{name}.to_{c}/to_{d}')))
    return obs


def parent_obs(tier):
    obs = []
    for form in ('document', 'SECTION'):
        for fn in ('parents', 'parent_of_empty'):
            obs.append((f'{fn}/{form}', client('parent', 'clients', fn, sec_maker(form, 'sec', 'key'), k=1, site=fn)))
    for name in ('field', 'empty', 'fieldset', 'list', 'section', 'fieldset_entry', 'list_item', 'document'):
        for kind in WRAPPERS[name][2]:
            obs.append((f'{name}.parent/{kind}', client('parent', 'clients', 'parent_alone',
                                                        wrap_maker(name, kind, 'obj', 'rec'), site=f'{name}.parent()')))
    return obs


def missing_obs(tier):
    obs = []
    for kind in ('empty', 'field', 'fieldset', 'list', 'section', 'element'):
        for fn in ('missing_direct', 'missing_nested', 'missing_deep'):
            def mk(w, st):
                sec, rec, st, ctx = section_object(w, st, 'document')
                d = st.mut(rec.a)
                d.variants = None
                d.keys = {C('type'): w.sc.types['DOCUMENT'], C('elements'): st.alloc(ListO((), tag='doc:elements'))}
                k, i = two_keys(st)
                return [sec, k, i, C(kind_)], st, [sec, rec]

            def bound(w, st, kind=kind):
                sec, rec, st, ctx = empty_document(w, st)
                k, i = two_keys(st)
                return [sec, k, i, C(kind)], st, [sec, rec]
            obs.append((f'{fn}/{kind}', client('missing', 'clients', fn, bound, site=f'{fn} {kind}')))
        if kind != 'element':
            def bound(w, st, kind=kind):
                sec, rec, st, ctx = empty_document(w, st)
                k, i = two_keys(st)
                return [sec, k, i, C(kind)], st, [sec, rec]
            obs.append((f'missing_cast/{kind}', client('missing', 'clients', 'missing_cast', bound,
                                                       site=f'missing element as {kind}')))

    for form in ('document', 'SECTION'):
        for kind in ('empty', 'field', 'fieldset', 'list', 'section', 'element'):
            for fn in ('missing_beside', 'missing_below'):
                obs.append((f'{fn}/{kind}/{form}', client('missing', 'clients', fn, sec_maker(
                    form, 'sec', 'key', 'inner', kind), k=2 if form == 'document' else 1, site=f'{fn} {kind}')))
        obs.append((f'missing_entry_below/{form}', client('missing', 'clients', 'missing_entry_below', sec_maker(
            form, 'sec', 'key', 'inner'), k=1, site='entry of a missing fieldset')))
    obs.append(('missing_entry_beside', client('missing', 'clients', 'missing_entry_beside', wrap_maker(
        'fieldset', 'FIELDSET', 'obj', 'key'), k=2, site='missing entry beside others')))

    def fs(w, st):
        obj, rec, st, ctx = wrap(w, st, 'fieldset', 'EMPTY')
        k, i = two_keys(st)
        return [obj, k], st, [obj, rec]
    obs.append(('missing_entry', client('missing', 'clients', 'missing_entry', fs, site='missing entry')))
    return obs


def empty_document(w, st):
    ctx, st = w.sc.context(st)
    rec = st.get(ctx.a).attrs['document']
    d = st.mut(rec.a)
    d.variants = None
    d.keys = {C('type'): w.sc.types['DOCUMENT'], C('elements'): st.alloc(ListO((), tag='doc:elements'))}
    o = w.new('enolib.elements.section', 'Section', [ctx, rec], st)
    if len(o) != 1 or o[0].kind != 'ret':
        raise Unsupported('constructor of Section')
    return o[0].value, rec, o[0].st, ctx


def helper_obs(tier):
    obs = []
    for name in ('field', 'empty', 'fieldset', 'list', 'section', 'fieldset_entry', 'list_item', 'section_element',
                 'element'):
        for kind in WRAPPERS[name][2]:
            if kind == 'DOCUMENT':
                continue

            def mk(w, st, name=name, kind=kind):
                obj, rec, st, ctx = wrap(w, st, name, kind)
                return obj, rec, st, ctx
            obs.append((f'{name}.error/{kind}', helper('helper_element', mk, None, f'{name}.error()')))
            obs.append((f'{name}.comment_error/{kind}', helper('helper_comment', mk, 'comment', f'{name}.comment_error()')))
            obs.append((f'{name}.key_error/{kind}', helper('helper_key', mk, 'key', f'{name}.key_error()')))
            if name in ('field', 'fieldset_entry', 'list_item'):
                obs.append((f'{name}.value_error/{kind}', helper('helper_value', mk, 'value', f'{name}.value_error()')))
    return obs


def helper(fn, mk, ref, site):
    def ob_fn(ob):
        w = world(ob, k=2, specs=('clients', 'values'))
        obj, rec, st, ctx = mk(w, w.state())
        w.e.roots = [obj, rec]
        if ref is None:
            run_client(ob, w, 'helper', site, 'clients', fn, [obj], st, [obj, rec])
            return
        args = [st.get(ctx.a).attrs['input'], rec] if ref == 'value' else [rec]
        for o in w.call(w.mod('spec_values', ref), args, st):
            if o.kind != 'ret':
                ob.unsure('reference')
                continue
            run_client(ob, w, 'helper', site, 'clients', fn, [obj, o.value], o.st, [obj, rec])
    return ob_fn


def required_obs(tier):
    obs = []
    for kind in ('section', 'fieldset'):
        for form in ('document', 'SECTION'):
            for early in (True, False):
                obs.append((f'required/{kind}/{form}/{"before" if early else "after"}', client(
                    'all-required', 'clients', 'required_after', sec_maker(form, 'sec', 'key', 'inner', kind, early),
                    k=1, site=f'all_elements_required and {kind} taken {"after" if early else "before"}')))
            obs.append((f'required-off/{kind}/{form}', client(
                'all-required', 'clients', 'required_off', sec_maker(form, 'sec', 'key', 'inner', kind), k=1,
                site=f'all_elements_required(False) and {kind}')))
            for when in ('before', 'after'):
                obs.append((f'required-single/{kind}/{form}/{when}', client(
                    'all-required', 'clients', 'required_single', sec_maker(form, 'sec', 'key', 'inner', kind, when),
                    k=1, site=f'all_elements_required {when} {kind}()')))
    for early in (True, False):
        obs.append((f'required-kinds/{"before" if early else "after"}', client(
            'all-required', 'clients', 'required_kinds', sec_maker('document', 'sec', 'key', 'inner', early), k=1,
            site='all_elements_required and every query below')))
    for kind in ('section', 'fieldset'):
        for when in ('before', 'between', 'after'):
            obs.append((f'required-deep/{kind}/{when}', client(
                'all-required', 'clients', 'required_deep', sec_maker('document', 'sec', 'key', 'inner', kind, when),
                k=1, site=f'all_elements_required {when} and {kind} two levels below')))
            if when != 'before':
                obs.append((f'required-off-deep/{kind}/{when}', client(
                    'all-required', 'clients', 'required_off_deep', sec_maker('document', 'sec', 'key', 'inner', kind, when),
                    k=1, site=f'all_elements_required(False) {when} and {kind} two levels below')))
    return obs


def touch_obs(tier):
    obs = []
    k = 2
    for fn in ('untouched_all', 'untouched_taken', 'own_message', 'left_one'):
        for form in ('document', 'SECTION'):
            obs.append((f'{fn}/{form}', client('touched', 'clients', fn, sec_maker(form, 'sec', 'rec'), k=k,
                                               site=fn.replace('_', ' '), entries=1, items=1)))
    for how in ('touch', 'plain key', 'loaded key', 'comment', 'loaded comment', 'value', 'loaded value'):
        obs.append((f'touched_flat/{how}', client('touched', 'clients', 'touched_flat', sec_maker(
            'document', 'sec', 'rec', how), k=2, site=f'elements read by {how}', continuations=1, comments=1)))
        for kind in ('FIELDSET',):
            obs.append((f'fieldset_entries/{how}', client('touched', 'clients', 'fieldset_entries', wrap_maker(
                'fieldset', kind, 'obj', 'rec', how), k=2, site=f'entries read by {how}', continuations=1, comments=1)))
    for how in ('skip', 'only'):
        for form in ('document', 'SECTION'):
            obs.append((f'selected/{how}/{form}', client('touched', 'clients', 'selected', sec_maker(
                form, 'sec', 'rec', 'key', how), k=2, site=f'assert_all_touched({how})')))
        obs.append((f'fieldset_selected/{how}', client('touched', 'clients', 'fieldset_selected', wrap_maker(
            'fieldset', 'FIELDSET', 'obj', 'rec', 'key', how), k=2, site=f'fieldset.assert_all_touched({how})')))
    for only in ('both', 'one'):
        obs.append((f'selected_both/{only}', client('touched', 'clients', 'selected_both', sec_maker(
            'document', 'sec', 'rec', 'key', 'inner', only), k=2, site='assert_all_touched(only, skip)')))
        obs.append((f'fieldset_selected_both/{only}', client('touched', 'clients', 'fieldset_selected_both', wrap_maker(
            'fieldset', 'FIELDSET', 'obj', 'rec', 'key', 'inner', only), k=2, site='fieldset.assert_all_touched(only, skip)')))
    for how in ('optional_string_values', 'required_string_values', 'optional_values', 'required_values'):
        obs.append((f'lists_read/{how}', client('touched', 'clients', 'lists_read', sec_maker(
            'document', 'sec', 'rec', how), k=1, site=f'list read by {how}', items=2)))
    for how in ('touch', 'assert', 'elements', 'fields', 'fieldsets', 'lists', 'sections', 'element', 'empty', 'field', 'fieldset',
                'list', 'section', 'optional_element', 'optional_empty', 'optional_field', 'optional_fieldset', 'optional_list',
                'optional_section'):
        obs.append((f'subsection_read/{how}', client('touched', 'clients', 'subsection_read', sec_maker(
            'document', 'sec', 'rec', 'key', how), k=1, site=f'subsection read by {how}')))
    for kind in ('empty', 'field', 'fieldset', 'list', 'section'):
        for how in ('', 'optional_', 'required_'):
            obs.append((f'single_read/{how}{kind}', client('touched', 'clients', 'single_read', sec_maker(
                'document', 'sec', 'rec', 'key', kind, how), k=1, site=f'element taken by {how}{kind}')))
    obs.append(('deep_left', client('touched', 'clients', 'deep_left', sec_maker('document', 'sec', 'rec'), k=1,
                                    site='two levels down')))
    obs.append(('fieldset_message', client('touched', 'clients', 'fieldset_message', wrap_maker(
        'fieldset', 'FIELDSET', 'obj', 'rec'), k=2, site='fieldset.assert_all_touched')))
    for fn in ('nested_fieldset', 'nested_list', 'nested_section'):
        obs.append((fn, client('touched', 'clients', fn, sec_maker('document', 'sec', 'rec'), k=1,
                               site=fn.replace('_', ' '), entries=2, items=2, continuations=1)))
    for kind in ('fieldset', 'list'):
        obs.append((f'whole/{kind}', client('touched', 'clients', 'whole', sec_maker(
            'document', 'rec', 'sec', kind), k=1, site=f'{kind} touched as a whole', entries=2, items=2)))
    return obs


def repr_obs(tier):
    obs = []
    for name, (_m, c, kinds) in WRAPPERS.items():
        for kind in kinds:
            form = 'element of document' if kind == 'DOCUMENT' and name == 'element' else \
                {'field': 'valued', 'fieldset_entry': 'valued', 'list_item': 'item'}.get(name, name)
            obs.append((f'{name}.__repr__/{kind}', client('repr', 'clients', 'represent', wrap_maker(
                name, kind, 'obj', c, form), site=f'repr of {name}')))
    for kind, c in (('empty', 'Empty'), ('field', 'Field'), ('fieldset', 'Fieldset'), ('list', 'List'), ('section', 'Section'),
                    ('element', 'SectionElement'), ('entry', 'FieldsetEntry')):
        for keyed in (True, False):
            def mk(w, st, kind=kind, c=c, keyed=keyed):
                if kind == 'entry':
                    sec, rec, st, ctx = wrap(w, st, 'fieldset', 'EMPTY')
                else:
                    sec, rec, st, ctx = empty_document(w, st)
                k, i = two_keys(st)
                o = [x for x in w.method(sec, kind, [k] if keyed else [], st) if x.kind == 'ret' and
                     cls_name(w, x.st, x.value) == 'Missing' + c]
                if len(o) != 1:
                    raise Unsupported('missing element')
                return [o[0].value, C('Missing' + c), k if keyed else NONE], o[0].st, [sec, rec]
            obs.append((f'missing {kind}.__repr__{"" if keyed else " without key"}', client(
                'repr', 'clients', 'represent_missing', mk, site=f'repr of missing {kind}')))
    return obs


def raw_obs(tier):
    obs = []
    for name, k in (('field', 2), ('empty', 2), ('fieldset', 2), ('list', 2), ('fieldset_entry', 2), ('list_item', 2),
                    ('document', 2), ('section', 1), ('section_element', 1)):
        for kind in WRAPPERS[name][2]:
            def fn(ob, name=name, kind=kind, k=k):
                w = world(ob, k=k, specs=('values', 'api', 'raw'))
                if name not in ('field', 'fieldset_entry', 'list_item', 'empty'):
                    summarise_texts(w)
                obj, rec, st, ctx = wrap(w, w.state(), name, kind)
                run_client(ob, w, 'raw', f'{name}.raw()', 'raw', 'check_raw',
                           [obj, st.get(ctx.a).attrs['input'], rec], st, [obj, rec])
            obs.append((f'{name}.raw/{kind}', fn))
    for name, kind in (('fieldset', 'FIELDSET'), ('list', 'LIST'), ('section', 'SECTION')):
        def chained(ob, name=name, kind=kind):
            w = chained_copies(world(ob, k=1, specs=('values', 'api', 'raw')))
            summarise_texts(w)
            obj, rec, st, ctx = wrap(w, w.state(), name, kind)
            run_client(ob, w, 'raw', f'{name}.raw()', 'raw', 'check_raw',
                       [obj, st.get(ctx.a).attrs['input'], rec], st, [obj, rec])
        obs.append((f'{name}.raw/{kind}/copy of a copy', chained))
    return obs


# ------------------------------------------------------------------------------------ errors in full
def full(rule, fn, maker, site, k=2, specs=('values', 'api', 'errors'), texts=False, **limits):
    def ob_fn(ob):
        w = world(ob, k=k, specs=specs, light=False)
        for n, v in limits.items():
            w.e.klimit[n] = v
        if texts:
            summarise_texts(w)
        args, st, roots = maker(w, w.state())
        run_client(ob, w, rule, site, 'errors', fn, args, st, roots)
    return ob_fn


def with_input(name, kind, *extra):
    def mk(w, st):
        obj, rec, st, ctx = wrap(w, st, name, kind)
        args = {'obj': obj, 'rec': rec, 'input': st.get(ctx.a).attrs['input']}
        return [args[x] if x in args else C(x) for x in extra], st, [obj, rec]
    return mk


ALL = ('field', 'empty', 'fieldset', 'list', 'section', 'fieldset_entry', 'list_item', 'section_element', 'element')


def error_obs(tier):
    obs = []
    R_ = 'error-table'
    for name in ALL:
        for kind in WRAPPERS[name][2]:
            if kind == 'DOCUMENT':
                continue
            valued = name in ('field', 'fieldset_entry', 'list_item')
            for which in ('error', 'comment_error') + (('key_error',) if kind != 'LIST_ITEM' else ()) + \
                    (('value_error',) if valued else ()):
                obs.append((f'{name}.{which}/{kind}', full(R_, 'helper', with_input(name, kind, 'obj', 'rec', which),
                                                           f'{name}.{which}()')))
            for which in ('comment',) + (('key',) if kind != 'LIST_ITEM' else ()) + (('value',) if valued else ()):
                obs.append((f'{name} rejected {which}/{kind}', full(
                    R_, 'rejected', with_input(name, kind, 'obj', 'rec', which, 'input'), f'rejected {which} of {name}')))
            obs.append((f'{name} missing comment/{kind}', full(R_, 'missing_comment', with_input(
                name, kind, 'obj', 'rec'), f'missing comment of {name}')))
            if valued:
                obs.append((f'{name} missing value/{kind}', full(R_, 'missing_value', with_input(
                    name, kind, 'obj', 'rec', 'input'), f'missing value of {name}')))
    for form in ('document', 'SECTION'):
        for kf in ('key', None):
            for kind in ('element', 'empty', 'field', 'fieldset', 'list', 'section'):
                lim = dict(entries=1, items=1, continuations=1, comments=1, lines=1)
                obs.append((f'required_{kind}/{form}/{kf}', full(R_, 'single', sec_maker(form, 'sec', 'rec', kf, kind),
                                                                 f'section.required_{kind}()', **lim)))
                if kind != 'element':
                    obs.append((f'{kind}s/{form}/{kf}', full(R_, 'plural', sec_maker(form, 'sec', 'rec', kf, kind),
                                                             f'section.{kind}s()', k=1 if form == 'SECTION' else 2,
                                                             **lim)) if kind != 'empty' else
                               (f'stand-in {kind}/{form}/{kf}', full(R_, 'missing_through', sec_maker(
                                   form, 'sec', 'rec', kf, kind), f'stand-in for {kind}', **lim)))
    for kind in CASTS:
        obs.append((f'to_{kind}', full(R_, 'cast', with_input('section_element', 'ELEMENT', 'obj', 'rec', kind),
                                       f'to_{kind}()')))
    for form in ('document', 'SECTION'):
        obs.append((f'untouched/{form}', full(R_, 'unexpected', sec_maker(form, 'sec', 'rec'), 'assert_all_touched')))
    for kind in ('FIELDSET', 'EMPTY'):
        for kf in ('key', None):
            obs.append((f'entry/{kind}/{kf}', full(R_, 'entry', wrap_maker('fieldset', kind, 'obj', 'rec', kf),
                                                   'fieldset.required_entry()')))
    obs.append(('untouched entry', full(R_, 'unexpected_entry', wrap_maker('fieldset', 'FIELDSET', 'obj', 'rec'),
                                        'fieldset.assert_all_touched')))
    return obs


# ------------------------------------------------------------------------------------ registered loaders
HOWS = ('keywords', 'dict', 'dicts', 'functions', 'mixed', 'apart', 'again')


def registered_obs(tier):
    f, g = (T('callable', 'loader', (C(n), C('ok'))) for n in ('color', 'name'))
    obs = []

    def job(fn, maker, site, texts=True):
        def ob_fn(ob):
            w = world(ob, k=1, specs=('registered',))
            summarise_texts(w)
            args, st, roots = maker(w, w.state())
            run_client(ob, w, 'registered', site, 'registered', fn, args, st, roots)
        return ob_fn

    for how in HOWS:
        for name in ALL:
            for kind in WRAPPERS[name][2]:
                if kind == 'DOCUMENT' or name in ('section', 'section_element', 'element') and how not in HOWS[:2]:
                    continue

                def mk(w, st, name=name, kind=kind, how=how):
                    obj, rec, st, ctx = wrap(w, st, name, kind)
                    return [obj, C(kind != 'LIST_ITEM'), f, g, C(how)], st, [obj, rec]
                obs.append((f'{name}/{kind}/{how}', job('key_and_comment', mk, f'registered accessors of {name}')))
                if name in ('field', 'fieldset_entry', 'list_item', 'list'):
                    def mv(w, st, name=name, kind=kind, how=how):
                        obj, rec, st, ctx = wrap(w, st, name, kind)
                        return [obj, f, g, C(how)], st, [obj, rec]
                    fn = 'values' if name == 'list' else 'value'
                    obs.append((f'{name} {fn}/{kind}/{how}', job(fn, mv, f'registered {fn} accessors of {name}')))
        for kind in ('empty', 'field', 'fieldset', 'list', 'section', 'element'):
            def mm(w, st, kind=kind, how=how):
                sec, rec, st, ctx = empty_document(w, st)
                k, _i = two_keys(st)
                return [sec, k, f, g, C(how), C(kind)], st, [sec, rec]
            obs.append((f'missing {kind}/{how}', job('missing', mm, f'registered accessors of a missing {kind}')))
    return obs
