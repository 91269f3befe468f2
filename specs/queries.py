# Questions to a document, each answered with plain texts, numbers and nested tuples (evaluated by the analysis over abstract
# documents; see enoai/props/history.py). None of them changes what is required or looks at what was touched.
from enolib import Error


def problem(error):
    return ('error', error.text, error.selection, error.snippet, error.cursor)


def ask(fn):
    try:
        return fn()
    except Error as error:
        return problem(error)
    except TypeError:
        return 'TypeError'


def reject(text):
    raise ValueError('no ' + text)


def loaded(text):
    return ('loaded', text)


def kinds(e):
    return (e.yields_empty(), e.yields_field(), e.yields_fieldset(), e.yields_list(), e.yields_section())


def value(x):
    return (x.optional_string_value(), ask(lambda: x.required_string_value()), x.optional_value(loaded),
            ask(lambda: x.required_value(reject)))


def comment(x):
    return (x.optional_string_comment(), ask(lambda: x.required_string_comment()), x.optional_comment(loaded),
            ask(lambda: x.required_comment(reject)))


def errors(x):
    return (problem(x.error('text')), problem(x.key_error('text')), problem(x.error(lambda e: 'own')),
            problem(x.key_error(lambda k: k + '!')), problem(x.comment_error('text')))


def take(e):
    if e.yields_field():
        return ('field', e.to_field())
    if e.yields_fieldset():
        return ('fieldset', e.to_fieldset())
    if e.yields_list():
        return ('list', e.to_list())
    return ('section', e.to_section())


def describe(kind, x, depth):
    if kind == 'field':
        return value(x)
    if kind == 'fieldset':
        return [(e.string_key(), value(e), comment(e)) for e in x.entries()]
    if kind == 'list':
        return [(e.string_key(), value(e), comment(e)) for e in x.items()]
    return everything(x, depth - 1)


def everything(section, depth=3):
    if depth == 0:
        return 'deeper'
    out = []
    for e in section.elements():
        kind, x = take(e)
        out.append((kinds(e), kind, e.string_key(), comment(x), describe(kind, x, depth)))
    return out


def q_everything(s, k, j):
    return everything(s)


def q_raw(s, k, j):
    return s.raw()


def q_raw_emptied(s, k, j):
    r = s.raw()
    for x in r['elements']:
        for name in list(x.keys()):
            x.pop(name)
    r['elements'].clear()
    return s.raw()


def q_counts(s, k, j):
    return (len(s.elements()), len(s.elements(k)), len(s.elements(j)))


def q_kinds(s, k, j):
    return [kinds(e) for e in s.elements(k)]


def q_keys(s, k, j):
    return [(e.string_key(), ask(lambda: e.key(loaded)), ask(lambda: e.key(reject))) for e in s.elements()]


def q_errors(s, k, j):
    return [errors(e) for e in s.elements()]


def q_field(s, k, j):
    return ask(lambda: value(s.field(k)))


def q_optional_field(s, k, j):
    x = ask(lambda: s.optional_field(j))
    return x if x is None or isinstance(x, (tuple, str)) else value(x)


def q_required_field(s, k, j):
    return ask(lambda: value(s.required_field(j)))


def plain(s, k):
    """nothing named so could be taken as something else"""
    return not any(e.yields_empty() for e in s.elements(k))


def q_fields(s, k, j):
    return ask(lambda: [value(x) for x in s.fields(k)])


def q_fields_all(s, k, j):
    return ask(lambda: [value(x) for x in s.fields()])


def q_fieldset(s, k, j):
    return ask(lambda: [(e.string_key(), value(e)) for e in s.fieldset(k).entries()]) if plain(s, k) else None


def q_entry(s, k, j):
    return ask(lambda: value(s.fieldset(k).entry(j))) if plain(s, k) else None


def q_entries(s, k, j):
    return ask(lambda: [value(e) for x in s.fieldsets(k) for e in x.entries(j)]) if plain(s, k) else None


def q_entry_missing(s, k, j):
    return ask(lambda: s.fieldset(k).required_entry(k)) if plain(s, k) and len(s.elements(k)) == 0 else None


def q_list(s, k, j):
    return ask(lambda: (s.list(k).length(), s.list(k).optional_string_values(), s.list(k).required_values(loaded))) \
        if plain(s, k) and len(s.elements(k)) > 0 else None


def q_items(s, k, j):
    return ask(lambda: [(value(i), comment(i), problem(i.error('text')), problem(i.value_error('text')))
                        for x in s.lists(k) for i in x.items()]) if plain(s, k) else None


def q_section(s, k, j):
    return ask(lambda: value(s.section(k).field(j)))


def q_sections(s, k, j):
    return ask(lambda: [len(x.elements()) for x in s.sections(k)])


def q_section_required(s, k, j):
    return ask(lambda: value(s.section(k).required_field('nobody')))


def q_element(s, k, j):
    return ask(lambda: kinds(s.element(k)))


def q_element_required(s, k, j):
    return ask(lambda: kinds(s.required_element(j)))


def q_empty(s, k, j):
    e = ask(lambda: s.element(k))
    return 'taken as field' if isinstance(e, tuple) or not e.yields_empty() else kinds(e)


def q_missing(s, k, j):
    return (ask(lambda: s.field('nobody').required_string_value()), ask(lambda: s.field('nobody').optional_string_value()),
            ask(lambda: s.section('nobody').field(k).required_string_value()), ask(lambda: s.list('nobody').items()),
            ask(lambda: s.fieldset('nobody').entry(k).required_string_value()), s.optional_section('nobody') is None)


def q_comments(s, k, j):
    return [comment(take(e)[1]) for e in s.elements()]


def q_value_errors(s, k, j):
    return [problem(e.to_field().value_error(loaded)) for e in s.elements() if e.yields_field()]


def q_parents(s, k, j):
    return [take(e)[1].parent() is s for e in s.elements()]


def q_touch_all(s, k, j):
    s.touch()
    return len(s.elements())


def q_leftover(s, k, j):
    ask(lambda: s.assert_all_touched())
    return len(s.elements())


QUERIES = [q_counts, q_raw, q_kinds, q_field, q_errors, q_everything, q_fields, q_keys, q_comments, q_optional_field,
           q_required_field, q_fieldset, q_entry, q_entries, q_entry_missing, q_list, q_items, q_leftover, q_section,
           q_sections, q_section_required, q_element, q_element_required, q_empty, q_fields_all, q_missing, q_value_errors,
           q_touch_all, q_parents, q_raw_emptied]


def one(s, k, j, i):
    return ask(lambda: QUERIES[i](s, k, j))


def many(s, k, j, order):
    return [one(s, k, j, i) for i in order]
