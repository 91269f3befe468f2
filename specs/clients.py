# Client programs of the query API (evaluated by the analysis over abstract documents; see enoai/props/client.py).
from enolib import ValidationError
from enolib.constants import InstructionType as T


def attempt(fn):
    try:
        return fn()
    except ValidationError as error:
        return error


# ---------------------------------------------------------------- casts
def fits(kind, t):
    if kind == 'empty':
        return t is T.EMPTY_ELEMENT
    if kind == 'field':
        return t is T.FIELD or t is T.MULTILINE_FIELD_BEGIN or t is T.EMPTY_ELEMENT
    if kind == 'fieldset':
        return t is T.FIELDSET or t is T.EMPTY_ELEMENT
    if kind == 'list':
        return t is T.LIST or t is T.EMPTY_ELEMENT
    if kind == 'section':
        return t is T.SECTION
    if kind == 'fieldset_entry':
        return t is T.FIELDSET_ENTRY
    return t is T.LIST_ITEM


CLASSES = {'empty': 'Empty', 'field': 'Field', 'fieldset': 'Fieldset', 'list': 'List', 'section': 'Section',
           'fieldset_entry': 'FieldsetEntry', 'list_item': 'ListItem'}


def cast_once(element, record, kind):
    taken = attempt(lambda: getattr(element, 'to_' + kind)())
    if fits(kind, record['type']):
        return [('yields_' + kind, getattr(element, 'yields_' + kind)(), ('same', True)),
                ('to_' + kind, taken, ('wraps', CLASSES[kind], record)),
                ('to_' + kind + ' again', attempt(lambda: getattr(element, 'to_' + kind)()), ('same', taken))]
    return [('yields_' + kind, getattr(element, 'yields_' + kind)(), ('same', False)),
            ('to_' + kind, taken, ('error', 'expected_' + kind)),
            ('to_' + kind + ' again', attempt(lambda: getattr(element, 'to_' + kind)()), ('error', 'expected_' + kind))]


def cast_twice(element, record, first, second):
    a = attempt(lambda: getattr(element, 'to_' + first)())
    try:
        b = getattr(element, 'to_' + second)()
    except ValidationError as error:
        b = error
    except TypeError:
        b = 'refused'
    if fits(first, record['type']) and fits(second, record['type']):
        return [('to_' + second + ' after to_' + first, b, ('same', 'refused')),
                ('to_' + first + ' afterwards', attempt(lambda: getattr(element, 'to_' + first)()), ('same', a))]
    if fits(second, record['type']):
        return [('to_' + second + ' after a failed to_' + first, b, ('wraps', CLASSES[second], record))]
    return [('to_' + first + ' afterwards', attempt(lambda: getattr(element, 'to_' + first)()), ('same', a))
            if fits(first, record['type']) else ('nothing', None, ('any',))]


# ---------------------------------------------------------------- parents
def parents(section, key):
    out = []
    for e in section.elements(key):
        if e.yields_field():
            out.append(('field.parent()', e.to_field().parent(), ('same', section)))
        elif e.yields_fieldset():
            f = e.to_fieldset()
            out.append(('fieldset.parent()', f.parent(), ('same', section)))
            for x in f.entries():
                out.append(('entry.parent()', x.parent(), ('same', f)))
        elif e.yields_list():
            l = e.to_list()
            out.append(('list.parent()', l.parent(), ('same', section)))
            for x in l.items():
                out.append(('item.parent()', x.parent(), ('same', l)))
        elif e.yields_section():
            s = e.to_section()
            out.append(('section.parent()', s.parent(), ('same', section)))
    return out


def parent_of_empty(section, key):
    out = []
    for e in section.elements(key):
        if e.yields_empty():
            out.append(('empty.parent()', e.to_empty().parent(), ('same', section)))
    return out


def parent_alone(element, record):
    if record['type'] is T.DOCUMENT:
        return [('document.parent()', element.parent(), ('same', None))]
    kind = 'Section'
    if record['type'] is T.FIELDSET_ENTRY:
        kind = 'Fieldset'
    if record['type'] is T.LIST_ITEM:
        kind = 'List'
    parent = element.parent()
    out = [('parent()', parent, ('wraps', kind, record['parent']))]
    if record['parent']['type'] is not T.DOCUMENT:
        out.append(('key of the parent', parent.string_key(), ('same', record['parent']['key'])))
        out.append(('error for the parent', parent.error('reason'), ('reports', [record['parent']])))
    return out


# ---------------------------------------------------------------- stand-ins for missing elements
def text_free(m):
    return [('optional_string_comment', m.optional_string_comment(), ('same', None)),
            ('optional_comment', m.optional_comment(loader), ('same', None)),
            ('raw', m.raw(), ('same', None))]


def loader(text):
    raise AssertionError('the loader of a missing element must not run')


def text_due(m, error):
    return [('string_key', attempt(lambda: m.string_key()), error),
            ('key', attempt(lambda: m.key(loader)), error),
            ('required_comment', attempt(lambda: m.required_comment(loader)), error),
            ('required_string_comment', attempt(lambda: m.required_string_comment()), error)]


def value_free(m):
    return [('optional_string_value', m.optional_string_value(), ('same', None)),
            ('optional_value', m.optional_value(loader), ('same', None))]


def value_due(m, error):
    return [('required_string_value', attempt(lambda: m.required_string_value()), error),
            ('required_value', attempt(lambda: m.required_value(loader)), error)]


def due(name, key):
    if key is None:
        return ('error', 'missing_' + name)
    return ('error', 'missing_' + name + '_with_key', key)


def missing_field(m, error):
    return text_free(m) + value_free(m) + text_due(m, error) + value_due(m, error)


def missing_list(m, error):
    return text_free(m) + text_due(m, error) + [
        ('items', m.items(), ('same', [])), ('optional_string_values', m.optional_string_values(), ('same', [])),
        ('optional_values', m.optional_values(loader), ('same', []))]


def missing_fieldset(m, error, key):
    return text_free(m) + text_due(m, error) + [
        ('entries', m.entries(key), ('same', [])), ('entries', m.entries(), ('same', [])),
        ('optional_entry', m.optional_entry(key), ('same', None)),
        ('required_entry', attempt(lambda: m.required_entry(key)), error)] + missing_field(m.entry(key), error)


def missing_element(m, error, key):
    return text_free(m) + text_due(m, error) + [
        ('yields_empty', m.yields_empty(), ('same', True)), ('yields_field', m.yields_field(), ('same', True)),
        ('yields_fieldset', m.yields_fieldset(), ('same', True)), ('yields_list', m.yields_list(), ('same', True)),
        ('yields_section', m.yields_section(), ('same', True))]


def missing_section(m, error, key):
    return text_free(m) + text_due(m, error) + [
        ('elements', m.elements(key), ('same', [])), ('fields', m.fields(key), ('same', [])),
        ('fieldsets', m.fieldsets(key), ('same', [])), ('lists', m.lists(key), ('same', [])),
        ('sections', m.sections(key), ('same', [])), ('fields', m.fields(), ('same', [])),
        ('optional_element', m.optional_element(key), ('same', None)),
        ('optional_empty', m.optional_empty(key), ('same', None)),
        ('optional_field', m.optional_field(key), ('same', None)),
        ('optional_fieldset', m.optional_fieldset(key), ('same', None)),
        ('optional_list', m.optional_list(key), ('same', None)),
        ('optional_section', m.optional_section(key), ('same', None)),
        ('required_element', attempt(lambda: m.required_element(key)), error),
        ('required_empty', attempt(lambda: m.required_empty(key)), error),
        ('required_field', attempt(lambda: m.required_field(key)), error),
        ('required_fieldset', attempt(lambda: m.required_fieldset(key)), error),
        ('required_list', attempt(lambda: m.required_list(key)), error),
        ('required_section', attempt(lambda: m.required_section(key)), error)]


def missing_of(kind, m, error, key):
    if kind == 'field':
        return missing_field(m, error)
    if kind == 'list':
        return missing_list(m, error)
    if kind == 'fieldset':
        return missing_fieldset(m, error, key)
    if kind == 'section':
        return missing_section(m, error, key)
    if kind == 'element':
        return missing_element(m, error, key)
    return text_free(m) + text_due(m, error)


def missing_direct(section, key, inner, kind):
    """a missing child of an existing section"""
    m = getattr(section, kind)(key)
    return missing_of(kind, m, due(kind, key), inner)


def missing_beside(section, key, inner, kind):
    """a missing child of a section that has other children, and what is below that child"""
    if len(section.elements(key)) > 0:
        return []
    return missing_of(kind, getattr(section, kind)(key), due(kind, key), inner)


def missing_below(section, key, inner, kind):
    if len(section.elements(key)) > 0:
        return []
    return missing_of(kind, getattr(section.section(key), kind)(inner), due('section', key), inner)


def missing_entry_beside(fieldset, key):
    if len(fieldset.entries(key)) > 0:
        return []
    return missing_field(fieldset.entry(key), due('fieldset_entry', key))


def missing_entry_below(section, key, inner):
    if len(section.elements(key)) > 0:
        return []
    return missing_field(section.fieldset(key).entry(inner), due('fieldset', key))


def missing_nested(section, key, inner, kind):
    """a child of a missing section: the outermost missing element is the one reported"""
    m = getattr(section.section(key), kind)(inner)
    return missing_of(kind, m, due('section', key), key)


def missing_deep(section, key, inner, kind):
    m = getattr(section.section(key).section(inner), kind)(key)
    return missing_of(kind, m, due('section', key), key)


def missing_cast(section, key, inner, kind):
    m = getattr(section.element(key), 'to_' + kind)()
    return missing_of(kind, m, due(kind, key), inner)


def missing_entry(fieldset, key):
    m = fieldset.entry(key)
    return missing_field(m, due('fieldset_entry', key))


# ---------------------------------------------------------------- error helpers
def helper_texts(element):
    return [('error', element.error('text'), ('errortext', 'text'))]


def helper_comment(element, comment):
    return [('comment_error', element.comment_error('text'), ('error', 'comment_error', 'text')),
            ('comment_error with function', element.comment_error(lambda c: ('seen', c)),
             ('error', 'comment_error', ('seen', comment)))]


def helper_key(element, key):
    return [('key_error', element.key_error('text'), ('error', 'key_error', 'text')),
            ('key_error with function', element.key_error(lambda k: ('seen', k)),
             ('error', 'key_error', ('seen', key)))]


def helper_value(element, value):
    return [('value_error', element.value_error('text'), ('error', 'value_error', 'text')),
            ('value_error with function', element.value_error(lambda v: ('seen', v)),
             ('error', 'value_error', ('seen', value)))]


def helper_element(element):
    return [('error', element.error('text'), ('errortext', 'text')),
            ('error with function', element.error(lambda e: ('seen', e)), ('errortext', ('seen', element)))]


# ---------------------------------------------------------------- everything required
def taken_as(section, key, kind):
    if kind == 'section':
        return [e.to_section() for e in section.elements(key) if e.yields_section()]
    return [e.to_fieldset() for e in section.elements(key) if e.yields_fieldset()]


def required_after(section, key, inner, kind, early):
    """all_elements_required reaches nested sections and fieldsets, whether queried before or after"""
    if early:
        section.all_elements_required()
    out = []
    for e in taken_as(section, key, kind):
        if not early:
            section.all_elements_required()
        if kind == 'section':
            if len(e.elements(inner)) == 0:
                out.append(('field() below', attempt(lambda: e.field(inner)), due('field', inner)))
                out.append(('optional_field() below', attempt(lambda: e.optional_field(inner)), due('field', inner)))
        else:
            if len(e.entries(inner)) == 0:
                out.append(('entry() below', attempt(lambda: e.entry(inner)), due('fieldset_entry', inner)))
                out.append(('optional_entry() below', attempt(lambda: e.optional_entry(inner)),
                            due('fieldset_entry', inner)))
    return out


KINDS = ('element', 'empty', 'field', 'fieldset', 'list', 'section')


def demanded(x, inner, kinds):
    out = []
    if len(x.elements(inner)) == 0:
        for k in kinds:
            out.append((k + '() below', attempt(lambda: getattr(x, k)(inner)), due(k, inner)))
            out.append(('optional_' + k + '() below', attempt(lambda: getattr(x, 'optional_' + k)(inner)), due(k, inner)))
    return out


def relaxed(x, inner, kinds):
    out = []
    if len(x.elements(inner)) == 0:
        for k in kinds:
            out.append(('optional_' + k + '() below', attempt(lambda: getattr(x, 'optional_' + k)(inner)), ('same', None)))
    return out


def required_kinds(section, key, inner, early):
    """every kind of query below"""
    if early:
        section.all_elements_required()
    out = []
    for e in taken_as(section, key, 'section'):
        if not early:
            section.all_elements_required()
        out = out + demanded(e, inner, KINDS)
    return out


def required_deep(section, key, inner, kind, when):
    """two levels down; declared before, between or after the levels are taken"""
    if when == 'before':
        section.all_elements_required()
    out = []
    for s in taken_as(section, key, 'section'):
        if when == 'between':
            section.all_elements_required()
        for e in taken_as(s, key, kind):
            if when == 'after':
                section.all_elements_required()
            if kind == 'section':
                out = out + demanded(e, inner, ('field',))
            elif len(e.entries(inner)) == 0:
                out.append(('entry() two levels below', attempt(lambda: e.entry(inner)), due('fieldset_entry', inner)))
                out.append(('optional_entry() two levels below', attempt(lambda: e.optional_entry(inner)),
                            due('fieldset_entry', inner)))
    return out


def required_off_deep(section, key, inner, kind, when):
    section.all_elements_required()
    out = []
    for s in taken_as(section, key, 'section'):
        if when == 'between':
            section.all_elements_required(False)
        for e in taken_as(s, key, kind):
            if when == 'after':
                section.all_elements_required(False)
            if kind == 'section':
                out = out + relaxed(e, inner, KINDS)
            elif len(e.entries(inner)) == 0:
                out.append(('optional_entry() two levels below', attempt(lambda: e.optional_entry(inner)), ('same', None)))
    return out


def required_single(section, key, inner, kind, when):
    """nested elements taken through single-element queries"""
    if len(section.elements(key)) != 1:
        return []
    if when == 'before':
        section.all_elements_required()
    e = attempt(lambda: getattr(section, kind)(key))
    if isinstance(e, ValidationError):
        return []
    if when == 'after':
        section.all_elements_required()
    if kind == 'section':
        return demanded(e, inner, ('field',))
    if len(e.entries(inner)) == 0:
        return [('entry() below', attempt(lambda: e.entry(inner)), due('fieldset_entry', inner)),
                ('optional_entry() below', attempt(lambda: e.optional_entry(inner)), due('fieldset_entry', inner))]
    return []


def required_off(section, key, inner, kind):
    """all_elements_required(False) takes the requirement back everywhere"""
    section.all_elements_required()
    out = []
    for e in taken_as(section, key, kind):
        section.all_elements_required(False)
        if kind == 'section':
            if len(e.elements(inner)) == 0:
                out.append(('optional_field() below', attempt(lambda: e.optional_field(inner)), ('same', None)))
                out.append(('field() below', attempt(lambda: e.field(inner)), ('instance', 'MissingField')))
        else:
            if len(e.entries(inner)) == 0:
                out.append(('optional_entry() below', attempt(lambda: e.optional_entry(inner)), ('same', None)))
    return out


# ---------------------------------------------------------------- touching
def untouched_all(section, record):
    """nothing was read yet: any element is left over"""
    e = attempt(lambda: section.assert_all_touched())
    recs = reachable(record)
    if len(recs) == 0:
        return [('assert_all_touched', e, ('same', None))]
    return [('assert_all_touched', e, ('error', 'unexpected_element')), ('assert_all_touched', e, ('reports', recs))]


def reachable(section):
    if 'mirror' in section:
        return reachable(section['mirror'])
    own = section['elements']
    if 'extend' in section:
        return reachable(section['extend']) + own
    return own


def take(e):
    if e.yields_empty():
        return e.to_empty()
    if e.yields_field():
        return e.to_field()
    if e.yields_fieldset():
        return e.to_fieldset()
    if e.yields_list():
        return e.to_list()
    return e.to_section()


def read(x, how):
    if how == 'touch':
        x.touch()
    elif how == 'plain key':
        x.string_key()
    elif how == 'loaded key':
        x.key(lambda k: k)
    elif how == 'comment':
        x.optional_string_comment()
    elif how == 'loaded comment':
        x.optional_comment(lambda k: k)


def untouched_taken(section, record):
    """elements were taken but never read"""
    taken = [take(e) for e in section.elements()]
    e = attempt(lambda: section.assert_all_touched())
    recs = reachable(record)
    if len(recs) == 0:
        return [('assert_all_touched', e, ('same', None))]
    return [('assert_all_touched', e, ('error', 'unexpected_element')), ('assert_all_touched', e, ('reports', recs))]


def touched_flat(section, record, how):
    """elements without children, all read"""
    out = []
    for e in section.elements():
        if not (e.yields_field()):
            return []
        if e.yields_empty():
            x = e.to_empty()
        else:
            x = e.to_field()
        if how == 'value':
            if e.yields_empty():
                x.touch()
            else:
                x.optional_string_value()
        elif how == 'loaded value':
            if e.yields_empty():
                x.touch()
            else:
                x.optional_value(lambda v: v)
        else:
            read(x, how)
    return [('assert_all_touched', attempt(lambda: section.assert_all_touched()), ('same', None))]


def left_one(section, record):
    """all elements but the last one were read"""
    elements = section.elements()
    if len(elements) < 2:
        return []
    for e in elements[:-1]:
        if not e.yields_field():
            return []
        e.to_field().touch()
    last = elements[-1]
    error = attempt(lambda: section.assert_all_touched())
    return [('assert_all_touched', error, ('error', 'unexpected_element')),
            ('assert_all_touched', error, ('reports', [reachable(record)[-1]]))]


def selected(section, record, key, how):
    """only/skip select by key"""
    keys = [key]
    if how == 'skip':
        e = attempt(lambda: section.assert_all_touched(skip=keys))
    elif how == 'only':
        e = attempt(lambda: section.assert_all_touched(only=keys))
    recs = [r for r in reachable(record) if (r['key'] == key) == (how == 'only')]
    if len(recs) == 0:
        return [('assert_all_touched(' + how + ')', e, ('same', None))]
    return [('assert_all_touched(' + how + ')', e, ('error', 'unexpected_element')),
            ('assert_all_touched(' + how + ')', e, ('reports', recs))]


def selected_both(section, record, key, inner, only):
    """skip exempts keys even where only names them"""
    e = attempt(lambda: section.assert_all_touched(only=[key, inner] if only == 'both' else [key], skip=[inner]))
    recs = [r for r in reachable(record) if r['key'] == key and r['key'] != inner]
    if len(recs) == 0:
        return [('assert_all_touched(only and skip)', e, ('same', None))]
    return [('assert_all_touched(only and skip)', e, ('error', 'unexpected_element')),
            ('assert_all_touched(only and skip)', e, ('reports', recs))]


def fieldset_selected_both(fieldset, record, key, inner, only):
    e = attempt(lambda: fieldset.assert_all_touched(only=[key, inner] if only == 'both' else [key], skip=[inner]))
    recs = [r for r in all_entries(record) if r['key'] == key and r['key'] != inner]
    if len(recs) == 0:
        return [('fieldset.assert_all_touched(only and skip)', e, ('same', None))]
    return [('fieldset.assert_all_touched(only and skip)', e, ('error', 'unexpected_element')),
            ('fieldset.assert_all_touched(only and skip)', e, ('reports', recs))]


def lists_read(section, record, how):
    """reading the values of a list reads the list and all its items"""
    recs = reachable(record)
    if len(recs) != 1 or not section.elements()[0].yields_list():
        return []
    l = section.list()
    if how == 'optional_string_values':
        x = attempt(lambda: l.optional_string_values())
    elif how == 'required_string_values':
        x = attempt(lambda: l.required_string_values())
    elif how == 'optional_values':
        x = attempt(lambda: l.optional_values(lambda v: v))
    else:
        x = attempt(lambda: l.required_values(lambda v: v))
    if isinstance(x, ValidationError):
        return []
    return [('list read by ' + how, attempt(lambda: section.assert_all_touched()), ('same', None))]


def subsection_read(section, record, key, how):
    """an empty subsection counts as read by any query"""
    recs = reachable(record)
    if len(recs) != 1 or recs[0]['type'] is not T.SECTION or len(reachable(recs[0])) != 0:
        return []
    s = section.section()
    if how == 'touch':
        s.touch()
    elif how == 'assert':
        return [('subsection taken and only asserted about', attempt(lambda: s.assert_all_touched()), ('same', None))]
    else:
        getattr(s, how)(key)
    return [('subsection read by ' + how + '()', attempt(lambda: section.assert_all_touched()), ('same', None))]


def single_read(section, record, key, kind, how):
    """an element taken by a single-element query and read is read"""
    recs = reachable(record)
    if len(recs) != 1 or recs[0]['key'] != key:
        return []
    e = section.elements(key)[0]
    if not getattr(e, 'yields_' + kind)():
        return []
    x = getattr(section, how + kind)(key)
    out = []
    if kind in ('field', 'empty'):
        out.append(('taken by ' + how + kind + '()', attempt(lambda: section.assert_all_touched()), ('reports', recs)))
    x.touch()
    return out + [('taken by ' + how + kind + '() and touched', attempt(lambda: section.assert_all_touched()),
                   ('same', None))] if kind != 'section' else out


def deep_left(section, record):
    """an unread element two levels down"""
    recs = reachable(record)
    if len(recs) != 1 or recs[0]['type'] is not T.SECTION:
        return []
    inner = reachable(recs[0])
    if len(inner) != 1:
        return []
    s = section.section()
    x = take(s.elements()[0])
    out = [('element two levels down taken', attempt(lambda: section.assert_all_touched()), ('reports', inner))]
    if inner[0]['type'] is not T.SECTION:
        x.touch()
        out.append(('element two levels down touched', attempt(lambda: section.assert_all_touched()), ('same', None)))
    elif len(reachable(inner[0])) != 0:
        x.touch()
        out.append(('section two levels down touched', attempt(lambda: section.assert_all_touched()),
                    ('reports', reachable(inner[0]))))
    return out


def own_message(section, record):
    recs = reachable(record)
    a = attempt(lambda: section.assert_all_touched('text'))
    if len(recs) == 0:
        return [('assert_all_touched', a, ('same', None))]
    seen = []

    def describe(element):
        seen.append(element.string_key())
        return 'called'
    b = attempt(lambda: section.assert_all_touched(describe))
    return [('assert_all_touched with text', a, ('errortext', 'text')),
            ('assert_all_touched with text', a, ('reports', recs)),
            ('assert_all_touched with function', b, ('errortext', 'called')),
            ('assert_all_touched with function', b, ('reports', recs)),
            ('key handed to the function', seen[0] in [r['key'] for r in recs], ('same', True)),
            ('calls of the function', len(seen), ('same', 1))]


def all_entries(fieldset):
    if 'mirror' in fieldset:
        return all_entries(fieldset['mirror'])
    if 'entries' not in fieldset:
        return []
    own = fieldset['entries']
    if 'extend' in fieldset:
        keys = [e['key'] for e in own]
        return [e for e in all_entries(fieldset['extend']) if e['key'] not in keys] + own
    return own


def all_items(list_):
    if 'mirror' in list_:
        return all_items(list_['mirror'])
    if 'items' not in list_:
        return []
    if 'extend' in list_:
        return all_items(list_['extend']) + list_['items']
    return list_['items']


def fieldset_entries(fieldset, record, how):
    """all entries but the last read, or all"""
    entries = fieldset.entries()
    recs = all_entries(record)
    for e in entries[:-1]:
        read_valued(e, how)
    left = attempt(lambda: fieldset.assert_all_touched())
    if len(entries) == 0:
        return [('fieldset.assert_all_touched', left, ('same', None))]
    out = [('fieldset.assert_all_touched', left, ('error', 'unexpected_element')),
           ('fieldset.assert_all_touched', left, ('reports', [recs[-1]]))]
    read_valued(entries[-1], how)
    out.append(('fieldset.assert_all_touched after all were read',
                attempt(lambda: fieldset.assert_all_touched()), ('same', None)))
    return out


def read_valued(x, how):
    if how == 'value':
        x.optional_string_value()
    elif how == 'loaded value':
        x.optional_value(lambda v: v)
    else:
        read(x, how)


def fieldset_message(fieldset, record):
    recs = all_entries(record)
    a = attempt(lambda: fieldset.assert_all_touched('text'))
    if len(recs) == 0:
        return [('fieldset.assert_all_touched', a, ('same', None))]
    seen = []

    def describe(entry):
        seen.append(entry.string_key())
        return 'called'
    b = attempt(lambda: fieldset.assert_all_touched(describe))
    return [('fieldset.assert_all_touched with text', a, ('errortext', 'text')),
            ('fieldset.assert_all_touched with text', a, ('reports', recs)),
            ('fieldset.assert_all_touched with function', b, ('errortext', 'called')),
            ('fieldset.assert_all_touched with function', b, ('reports', recs)),
            ('key handed to the function', seen[0] in [r['key'] for r in recs], ('same', True)),
            ('calls of the function', len(seen), ('same', 1))]


def fieldset_selected(fieldset, record, key, how):
    if how == 'skip':
        e = attempt(lambda: fieldset.assert_all_touched(skip=[key]))
    else:
        e = attempt(lambda: fieldset.assert_all_touched(only=[key]))
    recs = [r for r in all_entries(record) if (r['key'] == key) == (how == 'only')]
    if len(recs) == 0:
        return [('fieldset.assert_all_touched(' + how + ')', e, ('same', None))]
    return [('fieldset.assert_all_touched(' + how + ')', e, ('error', 'unexpected_element')),
            ('fieldset.assert_all_touched(' + how + ')', e, ('reports', recs))]


def nested_fieldset(section, record):
    """entries that were not read are left over in the section too"""
    recs = reachable(record)
    if len(recs) != 1 or recs[0]['type'] is not T.FIELDSET:
        return []
    f = section.fieldset()
    entries = f.entries()
    e0 = attempt(lambda: section.assert_all_touched())
    out = [('unread entries', e0, ('error', 'unexpected_element')),
           ('unread entries', e0, ('reports', all_entries(recs[0])))]
    for x in entries[:-1]:
        x.touch()
    out.append(('last entry unread', attempt(lambda: section.assert_all_touched()),
                ('reports', [all_entries(recs[0])[-1]])))
    entries[-1].touch()
    out.append(('all entries read', attempt(lambda: section.assert_all_touched()), ('same', None)))
    return out


def nested_list(section, record):
    recs = reachable(record)
    if len(recs) != 1 or recs[0]['type'] is not T.LIST:
        return []
    l = section.list()
    items = l.items()
    e0 = attempt(lambda: section.assert_all_touched())
    out = [('unread items', e0, ('error', 'unexpected_element')),
           ('unread items', e0, ('reports', all_items(recs[0])))]
    for x in items[:-1]:
        x.optional_string_value()
    out.append(('last item unread', attempt(lambda: section.assert_all_touched()),
                ('reports', [all_items(recs[0])[-1]])))
    items[-1].touch()
    out.append(('all items read', attempt(lambda: section.assert_all_touched()), ('same', None)))
    return out


def nested_section(section, record):
    recs = reachable(record)
    if len(recs) != 1 or recs[0]['type'] is not T.SECTION:
        return []
    s = section.section()
    e0 = attempt(lambda: section.assert_all_touched())
    inner = reachable(recs[0])
    out = [('subsection taken', e0, ('reports', [recs[0]]))]
    s.elements()
    e1 = attempt(lambda: section.assert_all_touched())
    if len(inner) == 0:
        out.append(('empty subsection read', e1, ('same', None)))
    else:
        out.append(('elements of the subsection unread', e1, ('error', 'unexpected_element')))
        out.append(('elements of the subsection unread', e1, ('reports', inner)))
    return out


def whole(x, section, kind):
    """touch() on a fieldset or list covers everything in it"""
    recs = section.elements()
    if len(recs) != 1:
        return []
    e = recs[0]
    if kind == 'fieldset' and e.yields_fieldset():
        e.to_fieldset().touch()
    elif kind == 'list' and e.yields_list():
        e.to_list().touch()
    else:
        return []
    return [('touched as a whole', attempt(lambda: section.assert_all_touched()), ('same', None))]


# ---------------------------------------------------------------- representations and raw output
def shortened(value):
    if not value:
        return 'None'
    if len(value) > 14:
        value = value[0:11] + '...'
    return value.replace('\n', '\\n')


def represent(x, name, form):
    text = repr(x)
    if form == 'document':
        want = '<class Section document elements=' + str(len(x.elements())) + '>'
    elif form == 'section':
        want = '<class Section key="' + x.string_key() + '" elements=' + str(len(x.elements())) + '>'
    elif form == 'fieldset':
        want = '<class Fieldset key=' + x.string_key() + ' entries=' + str(len(x.entries())) + '>'
    elif form == 'list':
        want = '<class List key=' + x.string_key() + ' items=' + str(len(x.items())) + '>'
    elif form == 'valued':
        want = '<class ' + name + ' key=' + x.string_key() + ' value=' + shortened(x.optional_string_value()) + '>'
    elif form == 'item':
        want = '<class ListItem value=' + shortened(x.optional_string_value()) + '>'
    elif form == 'element of document':
        want = '<class Element document>'
    else:
        want = '<class ' + name + ' key=' + x.string_key() + '>'
    return [('repr', text, ('same', want))]


def represent_missing(x, name, key):
    if key:
        return [('repr', repr(x), ('same', '<class ' + name + ' key=' + key + '>'))]
    return [('repr', repr(x), ('same', '<class ' + name + '>'))]


NAMES = {T.DOCUMENT: 'document', T.EMPTY_ELEMENT: 'empty_element', T.FIELD: 'field', T.FIELDSET: 'fieldset',
         T.FIELDSET_ENTRY: 'fieldset_entry', T.LIST: 'list', T.LIST_ITEM: 'list_item',
         T.MULTILINE_FIELD_BEGIN: 'field', T.SECTION: 'section'}
