# Reference transfer functions for the query API.  They are evaluated by the analysis on the abstract state
# an entry point of the analysed program ends in; they are never executed on real documents.
from enolib.constants import InstructionType as T


def all_elements(section):
    if 'mirror' in section:
        return all_elements(section['mirror'])
    own = section['elements']
    if 'extend' in section:
        keys = [e['key'] for e in own]
        return [e for e in all_elements(section['extend']) if e['key'] not in keys] + own
    return own


def all_entries(fieldset):
    if 'mirror' in fieldset:
        return all_entries(fieldset['mirror'])
    if 'entries' not in fieldset:
        return []
    own = fieldset['entries']
    if 'extend' in fieldset:
        keys = [e['key'] for e in own]
        return [e for e in all_entries(fieldset['extend']) if e['key'] not in keys] + own
    return own


def all_items(list_):
    if 'mirror' in list_:
        return all_items(list_['mirror'])
    if 'items' not in list_:
        return []
    if 'extend' in list_:
        return all_items(list_['extend']) + list_['items']
    return list_['items']


def accepts(kind, element):
    t = element['type']
    if kind == 'element':
        return True
    if kind == 'section':
        return t is T.SECTION
    if t is T.EMPTY_ELEMENT:
        return kind in ('empty', 'field', 'fieldset', 'list')
    if kind == 'field':
        return t is T.FIELD or t is T.MULTILINE_FIELD_BEGIN
    if kind == 'fieldset':
        return t is T.FIELDSET
    if kind == 'list':
        return t is T.LIST
    return False


def matching(children, key):
    if not key:
        return children
    return [c for c in children if c['key'] == key]


def single(section, key, kind, required, all_required):
    found = matching(all_elements(section), key)
    if len(found) == 0:
        if required or all_required:
            return ('raise', 'missing_' + kind, key)
        if required is None:
            return ('missing', kind, key)
        return ('none',)
    if len(found) > 1:
        return ('raise', 'expected_single_' + kind, key)
    if not accepts(kind, found[0]):
        return ('raise', 'expected_' + kind, key)
    return ('value', kind, found[0])


def single_entry(fieldset, key, required, all_required):
    found = matching(all_entries(fieldset), key)
    if len(found) == 0:
        if required or all_required:
            return ('raise', 'missing_fieldset_entry', key)
        if required is None:
            return ('missing', 'fieldset_entry', key)
        return ('none',)
    if len(found) > 1:
        return ('raise', 'expected_single_fieldset_entry', key)
    return ('value', 'fieldset_entry', found[0])


def plural(section, key, kind):
    found = matching(all_elements(section), key)
    for e in found:
        if not accepts(kind, e):
            return ('raise', 'expected_' + kind + 's', key)
    return ('values', kind, [e for e in found])


def plural_entries(fieldset, key):
    return ('values', 'fieldset_entry', [e for e in matching(all_entries(fieldset), key)])


def list_items(list_):
    return ('values', 'list_item', [i for i in all_items(list_)])


def list_length(list_):
    return ('int', len(all_items(list_)))
