# Reference table of validation errors: wording, selection and reported elements (evaluated abstractly).
from enolib import ValidationError
from enolib.constants import InstructionType as T
from spec_values import value, comment, key
from spec_api import all_elements, all_entries, matching, accepts


def at(record, range, side):
    index = record['ranges'][range][side]
    return {'column': index - record['ranges']['line'][0], 'index': index, 'line': record['line']}


def last_in(element):
    t = element['type']
    if (t is T.FIELD or t is T.LIST_ITEM or t is T.FIELDSET_ENTRY) and 'continuations' in element:
        return element['continuations'][-1]
    if t is T.MULTILINE_FIELD_BEGIN:
        return element['end']
    if t is T.LIST and 'items' in element:
        return last_in(element['items'][-1])
    if t is T.FIELDSET and 'entries' in element:
        return last_in(element['entries'][-1])
    if t is T.SECTION and len(element['elements']) > 0:
        return last_in(element['elements'][-1])
    return element


def whole(element):
    return {'from': at(element, 'line', 0), 'to': at(last_in(element), 'line', 1)}


def of_key(element):
    return {'from': at(element, 'key', 0), 'to': at(element, 'key', 1)}


def of_comment(element):
    if 'comments' not in element:
        return {'from': at(element, 'line', 0), 'to': at(element, 'line', 0)}
    lines = element['comments']
    if len(lines) == 1:
        range = 'comment' if 'comment' in lines[0] else 'line'
        return {'from': at(lines[0], range, 0), 'to': at(lines[0], range, 1)}
    return {'from': at(lines[0], 'line', 0), 'to': at(lines[-1], 'line', 1)}


def of_value(element):
    if 'mirror' in element:
        return of_key(element)
    if element['type'] is T.MULTILINE_FIELD_BEGIN:
        if 'lines' in element:
            return {'from': at(element['lines'][0], 'line', 0), 'to': at(element['lines'][-1], 'line', 1)}
        return {'from': at(element, 'line', 1), 'to': at(element, 'line', 1)}
    ranges = element['ranges']
    if 'value' in ranges:
        start = at(element, 'value', 0)
        end = at(element, 'value', 1)
    else:
        end = at(element, 'line', 1)
        if 'element_operator' in ranges:
            start = at(element, 'element_operator', 1)
        elif 'entry_operator' in ranges:
            start = at(element, 'entry_operator', 1)
        elif 'item_operator' in ranges:
            start = at(element, 'item_operator', 1)
        else:
            start = end
    if 'continuations' in element:
        end = at(element['continuations'][-1], 'line', 1)
    return {'from': start, 'to': end}


def of_missing_value(element):
    ranges = element['ranges']
    end = at(element, 'line', 1)
    if 'template' in ranges:
        start = at(element, 'template', 1)
    elif 'element_operator' in ranges:
        start = at(element, 'element_operator', 1)
    elif 'entry_operator' in ranges:
        start = at(element, 'entry_operator', 1)
    elif 'item_operator' in ranges:
        start = at(element, 'item_operator', 1)
    else:
        start = end
    if element['type'] is T.FIELD and 'continuations' in element:
        end = at(element['continuations'][-1], 'line', 1)
    return {'from': start, 'to': end}


def of_missing_element(parent):
    if parent['type'] is T.DOCUMENT:
        begin = {'column': 0, 'index': 0, 'line': 0}
        return {'from': begin, 'to': begin}
    end = at(parent, 'line', 1)
    return {'from': end, 'to': end}


def attempt(fn):
    try:
        return fn()
    except ValidationError as error:
        return error


def judged(name, error, text, selection, records):
    return [(name, error, text), (name + ' selection', error.selection, ('same', selection)),
            (name + ' cursor', error.cursor, ('same', selection['from'])),
            (name + ' message', error.message, ('same', error.text + '\n\n' + error.snippet)),
            (name + ' str', str(error), ('same', error.message)),
            (name + ' report', error, ('reportsall', records))]


def helper(element, record, which):
    if which == 'error':
        return judged('error', element.error('text'), ('errortext', 'text'), whole(record), [record])
    if which == 'key_error':
        return judged('key_error', element.key_error('text'), ('error', 'key_error', 'text'), of_key(record), [record])
    if which == 'comment_error':
        return judged('comment_error', element.comment_error('text'), ('error', 'comment_error', 'text'),
                      of_comment(record), [record])
    return judged('value_error', element.value_error('text'), ('error', 'value_error', 'text'), of_value(record),
                  [record])


def reject(text):
    raise ValueError('text')


def rejected(element, record, which, input):
    """a loader refused the text"""
    if which == 'value':
        if value(input, record) is None:
            return []
        e = attempt(lambda: element.required_value(reject))
        return [('rejected value selection', e.selection, ('same', of_value(record))),
                ('rejected value report', e, ('reportsall', [record]))]
    if which == 'comment':
        if not comment(record):
            return []
        e = attempt(lambda: element.required_comment(reject))
        return [('rejected comment selection', e.selection, ('same', of_comment(record))),
                ('rejected comment report', e, ('reportsall', [record]))]
    e = attempt(lambda: element.key(reject))
    return [('rejected key selection', e.selection, ('same', of_key(record))),
            ('rejected key report', e, ('reportsall', [record]))]


NAMES = {T.FIELDSET_ENTRY: 'missing_fieldset_entry_value', T.LIST_ITEM: 'missing_list_item_value'}


def missing_value(element, record, input):
    if value(input, record) is not None:
        return []
    return judged('missing value', attempt(lambda: element.required_string_value()),
                  ('error', NAMES.get(record['type'], 'missing_field_value'), key(record)),
                  of_missing_value(record), [record])


def missing_comment(element, record):
    if comment(record):
        return []
    begin = at(record, 'line', 0)
    return judged('missing comment', attempt(lambda: element.required_string_comment()),
                  ('error', 'missing_comment'), {'from': begin, 'to': begin}, [record])


def due(name, k):
    if k is None:
        return ('error', name)
    return ('error', name + '_with_key', k)


def single(section, record, k, kind):
    """errors of a required single-element query"""
    found = matching(all_elements(record), k)
    if len(found) == 0:
        e = attempt(lambda: getattr(section, 'required_' + kind)(k))
        other = attempt(lambda: getattr(section, 'required_' + kind)(k))
        return judged('missing', e, due('missing_' + kind, k), of_missing_element(record), [record]) + [
            ('selection shared with another error', e.selection is other.selection or
             e.selection['from'] is other.selection['from'] or e.selection['to'] is other.selection['to'],
             ('same', False))]
    if len(found) > 1:
        e = attempt(lambda: getattr(section, 'required_' + kind)(k))
        return judged('ambiguous', e, due('expected_single_' + kind, k), whole(found[0]), found)
    if not accepts(kind, found[0]):
        e = attempt(lambda: getattr(section, 'required_' + kind)(k))
        return judged('unsuitable', e, due('expected_' + kind, k), whole(found[0]), [found[0]])
    return []


def plural(section, record, k, kind):
    for r in matching(all_elements(record), k):
        if not accepts(kind, r):
            e = attempt(lambda: getattr(section, kind + 's')(k))
            return judged('unsuitable', e, due('expected_' + kind + 's', k), whole(r), [r])
    return []


def entry(fieldset, record, k):
    found = matching(all_entries(record), k)
    if len(found) == 0:
        e = attempt(lambda: fieldset.required_entry(k))
        return judged('missing', e, due('missing_fieldset_entry', k), of_missing_element(record), [record])
    if len(found) > 1:
        e = attempt(lambda: fieldset.required_entry(k))
        return judged('ambiguous', e, due('expected_single_fieldset_entry', k), whole(found[0]), found)
    return []


def missing_through(section, record, k, kind):
    """the error of a stand-in is the error of the query that produced it"""
    if len(matching(all_elements(record), k)) != 0:
        return []
    m = getattr(section, kind)(k)
    e = attempt(lambda: m.required_string_comment())
    return judged('stand-in', e, due('missing_' + kind, k), of_missing_element(record), [record])


def cast(element, record, kind):
    if accepts(kind, record):
        return []
    return judged('conversion', attempt(lambda: getattr(element, 'to_' + kind)()), ('error', 'expected_' + kind),
                  whole(record), [record])


def unexpected(section, record):
    out = []
    found = all_elements(record)
    if len(found) == 1:
        out = judged('untouched', attempt(lambda: section.assert_all_touched()), ('error', 'unexpected_element'),
                     whole(found[0]), [found[0]])
    return out


def unexpected_entry(fieldset, record):
    found = all_entries(record)
    if len(found) == 1:
        return judged('untouched', attempt(lambda: fieldset.assert_all_touched('text')), ('errortext', 'text'),
                      whole(found[0]), [found[0]])
    return []
