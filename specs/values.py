# Reference transfer functions for values, comments and keys (evaluated abstractly, never executed).
from enolib.constants import InstructionType as T


def value(input, element):
    """the composed value of an element, or None"""
    if 'mirror' in element:
        return value(input, element['mirror'])
    if element['type'] is T.MULTILINE_FIELD_BEGIN:
        if 'lines' not in element:
            return None
        return input[element['lines'][0]['ranges']['line'][0]:element['lines'][-1]['ranges']['line'][1]]
    text = None
    if 'value' in element:
        text = element['value']
    if 'continuations' in element:
        gap = False
        for c in element['continuations']:
            if 'spaced' in c:
                gap = True
            if 'value' in c:
                if text is None:
                    text = c['value']
                elif gap:
                    text = text + ' ' + c['value']
                else:
                    text = text + c['value']
                gap = False
    return text


def comment(element):
    """the text of the comment block directly above an element, or None"""
    if 'comments' not in element:
        return None
    lines = element['comments']
    if len(lines) == 1:
        if 'comment' in lines[0]:
            return lines[0]['comment']
        return None
    first = None
    last = None
    shared = None
    i = 0
    for c in lines:
        if 'comment' in c:
            if first is None:
                first = i
            last = i
            indent = c['ranges']['comment'][0] - c['ranges']['line'][0]
            if shared is None or indent < shared:
                shared = indent
        i = i + 1
    if first is None:
        return None
    parts = []
    for c in lines[first:last + 1]:
        if 'comment' in c:
            indent = c['ranges']['comment'][0] - c['ranges']['line'][0]
            if indent == shared:
                parts.append(c['comment'])
            else:
                parts.append(' ' * (indent - shared) + c['comment'])
        else:
            parts.append('')
    return '\n'.join(parts)


def key(element):
    if element['type'] is T.LIST_ITEM:
        return element['parent']['key']
    return element['key']


MISSING_VALUE = {T.FIELDSET_ENTRY: 'missing_fieldset_entry_value', T.LIST_ITEM: 'missing_list_item_value'}


def read_value(input, element, required):
    v = value(input, element)
    if v is None:
        if required:
            return ('error', MISSING_VALUE.get(element['type'], 'missing_field_value'), key(element))
        return ('none',)
    return ('text', v, 'value_error')


def read_comment(element, required):
    c = comment(element)
    if not c:
        if required:
            return ('error', 'missing_comment')
        return ('none',)
    return ('text', c, 'comment_error')


def read_key(element):
    return ('text', key(element), 'key_error')


def all_items(list_):
    if 'mirror' in list_:
        return all_items(list_['mirror'])
    if 'items' not in list_:
        return []
    if 'extend' in list_:
        return all_items(list_['extend']) + list_['items']
    return list_['items']


def list_values(input, list_, required):
    out = []
    for item in all_items(list_):
        v = value(input, item)
        if v is None and required:
            return ('error', out, 'missing_list_item_value', key(item))
        out.append(v)
    return ('texts', out)
