# Reference transfer function for raw representations (evaluated abstractly, never executed).
from enolib.constants import InstructionType as T
from spec_values import value, comment
from spec_api import all_items, all_entries, all_elements

NAMES = {T.DOCUMENT: 'document', T.EMPTY_ELEMENT: 'empty_element', T.FIELD: 'field', T.FIELDSET: 'fieldset',
         T.FIELDSET_ENTRY: 'fieldset_entry', T.LIST: 'list', T.LIST_ITEM: 'list_item',
         T.MULTILINE_FIELD_BEGIN: 'field', T.SECTION: 'section'}


def raw(input, element):
    t = element['type']
    out = {'type': NAMES[t]}
    if 'comments' in element:
        out['comment'] = comment(element)
    if t is not T.DOCUMENT and t is not T.LIST_ITEM:
        out['key'] = element['key']
    if t is T.FIELD or t is T.MULTILINE_FIELD_BEGIN or t is T.FIELDSET_ENTRY or t is T.LIST_ITEM:
        out['value'] = value(input, element)
    if t is T.LIST:
        out['items'] = [raw(input, x) for x in all_items(element)]
    if t is T.FIELDSET:
        out['entries'] = [raw(input, x) for x in all_entries(element)]
    if t is T.SECTION or t is T.DOCUMENT:
        out['elements'] = [raw(input, x) for x in all_elements(element)]
    return out


def check_raw(element, input, record):
    return [('raw()', element.raw(), ('same', raw(input, record))),
            ('raw() again', element.raw(), ('same', raw(input, record)))]
