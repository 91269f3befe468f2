# What a document contains, asked through the query API (evaluated by the analysis over abstract documents).
import enolib


def texts(entry, kind):
    out = {'type': kind, 'value': entry.optional_string_value()}
    if kind == 'fieldset_entry':
        out['key'] = entry.string_key()
    if kind != 'section_element':
        comment = entry.optional_string_comment()
        if comment is not None:
            out['comment'] = comment
    return out


def view(element):
    out = {'key': element.string_key()}
    comment = element.optional_string_comment()
    if comment is not None:
        out['comment'] = comment
    if element.yields_section():
        out['type'] = 'section'
        out['elements'] = [view(e) for e in element.to_section().elements()]
    elif element.yields_empty():
        out['type'] = 'empty_element'
    elif element.yields_fieldset():
        out['type'] = 'fieldset'
        out['entries'] = [texts(e, 'fieldset_entry') for e in element.to_fieldset().entries()]
    elif element.yields_list():
        out['type'] = 'list'
        out['items'] = [texts(i, 'list_item') for i in element.to_list().items()]
    else:
        out['type'] = 'field'
        out['value'] = element.to_field().optional_string_value()
    return out


def view_text(text, locale, reporter):
    document = enolib.parse(text, locale=locale, reporter=reporter)
    return {'type': 'document', 'elements': [view(e) for e in document.elements()]}
