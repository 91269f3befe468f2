"""Planted bugs (development aid; see mkseed.py).  id -> property, edits, needs, breaks, demo."""
SEEDS = {}


def seed(id, property, edits, needs, breaks, demo):
    SEEDS[id] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo)


seed('S07-spacing', 'P07', [('context.py', "unapplied_spacing = unapplied_spacing or 'spaced' in continuation",
                             "unapplied_spacing = 'spaced' in continuation")],
     'an empty spaced continuation followed by an empty direct one and then by a direct continuation with text',
     'the separating space is lost when the pending empty continuations end with a direct one', '''
import enolib
doc = enolib.parse("color: red\\n\\\\\\n|\\n| green\\n")
value = doc.field("color").required_string_value()
assert value == "red green", repr(value)
''')
seed('S08-indent', 'P08', [('context.py', "                            if indent < shared_indent:\n",
                            "                            if indent < shared_indent and index + 1 < len(element['comments']):\n")],
     'a comment block of several lines whose last line is the least indented one',
     'the last line does not take part in the shared indentation', '''
import enolib
doc = enolib.parse(">    a\\n> b\\nkey: value\\n")
text = doc.field("key").required_string_comment()
assert text == "   a\\nb", repr(text)
''')
seed('S11-override', 'P11', [('elements/section.py', "filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]\n            native_elements = [instantiate_and_index(element) for element in filtered]",
                              "native_elements = [instantiate_and_index(element) for element in section['elements']\n                               if section is self._instruction or element['key'] not in self._instantiated_elements_map]")],
     'a section that extends a section which holds the same new key twice',
     'the second of two inherited elements with the same key is taken for an override and dropped, so the query does not '
     'reject the ambiguity', '''
import enolib
from enolib import ValidationError
doc = enolib.parse("# base\\na: 1\\na: 2\\n\\n# copy < base\\nb: 3\\n")
try:
    r = doc.section("copy").field("a")
except ValidationError:
    pass
else:
    raise AssertionError(r)
''')
seed('S18-outermost', 'P18', [('elements/missing/missing_element_base.py', "        self._parent._missing_error(self)\n\n    def key", "        self._parent._missing_error(_element)\n\n    def key")],
     'a required access two levels below a missing section',
     'the error names the innermost element, with the wrong kind, instead of the outermost missing one', '''
import enolib
from enolib import ValidationError
doc = enolib.parse("a: 1\\n")
try:
    doc.section("outer").field("inner").required_string_value()
except ValidationError as error:
    assert "outer" in error.text, error.text
else:
    raise AssertionError()
''')
seed('S17-entry', 'P17', [('elements/fieldset.py', "        untouched_entry = next((entry for entry in self._entries() if not hasattr(entry, '_touched')), None)",
                           "        untouched_entry = next((entries[0] for entries in self._entries(True).values() if not hasattr(entries[0], '_touched')), None)")],
     'a fieldset in a section with two entries of the same key of which only the first one was read',
     'the second entry of a key is never reported as unread by the section', '''
import enolib
from enolib import ValidationError
doc = enolib.parse("f:\\na = 1\\na = 2\\n")
doc.fieldset("f").entries()[0].required_string_value()
try:
    doc.assert_all_touched()
except ValidationError:
    pass
else:
    raise AssertionError("unread entry not reported")
''')
seed('S27-inplace', 'P27', [('context.py', "list['computed_items'] = self.items(list['extend']) + list['items']",
                             "list['computed_items'] = self.items(list['extend'])\n                list['computed_items'].extend(list['items'])")],
     'a list copied with further items, raw output taken, and the template list queried afterwards',
     'composing the copy adds its items to the template', '''
import enolib
text = "base:\\n- a\\n\\ncopy < base\\n- b\\n"
doc = enolib.parse(text)
doc.raw()
assert doc.list("base").required_string_values() == ["a"], doc.list("base").required_string_values()
''')
seed('S26-locale', 'P26', [('context.py', "        self.messages = locale\n",
                            "        if not hasattr(Context, 'messages'):\n            Context.messages = locale\n")],
     'two readings with different locales in one process',
     'the locale of the first reading is kept for all later ones', '''
import enolib
from enolib import ParseError
from enolib.messages import de
enolib.parse("a: 1\\n")
try:
    enolib.parse("- stray\\n", locale=de)
except ParseError as error:
    assert "Zeile" in error.text, error.text
''')
seed('S32-key', 'P32', [('grammar_regex.py', r"KEY_UNESCAPED = r'([^\s>#\-`\\|:=<][^\n:=<]*?)'",
                        r"KEY_UNESCAPED = r'([^\s>#\-`\\|:=<](?:[^\s:=<]|[^\S\n]+)*?)'")],
     'a long line of blank separated words without an operator',
     'matching such a line takes time exponential in its length', '''
import signal
import enolib
from enolib import ParseError
signal.alarm(20)
try:
    enolib.parse("a" + "  b" * 60 + "\\n")
except ParseError:
    pass
''')
seed('S25-continuation', 'P25', [('lookup.py', "        if index <= continuation['ranges']['line'][END]:\n            return { 'element': field, 'instruction': continuation }",
                                  "        if index < continuation['ranges']['line'][END]:\n            return { 'element': field, 'instruction': continuation }")],
     'a lookup by index exactly at the end of a continuation line that is not the last one',
     'the lookup finds nothing there (or fails)', '''
import enolib
text = "a: 1\\n\\\\ two\\n\\\\ three\\n"
end = text.index("two") + 3
found = enolib.lookup(text, index=end)
assert found["element"].string_key() == "a" and found["range"] == "value", found
''')
seed('S05-ascend', 'P05', [('analyzer.py', "                        self._depth -= 1", "                        self._depth = new_depth")],
     'a section that closes two or more nested sections at once',
     'only one of them is closed, the section lands in a section it does not belong to', '''
import enolib
doc = enolib.parse("# a\\n## b\\n### c\\n# d\\n")
assert len(doc.sections()) == 2, [s.string_key() for s in doc.sections()]
''')
seed('S09-trail', 'P09', [('resolver.py', "self.resolve_non_section_element(template, [*previous_elements, element])",
                           "self.resolve_non_section_element(template, [*previous_elements[-1:], element])")],
     'a cycle of at least three copies',
     'the cycle is not noticed and the analysis does not end properly', '''
import enolib
from enolib import ParseError
try:
    enolib.parse("a < b\\nb < c\\nc < d\\nd < a\\n")
except ParseError as error:
    pass
else:
    raise AssertionError("accepted")
''')
seed('S15-carriage', 'P15', [('elements/field.py', "            return loader(value)\n", "            return loader(value.strip())\n")],
     'a multiline field whose value begins or ends with blanks',
     'the loader does not see the exact text', '''
import enolib
doc = enolib.parse("-- code\\n    indented\\n-- code\\n")
seen = []
doc.field("code").required_value(seen.append)
assert seen == ["    indented"], seen
''')
seed('S17-both', 'P17', [('elements/section.py', "if (skip and key in skip) or (only and key not in only):",
                          "if (skip and key in skip) if skip else (only and key not in only):")],
     'both `only` and `skip` given to assert_all_touched',
     'elements that are not among the given keys are reported', '''
import enolib
doc = enolib.parse("a: 1\\nb: 2\\nc: 3\\n")
doc.field("a").touch()
doc.assert_all_touched(only=["a", "b"], skip=["b"])
''')
seed('S20-end', 'P20', [('errors/validation.py', "            if 'continuations' in element:\n                select['to'] = cursor(element['continuations'][-1], 'line', END)",
                         "            if 'continuations' in element:\n                select['to'] = cursor(element['continuations'][-1 if 'value' in element else 0], 'line', END)")],
     'a rejected value made of two or more continuations after an empty first line',
     'the selection ends after the first continuation', '''
import enolib
doc = enolib.parse("a:\\n| one\\n| two\\n")
error = doc.field("a").value_error("no")
assert error.selection["to"]["line"] == 2, error.selection
''')
seed('S21-index', 'P21', [('reporters/reporter.py', """                            if 'continuations' in entry:
                                for continuation in entry['continuations']:
                                    self._index[continuation['line']] = continuation""",
                           """                            if 'continuations' in entry:
                                for line, continuation in enumerate(entry['continuations'], entry['line'] + 1):
                                    self._index[line] = continuation""")],
     'an entry whose continuation comes after an empty line',
     'the report shows the continuation on the wrong line', '''
import enolib
doc = enolib.parse("f:\\na = 1\\n\\n\\\\ two\\n")
error = doc.fieldset("f").entry("a").error("no")
assert any("4 |" in row and "two" in row for row in error.snippet.splitlines()), error.snippet
''')
seed('S27-append', 'P27', [('context.py', "                list['computed_items'] = self.items(list['extend']) + list['items']",
                            "                list['computed_items'] = self.items(list['extend'])\n                list['computed_items'] += list['items']")],
     'asking for the raw content of a list that extends another one before querying the other one',
     'the items of the copy appear in its template', '''
import enolib
doc = enolib.parse("a:\\n- 1\\n\\nb < a\\n- 2\\n")
doc.list("b").raw()
assert doc.list("a").required_string_values() == ["1"]
''')
seed('S28-chain', 'P28', [('context.py', "self.items(list['extend']) + list['items']", "list['extend'].get('items', []) + list['items']")],
     'a list that extends a plain copy of a list',
     'the raw output lacks the inherited items', '''
import enolib
doc = enolib.parse("a:\\n- 1\\n\\nb < a\\n\\nc < b\\n- 2\\n")
assert [i["value"] for i in doc.list("c").raw()["items"]] == ["1", "2"], doc.list("c").raw()
''')
seed('S34-nested', 'P34', [('elements/section.py', "                element.to_section().all_elements_required(required)",
                            "                element.to_section()._all_elements_required = required")],
     'declaring everything required after a section within a section was already asked for',
     'the inner section still answers missing elements silently', '''
import enolib
from enolib import ValidationError
doc = enolib.parse("# a\\n## b\\nx: 1\\n")
inner = doc.section("a").section("b")
doc.all_elements_required()
try:
    inner.field("nothing")
except ValidationError:
    pass
else:
    raise AssertionError("silent")
''')
seed('S14-target', 'P09', [('resolver.py', "raise Parsing.two_or_more_templates_found(self._context, copy_data['targets'][0], copy_data['template'], element)\n\n                    copy_data",
                            "raise Parsing.two_or_more_templates_found(self._context, copy_data['targets'][-1], copy_data['template'], element)\n\n                    copy_data")],
     'two sections that copy the same ambiguous template',
     'the error selects the last copy instead of the first', '''
import enolib
from enolib import ParseError
try:
    enolib.parse("# a\\n# a\\n# b < a\\n# c < a\\n")
except ParseError as error:
    assert error.selection["from"]["line"] == 2, error.selection
''')
seed('S10-view', 'P10', [('elements/section.py', "            filtered = [element for element in section['elements'] if",
                          "            filtered = [element for element in (section['elements'] if 'extend' not in section or section is self._instruction else section['elements'][-1:]) if")],
     'a section that extends a section which itself extends another one and adds two elements or more',
     'only the last element of the middle section is inherited', '''
import enolib
doc = enolib.parse("# a\\nx: 1\\n\\n# b < a\\ny: 2\\nz: 3\\n\\n# c < b\\nw: 4\\n")
keys = [e.string_key() for e in doc.section("c").elements()]
assert keys == ["x", "y", "z", "w"], keys
''')
seed('S29-item', 'P29', [('elements/list_item.py', "self._parent or ", "")],
     'asking an item of a list for its parent',
     'the parent is a new list object, not the list the item came from', '''
import enolib
doc = enolib.parse("l:\\n- a\\n")
l = doc.list("l")
assert l.items()[0].parent() is l
''')
seed('S06-held', 'P06', [('analyzer.py', """                    last_continuable_element['continuations'] = [instruction]

                if comments is not None:
                    self._context.meta.extend(comments)
                    comments = None

            elif match.group(Grammar.SECTION""", """                    last_continuable_element['continuations'] = [instruction]

                    if comments is not None:
                        self._context.meta.extend(comments)
                        comments = None

            elif match.group(Grammar.SECTION""")],
     'a comment before the second continuation of a field or later, with an element right below that continuation',
     'the comment is attached to the element below', '''
import enolib
doc = enolib.parse("a: 1\\n| 2\\n> note\\n| 3\\nb: 4\\n")
assert doc.field("b").optional_string_comment() is None
''')
seed('S12-own', 'P12', [('elements/list.py', "return self._instantiate_items(list['mirror'])", "return self._instantiate_items(list['mirror'].get('extend', list['mirror']))")],
     'a plain copy of a list that itself extends another one',
     'the items added by the list in the middle are missing', '''
import enolib
doc = enolib.parse("a:\\n- 1\\n\\nb < a\\n- 2\\n\\nc < b\\n")
values = doc.list("c").required_string_values()
assert values == ["1", "2"], values
''')
seed('S18-beside', 'P18', [('elements/missing/missing_section.py', """    def fields(self, _key=None):
        return []""", """    def fields(self, _key=None):
        return [] if _key is None else self._parent.fields(_key)""")],
     'fields of a missing section asked for by a key its parent has',
     'the fields of the parent are returned', '''
import enolib
doc = enolib.parse("name: 1\\n")
assert doc.section("none").fields("name") == []
''')
seed('S24-twice', 'P24', [('register.py', "lambda self: self.required_comment(function))\n    setattr(ValueElementBase", "lambda self, function=function: self.optional_comment(function) or self.required_comment(function))\n    setattr(ValueElementBase")],
     'a registered loader that yields something falsy for a comment',
     'the required comment accessor runs the loader twice', '''
import enolib
calls = []
def number(text):
    calls.append(text)
    return int(text)
enolib.register(number=number)
enolib.parse("> 0\\na: 1\\n").field("a").required_number_comment()
assert calls == ["0"], calls
''')
seed('S25-fence', 'P25', [('lookup.py', "    if index >= field['end']['ranges']['line'][BEGIN]:", "    if index > field['end']['ranges']['line'][BEGIN]:")],
     'a lookup by index exactly at the beginning of the closing line of a multiline field',
     'the closing line is not found there', '''
import enolib
found = enolib.lookup("-- a\\nx\\n-- a\\n", index=7)
assert found["range"] == "multiline_field_operator", found
''')
