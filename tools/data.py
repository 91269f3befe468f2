"""Single source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""
P = 'python/enolib/'
ELEMENTS = [P + 'elements/section.py', P + 'elements/section_element.py', P + 'elements/element_base.py',
            P + 'elements/fieldset.py', P + 'elements/list.py']


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, technique=technique, note=note, observe=observe or [], state=state or [])


AI = ('abstract interpretation of the source (trace-partitioned dataflow over record shapes); outcomes of every path '
      'compared with a reference transfer function')
AINOTE = ('Every path of the anchored functions over abstract documents is decided, with children per level, copy-chain '
          'depth and recursion bounded (see bounds_hit in the evidence). Trusts the model of Python built-ins in the '
          'analyser, and that an analysed document has the record shapes the parser properties (P03-P10) establish. '
          'Anything the analysis cannot decide is reported as undecided in the evidence and raises no alarm.')

DOC = ('abstract interpretation of the parser on documents of symbolic lines: the line grammar as an exact product of the '
       'compiled expressions with a reference grammar over character classes, every path of the program compared with a '
       'reference reading')
DOCNOTE = ('A document is a sequence of line forms with arbitrary texts, blanks and lengths; every line of a form is covered, '
           'whatever its length. The number of lines is bounded (see the obligation names), as are section depth (4) and '
           'key coincidences. Trusts the model of Python and of its regular expressions in the analyser. Anything the '
           'analysis cannot decide is reported as undecided in the evidence and raises no alarm.')

HIST = ('self-composition by abstract interpretation: the same client questions evaluated on an abstract document in two '
        'histories, their answers compared as terms')
HISTNOTE = ('Documents are sequences of line forms with arbitrary texts (the list is in enoai/props/history.py), the questions '
            'those of specs/queries.py, the orders all in sequence, reversed and each twice (thorough: every ordered pair of '
            'questions). Longer documents and other orders are not covered. Trusts the model of Python in the analyser. '
            'Anything the analysis cannot decide is reported as undecided in the evidence and raises no alarm.')

PROPERTIES = [
    prop('P01', 'Reading any text ends with a document or a ParseError',
         'Whatever text is given, reading it ends, and it ends either with a document or with a ParseError; no other '
         'exception escapes, however elements, continuations, multiline fields, sections, comments and invalid lines are '
         'combined.',
         ['inputs'], 'all texts, up to a bounded number of lines', 'The tests read a few hundred fixed texts.',
         [P + 'analyzer.py', P + 'grammar_regex.py', P + 'context.py', P + 'errors/parsing.py'],
         [('reading', 'analyzer.py Analyzer.analyze'), ('rejection', 'errors/parsing.py')], DOC, DOCNOTE, observe=['parse']),
    prop('P03', 'Every line and every part of it is recorded at its exact place',
         'Each element, entry, item, continuation, comment and multiline line carries the zero-based number of its line, '
         'the range of the whole line, and exactly the ranges of the parts it has: key, operators, escape operators, value, '
         'template, as offsets into the text. The number of lines of a document is the number of line breaks plus one. '
         'The position a parse error points at follows the same rule.',
         ['inputs'], 'all texts, up to a bounded number of lines', 'The snapshots show positions for a few documents; '
         'blanks and lengths of each part vary independently.',
         [P + 'analyzer.py', P + 'grammar_regex.py'], [('positions', 'analyzer.py Analyzer.analyze'),
                                                        ('rest after errors', '_tokenize_error_context')], DOC, DOCNOTE,
         observe=['lookup', 'error selections']),
    prop('P04', 'The lines of a text become exactly the elements they describe',
         'Each field, empty element, copy, section and multiline line makes one element in the section that is open at that '
         'point; items and entries are added in order to the last element, which must be an empty element, list or fieldset '
         'of that same section and not yet something else; continuations go to the last field, empty element, item or '
         'entry, in order and with their kind; an empty element with continuations is a field. Keys and values are the '
         'texts of the line, and every other line order is rejected.',
         ['inputs'], 'all sequences of lines, up to a bounded number', 'The tests sample a few sequences per kind.',
         [P + 'analyzer.py'], [('elements', 'analyzer.py Analyzer.analyze')], DOC, DOCNOTE, observe=['parse', 'raw']),
    prop('P05', 'Sections nest by the number of their operators',
         'A section with n operators belongs to the last section before it with n-1 operators (or to the document when n '
         'is 1) with no section of fewer operators in between; going more than one level deeper than the open section is '
         'rejected. Elements belong to the section opened last, and each one has that section as parent.',
         ['inputs'], 'all sequences of section openings and fields, up to depth 4 and a bounded number', 'The tests sample '
         'a few nestings.', [P + 'analyzer.py'], [('hierarchy', 'analyzer.py Analyzer.analyze')], DOC, DOCNOTE,
         observe=['parse', 'raw', 'parent']),
    prop('P06', 'Comments belong to the element right below them',
         'A block of comment lines directly above an element, item, entry, section, copy or multiline field is attached to '
         'it, complete and in order; a block followed by an empty line, a continuation or the end of the text is attached '
         'to nothing. No comment is lost or attached twice.',
         ['inputs'], 'all sequences of comment lines and others, up to a bounded number', 'The tests sample a few '
         'placements.', [P + 'analyzer.py'], [('attachment', 'analyzer.py Analyzer.analyze')], DOC, DOCNOTE,
         observe=['optional_comment', 'required_comment', 'raw']),
    prop('P09', 'Copies that cannot be resolved are rejected, all others accepted',
         'A document with copies is accepted exactly when every copied name is the key of one single element (sections for '
         'sections, others for others; an element copying its own name does not count), no copy depends on itself, '
         'through its templates, the sections it contains or a deep copy, and entries or items are only added to copies of '
         'fieldsets, lists or empty elements. Otherwise a ParseError for one of these reasons reports and selects a line '
         'concerned: the first copy of an ambiguous name, and for cycles exactly the lines of one cycle.',
         ['inputs'], 'all documents with copies and all coincidences of their names, up to a bounded number of lines',
         'The tests sample a few copies; chains, cycles and coinciding names combine freely.',
         [P + 'resolver.py', P + 'errors/parsing.py', P + 'analyzer.py'],
         [('resolution', 'resolver.py Resolver.resolve'), ('errors', 'errors/parsing.py')],
         DOC, DOCNOTE, observe=['parse']),
    prop('P10', 'Copies contain what their template contains',
         'A copied field has the value of its template, a copied list its items before the added ones, a copied fieldset or '
         'section the entries or elements of the template whose keys it does not define itself, before its own; a deep '
         'copy also merges this way nested sections written in both under a key that is unique on either side. Comments '
         'are taken over where the copy has none. This holds along chains of copies.',
         ['inputs'], 'all documents with copies and all coincidences of their names, up to a bounded number of lines',
         'The tests sample a few copies.', [P + 'resolver.py', P + 'context.py', P + 'analyzer.py'],
         [('consolidation', 'resolver.py consolidate_*'), ('views', 'context.py elements/entries/items/value/comment')],
         DOC, DOCNOTE + ' Outside the statement: deep copies whose template inherits nested sections itself or whose '
         'nested section is a copy of something else.', observe=['raw']),
    prop('P14', 'Misplaced and malformed lines are rejected with the right error',
         'An item without a list, an entry without a fieldset, a continuation without an element, a section more than one '
         'level too deep, an unterminated multiline field, an unterminated escaped key and any line that has no proper form '
         'raise the ParseError for that case, naming the line in human counting, selecting that line (from the escape '
         'operators on for an unterminated key), and reporting exactly it and the lines involved. The first such line '
         'decides. A text without such a line is not rejected.',
         ['inputs'], 'all sequences of lines, up to a bounded number', 'The tests sample one or two texts per error.',
         [P + 'analyzer.py', P + 'errors/parsing.py'],
         [('detection', 'analyzer.py Analyzer.analyze'), ('errors', 'errors/parsing.py Parsing.*')], DOC, DOCNOTE,
         observe=['parse', 'ParseError']),
    prop('P07', 'Values are composed exactly from the lines that carry them',
         'The value of a field, fieldset entry or list item is its text on the operator line, followed in order by its '
         'continuation lines, joined by one space wherever a spaced continuation (even an empty one) lies since the last '
         'text and by nothing otherwise; leading empty continuations add nothing. The value of a multiline field is the '
         'exact input text from the start of its first to the end of its last content line. An element without any text '
         'has no value: optional accessors give None, required ones raise a validation error that names the element, '
         'and a list gives the values of all its items, including inherited ones, in order.',
         ['inputs'], 'all sequences of operator-line texts and continuation lines, multiline blocks, copied fields and lists',
         'The tests sample a handful of continuation sequences; the composition has to hold for every sequence of spaced '
         'and direct, empty and non-empty continuations.',
         [P + 'context.py', P + 'elements/value_element_base.py', P + 'elements/field.py', P + 'elements/list.py'],
         [('value composition', 'context.py Context.value'), ('accessors', 'value_element_base.py / field.py _value'),
          ('list accessors', 'list.py *_values')], AI, AINOTE,
         observe=['optional_string_value', 'required_string_value', 'optional_string_values', 'required_string_values']),
    prop('P08', 'Comments are composed from the comment block with its relative indentation',
         'The comment of an element is the text of the comment lines attached to it: a single line gives its text, several '
         'lines are joined by newlines without the leading and trailing empty lines, keeping each line\'s indentation '
         'relative to the least indented non-empty line, and empty lines in between as empty. An element without comment '
         'text gives None from the optional accessor and a missing-comment validation error from the required one.',
         ['inputs'], 'all comment blocks over all element kinds', 'The tests sample a few comment blocks; indentation '
         'and emptiness combine freely per line.',
         [P + 'context.py', P + 'elements/element_base.py'],
         [('comment composition', 'context.py Context.comment'), ('accessors', 'element_base.py _comment')], AI, AINOTE,
         observe=['optional_string_comment', 'required_string_comment']),
    prop('P11', 'Single-element queries return, miss or reject exactly as the document dictates',
         'Asking a section or document for one element, empty, field, fieldset, list or section (or a fieldset for one '
         'entry), with or without a key, returns the only matching child (own, or inherited through a copy and not '
         'overridden) if it has a suitable type. With no match it gives a stand-in, None for the optional form, and a '
         'validation error for the required form or when everything was declared required; several matches and a match '
         'of an unsuitable type each raise the validation error for that case, naming the key when one was given.',
         ['inputs', 'histories'], 'all documents, keys and query kinds, with copied, extended and overridden children',
         'Tests query a few fixed documents; the outcome depends on number, type, key and inheritance of children in '
         'all combinations.', ELEMENTS,
         [('single accessors', 'section.py _element/_empty/_field/_fieldset/_list/_section'),
          ('entries', 'fieldset.py _entry'), ('inheritance', '_instantiate_elements / _instantiate_entries')], AI, AINOTE,
         observe=['Section.element/empty/field/fieldset/list/section and optional_/required_ forms',
                  'Fieldset.entry and its forms']),
    prop('P12', 'Plural queries return all matching children, inherited first, in order',
         'Asking for elements, fields, fieldsets, lists, sections, entries or items gives exactly the matching children in '
         'document order, inherited ones (not overridden by an own child of the same key) before own ones, and the length '
         'of a list is the number of these items. When any match has an unsuitable type a validation error for that kind '
         'is raised instead.',
         ['inputs'], 'all documents and keys, with copied, extended and overridden children',
         'Tests use a few documents without duplicate keys across inheritance levels.', ELEMENTS,
         [('plural accessors', 'section.py elements/fields/fieldsets/lists/sections'),
          ('entries, items', 'fieldset.py entries, list.py items')], AI, AINOTE,
         observe=['Section plural accessors', 'Fieldset.entries', 'List.items', 'List.length']),
    prop('P13', 'Every element reports its own key',
         'The key accessor of any keyed element gives the key written in the document, and that of a list item gives the '
         'key of its list.', ['inputs'], 'all element kinds, copied or not', 'Tests sample a few element kinds.',
         [P + 'elements/element_base.py'], [('key', 'element_base.py _key, string_key')], AI, AINOTE,
         observe=['string_key']),
    prop('P15', 'Loaders see the exact text once, and only a rejection becomes a validation error',
         'A loader given for a value, comment or key is called exactly once with exactly the text the string accessor '
         'would return (per item, in order, for lists), and never when there is no text; whatever it returns, falsy '
         'results included, is returned unchanged. A ValueError it raises becomes a validation error for that value, '
         'comment or key carrying its message; any other exception passes through untouched.',
         ['inputs', 'programs'], 'all loaders and element kinds', 'Loader behaviour is an unknown program; tests use a few.',
         [P + 'elements/element_base.py', P + 'elements/value_element_base.py', P + 'elements/field.py',
          P + 'elements/list.py'],
         [('loader call', '_value, _comment, key')],
         'abstract interpretation with the loader as an uninterpreted effectful callable; call events counted on each path',
         AINOTE, observe=['optional_value', 'required_value', 'optional_values', 'required_values', 'optional_comment',
                          'required_comment', 'key']),
    prop('P16', 'An element converts to exactly the kinds it can be, and to one kind only',
         'For every element the questions "does it yield kind X" and the conversion to kind X agree: the conversion '
         'succeeds with the same element exactly when the answer is true, and otherwise raises the validation error that '
         'X was expected, without consequences for later conversions. Converting again to the same kind gives the same '
         'object; converting to a second kind after a first succeeded is refused with a TypeError and changes nothing.',
         ['inputs', 'histories'], 'all element types and sequences of conversions', 'Tests try single conversions of '
         'sampled elements.', [P + 'elements/section_element.py', P + 'elements/element.py'],
         [('casts', 'section_element.py to_*/yields_*'), ('entry and item casts', 'element.py')], AI, AINOTE,
         observe=['to_*', 'yields_*']),
    prop('P17', 'Unread elements are always reported, read ones never',
         'Asserting that everything was touched raises an unexpected-element validation error for an element that was '
         'never taken or never read (including unread entries, items and nested elements), and passes once every element '
         'was read through any accessor or touched. Keys listed under skip are exempt, and with only just the listed keys '
         'are examined; a given message text or message function (called once) replaces the standard message.',
         ['histories'], 'all interleavings of taking, reading and asserting, up to the bounds',
         'Which accessor marks what is a property of every accessor and nesting combination.',
         [P + 'elements/section.py', P + 'elements/section_element.py', P + 'elements/fieldset.py', P + 'elements/list.py',
          P + 'elements/element_base.py'],
         [('marking', '_touched in every accessor'), ('collection', '_untouched'), ('assertion', 'assert_all_touched')],
         'abstract interpretation of client programs over the query API', AINOTE,
         observe=['assert_all_touched', 'touch']),
    prop('P18', 'Stand-ins for missing elements stay silent until something is required',
         'A query below a missing element, at any depth, gives None from optional accessors, empty results from plural '
         'ones and further stand-ins from plain ones, never running a loader. Anything required from it (value, comment, '
         'key, required child) raises the missing-element validation error of the outermost missing element, with its kind '
         'and key.',
         ['inputs', 'histories'], 'all chains of queries below a missing element', 'The tests walk a few chains.',
         [P + 'elements/missing/missing_element_base.py', P + 'elements/missing/missing_section.py',
          P + 'elements/missing/missing_fieldset.py', P + 'elements/missing/missing_section_element.py',
          P + 'elements/missing/missing_list.py', P + 'elements/missing/missing_value_element_base.py',
          P + 'elements/section.py', P + 'elements/fieldset.py'],
         [('stand-ins', 'elements/missing/*'), ('error at the real parent', 'section.py / fieldset.py _missing_error')],
         'abstract interpretation of client programs over the query API', AINOTE,
         observe=['accessors of missing elements']),
    prop('P20', 'Validation errors point at the exact place and share nothing',
         'Every validation error carries the locale\'s text for its case (naming the key when one was asked for), a snippet '
         'that reports exactly the elements concerned, a message made of text, empty line and snippet, and a selection '
         'whose start is its cursor. The selection covers the key, the value (with continuations, multiline content or '
         'items), the comment block, or the position just behind the operator or element where something is missing, as '
         'the case demands, in zero-based line and column. No two errors share a selection object.',
         ['inputs'], 'all error cases over all element kinds, escaped or plain keys, with and without continuations, '
         'multiline content, comments and copies', 'The snapshots sample a handful of documents; the positions depend on '
         'which line parts exist in all combinations.',
         [P + 'errors/validation.py', P + 'errors/selections.py', P + 'error_types.py'],
         [('errors', 'validation.py Validation.*'), ('selections', 'selections.py'), ('error object', 'error_types.py Error')],
         AI, AINOTE, observe=['ValidationError.text/snippet/message/selection/cursor']),
    prop('P21', 'Reports show the lines concerned, exactly and in order',
         'The snippet of an error lists, in document order and each with its 1-based number and exact text, the lines it '
         'is about plus up to two lines around them, and one row of dots for each stretch left out; without any line '
         'concerned it lists all lines as questioned. Reported lines and elements are emphasized, the rest of a reported '
         'element (continuations, entries, items, block content, everything inside a section) is indicated; a missing '
         'element indicates its parent line and, in a section, the way to its first subsection, and questions the insides '
         'of the elements passed. The same holds for the text, HTML and terminal reporter, with the source named when '
         'there is one and blank lines shown blank.',
         ['inputs'], 'all documents within the bounds and all records a report can be asked for', 'Snapshots sample a few '
         'documents; rows depend on gaps, comments and nesting in all combinations.',
         [P + 'reporters/reporter.py', P + 'reporters/text_reporter.py', P + 'reporters/html_reporter.py',
          P + 'reporters/terminal_reporter.py', P + 'analyzer.py'],
         [('marks', 'reporter.py Reporter._tag_*, report_*'), ('rows', 'reporter.py snippet'), ('lines', '_build_index')],
         AI, AINOTE, observe=['ParseError.snippet', 'ValidationError.snippet']),
    prop('P22', 'HTML reports never let text of the document become markup',
         'Everything in an HTML report that stems from the document or from the source label has been HTML-escaped, in '
         'every row and in the heading.', ['inputs'], 'all documents and source labels',
         'A test needs the one character in the one place that was forgotten.',
         [P + 'reporters/html_reporter.py'], [('escaping', 'html_reporter.py _markup, _print')],
         AI, AINOTE, observe=['snippet of HtmlReporter']),
    prop('P23', 'Every locale answers every message, with every argument in its place',
         'Every message the program asks for exists in every locale that ships, takes the same parameters in the same order '
         'as in English, mentions each of them, and reads exactly as the translation catalogue has it.',
         ['inputs'], 'all messages, locales and arguments', 'The test calls each message once and only looks at the type.',
         [P + 'messages/en.py', P + 'messages/de.py', P + 'messages/es.py', P + 'errors/validation.py', P + 'errors/parsing.py'],
         [('messages', 'messages/*.py'), ('catalogue', 'locales/specification.eno, locales/translations/*.po')],
         'abstract evaluation of every message function on symbolic arguments, compared with the catalogue and with every '
         'place of the program that asks for a message', 'Messages asked for by a computed name are covered by P11-P20 for '
         'the English locale and by the parity of the locales here.', observe=['error texts']),
    prop('P24', 'Registered loaders act exactly like loaders passed by hand',
         'After register(), by keyword, dictionary, function or several of these, every kind of element offers the key, '
         'comment, value and values accessors named after each loader, and each of them returns or raises exactly what the '
         'general accessor does with that very loader. Stand-ins for missing elements answer them like the plain ones.',
         ['inputs', 'histories'], 'all ways to register, all element kinds, all texts',
         'The tests register one loader at a time on few elements; mix-ups between several need combinations.',
         [P + 'register.py', P + 'elements/element_base.py', P + 'elements/value_element_base.py', P + 'elements/list.py'],
         [('registration', 'register.py _register, register')],
         'abstract interpretation of client programs over the query API', AINOTE, observe=['register() and the accessors it adds']),
    prop('P25', 'Lookup finds the element and the part at any position',
         'Looking up a line (or a line and column) returns the element whose own line, continuation, item, entry, block '
         'content or closing line it is, or, for lines in between, the innermost field, item, list, fieldset or section '
         'whose written span contains it, and the document before anything begins; looking up an index does the same for '
         'the line it lies in. The range is the part of the line that begins at the index, else the one the index lies in '
         'or right behind, else none. Positions outside the text raise IndexError and nothing else does.',
         ['inputs'], 'all lines and all indexes of all documents within the bounds',
         'The tests look up a few positions of a few documents; positions at borders and in gaps are endless.',
         [P + 'lookup.py'], [('by line', 'lookup.py check_*_by_line'), ('by index', 'lookup.py check_*_by_index'),
                             ('range', 'lookup.py lookup')],
         DOC, DOCNOTE + ' The range of comments that are attached to an element is left open (none is returned today).',
         observe=['lookup()']),
    prop('P26', 'Readings are independent of each other',
         'What a document answers to any query, and the error a faulty text is rejected with, do not depend on the '
         'documents, texts, lookups, locales and reporters the same program used before: they equal what a program that '
         'read nothing before gets.',
         ['histories'], 'all pairs of documents of bounded size and a full tour of queries in between',
         'A test reads one document; state that outlives a reading shows only in a second one.',
         [P + 'parse.py', P + 'context.py', P + 'analyzer.py', P + 'resolver.py', P + 'elements/', P + 'lookup.py'],
         [('reading', 'parse.py parse'), ('lookup', 'lookup.py lookup'), ('per-document state', 'context.py Context')],
         HIST, HISTNOTE, observe=['parse', 'lookup()', 'the query API']),
    prop('P27', 'Asking does not change the answers',
         'Every query, error helper, raw output and comparison of a document gives the same answer whenever it is asked: '
         'before or after any other questions, a second time, in the reverse order, after an error, and after the caller '
         'emptied what raw() gave. (Declaring things required, taking an empty element as something, and what was '
         'touched, are the only things that may change an answer.)',
         ['histories'], 'all documents of bounded size and orders of the questions asked',
         'Tests ask a fresh document one question.',
         [P + 'elements/section.py', P + 'elements/fieldset.py', P + 'elements/list.py', P + 'elements/element_base.py',
          P + 'elements/value_element_base.py', P + 'elements/section_element.py', P + 'context.py'],
         [('composed values', 'context.py Context.value, comment'), ('cached elements', 'section.py, fieldset.py, list.py')],
         HIST, HISTNOTE, observe=['the query API', 'raw']),
    prop('P28', 'Raw output mirrors the document',
         'The raw form of any element or document contains its type, its key, its comment when one is attached, and its '
         'value or its children (inherited ones first, overridden ones left out), recursively; asking again gives the same.',
         ['inputs'], 'all documents within the bounds', 'Tests compare a few documents.', [P + 'context.py'],
         [('raw', 'context.py Context.raw'), ('children', 'Context.elements/entries/items')], AI, AINOTE, observe=['raw']),
    prop('P29', 'The parent of every element is the one it was written in',
         'Every field, empty, fieldset, list and section taken from a section or document has that very object as its '
         'parent, every entry and item the fieldset or list it was taken from, and the document has none; the same holds '
         'for elements reached without their parent, which give the parent they were written under.',
         ['inputs', 'histories'], 'all element kinds, taken or looked up', 'Tests cover a few kinds.',
         [P + 'elements/section.py', P + 'elements/field.py', P + 'elements/fieldset.py', P + 'elements/list.py',
          P + 'elements/fieldset_entry.py', P + 'elements/list_item.py', P + 'elements/empty.py'],
         [('parent()', 'elements/*.py parent')], 'abstract interpretation of client programs over the query API', AINOTE,
         observe=['parent']),
    prop('P30', 'Error helpers return the error with the given message',
         'The error helpers of an element (for the element, its key, its comment, its value) return, and do not raise, a '
         'validation error with the given message, worded by the locale for keys, comments and values; a message function '
         'is called with the element, key, comment or value concerned and its result is used.',
         ['inputs', 'programs'], 'all element kinds and message functions', 'Tests sample a few.',
         [P + 'elements/element_base.py', P + 'elements/value_element_base.py', P + 'errors/validation.py'],
         [('helpers', 'error, key_error, comment_error, value_error')],
         'abstract interpretation of client programs over the query API', AINOTE,
         observe=['error', 'key_error', 'comment_error', 'value_error']),
    prop('P31', 'Every element has a printable representation',
         'Taking the repr of any element, stand-in or document never raises and gives one line of text that names its kind and '
         'its key, and the number of its children or the beginning of its value (newlines escaped, values over 14 characters '
         'cut to 11 and dots).',
         ['inputs'], 'all element kinds and contents', 'Tests print a few.', [P + 'elements/'],
         [('__repr__', 'elements/*.py, elements/missing/*.py')], AI, AINOTE, observe=['repr']),
    prop('P32', 'No text makes line recognition take exponential time',
         'However a line or text is composed, deciding what its lines, keys and multiline blocks are does not take time '
         'exponential in its length: no expression used for it can read a stretch of text in two ways over and over and '
         'still fail behind it.',
         ['inputs'], 'all texts of any length', 'Tests read short texts; the blow-up needs a long one of a particular form.',
         [P + 'grammar_regex.py', P + 'analyzer.py', P + 'errors/parsing.py'],
         [('line grammar', 'grammar_regex.py Grammar.REGEX'), ('block end', 'analyzer.py terminator expression'),
          ('unterminated escape', 'errors/parsing.py Parsing.UNTERMINATED_ESCAPED_KEY')],
         'ambiguity analysis of the regular expressions (strongly connected components of the pair automaton)',
         'Covers the backtracking of regular expressions only, not the other loops of the program (their running time is not '
         'bounded here). Polynomial growth is allowed. Look-arounds and back references count as letting nothing pass; an '
         'ambiguity that depends on one is reported as undecided.', observe=['parse', 'lookup()']),
    prop('P33', 'A multiline field holds every line up to its own closing line',
         'A multiline field ends at the first line that repeats its number of dashes and its key, whatever characters the '
         'key contains, and holds all lines in between unread, whether empty or looking like other elements or like '
         'another multiline field. Reading goes on normally behind the closing line; without one the text is rejected.',
         ['inputs'], 'all contents of bounded line number, all keys, everything before and behind', 'The tests use a few '
         'blocks with plain keys.', [P + 'analyzer.py', P + 'grammar_regex.py'],
         [('block', 'analyzer.py Analyzer.analyze, terminator expression')], DOC, DOCNOTE, observe=['parse', 'raw']),
    prop('P35', 'Every line is recognised by its form alone',
         'What a line is - empty, comment, continuation, item, entry, field, empty element, copy, section, multiline field '
         'or nothing proper - depends on its own text only, not on its position in the text, the lines around it or '
         'whether the text ends behind it. Keys, values, templates and comments are the texts between the operators '
         'without the blanks around them; an escaped key ends at the first equal run of backticks after which the line '
         'is proper.',
         ['inputs'], 'all lines of any length', 'The tests enumerate blanks around a few fixed texts.',
         [P + 'grammar_regex.py', P + 'analyzer.py'], [('grammar', 'grammar_regex.py Grammar.REGEX')], DOC, DOCNOTE,
         observe=['parse']),
    prop('P34', 'Declaring everything required reaches all nested queries',
         'After all elements of a section are declared required, every single-element query on it and on every nested '
         'section or fieldset (taken before or after) that finds nothing raises the missing-element error, the optional '
         'forms included; declaring the opposite takes this back everywhere.',
         ['histories'], 'all orders of taking nested elements and declaring', 'Order and nesting vary.',
         [P + 'elements/section.py', P + 'elements/fieldset.py'],
         [('declaration', 'section.py all_elements_required, fieldset.py all_entries_required')],
         'abstract interpretation of client programs over the query API', AINOTE,
         observe=['all_elements_required', 'all_entries_required']),
]

NOT_APPLICABLE = []
