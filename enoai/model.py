"""Reference reading of an abstract document (lines.Doc): the elements, positions, comments and errors the notation
prescribes, as plain objects to compare the analysed parser's result with."""
from .values import *

DOCUMENT, EMPTY, FIELD, FIELDSET, LIST, SECTION = ('DOCUMENT', 'EMPTY_ELEMENT', 'FIELD', 'FIELDSET', 'LIST', 'SECTION')
ENTRY, ITEM, MULTILINE, END, VALUE = ('FIELDSET_ENTRY', 'LIST_ITEM', 'MULTILINE_FIELD_BEGIN', 'MULTILINE_FIELD_END',
                                      'MULTILINE_FIELD_VALUE')
COMMENT, CONT, UNPARSED = 'COMMENT', 'CONTINUATION', 'UNPARSED'


class Node:
    def __init__(self, type, line, ranges=None):
        self.type, self.line, self.ranges = type, line, ranges or {}
        self.key = self.value = self.parent = self.template = self.tmpl = self.comments = None
        self.kids = []                 # elements, entries or items
        self.conts = []
        self.spaced = False
        self.lines = []
        self.end = None
        self.deep = False
        self.multi = False

    def __repr__(self):
        return f'{self.type}@{self.line}'

    def last(self):
        """last record of the element"""
        if self.type == MULTILINE:
            return self.end
        if self.kids and self.type in (SECTION, FIELDSET, LIST):
            return self.kids[-1].last()
        return self.conts[-1] if self.conts else self


class Error:
    """kind, message arguments after the kind, reported [(method, line)], selection ((line, index, column), ...)"""

    def __init__(self, kind, args, reports, begin, end, unparsed):
        self.kind, self.args, self.reports, self.begin, self.end, self.unparsed = kind, args, reports, begin, end, unparsed


class Reading:
    def __init__(self, doc):
        self.doc = doc
        self.error = None
        self.root = Node(DOCUMENT, None)
        self.meta = []
        self.nodes = {}                # line -> node
        self.copies = []               # (node) with template
        self.read()

    # ------------------------------------------------------------
    def at(self, ln, type, **parts):
        n = Node(type, ln.no, {'line': (ln.S, ln.E)})
        for rng, piece in parts.items():
            if piece in ln.texts:
                n.ranges[rng] = ln.span(piece)
        self.nodes[ln.no] = n
        return n

    def keyed(self, ln, n, key='key', esc=('bt', 'ekey', 'bt2')):
        if key in ln.texts:
            n.key = ln.texts[key]
            n.ranges['key'] = ln.span(key)
        else:
            n.key = ln.texts[esc[1]]
            n.ranges['key'] = ln.span(esc[1])
            n.ranges['escape_begin_operator'] = ln.span(esc[0])
            n.ranges['escape_end_operator'] = ln.span(esc[2])

    def fail(self, kind, ln, args=None, reports=None, begin=None, end=None, unparsed=None):
        if begin is None:
            begin, end = (ln, ln.S), (ln, ln.E)
        self.error = Error(kind, [C(ln.no + 1)] if args is None else args,
                           [('report_line', ln.no)] if reports is None else reports, begin, end,
                           ln.no if unparsed is None else unparsed)

    def read(self):
        lines = self.doc.lines
        section, depth = self.root, 0
        target = cont = None           # what items and entries, what continuations belong to
        pending = []
        i = 0
        while i < len(lines):
            ln = lines[i]
            f = ln.form
            base = f.rstrip('VT')
            i += 1
            if f == 'BAD':
                return self.fail('invalid_line', ln)
            if f == 'OPEN':
                e = ln.borders['obt.e']
                return self.fail('unterminated_escaped_key', ln, begin=(ln, e), end=(ln, ln.E))
            if f == 'EMPTY':
                self.meta += pending
                pending = []
                if ln.no == len(lines) - 1 and not ln.pieces:
                    continue
                continue
            if base == 'COM':
                n = self.at(ln, COMMENT, comment_operator='cop', comment='cval')
                n.value = ln.texts.get('cval')
                pending.append(n)
                continue
            if base in ('SPC', 'DIR'):
                if cont is None:
                    return self.fail('missing_element_for_continuation', ln)
                op = 'spaced' if base == 'SPC' else 'direct'
                n = self.at(ln, CONT, **{op + '_line_continuation_operator': 'pop' if base == 'SPC' else 'dop',
                                         'value': 'pval' if base == 'SPC' else 'dval'})
                n.spaced = base == 'SPC'
                n.value = ln.texts.get('pval' if base == 'SPC' else 'dval')
                if cont.type == EMPTY:
                    cont.type = FIELD
                cont.conts.append(n)
                self.meta += pending
                pending = []
                continue
            if base in ('ITEM', 'ENTRY', 'ENTRYE'):
                item = base == 'ITEM'
                if target is None or target.type not in (EMPTY, LIST if item else FIELDSET):
                    return self.fail('missing_list_for_list_item' if item else 'missing_fieldset_for_fieldset_entry', ln)
                n = self.at(ln, ITEM if item else ENTRY, **({'item_operator': 'iop', 'value': 'ival'} if item else
                                                            {'entry_operator': 'eop', 'value': 'eval'}))
                n.value = ln.texts.get('ival' if item else 'eval')
                if not item:
                    self.keyed(ln, n)
                target.type = LIST if item else FIELDSET
                target.kids.append(n)
                n.parent = target
                n.comments, pending = pending or None, []
                cont = n
                continue
            if base in ('FIELD', 'FIELDE'):
                n = self.at(ln, FIELD if 'fval' in ln.texts else EMPTY, element_operator='fop', value='fval')
                n.value = ln.texts.get('fval')
                self.keyed(ln, n)
                n.parent = section
                section.kids.append(n)
                n.comments, pending = pending or None, []
                cont = target = n
                continue
            if base in ('COPY', 'COPYE'):
                n = self.at(ln, EMPTY, copy_operator='lop', template='ltmpl')
                n.template = ln.texts['ltmpl']
                self.keyed(ln, n)
                n.parent = section
                section.kids.append(n)
                n.comments, pending = pending or None, []
                cont, target = None, n
                self.copies.append(n)
                continue
            if base in ('SEC', 'SECE'):
                d = len(ln.texts['sop'].v)
                if d > depth + 1:
                    reports = [('report_line', ln.no)]
                    if section is not self.root:
                        reports.append(('indicate_line', section.line))
                    return self.fail('section_hierarchy_layer_skip', ln, reports=reports)
                while depth >= d:
                    section = section.parent
                    depth -= 1
                deep = 'tcop' in ln.texts and ln.texts['tcop'].v == '<<'
                n = self.at(ln, SECTION, section_operator='sop', template='tmpl',
                            **{'deep_copy_operator' if deep else 'copy_operator': 'tcop'})
                self.keyed(ln, n, 'skey', ('sbt', 'sekey', 'sbt2'))
                n.template = ln.texts.get('tmpl')
                n.deep = deep
                if n.template is not None:
                    self.copies.append(n)
                n.parent = section
                section.kids.append(n)
                n.comments, pending = pending or None, []
                section, depth = n, d
                target = cont = None
                continue
            if base == 'ML':
                n = self.at(ln, MULTILINE, multiline_field_operator='mop', key='mkey')
                n.key = ln.texts['mkey']
                n.multi = True
                n.parent = section
                n.comments, pending = pending or None, []
                block = []
                while i < len(lines) and lines[i].raw:
                    block.append(lines[i])
                    i += 1
                if i == len(lines):
                    return self.fail('unterminated_multiline_field', ln, [n.key, C(ln.no + 1)],
                                     [('report_element', ln.no)] + [('indicate_line', b.no) for b in block],
                                     unparsed=ln.no + 1)
                section.kids.append(n)
                for b in block:
                    v = Node(VALUE, b.no, {'line': (b.S, b.E), 'value': (b.S, b.E)})
                    self.nodes[b.no] = v
                    n.lines.append(v)
                end = lines[i]
                i += 1
                n.end = self.at(end, END, multiline_field_operator='mop', key='mkey')
                cont = target = None
                continue
            raise ValueError(f)
        self.meta += pending

    def line_count(self):
        return len(self.doc.lines)
