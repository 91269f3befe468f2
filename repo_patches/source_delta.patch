From 7a1645cf6c0deed81e9de7ebbde2debe04a823dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 01/29] fix: report cyclic dependencies in which neither end of
 the cycle is a copy

---
 python/enolib/errors/parsing.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 1c87b9b..725029f 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -11,10 +11,8 @@ class Parsing:
         first_occurrence = instruction_chain.index(instruction)
         feedback_chain = instruction_chain[first_occurrence:]
 
-        if 'template' in feedback_chain[-1]:
-            copy_instruction = feedback_chain[-1]
-        elif 'template' in feedback_chain[0]:
-            copy_instruction = feedback_chain[0]
+        # Prefers the last, then the first instruction (either may lack a template when copies are nested)
+        copy_instruction = next(element for element in [feedback_chain[-1], *feedback_chain] if 'template' in element)
 
         reporter = context.reporter(context)
 
-- 
2.43.0


From d00b3085d5931b5c41a466ab118cec700eb5917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 02/29] fix: let Fieldset.entry() return a missing entry proxy
 instead of None

---
 python/enolib/elements/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 6a644f8..ea820df 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -22,7 +22,7 @@ class Fieldset(ElementBase):
 
         return self._instantiated_entries_map if map else self._instantiated_entries
 
-    def _entry(self, key, *, required=False):
+    def _entry(self, key, *, required=None):
         self._touched = True
 
         if not key:
@@ -71,7 +71,7 @@ class Fieldset(ElementBase):
 
             self._instantiated_entries.extend(native_entries)
 
-    def _missingError(self, entry):
+    def _missing_error(self, entry):
         raise Validation.missing_element(self._context, entry._key, self._instruction, 'missing_fieldset_entry')
 
     def _untouched(self):
-- 
2.43.0


From 1750474156247e828de48575319945c7149c18aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 03/29] fix: make parent() work on sections and on elements
 obtained through lookup

---
 python/enolib/elements/empty.py          | 2 +-
 python/enolib/elements/field.py          | 2 +-
 python/enolib/elements/fieldset_entry.py | 2 +-
 python/enolib/elements/list_item.py      | 2 +-
 python/enolib/elements/section.py        | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/enolib/elements/empty.py b/python/enolib/elements/empty.py
index 6147dd0..4f2cf7c 100644
--- a/python/enolib/elements/empty.py
+++ b/python/enolib/elements/empty.py
@@ -7,4 +7,4 @@ class Empty(ElementBase):
         return f"<class Empty key={self._instruction['key']}>"
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/field.py b/python/enolib/elements/field.py
index ba44871..e740099 100644
--- a/python/enolib/elements/field.py
+++ b/python/enolib/elements/field.py
@@ -36,7 +36,7 @@ class Field(ValueElementBase):
         return self._value(loader, required=False)
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
 
     def required_string_value(self):
         return self._value(required=True)
diff --git a/python/enolib/elements/fieldset_entry.py b/python/enolib/elements/fieldset_entry.py
index e383624..6ab1540 100644
--- a/python/enolib/elements/fieldset_entry.py
+++ b/python/enolib/elements/fieldset_entry.py
@@ -7,4 +7,4 @@ class FieldsetEntry(ValueElementBase):
         return f"<class FieldsetEntry key={self._instruction['key']} value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or fieldset.Fieldset(self._context, self._instruction.parent)
+        return self._parent or fieldset.Fieldset(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/list_item.py b/python/enolib/elements/list_item.py
index 62584e1..d6f4d9b 100644
--- a/python/enolib/elements/list_item.py
+++ b/python/enolib/elements/list_item.py
@@ -7,4 +7,4 @@ class ListItem(ValueElementBase):
         return f"<class ListItem value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or list.List(self._context, self._instruction.parent)
+        return self._parent or list.List(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 9f95629..45f750a 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -382,7 +382,7 @@ class Section(ElementBase):
         return self._section(key, required=False)
 
     def parent(self):
-        if self._instruction['type'] is not InstructionType.DOCUMENT:
+        if self._instruction['type'] is InstructionType.DOCUMENT:
             return None
 
         return self._parent or Section(self._context, self._instruction['parent'])
-- 
2.43.0


From 2fd92c4939d1ecc0efef5c3a693dfcd6f1699c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 04/29] fix: allow casting looked up elements to fieldset
 entries and list items

---
 python/enolib/elements/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 6b4239c..0638d89 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -11,7 +11,7 @@ class Element(SectionElement):
         return f"<class Element key={self._instruction['key']}>"
 
     def to_fieldset_entry(self):
-        if not self._fieldset_entry:
+        if not hasattr(self, '_fieldset_entry'):
             if self._instruction['type'] is not InstructionType.FIELDSET_ENTRY:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_fieldset_entry')
 
@@ -20,7 +20,7 @@ class Element(SectionElement):
         return self._fieldset_entry
 
     def to_list_item(self):
-        if not self._list_item:
+        if not hasattr(self, '_list_item'):
             if self._instruction['type'] is not InstructionType.LIST_ITEM:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_list_item')
 
-- 
2.43.0


From 910315df2eab1b3559afd6961d6cf6abd74cf740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 05/29] fix: support debug representation of looked up list
 items and documents

---
 python/enolib/elements/element.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 0638d89..769c5ca 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -8,7 +8,10 @@ from .section_element import SectionElement
 class Element(SectionElement):
     # TODO: Revisit (also: missing in js implementation)
     def __repr__(self):
-        return f"<class Element key={self._instruction['key']}>"
+        if self._instruction['type'] is InstructionType.DOCUMENT:
+            return '<class Element document>'
+
+        return f"<class Element key={self._key()}>"
 
     def to_fieldset_entry(self):
         if not hasattr(self, '_fieldset_entry'):
-- 
2.43.0


From 23913ebff405ff0f090e29404b534bab4253a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 06/29] fix: report untouched fieldset entries in
 Fieldset.assert_all_touched()

---
 python/enolib/elements/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index ea820df..2d8b37e 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -97,7 +97,7 @@ class Fieldset(ElementBase):
                     if callable(message):
                         message = message(entry)
 
-                    raise Validation.unexpected_element(self._context, message, entry['instruction'])
+                    raise Validation.unexpected_element(self._context, message, entry._instruction)
 
     def entries(self, key=None):
         self._touched = True
-- 
2.43.0


From 66f388fdcbb11367547437a382a69c9ec831b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:57 +0000
Subject: [PATCH 07/29] fix: allow requiring all elements before they have been
 queried

---
 python/enolib/elements/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 45f750a..f875b3f 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -265,9 +265,9 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and element._yielded:
+            if element._instruction['type'] is InstructionType.SECTION and hasattr(element, '_section'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and element._yielded:
+            elif element._instruction['type'] is InstructionType.FIELDSET and hasattr(element, '_fieldset'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From d60bce66dadf80730cb69a8cb3224e6eccd9ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:59 +0000
Subject: [PATCH 08/29] fix: return the copied elements in the raw
 representation of a copied section

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 791c7f1..3d60428 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -59,7 +59,7 @@ class Context:
 
     def elements(self, section):
         if 'mirror' in section:
-            self.elements(section['mirror'])
+            return self.elements(section['mirror'])
         else:
             if not 'computed_elements' in section:
                 section['computed_elements_map'] = {}
-- 
2.43.0


From e7b0ba7a15087791a72cf0f384eea3f89170cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 09/29] fix: treat a single empty comment line as no comment

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 3d60428..7d37c68 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -21,7 +21,7 @@ class Context:
         if not 'computed_comment' in element:
             if 'comments' in element:
                 if len(element['comments']) == 1:
-                    element['computed_comment'] = element['comments'][0]['comment']
+                    element['computed_comment'] = element['comments'][0].get('comment')
                 else:
                     first_non_empty_line_index = None
                     shared_indent = math.inf
-- 
2.43.0


From 2cf6ce1aa7786f676476c78cc3e47a57cd12fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 10/29] fix: style deep copy operators in the terminal reporter

---
 python/enolib/reporters/terminal_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 4fb296c..8fb2c43 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -36,7 +36,7 @@ RANGE_STYLE = {
     'entry_operator': WHITE,
     'section_operator': WHITE,
     'copy_operator': WHITE,
-    'deepCopy_operator': WHITE,
+    'deep_copy_operator': WHITE,
     'multiline_field_operator': WHITE,
     'direct_line_continuation_operator': WHITE,
     'spaced_line_continuation_operator': WHITE,
-- 
2.43.0


From eaafac02f61689eadbe20cbb2d6e485f1a66377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 11/29] fix: give the offending line of a parse error an
 instruction type

---
 python/enolib/analyzer.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 1bc611b..ae985d8 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -27,12 +27,10 @@ class Analyzer:
             if end_of_line_index == -1:
                 instruction = {
                     'ranges': { 'line': (self._index, len(self._context.input)) },
-                    'line': self._line
+                    'line': self._line,
+                    'type': InstructionType.UNPARSED
                 }
 
-                if first_instruction is not None:
-                    instruction['type'] = InstructionType.UNPARSED
-
                 self._context.line_count = self._line + 1
                 self._context.meta.append(instruction)
 
@@ -40,15 +38,14 @@ class Analyzer:
             else:
                 instruction = {
                     'ranges': { 'line': (self._index, end_of_line_index) },
-                    'line': self._line
+                    'line': self._line,
+                    'type': InstructionType.UNPARSED
                 }
 
                 self._context.meta.append(instruction)
 
                 if first_instruction is None:
                     first_instruction = instruction
-                else:
-                    instruction['type'] = InstructionType.UNPARSED
 
                 self._index = end_of_line_index + 1
                 self._line += 1
-- 
2.43.0


From e318f4f07c2a461ce358bcb1bdc864962799ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 12/29] fix: use the proper instruction type for the end of
 multiline fields

---
 python/enolib/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index ae985d8..9bad92b 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -386,7 +386,7 @@ class Analyzer:
                         'line': (self._index, terminator_match.end()),
                         'multiline_field_operator': terminator_match.span(1)
                     },
-                    'type': 'MULTILINE_FIELD_END'
+                    'type': InstructionType.MULTILINE_FIELD_END
                 }
 
                 last_non_section_element['end'] = instruction
-- 
2.43.0


From f6cb573ab4df15ccf7dc131ad26b87583c83c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 13/29] fix: do not let an instruction span more than one line

---
 python/enolib/grammar_regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 7f2486f..20a4420 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -57,7 +57,7 @@ class Grammar:
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
     SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}\s*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
@@ -88,11 +88,11 @@ class Grammar:
     FIELDSET_ENTRY_VALUE_INDEX = 26
 
     # < template
-    COPY = rf"(<)\s*{REQUIRED}"
+    COPY = rf"(<)[^\S\n]*{REQUIRED}"
     COPY_OPERATOR_INDEX = 27
     TEMPLATE_INDEX = 28
 
-    LATE_DETERMINED = rf"{KEY}\s*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
+    LATE_DETERMINED = rf"{KEY}[^\S\n]*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
 
     NOT_EMPTY = f"(?:{EARLY_DETERMINED}|{LATE_DETERMINED})"
 
-- 
2.43.0


From 2c07d32b768793666cad2ce797106cd20a025f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 14/29] fix: escape the source label in html reports

---
 python/enolib/reporters/html_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/html_reporter.py b/python/enolib/reporters/html_reporter.py
index e797b93..548a0fc 100644
--- a/python/enolib/reporters/html_reporter.py
+++ b/python/enolib/reporters/html_reporter.py
@@ -40,6 +40,6 @@ class HtmlReporter(Reporter):
         snippet = '\n'.join(self._line(line, tag) for line, tag in enumerate(self._snippet) if tag is not None)
 
         if self._context.source:
-            return f"<div><div>{self._context.source}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
+            return f"<div><div>{escape(self._context.source)}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
 
         return f"<pre class=\"eno-report\">{columns_header}{snippet}</pre>"
-- 
2.43.0


From 58d8c62fc2a4cb2e3ca45d9db872019dfa72bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:14 +0000
Subject: [PATCH 15/29] fix: show context after the first line of the document
 in reports

---
 python/enolib/reporters/reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index b29a69a..4d28bc8 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -204,9 +204,9 @@ class Reporter:
                     continue
 
                 if(line + 2 < self._context.line_count and self._snippet[line + 2] is not None and self._snippet[line + 2] != DISPLAY or
-                   line - 2 > 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
+                   line - 2 >= 0 and self._snippet[line - 2] is not None and self._snippet[line - 2] != DISPLAY or
                    line + 1 < self._context.line_count and self._snippet[line + 1] is not None and self._snippet[line + 1] != DISPLAY or
-                   line - 1 > 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
+                   line - 1 >= 0 and self._snippet[line - 1] is not None and self._snippet[line - 1] != DISPLAY):
                     self._snippet[line] = DISPLAY
                 elif line + 3 < self._context.line_count and self._snippet[line + 3] is not None and self._snippet[line + 3] != DISPLAY:
                     self._snippet[line] = OMISSION
-- 
2.43.0


From 8337d61f12dc63c752a487d9bb85737c39cccbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:16 +0000
Subject: [PATCH 16/29] fix: do not count a line past the end of an
 unterminated multiline field

---
 python/enolib/analyzer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 9bad92b..0280cae 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -341,7 +341,11 @@ class Analyzer:
                 last_non_section_element = instruction
 
                 if not terminator_match:
-                    self._tokenize_error_context()
+                    if self._index > len(self._context.input):
+                        self._context.line_count = self._line
+                    else:
+                        self._tokenize_error_context()
+
                     raise Parsing.unterminated_multiline_field(self._context, instruction)
 
                 end_of_multiline_field_index = terminator_match.start()
-- 
2.43.0


From 4bd0f968edb0e43b4d156ec71f03b2c46becb9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:18 +0000
Subject: [PATCH 17/29] fix: escape newlines in the debug representation of
 values

---
 python/enolib/elements/value_element_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/value_element_base.py b/python/enolib/elements/value_element_base.py
index d2ea72f..030f2d7 100644
--- a/python/enolib/elements/value_element_base.py
+++ b/python/enolib/elements/value_element_base.py
@@ -12,7 +12,7 @@ class ValueElementBase(ElementBase):
         if len(value) > 14:
             value = f"{value[0:11]}..."
 
-        return value.replace("\n", '\n')
+        return value.replace("\n", '\\n')
 
     def _value(self, loader=None, *, required):
         self._touched = True
-- 
2.43.0


From df65a5bff1519dc963d5e3d53df7566a2de94a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 18/29] fix: support comment errors on elements without a
 comment

---
 python/enolib/errors/selections.py  | 2 +-
 python/enolib/reporters/reporter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index 099192e..fef8b33 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -41,7 +41,7 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
-    comments = element['comments']
+    comments = element.get('comments', [])
 
     if len(comments) == 1:
         if 'comment' in comments[0]:
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 4d28bc8..b05fe5f 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -152,7 +152,7 @@ class Reporter:
 
     def report_comments(self, element):
         self._snippet[element['line']] = INDICATE
-        for comment in element['comments']:
+        for comment in element.get('comments', []):
             self._snippet[comment['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From 749daf819e782b7efc35edbdc2eba802ebabbffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 19/29] fix: name the empty element in errors about a missing
 empty element

---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index f875b3f..3dd22e6 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -207,7 +207,9 @@ class Section(ElementBase):
         return element.to_list()
 
     def _missing_error(self, element):
-        if isinstance(element, missing_field.MissingField):
+        if isinstance(element, missing_empty.MissingEmpty):
+            raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_empty')
+        elif isinstance(element, missing_field.MissingField):
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_field')
         elif isinstance(element, missing_fieldset.MissingFieldset):
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_fieldset')
-- 
2.43.0


From 4d65bd7ee54dc91f5aedbd5431dea958650cae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 20/29] fix: look up continuations of the last item or entry

---
 python/enolib/lookup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 6b367eb..c97d12f 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -71,7 +71,7 @@ def check_fieldset_by_line(fieldset, line):
     if line == fieldset['line']:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or line > fieldset['entries'][-1]['line']:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -92,7 +92,7 @@ def check_fieldset_by_index(fieldset, index):
     if index <= fieldset['ranges']['line'][END]:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or index > fieldset['entries'][-1]['ranges']['line'][END]:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -113,7 +113,7 @@ def check_list_by_line(list, line):
     if line == list['line']:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or line > list['items'][-1]['line']:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
@@ -134,7 +134,7 @@ def check_list_by_index(list, index):
     if index <= list['ranges']['line'][END]:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or index > list['items'][-1]['ranges']['line'][END]:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
-- 
2.43.0


From ef0041e3317ac4e4c0c9462a24ce421fab846754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:28 +0000
Subject: [PATCH 21/29] fix: look up comments by index and lines without a
 column

---
 python/enolib/lookup.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index c97d12f..24b6256 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -236,7 +236,10 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
     instruction = match['instruction']
 
     if not instruction:
-        instruction = next((i for i in context.meta if i['line'] == line), None)
+        if index is None:
+            instruction = next((i for i in context.meta if i['line'] == line), None)
+        else:
+            instruction = next((i for i in context.meta if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)
 
         if not instruction:
             return result
@@ -244,7 +247,7 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
     rightmost_match = instruction['ranges']['line'][0]
 
     if index is None:
-        index = instruction['ranges']['line'][0] + column
+        index = instruction['ranges']['line'][0] + (column or 0)
 
     for type, range in instruction['ranges'].items():
         if type == 'line':
-- 
2.43.0


From 6b096f58b93f9b6b443c281d5411bef500e1c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:30 +0000
Subject: [PATCH 22/29] fix: do not share one mutable selection between errors

---
 python/enolib/errors/validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 0cb62c1..d06b38d 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from ..error_types import ValidationError
 from .selections import cursor, DOCUMENT_BEGIN, select_comments, select_element, select_key, selection
 from ..constants import BEGIN, END, InstructionType
@@ -43,7 +45,7 @@ class Validation:
         return ValidationError(
             message if key is None else message(key),
             context.reporter(context).report_missing_element(parent).snippet(),
-            DOCUMENT_BEGIN if parent['type'] is InstructionType.DOCUMENT else selection(parent, 'line', END)
+            deepcopy(DOCUMENT_BEGIN) if parent['type'] is InstructionType.DOCUMENT else selection(parent, 'line', END)
         )
 
     @staticmethod
-- 
2.43.0


From 2eef07d116daf739ac4fafa3ba24a744bd183934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:31 +0000
Subject: [PATCH 23/29] fix: list inherited section elements before the ones a
 section adds

---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 3dd22e6..af492ee 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -169,11 +169,13 @@ class Section(ElementBase):
                 return instance
 
             filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]
-            self._instantiated_elements.extend(instantiate_and_index(element) for element in filtered)  # TODO: Probably needs to come AFTER 'if 'extend' in section:' below because otherwise the order is incorrect?
+            native_elements = [instantiate_and_index(element) for element in filtered]
 
             if 'extend' in section:
                 self._instantiate_elements(section['extend'])
 
+            self._instantiated_elements.extend(native_elements)
+
     def _list(self, key, *, required=None):
         self._touched = True
 
-- 
2.43.0


From 53cf56d0a52810a5f263fabbc43381fce56fc0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:33 +0000
Subject: [PATCH 24/29] fix: allow optional element queries without a key

---
 python/enolib/elements/section.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index af492ee..273b130 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -367,22 +367,22 @@ class Section(ElementBase):
 
         return [cast(element) for element in elements]
 
-    def optional_element(self, key):
+    def optional_element(self, key=None):
         return self._element(key, required=False)
 
-    def optional_empty(self, key):
+    def optional_empty(self, key=None):
         return self._empty(key, required=False)
 
-    def optional_field(self, key):
+    def optional_field(self, key=None):
         return self._field(key, required=False)
 
-    def optional_fieldset(self, key):
+    def optional_fieldset(self, key=None):
         return self._fieldset(key, required=False)
 
-    def optional_list(self, key):
+    def optional_list(self, key=None):
         return self._list(key, required=False)
 
-    def optional_section(self, key):
+    def optional_section(self, key=None):
         return self._section(key, required=False)
 
     def parent(self):
-- 
2.43.0


From b005ab24c57e7596d1adeb9dcdd1c6f8b9ca75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:31 +0000
Subject: [PATCH 25/29] fix: all_elements_required reaches fieldsets taken from
 empty elements

---
 python/enolib/elements/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 273b130..563a7fc 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -271,7 +271,7 @@ class Section(ElementBase):
         for element in self._elements():
             if element._instruction['type'] is InstructionType.SECTION and hasattr(element, '_section'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and hasattr(element, '_fieldset'):
+            elif hasattr(element, '_fieldset'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From c3ef15a05d7f6e1ac5fc181579c55633fa5f7088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:58 +0000
Subject: [PATCH 26/29] fix: report a copy chain that ends in an unresolvable
 copy as not found

---
 python/enolib/resolver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 17de161..3bb9169 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -89,6 +89,9 @@ class Resolver:
         if element in previous_elements:
             raise Parsing.cyclic_dependency(self._context, element, previous_elements)
 
+        if not 'template' in element['copy']:
+            raise Parsing.non_section_element_not_found(self._context, element['copy']['targets'][0])
+
         template = element['copy']['template']
 
         if 'copy' in template: # TODO: Maybe we change that to .unresolved everywhere ?
@@ -110,6 +113,9 @@ class Resolver:
             del section['deep_resolve']
 
         if 'copy' in section:
+            if not 'template' in section['copy']:
+                raise Parsing.section_not_found(self._context, section['copy']['targets'][0])
+
             template = section['copy']['template']
 
             if 'copy'in template or 'deep_resolve' in template:
-- 
2.43.0


From 34f40af301b227c78f598301f125d766ee3acf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:22 +0000
Subject: [PATCH 27/29] fix: reject deep copies that merge a section with a
 copy of itself

---
 python/enolib/resolver.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 3bb9169..fd173ea 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -77,8 +77,19 @@ class Resolver:
 
             for merger in merge_map.values():
                 if merger and 'template' in merger:
+                    self.prevent_cyclic_merge(merger['section'], merger['template'])
                     self.consolidate_sections(merger['section'], merger['template'], True)
 
+    def prevent_cyclic_merge(self, section, template):
+        chain = [section]
+
+        while template is not None:
+            if template is section:
+                raise Parsing.cyclic_dependency(self._context, section, chain)
+
+            chain.append(template)
+            template = template.get('mirror', template.get('extend'))
+
     def mirror(self, element, template):
         if 'mirror' in template:
             element['mirror'] = template['mirror']
-- 
2.43.0


From d738e1015df3f86a52c2f0074f4b44c359efa743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:06 +0000
Subject: [PATCH 28/29] fix: reporting sections with empty elements no longer
 raises TypeError

---
 python/enolib/reporters/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index b05fe5f..3c7d922 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -124,6 +124,8 @@ class Reporter:
                 return element['line'] + 1
         elif element['type'] is InstructionType.SECTION:
             return self._tag_section(element, tag)
+        elif element['type'] is not InstructionType.DOCUMENT:
+            return element['line'] + 1
 
     def _tag_section(self, section, tag, recursive=True):
         scan_line = section['line'] + 1
-- 
2.43.0


From 23a1093c191b0bdfaf74912f8da71864b86cf8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:55 +0000
Subject: [PATCH 29/29] fix: comments right above an invalid line are shown in
 the report

---
 python/enolib/analyzer.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 0280cae..5e231e8 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -18,9 +18,13 @@ class Analyzer:
 
         self._context.meta = []
 
-    def _tokenize_error_context(self):
+    def _tokenize_error_context(self, comments=None):
         first_instruction = None
 
+        # Comments directly above the erroneous line are not attached to any element that is part of the document
+        if comments is not None:
+            self._context.meta.extend(comments)
+
         while True:
             end_of_line_index = self._context.input.find('\n', self._index)
 
@@ -64,7 +68,7 @@ class Analyzer:
             match = Grammar.REGEX.search(self._context.input, self._index)
 
             if not match or match.start() != self._index:
-                instruction = self._tokenize_error_context()
+                instruction = self._tokenize_error_context(comments)
                 raise Parsing.invalid_line(self._context, instruction)
 
             instruction = {
@@ -130,7 +134,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.LIST:
                     last_non_section_element['items'].append(instruction)
@@ -138,7 +142,7 @@ class Analyzer:
                     last_non_section_element['items'] = [instruction]
                     last_non_section_element['type'] = InstructionType.LIST
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -172,7 +176,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.FIELDSET:
                     last_non_section_element['entries'].append(instruction)
@@ -180,7 +184,7 @@ class Analyzer:
                     last_non_section_element['entries'] = [instruction]
                     last_non_section_element['type'] = InstructionType.FIELDSET
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -189,7 +193,7 @@ class Analyzer:
             elif match.group(Grammar.SPACED_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['spaced'] = True
@@ -217,7 +221,7 @@ class Analyzer:
             elif match.group(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['ranges']['direct_line_continuation_operator'] = match.span(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX)
@@ -265,7 +269,7 @@ class Analyzer:
 
                     instruction['parent'] = last_section['parent']
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.section_hierarchy_layer_skip(self._context, instruction, last_section)
 
                 instruction['parent']['elements'].append(instruction)
-- 
2.43.0

