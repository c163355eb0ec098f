From ee0728e8084447c37bab9755abeeafe7a351214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 001/103] fix: do not skip entries while marking obsoletes

The PO file was mutated while being iterated, so the entry following a
revived message was never marked as obsolete.
---
 src/mdpo/po.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 61ebb8b..a545ca7 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -63,7 +63,7 @@ def mark_not_found_entries_as_obsoletes(
         entries (list): Entries to search against.
     """
     obsolete = False
-    for entry in pofile:
+    for entry in list(pofile):  # copied because entries can be removed
         if not find_entry_in_entries(
             entry,
             entries,
-- 
2.43.0


From 875f007839a4171415822525f712ad8c67d73887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 002/103] fix: do not compare msgstrs looking for not found
 messages

An untranslated message of the PO file which is found in the content was
marked as obsolete (or removed) when the message found had a default
msgstr.
---
 src/mdpo/po.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index a545ca7..a61336d 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -67,12 +67,14 @@ def mark_not_found_entries_as_obsoletes(
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
                 entry,
                 entries,
                 compare_obsolete=False,
+                compare_msgstr=False,
                 compare_occurrences=False,
             )
             if _equal_not_obsolete_found:
@@ -98,12 +100,14 @@ def remove_not_found_entries(pofile, entries):
         if not find_entry_in_entries(
             entry,
             entries,
+            compare_msgstr=False,
             compare_occurrences=False,
         ):
             _equal_not_obsolete_found = find_entry_in_entries(
                 entry,
                 entries,
                 compare_obsolete=False,
+                compare_msgstr=False,
                 compare_occurrences=False,
             )
             if not _equal_not_obsolete_found:
-- 
2.43.0


From 8d605548c56bf5ed8a35eddbaa56ed68c21bd529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 003/103] fix: do not keep revived messages duplicated as
 obsoletes

Running md2po with --merge-po-files or --remove-not-found, an obsolete
message found again was kept as obsolete beside the active one.
---
 src/mdpo/md2po/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index be23928..886fa06 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -450,6 +450,9 @@ class Md2Po:
                 entry.flags.append('fuzzy')
         if entry not in self.pofile:
             self.pofile.append(entry)
+        if _equal_entry and _equal_entry.obsolete:
+            # the message is found again, so don't keep it duplicated
+            self.pofile.remove(_equal_entry)
         self.found_entries.append(entry)
 
     def _save_current_msgid(
-- 
2.43.0


From e2854c9a4948f68279dc78b5973d079db44178f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 004/103] fix: keep reviewed state of revived link references

A translated and not fuzzy obsolete link reference was marked as fuzzy
when found again in the content.
---
 src/mdpo/md2po/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 886fa06..30e70b4 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -448,6 +448,8 @@ class Md2Po:
             entry.msgstr = _equal_entry.msgstr
             if _equal_entry.fuzzy and not entry.fuzzy:
                 entry.flags.append('fuzzy')
+            elif entry.fuzzy and not _equal_entry.fuzzy:
+                entry.flags.remove('fuzzy')
         if entry not in self.pofile:
             self.pofile.append(entry)
         if _equal_entry and _equal_entry.obsolete:
-- 
2.43.0


From ea8d94f59ab0726800d4ae1f2cbcaf2972dbf469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 005/103] fix: repair PO checks of po2md and mdpo2html CLIs

Options --no-obsolete, --no-fuzzy and --no-empty-msgstr always crashed.
---
 src/mdpo/mdpo2html/__main__.py | 11 ++++++++---
 src/mdpo/po2md/__main__.py     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index a5d42e6..0bea1db 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -129,7 +129,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -152,7 +152,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -169,8 +169,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4b271ea..4438792 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -153,7 +153,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_obsolete_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -176,7 +176,7 @@ def run(args=frozenset()):
                 po_encoding=opts.po_encoding,
             )
             locations = list(check_fuzzy_entries_in_filepaths(
-                pofiles,
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
@@ -193,8 +193,13 @@ def run(args=frozenset()):
                 exitcode = 4
 
         if opts.no_empty_msgstr:
+            pofiles = paths_or_globs_to_unique_pofiles(
+                opts.pofiles,
+                opts.ignore or [],
+                po_encoding=opts.po_encoding,
+            )
             locations = list(check_empty_msgstrs_in_filepaths(
-                (opts.po_filepath,),
+                pofile.fpath for pofile in pofiles
             ))
             if locations:
                 if len(locations) > 2:  # noqa PLR2004
-- 
2.43.0


From 1d3e95d76e771ebf3a988eb2bdcd46184632c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 006/103] fix: take into account nesting of ordered lists in
 md2po

After an ordered list nested in other ordered list, the extractor
considered itself outside of the outer one, merging the text of the next
nested lists and counting their blocks as top-level ones.
---
 src/mdpo/md2po/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 30e70b4..ef08b42 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -371,7 +371,7 @@ class Md2Po:
         self._inside_pblock = False
         self._inside_liblock = False
         self._inside_hblock = False
-        self._inside_olblock = False
+        self._inside_olblock = 0
         self._inside_codespan = False
 
         self._quoteblocks_deep = 0
@@ -637,7 +637,7 @@ class Md2Po:
 
             if self._inside_olblock or self._uls_deep:
                 self._save_current_msgid()
-            self._inside_olblock = True
+            self._inside_olblock += 1
         elif block is md4c.BlockType.HTML:
             self._inside_htmlblock = True
             if not any([
@@ -682,7 +682,7 @@ class Md2Po:
             elif block is md4c.BlockType.QUOTE:
                 self._quoteblocks_deep -= 1
             elif block is md4c.BlockType.OL:
-                self._inside_olblock = False
+                self._inside_olblock -= 1
             self._save_current_msgid()
 
     def enter_span(self, span, details):
-- 
2.43.0


From 15c74af38bb5776700d8cbfe001842663bd0ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 007/103] fix: take into account that lists items are left in
 md2po

After any list the extractor considered itself inside a list item, so a
quote consumed the commands placed before it.
---
 src/mdpo/md2po/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index ef08b42..9885d1f 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -369,7 +369,7 @@ class Md2Po:
         self._inside_htmlblock = False
         self._inside_codeblock = False
         self._inside_pblock = False
-        self._inside_liblock = False
+        self._inside_liblock = 0
         self._inside_hblock = False
         self._inside_olblock = 0
         self._inside_codespan = False
@@ -598,7 +598,7 @@ class Md2Po:
                 self._current_top_level_block_number += 1
                 self._current_top_level_block_type = md4c.BlockType.CODE.value
         elif block is md4c.BlockType.LI:
-            self._inside_liblock = True
+            self._inside_liblock += 1
         elif block is md4c.BlockType.UL:
             self._uls_deep += 1
             if self._uls_deep > 1 or self._inside_olblock:
@@ -674,7 +674,7 @@ class Md2Po:
             if block is md4c.BlockType.P:
                 self._inside_pblock = False
             elif block is md4c.BlockType.LI:
-                self._inside_liblock = True
+                self._inside_liblock -= 1
             elif block is md4c.BlockType.UL:
                 self._uls_deep -= 1
             elif block is md4c.BlockType.H:
-- 
2.43.0


From b966b77216eafb0c7f6348604d6c1503060a593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:24 +0000
Subject: [PATCH 008/103] fix: do not merge code blocks of list items with
 their text

Extracting code blocks, those which are inside a list item were merged
with the previous text of the item into the same message.
---
 src/mdpo/md2po/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 9885d1f..0b2708e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -590,6 +590,8 @@ class Md2Po:
                 self._current_top_level_block_type = md4c.BlockType.P.value
         elif block is md4c.BlockType.CODE:
             self._inside_codeblock = True
+            if self._inside_liblock and self.current_msgid:
+                self._save_current_msgid()
             if not any([
                 self._quoteblocks_deep,
                 self._uls_deep,
-- 
2.43.0


From f7df10821541404aa08de807caa88dcbfd860454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 009/103] fix: do not write empty lines after nested lists in
 po2md

After a list nested in other of different type an empty line was written,
so the next items were part of a different loose list.
---
 src/mdpo/po2md/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index efd1bdb..f327348 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -659,14 +659,17 @@ class Po2Md:
             self._current_list_type.pop()
             if self._inside_quoteblock:
                 self.current_line += '> '
-            if not self._ul_marks and self.outputlines[-1].split('\n')[-1]:
+            if (
+                not self._current_list_type
+                and self.outputlines[-1].split('\n')[-1]
+            ):
                 self._save_current_line()
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
             if self._inside_quoteblock:
                 self.current_line += '> '
-            if not self._ol_marks and self.outputlines[-1]:
+            if not self._current_list_type and self.outputlines[-1]:
                 self._save_current_line()
         elif block in {md4c.BlockType.TH, md4c.BlockType.TD}:
             self._save_current_msgid()
-- 
2.43.0


From a6a33e816e77d7b4a71e382b159b48cb4559d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 010/103] fix: do not merge ordered lists nested in unordered
 ones with their items

---
 src/mdpo/po2md/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f327348..2172e28 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -553,6 +553,9 @@ class Po2Md:
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
+            if self._current_list_type and not self._ol_marks:
+                self._save_current_msgid()
+                self._save_current_line()
             self._current_list_type.append(['ol', []])
             self._ol_marks.append([0, details['mark_delimiter']])
         elif block is md4c.BlockType.HR:
-- 
2.43.0


From e3c09945893cd9a9dd9a4cc6459eed4197e361e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 011/103] fix: indent all lines of code blocks inside list
 items in po2md

---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2172e28..0d7dff5 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -628,7 +628,9 @@ class Po2Md:
             indent = ''
             if self._inside_liblock:
                 indent += '   ' * len(self._current_list_type)
-            self.current_line = self.current_line.rstrip('\n')
+            self.current_line = f'\n{indent}'.join(
+                self.current_line.rstrip('\n').split('\n'),
+            )
             self._save_current_line()
             if not self._inside_indented_codeblock:
                 fence_chars = details['fence_char'] * 3
-- 
2.43.0


From 279ea5b60a7466c06eeec1bc5bc03f37c5ec3859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 012/103] fix: do not crash translating documents starting with
 empty quotes

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0d7dff5..2c62ad0 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -701,7 +701,7 @@ class Po2Md:
             self.current_line += f'{indent}{thead_separator}|'
             self._save_current_line()
         elif block is md4c.BlockType.QUOTE:
-            if self.outputlines[-1] == '>':
+            if self.outputlines and self.outputlines[-1] == '>':
                 self.outputlines.pop()
             if not self._inside_liblock:
                 self._save_current_line()
-- 
2.43.0


From bf2994e15783826d14aca182482892343cd1d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 013/103] fix: keep code blocks inside quotes in po2md

---
 src/mdpo/po2md/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2c62ad0..5d19049 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -519,7 +519,9 @@ class Po2Md:
             else:
                 self._inside_indented_codeblock = True
 
-            if self.current_line:
+            if self.current_line and not (
+                self._inside_quoteblock and self._inside_indented_codeblock
+            ):
                 self._save_current_line()
         elif block is md4c.BlockType.H:
             self._inside_hblock = True
@@ -628,6 +630,10 @@ class Po2Md:
             indent = ''
             if self._inside_liblock:
                 indent += '   ' * len(self._current_list_type)
+            elif self._inside_quoteblock:
+                indent += '> '
+                if not self._inside_indented_codeblock:
+                    self.current_line = f'{indent}{self.current_line}'
             self.current_line = f'\n{indent}'.join(
                 self.current_line.rstrip('\n').split('\n'),
             )
@@ -635,12 +641,16 @@ class Po2Md:
             if not self._inside_indented_codeblock:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
+            elif self._inside_quoteblock and not self._inside_liblock:
+                self.current_line = '>'
 
             self._save_current_line()
             # prevent two newlines after indented code block
             if not self._inside_liblock and (
                     not self._inside_indented_codeblock
             ):
+                if self._inside_quoteblock:
+                    self.current_line = '>'
                 self._save_current_line()
             self._inside_indented_codeblock = False
         elif block is md4c.BlockType.H:
-- 
2.43.0


From 971cc48f482bb768ccfb01fa2f832ab8cbb236ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 014/103] fix: keep blocks after tables inside quotes separated
 in po2md

---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 5d19049..1c91ded 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -717,7 +717,9 @@ class Po2Md:
                 self._save_current_line()
             self._inside_quoteblock = False
         elif block is md4c.BlockType.TABLE:
-            if not self._inside_quoteblock and not self._current_list_type:
+            if not self._current_list_type:
+                if self._inside_quoteblock:
+                    self.current_line = '>'
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
-- 
2.43.0


From e09d98b35c3531243f5894e66f17257f859af404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 015/103] fix: do not lose HTML blocks at the end of the
 content in po2md

---
 src/mdpo/po2md/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 1c91ded..cd283b9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1009,6 +1009,10 @@ class Po2Md:
             self.leave_span,
             self.text,
         )
+        if self.current_line.strip():
+            # HTML block at the end of the content
+            self.current_line = self.current_line.rstrip('\n') + '\n'
+            self._save_current_line()
         self._append_link_references()  # add link references to the end
 
         self.disable_next_block = False
-- 
2.43.0


From 4dd84ba90dfb9e96769be9459772c6a5e7f2b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 016/103] fix: support strikethrough spans in po2md

Messages with strikethrough text were not found in PO files and the
strikethrough markup was removed from the output.
---
 src/mdpo/po2md/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index cd283b9..4a9b6fe 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -240,6 +240,14 @@ class Po2Md:
             md4c.SpanType.CODE.value: self.code_end_string,
         }
 
+        if 'strikethrough' in self.extensions:
+            self._enterspan_replacer[md4c.SpanType.DEL.value] = kwargs.get(
+                'strikethrough_start_string', '~~',
+            )
+            self._leavespan_replacer[md4c.SpanType.DEL.value] = kwargs.get(
+                'strikethrough_end_string', '~~',
+            )
+
         self.wikilink_start_string = '[['
         self.wikilink_end_string = ']]'
 
-- 
2.43.0


From 41bd59a86494d3ef4be08239d12c814b15a90178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 017/103] fix: translate messages with links broken in several
 lines in po2md

---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 4a9b6fe..a7f3f65 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -909,7 +909,9 @@ class Po2Md:
 
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
-                if self._inside_liblock and text == '\n':
+                if (
+                    self._inside_liblock or self._inside_aspan
+                ) and text == '\n':
                     text = ' '
                 if self._current_imgspan:
                     self._current_imgspan['text'] = text
-- 
2.43.0


From 8705868f1fb2cfe0aba477d9b1a93100f9dcae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 018/103] fix: do not lose part of the text of images

Only the last piece of text was kept if the alternative text of the image
had line breaks, entities or escaped characters.
---
 src/mdpo/md2po/__init__.py | 3 ++-
 src/mdpo/po2md/__init__.py | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 0b2708e..79b5639 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -874,11 +874,12 @@ class Md2Po:
             if not self._inside_codeblock:
                 if any([  # softbreaks
                     self._inside_liblock, self._inside_aspan,
+                    self._current_imgspan,
                 ]) and text == '\n':
                     text = ' '
                 if not self.plaintext:
                     if self._current_imgspan:
-                        self._current_imgspan['text'] = text
+                        self._current_imgspan['text'] += text
                         return
                     if self._inside_codespan:
                         # fix backticks for codespan start and end to escape
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a7f3f65..bb0a78b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -909,12 +909,13 @@ class Po2Md:
 
         if not self._inside_htmlblock[0]:
             if not self._inside_codeblock:
-                if (
-                    self._inside_liblock or self._inside_aspan
-                ) and text == '\n':
+                if any([
+                    self._inside_liblock, self._inside_aspan,
+                    self._current_imgspan,
+                ]) and text == '\n':
                     text = ' '
                 if self._current_imgspan:
-                    self._current_imgspan['text'] = text
+                    self._current_imgspan['text'] += text
                     return
                 if self._inside_codespan:
                     self._codespan_backticks = min_not_max_chars_in_a_row(
-- 
2.43.0


From 92a9698217cb108cd56bde4b3f792c1310ef9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 019/103] fix: keep code spans starting or ending with
 backticks valid

---
 src/mdpo/md2po/__init__.py | 2 ++
 src/mdpo/po2md/__init__.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 79b5639..002245e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -896,6 +896,8 @@ class Md2Po:
                             f'{backticks}'
                             f'{self.current_msgid[self._codespan_start_index:]}'
                         )
+                        if self.code_start_string in (text[:1], text[-1:]):
+                            text = f' {text} '
                         if self._inside_aspan:
                             self._current_aspan_text += text
                             return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index bb0a78b..c22b94b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -927,6 +927,8 @@ class Po2Md:
                         f'{self._codespan_backticks * self.code_start_string}'
                         f'{self.current_msgid[self._codespan_start_index:]}'
                     )
+                    if self.code_start_string in (text[:1], text[-1:]):
+                        text = f' {text} '
                     if self._inside_aspan:
                         self._current_aspan_text += text
                         return
-- 
2.43.0


From f59f360846bedc2ccd1e3a387f2991ae18b67283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 020/103] fix: do not propagate commands of a file to the next
 ones in md2po

Contexts, translator comments and the inclusion of code blocks pending at
the end of a file were applied to the messages of the next file, or to
the link references.
---
 src/mdpo/md2po/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 002245e..e34c764 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -936,6 +936,8 @@ class Md2Po:
         if self.link_references:
             self.disable_next_block = False
             self.disable = False
+            self.current_msgctxt = None
+            self.current_tcomment = None
 
             # 'link_reference' event
             pre_events = self.events.get('link_reference')
@@ -1021,6 +1023,7 @@ class Md2Po:
         if hasattr(self, 'content'):
             _parse(self.content)
         else:
+            include_codeblocks = self.include_codeblocks
             for filepath in self.filepaths:
                 with open(filepath, encoding=md_encoding) as f:
                     self.content = f.read()
@@ -1033,6 +1036,9 @@ class Md2Po:
                 self.enable_next_block = False
                 self.include_next_codeblock = False
                 self.disable_next_codeblock = False
+                self.include_codeblocks = include_codeblocks
+                self.current_msgctxt = None
+                self.current_tcomment = None
                 self.link_references = None
                 self._current_top_level_block_number = 0
                 self._current_top_level_block_type = None
-- 
2.43.0


From 4c0683251d48a8fd3e044e64b70b718153d26a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 021/103] fix: take into account PO files wrapwidth in md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 39a4554..029d628 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -154,7 +154,6 @@ def markdown_to_pofile_to_markdown(
                 command_aliases=command_aliases,
                 debug=debug,
                 location=location,
-                wrapwidth=po_wrapwidth,
                 include_codeblocks=include_codeblocks,
                 _check_saved_files_changed=_check_saved_files_changed,
                 **(md2po_kwargs or {}),
@@ -164,6 +163,7 @@ def markdown_to_pofile_to_markdown(
                 po_filepath=po_filepath,
                 po_encoding=po_encoding,
                 md_encoding=md_encoding,
+                wrapwidth=po_wrapwidth,
             )
             if _check_saved_files_changed and _saved_files_changed is False:
                 _saved_files_changed = md2po._saved_files_changed
-- 
2.43.0


From 36bc38088589cff629079d4b7c355db913975d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 022/103] fix: translate using md4c extensions passed to
 md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 029d628..3b09195 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -176,7 +176,7 @@ def markdown_to_pofile_to_markdown(
                 po_encoding=po_encoding,
                 wrapwidth=md_wrapwidth,
                 _check_saved_files_changed=_check_saved_files_changed,
-                **(po2md_kwargs or {}),
+                **{'extensions': extensions, **(po2md_kwargs or {})},
             )
             po2md.translate(
                 filepath,
-- 
2.43.0


From 7abbaf3ecce6a2ec69b244b4ffcacc6ff9a77a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 023/103] fix: do not extract titles of disabled blocks in
 plaintext mode

---
 src/mdpo/md2po/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index e34c764..20d6d6d 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -693,7 +693,10 @@ class Md2Po:
             return
 
         if (span is md4c.SpanType.IMG or span is md4c.SpanType.A) and \
-                details['title']:
+                details['title'] and (
+                    (not self.disable_next_block and not self.disable)
+                    or self.enable_next_block
+                ):
             self._save_msgid(details['title'][0][1])
 
     def not_plaintext_enter_span(self, span, details):
-- 
2.43.0


From 2624844d9c97b191f0207b7699e43c196a19a3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 024/103] fix: do not crash with contexts not found in PO files
 in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 9afd363..1d2afc2 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -261,9 +261,9 @@ class MdPo2HTML(HTMLParser):
             )
         else:
             if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt[
-                    self.current_msgctxt
-                ].get(_current_replacement)
+                replacement = self.translations_with_msgctxt.get(
+                    self.current_msgctxt, {},
+                ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
             if not replacement:
-- 
2.43.0


From de45155fbe23876f8e4df319b1a5b3f62cbc2461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 025/103] fix: do not override translations with empty ones of
 other PO files

---
 src/mdpo/po.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index a61336d..ed7fff1 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -132,6 +132,8 @@ def pofiles_to_unique_translations_dicts(pofiles):
     translations, translations_with_msgctxt = {}, {}
     for pofile in pofiles:
         for entry in pofile:
+            if not entry.msgstr:
+                continue
             if entry.msgctxt:
                 if entry.msgctxt not in translations_with_msgctxt:
                     translations_with_msgctxt[entry.msgctxt] = {}
-- 
2.43.0


From f65e64d4f7643f91747cfad5870064cf76706e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 026/103] fix: support empty targets and targets with entities
 in spans

Links and images with empty targets made crash md2po and po2md, and
targets and titles were truncated on their first HTML entity.
---
 src/mdpo/md2po/__init__.py | 25 ++++++++++++++-----------
 src/mdpo/md4c.py           | 15 +++++++++++++++
 src/mdpo/po2md/__init__.py | 33 ++++++++++++++++++++++-----------
 3 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 20d6d6d..99990f1 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -22,6 +22,7 @@ from mdpo.md import parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
+    join_attribute_text,
 )
 from mdpo.po import (
     find_entry_in_entries,
@@ -697,7 +698,7 @@ class Md2Po:
                     (not self.disable_next_block and not self.disable)
                     or self.enable_next_block
                 ):
-            self._save_msgid(details['title'][0][1])
+            self._save_msgid(join_attribute_text(details['title']))
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
@@ -725,11 +726,11 @@ class Md2Po:
 
             self._inside_aspan = True
 
-            current_aspan_href = details['href'][0][1]
+            current_aspan_href = join_attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = join_attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == current_aspan_href
@@ -755,14 +756,16 @@ class Md2Po:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_imgspan['src'] = details['src'][0][1]
+            self._current_imgspan['src'] = join_attribute_text(details['src'])
             self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
+                else join_attribute_text(details['title'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.U:
             self._inside_uspan = True
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = join_attribute_text(
+                details['target'],
+            )
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -800,8 +803,9 @@ class Md2Po:
                     )
                 self._current_aspan_ref_target = None
             else:
-                title = details['title'][0][1] if details['title'] else ''
-                if self._current_aspan_text == details['href'][0][1]:
+                title = join_attribute_text(details['title'])
+                href = join_attribute_text(details['href'])
+                if self._current_aspan_text == href:
                     # autolink vs link clash (see implementation notes)
                     self.current_msgid += f'<{self._current_aspan_text}'
                     if title:
@@ -809,7 +813,6 @@ class Md2Po:
                     self.current_msgid += '>'
                 else:
                     title_part = f' "{polib.escape(title)}"' if title else ''
-                    href = details['href'][0][1]
                     self.current_msgid += (
                         f'[{self._current_aspan_text}]({href}{title_part})'
                     )
@@ -831,9 +834,9 @@ class Md2Po:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = join_attribute_text(details['src'])
             if details['title']:
-                imgspan_title = details['title'][0][1]
+                imgspan_title = join_attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
diff --git a/src/mdpo/md4c.py b/src/mdpo/md4c.py
index 2bd1543..50421ef 100644
--- a/src/mdpo/md4c.py
+++ b/src/mdpo/md4c.py
@@ -27,3 +27,18 @@ READABLE_BLOCK_NAMES = {
     9: 'paragraph',
     10: 'table',
 }
+
+
+def join_attribute_text(attribute):
+    """Join the pieces of text that compound a detail of a span.
+
+    The targets and titles of links and images are divided by md4c if they
+    contain entities and are ``None`` if they are empty.
+
+    Args:
+        attribute (list): Detail value passed by md4c to spans callbacks.
+
+    Returns:
+        str: Full text of the attribute.
+    """
+    return ''.join(text for _, text in attribute or [])
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c22b94b..97db624 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -13,7 +13,10 @@ from mdpo.command import (
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
 from mdpo.md import parse_link_references
-from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
+from mdpo.md4c import (
+    DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
+    join_attribute_text,
+)
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     po_escaped_string,
@@ -760,11 +763,11 @@ class Po2Md:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
 
-            self._current_aspan_href = details['href'][0][1]
+            self._current_aspan_href = join_attribute_text(details['href'])
             self._current_aspan_ref_target = None
 
             if details['title']:
-                current_aspan_title = details['title'][0][1]
+                current_aspan_title = join_attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if (
                         href == self._current_aspan_href
@@ -786,11 +789,13 @@ class Po2Md:
                 self.link_references = parse_link_references(self.content)
 
             self._current_imgspan['title'] = '' if not details['title'] \
-                else details['title'][0][1]
-            self._current_imgspan['src'] = details['src'][0][1]
+                else join_attribute_text(details['title'])
+            self._current_imgspan['src'] = join_attribute_text(details['src'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.WIKILINK:
-            self._current_wikilink_target = details['target'][0][1]
+            self._current_wikilink_target = join_attribute_text(
+                details['target'],
+            )
         elif span is md4c.SpanType.LATEXMATH:
             self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -832,17 +837,21 @@ class Po2Md:
                 # autolink vs link clash (see implementation notes)
                 self.current_msgid += f'<{self._current_aspan_text}'
                 if details['title']:
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        join_attribute_text(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += '>'
-            elif self._current_aspan_href:
+            elif self._current_aspan_href is not None:
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
                     f'({self._current_aspan_href}'
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
-                    escaped_title = polib.escape(details['title'][0][1])
+                    escaped_title = polib.escape(
+                        join_attribute_text(details['title']),
+                    )
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += ')'
             self._current_aspan_href = None
@@ -856,9 +865,11 @@ class Po2Md:
             self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
-            imgspan_src = details['src'][0][1]
+            imgspan_src = join_attribute_text(details['src'])
             if details['title']:
-                imgspan_title = polib.escape(details['title'][0][1])
+                imgspan_title = polib.escape(
+                    join_attribute_text(details['title']),
+                )
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
-- 
2.43.0


From 67851318046dc97be77c6a27f1c347588ebb7a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 027/103] fix: do not wrap headers in po2md

Headers longer than the wrapwidth were divided in a header and a
paragraph.
---
 src/mdpo/po2md/__init__.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 97db624..6756718 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -455,13 +455,14 @@ class Po2Md:
 
             # Wrap lines with Unicode Line Break algorithm
             #
-            # Only execute it for text outside tables
+            # Only execute it for text outside tables and headers
             if not self._inside_codeblock and not self._current_thead_aligns:
-                translation = md_ulb_pwrap.ulb_wrap_paragraph(
-                    translation,
-                    self.wrapwidth,
-                    self.wrapwidth + first_line_width_diff,
-                )
+                if not self._inside_hblock:
+                    translation = md_ulb_pwrap.ulb_wrap_paragraph(
+                        translation,
+                        self.wrapwidth,
+                        self.wrapwidth + first_line_width_diff,
+                    )
 
                 if not any([
                     self._inside_liblock,
-- 
2.43.0


From e9906e86a9078d707ee0b78d903bdb9375a58f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 028/103] fix: join lines of setext headers in messages

---
 src/mdpo/md2po/__init__.py | 2 +-
 src/mdpo/po2md/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 99990f1..1e21a7c 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -918,7 +918,7 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if self._current_wikilink_target:
                     if text != self._current_wikilink_target:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6756718..b8bf8f1 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -956,7 +956,7 @@ class Po2Md:
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
 
-                if self._inside_pblock:
+                if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if text == self._current_aspan_href:
                     # self-referenced wiki or inline link
-- 
2.43.0


From c49c749d4d46294f514bb5f766d33ee2357d9164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 029/103] fix: respect enable-next-block with
 disable-next-block in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 1d2afc2..5b6a088 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -248,8 +248,8 @@ class MdPo2HTML(HTMLParser):
 
         _current_replacement = html.unescape(_current_replacement)
 
-        if (self.disable and not self.enable_next_block) \
-                or self.disable_next_block:
+        if (self.disable or self.disable_next_block) \
+                and not self.enable_next_block:
             replacement = _current_replacement
 
             self.disabled_entries.append(
-- 
2.43.0


From 3faf27c269be4bdcebf514998d1964f14c1d71bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:08 +0000
Subject: [PATCH 030/103] fix: consume next block commands with included
 comments in po2md

---
 src/mdpo/po2md/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index b8bf8f1..6ed834d 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -362,6 +362,12 @@ class Po2Md:
                 self.current_msgctxt = comment
             elif mdpo_command == 'mdpo-translator':
                 self.current_tcomment = comment
+            elif mdpo_command == 'mdpo-include':
+                # the included comment consumes commands for next blocks
+                self.disable_next_block = False
+                self.enable_next_block = False
+                self.current_msgctxt = None
+                self.current_tcomment = None
 
     def _process_command(self, text):
         original_command, comment = parse_mdpo_html_command(text)
-- 
2.43.0


From 2326eac260dce48b91e17fd7174a8b51b36b05fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 031/103] fix: translate ordered lists in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5b6a088..5be8726 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -319,7 +319,7 @@ class MdPo2HTML(HTMLParser):
             self.output += f'<{tag}{attrs_repr}>'
         elif (
             (self.context and self.context[0] in self.ignore_grouper_tags)
-            or (tag == 'ul' and not self.context)
+            or (tag in {'ul', 'ol'} and not self.context)
             or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
         ):
             attrs_repr = (
@@ -349,7 +349,7 @@ class MdPo2HTML(HTMLParser):
         elif tag in PROCESS_REPLACER_TAGS:
             self.replacer.append(('end', tag, None))
             self._process_replacer()
-        elif tag in ['ul', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+        elif tag in ['ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
             self.output += f'</{tag}>'
         else:
             self.replacer.append(('end', tag, None))
-- 
2.43.0


From 0577933be605bef11db00e8772a046e8e9482bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 032/103] fix: do not confuse untitled links with titled link
 references

---
 src/mdpo/md2po/__init__.py | 8 ++++----
 src/mdpo/po2md/__init__.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 1e21a7c..2baaaa8 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -739,8 +739,8 @@ class Md2Po:
                         self._current_aspan_ref_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == current_aspan_href:
+                for target, href, title in self.link_references:
+                    if href == current_aspan_href and not title:
                         self._current_aspan_ref_target = target
                         break
 
@@ -842,8 +842,8 @@ class Md2Po:
                         referenced_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
+                for target, href, title in self.link_references:
+                    if href == imgspan_src and not title:
                         referenced_target = target
                         break
 
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6ed834d..c785b68 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -783,8 +783,8 @@ class Po2Md:
                         self._current_aspan_ref_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == self._current_aspan_href:
+                for target, href, title in self.link_references:
+                    if href == self._current_aspan_href and not title:
                         self._current_aspan_ref_target = target
                         break
         elif span is md4c.SpanType.CODE:
@@ -882,8 +882,8 @@ class Po2Md:
                         referenced_target = target
                         break
             else:
-                for target, href, _ in self.link_references:
-                    if href == imgspan_src:
+                for target, href, title in self.link_references:
+                    if href == imgspan_src and not title:
                         referenced_target = target
                         break
 
-- 
2.43.0


From c60ae1f9216e16b09525ef071cb06f45d999b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 033/103] fix: keep full info strings of fenced code blocks in
 po2md

---
 src/mdpo/po2md/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c785b68..e315be6 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -532,8 +532,7 @@ class Po2Md:
             if details['fence_char'] is not None:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
-                if details['lang']:
-                    self.current_line += details['lang'][0][1]
+                self.current_line += join_attribute_text(details['info'])
             else:
                 self._inside_indented_codeblock = True
 
-- 
2.43.0


From a7d8129e9652267caa67e9c3e24cbff4946a5209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 034/103] fix: write fences of code blocks long enough in po2md

---
 src/mdpo/po2md/__init__.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e315be6..17c8483 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -106,6 +106,7 @@ class Po2Md:
         '_inside_htmlblock',
         '_inside_codeblock',
         '_inside_indented_codeblock',
+        '_codeblock_fence_index',
         '_inside_pblock',
         '_inside_liblock',
         '_inside_liblock_first_p',
@@ -290,6 +291,7 @@ class Po2Md:
         ]
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
+        self._codeblock_fence_index = None
         self._inside_hblock = False
         self._inside_pblock = False
         self._inside_liblock = False
@@ -540,6 +542,7 @@ class Po2Md:
                 self._inside_quoteblock and self._inside_indented_codeblock
             ):
                 self._save_current_line()
+            self._codeblock_fence_index = len(self.outputlines) - 1
         elif block is md4c.BlockType.H:
             self._inside_hblock = True
             hash_signs = '#' * details['level']
@@ -656,7 +659,17 @@ class Po2Md:
             )
             self._save_current_line()
             if not self._inside_indented_codeblock:
+                # the fence can't be contained by the code
+                opening = self.outputlines[self._codeblock_fence_index]
                 fence_chars = details['fence_char'] * 3
+                while fence_chars in self.outputlines[-1]:
+                    opening = opening.replace(
+                        fence_chars,
+                        f'{fence_chars}{details["fence_char"]}',
+                        1,
+                    )
+                    fence_chars += details['fence_char']
+                self.outputlines[self._codeblock_fence_index] = opening
                 self.current_line += f'{indent}{fence_chars}'
             elif self._inside_quoteblock and not self._inside_liblock:
                 self.current_line = '>'
-- 
2.43.0


From 785ab5adca809f73e299bcb1c468bf9032b60c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:34 +0000
Subject: [PATCH 035/103] fix: keep trailing empty lines of code blocks in
 po2md

---
 src/mdpo/po2md/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 17c8483..6cd9e7b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -654,8 +654,10 @@ class Po2Md:
                 indent += '> '
                 if not self._inside_indented_codeblock:
                     self.current_line = f'{indent}{self.current_line}'
+            if self.current_line.endswith('\n'):
+                self.current_line = self.current_line[:-1]
             self.current_line = f'\n{indent}'.join(
-                self.current_line.rstrip('\n').split('\n'),
+                self.current_line.split('\n'),
             )
             self._save_current_line()
             if not self._inside_indented_codeblock:
-- 
2.43.0


From 9ea1044d2738ef9cb339d8370ce1fe1fedbe1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:57 +0000
Subject: [PATCH 036/103] fix: do not fail with spans inside alternative texts
 of images

---
 src/mdpo/md2po/__init__.py | 7 +++++++
 src/mdpo/po2md/__init__.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 2baaaa8..f6c9d8a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -705,6 +705,10 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_span', self, span, details):
             return
 
+        if self._current_imgspan:
+            # the alternative text of images is plain text
+            return
+
         # underline spans for double '_' character enters two times
         if not self._inside_uspan:
             if self._inside_aspan:  # span inside link text
@@ -779,6 +783,9 @@ class Md2Po:
         if raise_skip_event(self.events, 'leave_span', self, span, details):
             return
 
+        if self._current_imgspan and span is not md4c.SpanType.IMG:
+            return
+
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
                 self.current_msgid += self._current_wikilink_target
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6cd9e7b..d686c9f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -772,6 +772,10 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan:
+            # the alternative text of images is plain text
+            return
+
         with contextlib.suppress(KeyError):
             if self._inside_aspan:  # span inside link text
                 self._current_aspan_text += self._enterspan_replacer[span.value]
@@ -833,6 +837,9 @@ class Po2Md:
         ):
             return
 
+        if self._current_imgspan and span is not md4c.SpanType.IMG:
+            return
+
         if span is md4c.SpanType.WIKILINK:
             self.current_msgid += polib.escape(self._current_wikilink_target)
             self._current_wikilink_target = None
-- 
2.43.0


From d639c605098fa99f0017fce1e174db76033b1ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 037/103] fix: support code spans broken in several lines or
 inside links

---
 src/mdpo/md2po/__init__.py | 75 +++++++++++++++-----------------------
 src/mdpo/po2md/__init__.py | 58 ++++++++++++++---------------
 2 files changed, 57 insertions(+), 76 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index f6c9d8a..265b6e7 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -129,8 +129,7 @@ class Md2Po:
         '_inside_olblock',
         '_inside_hblock',
         '_quoteblocks_deep',
-        '_codespan_start_index',
-        '_codespan_backticks',
+        '_current_codespan_text',
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
@@ -378,8 +377,7 @@ class Md2Po:
         self._quoteblocks_deep = 0
         self._uls_deep = 0
 
-        self._codespan_start_index = None
-        self._codespan_backticks = None
+        self._current_codespan_text = ''
 
         self._inside_aspan = False
         self._current_aspan_text = ''
@@ -750,12 +748,7 @@ class Md2Po:
 
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-
-            # entering a code span, literal backticks encountered inside
-            # will be escaped
-            #
-            # save the index char of the opening backtick
-            self._codespan_start_index = len(self.current_msgid) - 1
+            self._current_codespan_text = ''
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -786,6 +779,29 @@ class Md2Po:
         if self._current_imgspan and span is not md4c.SpanType.IMG:
             return
 
+        if span is md4c.SpanType.CODE:
+            self._inside_codespan = False
+            code_markup = self._current_codespan_text
+            if not self._inside_uspan:
+                # add backticks to escape internal backticks
+                backticks = min_not_max_chars_in_a_row(
+                    self.code_start_string,
+                    code_markup,
+                ) - 1
+                if self.code_start_string in (
+                    code_markup[:1], code_markup[-1:],
+                ):
+                    code_markup = f' {code_markup} '
+                code_markup = (
+                    f'{backticks * self.code_start_string}'
+                    f'{code_markup}'
+                    f'{backticks * self.code_end_string}'
+                )
+            if self._inside_aspan:
+                self._current_aspan_text += code_markup
+            else:
+                self.current_msgid += code_markup
+
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
                 self.current_msgid += self._current_wikilink_target
@@ -825,20 +841,6 @@ class Md2Po:
                     )
             self._inside_aspan = False
             self._current_aspan_text = ''
-        elif span is md4c.SpanType.CODE:
-            self._inside_codespan = False
-            self._codespan_start_index = None
-
-            # add backticks at the end for escape internal backticks
-            if self._inside_aspan:
-                self._current_aspan_text += (
-                    self._codespan_backticks * self.code_end_string
-                )
-            else:
-                self.current_msgid += (
-                    self._codespan_backticks * self.code_end_string
-                )
-            self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = join_attribute_text(details['src'])
@@ -895,29 +897,12 @@ class Md2Po:
                         self._current_imgspan['text'] += text
                         return
                     if self._inside_codespan:
-                        # fix backticks for codespan start and end to escape
-                        # internal backticks
-                        self._codespan_backticks = min_not_max_chars_in_a_row(
-                            self.code_start_string,
-                            text,
-                        ) - 1
-                        backticks = (
-                            self._codespan_backticks * self.code_start_string
-                        )
-                        self.current_msgid = (
-                            f'{self.current_msgid[:self._codespan_start_index]}'
-                            f'{backticks}'
-                            f'{self.current_msgid[self._codespan_start_index:]}'
-                        )
-                        if self.code_start_string in (text[:1], text[-1:]):
-                            text = f' {text} '
-                        if self._inside_aspan:
-                            self._current_aspan_text += text
-                            return
-                    elif self._inside_aspan:
+                        self._current_codespan_text += text.replace('\n', ' ')
+                        return
+                    if self._inside_aspan:
                         self._current_aspan_text += text
                         return
-                    elif text == self.italic_start_string:
+                    if text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
                         text = self.code_start_string_escaped
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index d686c9f..2e61ed6 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -114,9 +114,7 @@ class Po2Md:
         '_inside_aspan',
         '_inside_codespan',
         '_inside_latexmath_display',
-        '_codespan_start_index',
-        '_codespan_backticks',
-        '_codespan_inside_current_msgid',
+        '_current_codespan_text',
         '_inside_quoteblock',
         '_current_aspan_ref_target',
         '_current_aspan_href',
@@ -299,9 +297,7 @@ class Po2Md:
         self._inside_liblock_first_p = False
 
         self._inside_codespan = False
-        self._codespan_start_index = None
-        self._codespan_backticks = None
-        self._codespan_inside_current_msgid = False
+        self._current_codespan_text = ''
 
         self._inside_quoteblock = False
 
@@ -489,7 +485,6 @@ class Po2Md:
         self.disable_next_block = False
         self.enable_next_block = False
 
-        self._codespan_inside_current_msgid = False
         self._aimg_title_inside_current_msgid = False
 
     def _save_current_line(self):
@@ -807,8 +802,7 @@ class Po2Md:
                         break
         elif span is md4c.SpanType.CODE:
             self._inside_codespan = True
-            self._codespan_start_index = len(self.current_msgid) - 1
-            self._codespan_inside_current_msgid = True
+            self._current_codespan_text = ''
         elif span is md4c.SpanType.IMG:
             if self.link_references is None:
                 self.link_references = parse_link_references(self.content)
@@ -840,6 +834,26 @@ class Po2Md:
         if self._current_imgspan and span is not md4c.SpanType.IMG:
             return
 
+        if span is md4c.SpanType.CODE:
+            self._inside_codespan = False
+            code_markup = self._current_codespan_text
+            # add backticks to escape internal backticks
+            backticks = min_not_max_chars_in_a_row(
+                self.code_start_string,
+                code_markup,
+            ) - 1
+            if self.code_start_string in (code_markup[:1], code_markup[-1:]):
+                code_markup = f' {code_markup} '
+            code_markup = (
+                f'{backticks * self.code_start_string}'
+                f'{code_markup}'
+                f'{backticks * self.code_end_string}'
+            )
+            if self._inside_aspan:
+                self._current_aspan_text += code_markup
+            else:
+                self.current_msgid += code_markup
+
         if span is md4c.SpanType.WIKILINK:
             self.current_msgid += polib.escape(self._current_wikilink_target)
             self._current_wikilink_target = None
@@ -885,12 +899,6 @@ class Po2Md:
             self._current_aspan_href = None
             self._inside_aspan = False
             self._current_aspan_text = ''
-        elif span is md4c.SpanType.CODE:
-            self._inside_codespan = False
-            self.current_msgid += (
-                self._codespan_backticks * self.code_end_string
-            )
-            self._codespan_backticks = None
         elif span is md4c.SpanType.IMG:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = join_attribute_text(details['src'])
@@ -957,24 +965,12 @@ class Po2Md:
                     self._current_imgspan['text'] += text
                     return
                 if self._inside_codespan:
-                    self._codespan_backticks = min_not_max_chars_in_a_row(
-                        self.code_start_string,
-                        text,
-                    ) - 1
-                    self.current_msgid = (
-                        f'{self.current_msgid[:self._codespan_start_index]}'
-                        f'{self._codespan_backticks * self.code_start_string}'
-                        f'{self.current_msgid[self._codespan_start_index:]}'
-                    )
-                    if self.code_start_string in (text[:1], text[-1:]):
-                        text = f' {text} '
-                    if self._inside_aspan:
-                        self._current_aspan_text += text
-                        return
-                elif self._inside_aspan:
+                    self._current_codespan_text += text.replace('\n', ' ')
+                    return
+                if self._inside_aspan:
                     self._current_aspan_text += text
                     return
-                elif text == self.italic_start_string:
+                if text == self.italic_start_string:
                     text = self.italic_start_string_escaped
                 elif text == self.code_start_string:
                     text = self.code_start_string_escaped
-- 
2.43.0


From 6d04d28e914e0b8d45c76c9183574f6b67a26927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 038/103] fix: support wikilinks with texts broken in several
 parts

---
 src/mdpo/md2po/__init__.py | 19 +++++++++++--------
 src/mdpo/po2md/__init__.py | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 265b6e7..2c3819e 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -133,6 +133,7 @@ class Md2Po:
         '_current_aspan_text',
         '_current_aspan_ref_target',
         '_current_wikilink_target',
+        '_current_wikilink_start_index',
         '_inside_latexmath_display',
         '_inside_latexmath_display_text',
         '_current_imgspan',
@@ -387,6 +388,7 @@ class Md2Po:
 
         self.link_references = None
         self._current_wikilink_target = None
+        self._current_wikilink_start_index = None
         self._current_imgspan = {}
 
     def _save_msgid(
@@ -763,6 +765,7 @@ class Md2Po:
             self._current_wikilink_target = join_attribute_text(
                 details['target'],
             )
+            self._current_wikilink_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -804,7 +807,14 @@ class Md2Po:
 
         if not self._inside_uspan:
             if span is md4c.SpanType.WIKILINK:
-                self.current_msgid += self._current_wikilink_target
+                start_index = self._current_wikilink_start_index
+                wikilink_text = self.current_msgid[start_index:]
+                if wikilink_text != self._current_wikilink_target:
+                    # not self-referenced wikilink
+                    self.current_msgid = (
+                        f'{self.current_msgid[:start_index]}'
+                        f'{self._current_wikilink_target}|{wikilink_text}'
+                    )
                 self._current_wikilink_target = None
             if self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
@@ -912,13 +922,6 @@ class Md2Po:
                         text = self.code_end_string_escaped
                 if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
-                if self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        # not self-referenced wikilink
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 if self._inside_latexmath_display:
                     self._inside_latexmath_display_text += text.strip()
                     return
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2e61ed6..74a4546 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -126,6 +126,7 @@ class Po2Md:
         '_ol_marks',
         '_current_list_type',
         '_current_wikilink_target',
+        '_current_wikilink_start_index',
         'link_references',
     }
 
@@ -328,6 +329,7 @@ class Po2Md:
         self._current_list_type = []
 
         self._current_wikilink_target = None
+        self._current_wikilink_start_index = None
 
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
@@ -815,6 +817,7 @@ class Po2Md:
             self._current_wikilink_target = join_attribute_text(
                 details['target'],
             )
+            self._current_wikilink_start_index = len(self.current_msgid)
         elif span is md4c.SpanType.LATEXMATH:
             self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -855,7 +858,14 @@ class Po2Md:
                 self.current_msgid += code_markup
 
         if span is md4c.SpanType.WIKILINK:
-            self.current_msgid += polib.escape(self._current_wikilink_target)
+            start_index = self._current_wikilink_start_index
+            wikilink_text = self.current_msgid[start_index:]
+            if wikilink_text != self._current_wikilink_target:
+                # not self-referenced wikilink
+                self.current_msgid = (
+                    f'{self.current_msgid[:start_index]}'
+                    f'{self._current_wikilink_target}|{wikilink_text}'
+                )
             self._current_wikilink_target = None
 
         if self._inside_aspan:  # span inside link text
@@ -985,12 +995,6 @@ class Po2Md:
                     # self-referenced wiki or inline link
                     self._current_aspan_href = None
 
-                elif self._current_wikilink_target:
-                    if text != self._current_wikilink_target:
-                        self._current_wikilink_target = (
-                            f'{self._current_wikilink_target}|{text}'
-                        )
-                    return
                 self.current_msgid += text
             else:
                 if self._inside_liblock:
-- 
2.43.0


From 0b5a17e10a59abbfb94e355e5e9fbfab2fce81c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 039/103] fix: join lines of titles of links and images

---
 src/mdpo/md4c.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md4c.py b/src/mdpo/md4c.py
index 50421ef..b3715e0 100644
--- a/src/mdpo/md4c.py
+++ b/src/mdpo/md4c.py
@@ -33,7 +33,8 @@ def join_attribute_text(attribute):
     """Join the pieces of text that compound a detail of a span.
 
     The targets and titles of links and images are divided by md4c if they
-    contain entities and are ``None`` if they are empty.
+    contain entities and are ``None`` if they are empty. Titles can be broken
+    in several lines.
 
     Args:
         attribute (list): Detail value passed by md4c to spans callbacks.
@@ -41,4 +42,4 @@ def join_attribute_text(attribute):
     Returns:
         str: Full text of the attribute.
     """
-    return ''.join(text for _, text in attribute or [])
+    return ''.join(text for _, text in attribute or []).replace('\n', ' ')
-- 
2.43.0


From 7699395cb94d02804aea98edf33c0da17f57fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:23 +0000
Subject: [PATCH 040/103] fix: support underline spans

---
 src/mdpo/md2po/__init__.py | 41 +++++++++++++++------------------
 src/mdpo/po2md/__init__.py | 47 ++++++++++++++++++++++++++------------
 2 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 2c3819e..7cc7b27 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -119,7 +119,7 @@ class Md2Po:
         'underline_start_string',
         'underline_end_string',
 
-        '_inside_uspan',
+        '_uspans_deep',
         '_inside_htmlblock',
         '_inside_codeblock',
         '_inside_pblock',
@@ -365,7 +365,7 @@ class Md2Po:
             # optimization to skip checking for
             # ``self.md4c_generic_parser_kwargs.get('underline')``
             # inside spans
-            self._inside_uspan = False
+            self._uspans_deep = 0
 
         self._inside_htmlblock = False
         self._inside_codeblock = False
@@ -710,7 +710,7 @@ class Md2Po:
             return
 
         # underline spans for double '_' character enters two times
-        if not self._inside_uspan:
+        if not self._uspans_deep or span is not md4c.SpanType.U:
             if self._inside_aspan:  # span inside link text
                 with contextlib.suppress(KeyError):
                     self._current_aspan_text += self._enterspan_replacer[
@@ -760,7 +760,7 @@ class Md2Po:
                 else join_attribute_text(details['title'])
             self._current_imgspan['text'] = ''
         elif span is md4c.SpanType.U:
-            self._inside_uspan = True
+            self._uspans_deep += 1
         elif span is md4c.SpanType.WIKILINK:
             self._current_wikilink_target = join_attribute_text(
                 details['target'],
@@ -785,27 +785,26 @@ class Md2Po:
         if span is md4c.SpanType.CODE:
             self._inside_codespan = False
             code_markup = self._current_codespan_text
-            if not self._inside_uspan:
-                # add backticks to escape internal backticks
-                backticks = min_not_max_chars_in_a_row(
-                    self.code_start_string,
-                    code_markup,
-                ) - 1
-                if self.code_start_string in (
-                    code_markup[:1], code_markup[-1:],
-                ):
-                    code_markup = f' {code_markup} '
-                code_markup = (
-                    f'{backticks * self.code_start_string}'
-                    f'{code_markup}'
-                    f'{backticks * self.code_end_string}'
-                )
+            # add backticks to escape internal backticks
+            backticks = min_not_max_chars_in_a_row(
+                self.code_start_string,
+                code_markup,
+            ) - 1
+            if self.code_start_string in (code_markup[:1], code_markup[-1:]):
+                code_markup = f' {code_markup} '
+            code_markup = (
+                f'{backticks * self.code_start_string}'
+                f'{code_markup}'
+                f'{backticks * self.code_end_string}'
+            )
             if self._inside_aspan:
                 self._current_aspan_text += code_markup
             else:
                 self.current_msgid += code_markup
+        elif span is md4c.SpanType.U:
+            self._uspans_deep -= 1
 
-        if not self._inside_uspan:
+        if not self._uspans_deep or span is not md4c.SpanType.U:
             if span is md4c.SpanType.WIKILINK:
                 start_index = self._current_wikilink_start_index
                 wikilink_text = self.current_msgid[start_index:]
@@ -882,8 +881,6 @@ class Md2Po:
                 self._current_aspan_text += img_markup
             else:
                 self.current_msgid += img_markup
-        elif span is md4c.SpanType.U:
-            self._inside_uspan = False
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_msgid += self._inside_latexmath_display_text
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 74a4546..8e8fb82 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -113,6 +113,7 @@ class Po2Md:
         '_inside_hblock',
         '_inside_aspan',
         '_inside_codespan',
+        '_uspans_deep',
         '_inside_latexmath_display',
         '_current_codespan_text',
         '_inside_quoteblock',
@@ -251,6 +252,14 @@ class Po2Md:
                 'strikethrough_end_string', '~~',
             )
 
+        if 'underline' in self.extensions:
+            self._enterspan_replacer[md4c.SpanType.U.value] = kwargs.get(
+                'underline_start_string', '__',
+            )
+            self._leavespan_replacer[md4c.SpanType.U.value] = kwargs.get(
+                'underline_end_string', '__',
+            )
+
         self.wikilink_start_string = '[['
         self.wikilink_end_string = ']]'
 
@@ -297,6 +306,7 @@ class Po2Md:
         # first li block paragraph (li block "title")
         self._inside_liblock_first_p = False
 
+        self._uspans_deep = 0
         self._inside_codespan = False
         self._current_codespan_text = ''
 
@@ -773,11 +783,15 @@ class Po2Md:
             # the alternative text of images is plain text
             return
 
-        with contextlib.suppress(KeyError):
-            if self._inside_aspan:  # span inside link text
-                self._current_aspan_text += self._enterspan_replacer[span.value]
-            else:
-                self.current_msgid += self._enterspan_replacer[span.value]
+        # underline spans for double '_' character enters two times
+        if not self._uspans_deep or span is not md4c.SpanType.U:
+            with contextlib.suppress(KeyError):
+                if self._inside_aspan:  # span inside link text
+                    self._current_aspan_text += (
+                        self._enterspan_replacer[span.value]
+                    )
+                else:
+                    self.current_msgid += self._enterspan_replacer[span.value]
 
         if span is md4c.SpanType.A:
             self._inside_aspan = True
@@ -818,6 +832,8 @@ class Po2Md:
                 details['target'],
             )
             self._current_wikilink_start_index = len(self.current_msgid)
+        elif span is md4c.SpanType.U:
+            self._uspans_deep += 1
         elif span is md4c.SpanType.LATEXMATH:
             self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
@@ -857,7 +873,9 @@ class Po2Md:
             else:
                 self.current_msgid += code_markup
 
-        if span is md4c.SpanType.WIKILINK:
+        if span is md4c.SpanType.U:
+            self._uspans_deep -= 1
+        elif span is md4c.SpanType.WIKILINK:
             start_index = self._current_wikilink_start_index
             wikilink_text = self.current_msgid[start_index:]
             if wikilink_text != self._current_wikilink_target:
@@ -868,14 +886,15 @@ class Po2Md:
                 )
             self._current_wikilink_target = None
 
-        if self._inside_aspan:  # span inside link text
-            with contextlib.suppress(KeyError):
-                self._current_aspan_text += self._leavespan_replacer[
-                    span.value
-                ]
-        elif not self._inside_latexmath_display:
-            with contextlib.suppress(KeyError):
-                self.current_msgid += self._leavespan_replacer[span.value]
+        if not self._uspans_deep or span is not md4c.SpanType.U:
+            if self._inside_aspan:  # span inside link text
+                with contextlib.suppress(KeyError):
+                    self._current_aspan_text += self._leavespan_replacer[
+                        span.value
+                    ]
+            elif not self._inside_latexmath_display:
+                with contextlib.suppress(KeyError):
+                    self.current_msgid += self._leavespan_replacer[span.value]
 
         if span is md4c.SpanType.A:
             if self._current_aspan_ref_target:  # referenced link
-- 
2.43.0


From 3cd4d3011ecdfcca5789e90f544c9364f92ae119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 041/103] fix: do not crash in po2md without latex_math_spans
 extension

---
 src/mdpo/po2md/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 8e8fb82..3b02be9 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -279,8 +279,6 @@ class Po2Md:
                 self.wikilink_end_string
 
         if 'latex_math_spans' in self.extensions:
-            self._inside_latexmath_display = False
-
             self.latexmath_start_string = kwargs.get(
                 'latexmath_start_string', '$')
             self.latexmath_end_string = kwargs.get('latexmath_end_string', '$')
@@ -306,6 +304,7 @@ class Po2Md:
         # first li block paragraph (li block "title")
         self._inside_liblock_first_p = False
 
+        self._inside_latexmath_display = False
         self._uspans_deep = 0
         self._inside_codespan = False
         self._current_codespan_text = ''
-- 
2.43.0


From 0afacd6a6e212df120f820c05a341ffdf7d77db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 042/103] fix: write HTML blocks before the blocks that follow
 them in po2md

---
 src/mdpo/po2md/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 3b02be9..fa01923 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -762,7 +762,10 @@ class Po2Md:
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
             if not self._inside_htmlblock[1]:
-                self.current_line += '\n'
+                if self._inside_liblock or self._inside_quoteblock:
+                    self.current_line += '\n'
+                else:
+                    self._save_current_line()
             else:
                 self.current_line = self.current_line.rstrip('\n')
             self._inside_htmlblock[0] = False
-- 
2.43.0


From bbeff770b98804f51c5c60d80cba9992c2bc68cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 043/103] fix: wrap texts of list items followed by code blocks
 in po2md

---
 src/mdpo/po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index fa01923..0b1bcca 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -528,7 +528,6 @@ class Po2Md:
         if block is md4c.BlockType.P:
             self._inside_pblock = True
         elif block is md4c.BlockType.CODE:
-            self._inside_codeblock = True
             indent = ''
 
             if self._inside_liblock:
@@ -536,6 +535,7 @@ class Po2Md:
                 if self.current_line:
                     self._save_current_line()
                 indent += '   ' * len(self._current_list_type)
+            self._inside_codeblock = True
 
             if details['fence_char'] is not None:
                 fence_chars = details['fence_char'] * 3
-- 
2.43.0


From 2e87c45ec0eb9581ba7408c59026fd82c41a5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:47 +0000
Subject: [PATCH 044/103] fix: keep paragraphs after nested lists inside their
 items in po2md

---
 src/mdpo/po2md/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0b1bcca..e7c5cd6 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -710,6 +710,9 @@ class Po2Md:
         elif block is md4c.BlockType.UL:
             self._ul_marks.pop()
             self._current_list_type.pop()
+            # nested list inside an item of other list
+            self._inside_liblock = bool(self._current_list_type)
+            self._inside_liblock_first_p = False
             if self._inside_quoteblock:
                 self.current_line += '> '
             if (
@@ -720,6 +723,9 @@ class Po2Md:
         elif block is md4c.BlockType.OL:
             self._ol_marks.pop()
             self._current_list_type.pop()
+            # nested list inside an item of other list
+            self._inside_liblock = bool(self._current_list_type)
+            self._inside_liblock_first_p = False
             if self._inside_quoteblock:
                 self.current_line += '> '
             if not self._current_list_type and self.outputlines[-1]:
-- 
2.43.0


From c2ce43dca45317dcd1122a53afe51043406f391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:18 +0000
Subject: [PATCH 045/103] fix: keep ordered lists nested in lists inside quotes
 in po2md

---
 src/mdpo/po2md/__init__.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e7c5cd6..45e8fda 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -556,10 +556,6 @@ class Po2Md:
         elif block is md4c.BlockType.LI:
             if self._current_list_type[-1][0] == 'ol':
                 # inside OL
-                if len(self._ol_marks) > 1:
-                    self._save_current_msgid()
-                    if not self._ol_marks[-1][0]:
-                        self._save_current_line()
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
                 self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
@@ -581,7 +577,7 @@ class Po2Md:
             self._current_list_type.append(['ul', []])
             self._ul_marks.append(details['mark'])
         elif block is md4c.BlockType.OL:
-            if self._current_list_type and not self._ol_marks:
+            if self._current_list_type:
                 self._save_current_msgid()
                 self._save_current_line()
             self._current_list_type.append(['ol', []])
-- 
2.43.0


From d4cb1ece8e3579a7c7b59cb5fe0c1fcf7ddf83bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:57 +0000
Subject: [PATCH 046/103] fix: do not write empty lines after nested lists
 inside quotes in po2md

---
 src/mdpo/po2md/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 45e8fda..306e1e7 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -709,7 +709,7 @@ class Po2Md:
             # nested list inside an item of other list
             self._inside_liblock = bool(self._current_list_type)
             self._inside_liblock_first_p = False
-            if self._inside_quoteblock:
+            if self._inside_quoteblock and not self._current_list_type:
                 self.current_line += '> '
             if (
                 not self._current_list_type
@@ -722,7 +722,7 @@ class Po2Md:
             # nested list inside an item of other list
             self._inside_liblock = bool(self._current_list_type)
             self._inside_liblock_first_p = False
-            if self._inside_quoteblock:
+            if self._inside_quoteblock and not self._current_list_type:
                 self.current_line += '> '
             if not self._current_list_type and self.outputlines[-1]:
                 self._save_current_line()
-- 
2.43.0


From bed9a35cb03a9c8fc95c6ef4f4a9ea6b9ced9d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 047/103] fix: keep contents of lists inside quotes in po2md

---
 src/mdpo/po2md/__init__.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 306e1e7..eb68984 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -117,6 +117,7 @@ class Po2Md:
         '_inside_latexmath_display',
         '_current_codespan_text',
         '_inside_quoteblock',
+        '_quoteblock_lists_deep',
         '_current_aspan_ref_target',
         '_current_aspan_href',
         '_current_aspan_text',
@@ -310,6 +311,8 @@ class Po2Md:
         self._current_codespan_text = ''
 
         self._inside_quoteblock = False
+        # number of lists which contain the current quote
+        self._quoteblock_lists_deep = 0
 
         self._inside_aspan = False
         self._current_aspan_ref_target = None
@@ -506,6 +509,15 @@ class Po2Md:
         )
         self.current_line = ''
 
+    def _inside_quoted_list(self):
+        return self._inside_quoteblock and (
+            len(self._current_list_type) > self._quoteblock_lists_deep
+        )
+
+    def _list_content_indent(self):
+        indent = '   ' * len(self._current_list_type)
+        return f'> {indent}' if self._inside_quoted_list() else indent
+
     def enter_block(self, block, details):
         # raise 'enter_block' event
         if raise_skip_event(
@@ -534,7 +546,7 @@ class Po2Md:
                 self._save_current_msgid()
                 if self.current_line:
                     self._save_current_line()
-                indent += '   ' * len(self._current_list_type)
+                indent += self._list_content_indent()
             self._inside_codeblock = True
 
             if details['fence_char'] is not None:
@@ -609,6 +621,7 @@ class Po2Md:
                 self._save_current_msgid()
                 self._save_current_line()
             self._inside_quoteblock = True
+            self._quoteblock_lists_deep = len(self._current_list_type)
         elif block is md4c.BlockType.TABLE:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
@@ -630,11 +643,17 @@ class Po2Md:
             self._save_current_msgid()
 
             if self._inside_liblock:
-                if self._inside_quoteblock:
+                if self._inside_quoteblock and not self._inside_quoted_list():
                     indent = '   ' * len(self._current_list_type)
                     self.current_line = f'{indent}{self.current_line}'
                 elif self._inside_liblock_first_p:
                     self._inside_liblock_first_p = False
+                elif self._inside_quoted_list():
+                    if self.outputlines[-1] != '>':
+                        self.outputlines.append('>')
+                    self.current_line = (
+                        f'{self._list_content_indent()}{self.current_line[2:]}'
+                    )
                 else:
                     indent = '   ' * len(self._current_list_type)
                     self.current_line = f'\n{indent}{self.current_line}'
@@ -651,7 +670,7 @@ class Po2Md:
 
             indent = ''
             if self._inside_liblock:
-                indent += '   ' * len(self._current_list_type)
+                indent += self._list_content_indent()
             elif self._inside_quoteblock:
                 indent += '> '
                 if not self._inside_indented_codeblock:
@@ -1021,7 +1040,7 @@ class Po2Md:
                 self.current_msgid += text
             else:
                 if self._inside_liblock:
-                    indent = '   ' * len(self._current_list_type)
+                    indent = self._list_content_indent()
                     if self.current_line[:len(indent) + 1] != indent:
                         self.current_line += indent
                 self.current_msgid += text
-- 
2.43.0


From 2bf3351b1a97cf8211100e3d1913d874ad616b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 048/103] fix: keep HTML blocks inside quotes in po2md

---
 src/mdpo/po2md/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index eb68984..7f6f79a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -783,8 +783,15 @@ class Po2Md:
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
             if not self._inside_htmlblock[1]:
-                if self._inside_liblock or self._inside_quoteblock:
+                if self._inside_liblock:
                     self.current_line += '\n'
+                elif self._inside_quoteblock:
+                    self.current_line = (
+                        self.current_line.rstrip('\n').replace('\n', '\n> ')
+                    )
+                    self._save_current_line()
+                    self.current_line = '>'
+                    self._save_current_line()
                 else:
                     self._save_current_line()
             else:
-- 
2.43.0


From dfa033ea6e1d6cc36bcd1dad0215b874a3570689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 049/103] fix: keep quotes nested in other quotes in po2md

---
 src/mdpo/po2md/__init__.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 7f6f79a..30d8c57 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -117,6 +117,7 @@ class Po2Md:
         '_inside_latexmath_display',
         '_current_codespan_text',
         '_inside_quoteblock',
+        '_quoteblocks',
         '_quoteblock_lists_deep',
         '_current_aspan_ref_target',
         '_current_aspan_href',
@@ -311,6 +312,9 @@ class Po2Md:
         self._current_codespan_text = ''
 
         self._inside_quoteblock = False
+        # [number of lines in the output, number of lists] before each of
+        # the quotes which contain the current block
+        self._quoteblocks = []
         # number of lists which contain the current quote
         self._quoteblock_lists_deep = 0
 
@@ -620,6 +624,9 @@ class Po2Md:
             if self._inside_liblock:
                 self._save_current_msgid()
                 self._save_current_line()
+            self._quoteblocks.append(
+                [len(self.outputlines), len(self._current_list_type)],
+            )
             self._inside_quoteblock = True
             self._quoteblock_lists_deep = len(self._current_list_type)
         elif block is md4c.BlockType.TABLE:
@@ -772,9 +779,19 @@ class Po2Md:
         elif block is md4c.BlockType.QUOTE:
             if self.outputlines and self.outputlines[-1] == '>':
                 self.outputlines.pop()
+            start, _ = self._quoteblocks.pop()
+            if self._quoteblocks and not self._inside_liblock:
+                # nested quote
+                self.outputlines[start:] = [
+                    f'> {line}'
+                    for line in '\n'.join(self.outputlines[start:]).split('\n')
+                ]
+                self.current_line = '>'
             if not self._inside_liblock:
                 self._save_current_line()
-            self._inside_quoteblock = False
+            self._inside_quoteblock = bool(self._quoteblocks)
+            if self._quoteblocks:
+                self._quoteblock_lists_deep = self._quoteblocks[-1][1]
         elif block is md4c.BlockType.TABLE:
             if not self._current_list_type:
                 if self._inside_quoteblock:
-- 
2.43.0


From 451c6291a55215431ffb73dc183b438bf552fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 050/103] fix: keep headers, breaks, HTML and quotes inside
 list items in po2md

---
 src/mdpo/po2md/__init__.py | 63 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 30d8c57..c57e5d3 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -28,6 +28,14 @@ from mdpo.text import (
     parse_wrapwidth_argument,
 )
 
+# blocks which are written inside list items like outside of them
+LIBLOCK_CHILDREN = {
+    md4c.BlockType.H,
+    md4c.BlockType.HR,
+    md4c.BlockType.HTML,
+    md4c.BlockType.QUOTE,
+}
+
 
 class Po2Md:
     """PO files to Markdown translator implementation.
@@ -110,6 +118,7 @@ class Po2Md:
         '_inside_pblock',
         '_inside_liblock',
         '_inside_liblock_first_p',
+        '_liblock_states',
         '_inside_hblock',
         '_inside_aspan',
         '_inside_codespan',
@@ -305,6 +314,8 @@ class Po2Md:
         self._inside_liblock = False
         # first li block paragraph (li block "title")
         self._inside_liblock_first_p = False
+        # states of the items which contain the current block
+        self._liblock_states = []
 
         self._inside_latexmath_display = False
         self._uspans_deep = 0
@@ -522,6 +533,46 @@ class Po2Md:
         indent = '   ' * len(self._current_list_type)
         return f'> {indent}' if self._inside_quoted_list() else indent
 
+    def _enter_liblock_child(self, block):
+        # the child is written like outside of the list
+        self._save_current_msgid()
+        if self.current_line:
+            self._save_current_line()
+        if self.outputlines[-1]:
+            self._save_current_line()
+        self._liblock_states.append([
+            [block, 0],
+            len(self.outputlines),
+            self._list_content_indent(),
+            self._current_list_type,
+            self._inside_quoteblock,
+            self._quoteblocks,
+            self._quoteblock_lists_deep,
+        ])
+        self._inside_liblock = False
+        self._current_list_type = []
+        self._inside_quoteblock = False
+        self._quoteblocks = []
+
+    def _leave_liblock_child(self):
+        if self.current_line:
+            self._save_current_line()
+        (
+            _,
+            start,
+            indent,
+            self._current_list_type,
+            self._inside_quoteblock,
+            self._quoteblocks,
+            self._quoteblock_lists_deep,
+        ) = self._liblock_states.pop()
+        self._inside_liblock = True
+        self._inside_liblock_first_p = False
+        lines = '\n'.join(self.outputlines[start:]).rstrip('\n').split('\n')
+        self.outputlines[start:] = [
+            f'{indent}{line}'.rstrip() for line in lines
+        ]
+
     def enter_block(self, block, details):
         # raise 'enter_block' event
         if raise_skip_event(
@@ -532,6 +583,13 @@ class Po2Md:
         ):
             return
 
+        if self._inside_liblock and block in LIBLOCK_CHILDREN and (
+            self.current_msgid or not self.current_line
+        ):
+            self._enter_liblock_child(block)
+        if self._liblock_states and block is self._liblock_states[-1][0][0]:
+            self._liblock_states[-1][0][1] += 1
+
         if (
             self._inside_quoteblock
             and (not self.current_line or self.current_line[0] != '>')
@@ -815,6 +873,11 @@ class Po2Md:
                 self.current_line = self.current_line.rstrip('\n')
             self._inside_htmlblock[0] = False
 
+        if self._liblock_states and block is self._liblock_states[-1][0][0]:
+            self._liblock_states[-1][0][1] -= 1
+            if not self._liblock_states[-1][0][1]:
+                self._leave_liblock_child()
+
     def enter_span(self, span, details):
         # raise 'enter_span' event
         if raise_skip_event(
-- 
2.43.0


From d3a75be4e93e75b96b822552938872dc931554f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 051/103] fix: do not merge texts of list items with the blocks
 that follow them in md2po

---
 src/mdpo/md2po/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 7cc7b27..2ea8021 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -579,6 +579,14 @@ class Md2Po:
         if raise_skip_event(self.events, 'enter_block', self, block, details):
             return
 
+        if self.current_msgid and self._inside_liblock and block in {
+            md4c.BlockType.H,
+            md4c.BlockType.HR,
+            md4c.BlockType.HTML,
+        }:
+            # the text of the list item ends
+            self._save_current_msgid()
+
         if block is md4c.BlockType.P:
             self._inside_pblock = True
             if not any([
-- 
2.43.0


From 440a5a5b79683fd0ab82efe2f34ba996de2455ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 052/103] fix: keep tables and blocks of lists inside quotes in
 po2md

---
 src/mdpo/po2md/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c57e5d3..c136565 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -34,6 +34,7 @@ LIBLOCK_CHILDREN = {
     md4c.BlockType.HR,
     md4c.BlockType.HTML,
     md4c.BlockType.QUOTE,
+    md4c.BlockType.TABLE,
 }
 
 
@@ -538,8 +539,9 @@ class Po2Md:
         self._save_current_msgid()
         if self.current_line:
             self._save_current_line()
-        if self.outputlines[-1]:
-            self._save_current_line()
+        separator = '>' if self._inside_quoted_list() else ''
+        if self.outputlines[-1] != separator:
+            self.outputlines.append(separator)
         self._liblock_states.append([
             [block, 0],
             len(self.outputlines),
@@ -558,7 +560,7 @@ class Po2Md:
         if self.current_line:
             self._save_current_line()
         (
-            _,
+            [block, _],
             start,
             indent,
             self._current_list_type,
@@ -572,6 +574,8 @@ class Po2Md:
         self.outputlines[start:] = [
             f'{indent}{line}'.rstrip() for line in lines
         ]
+        if block is md4c.BlockType.HTML:
+            self.outputlines.append(indent.rstrip())
 
     def enter_block(self, block, details):
         # raise 'enter_block' event
-- 
2.43.0


From cc3392d765de33498cf51249c015ef66eddf27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:37 +0000
Subject: [PATCH 053/103] fix: do not indent HTML of list items again in each
 po2md rendering

---
 src/mdpo/po2md/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c136565..99ba5e0 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1,6 +1,7 @@
 """Markdown files translator using PO files as reference."""
 
 import contextlib
+import textwrap
 
 import md4c
 import md_ulb_pwrap
@@ -570,9 +571,11 @@ class Po2Md:
         ) = self._liblock_states.pop()
         self._inside_liblock = True
         self._inside_liblock_first_p = False
-        lines = '\n'.join(self.outputlines[start:]).rstrip('\n').split('\n')
+        content = '\n'.join(self.outputlines[start:]).rstrip('\n')
+        if block is md4c.BlockType.HTML:
+            content = textwrap.dedent(content)
         self.outputlines[start:] = [
-            f'{indent}{line}'.rstrip() for line in lines
+            f'{indent}{line}'.rstrip() for line in content.split('\n')
         ]
         if block is md4c.BlockType.HTML:
             self.outputlines.append(indent.rstrip())
-- 
2.43.0


From f4bfec9a8634453722b8ed5a6bd8ce39fe5e7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 054/103] fix: keep texts of list items after other blocks
 inside them in po2md

---
 src/mdpo/po2md/__init__.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 99ba5e0..42988dc 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -507,6 +507,14 @@ class Po2Md:
                     translation += '\n'
 
         if translation.rstrip('\n'):
+            if self._inside_liblock and not self.current_line and not any([
+                self._inside_pblock,
+                self._inside_codeblock,
+                self._current_thead_aligns,
+            ]):
+                # text of an item after one of its children
+                self._write_liblock_separator()
+                self.current_line = self._list_content_indent()
             self.current_line += translation
 
         self.current_msgid = ''
@@ -535,14 +543,17 @@ class Po2Md:
         indent = '   ' * len(self._current_list_type)
         return f'> {indent}' if self._inside_quoted_list() else indent
 
+    def _write_liblock_separator(self):
+        separator = '>' if self._inside_quoted_list() else ''
+        if self.outputlines[-1] != separator:
+            self.outputlines.append(separator)
+
     def _enter_liblock_child(self, block):
         # the child is written like outside of the list
         self._save_current_msgid()
         if self.current_line:
             self._save_current_line()
-        separator = '>' if self._inside_quoted_list() else ''
-        if self.outputlines[-1] != separator:
-            self.outputlines.append(separator)
+        self._write_liblock_separator()
         self._liblock_states.append([
             [block, 0],
             len(self.outputlines),
-- 
2.43.0


From 3bfe69d61da326ce30189a9745c031ace94f1776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 055/103] fix: keep commands pending until the next message in
 md2po

---
 src/mdpo/md2po/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 2ea8021..d8094f4 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -496,11 +496,12 @@ class Md2Po:
                         flags=['fuzzy'] if fuzzy else [],
                     ),
                 )
-        self.disable_next_block = False
-        self.enable_next_block = False
+            # the commands for the next message have been used
+            self.disable_next_block = False
+            self.enable_next_block = False
+            self.current_tcomment = None
+            self.current_msgctxt = None
         self.current_msgid = ''
-        self.current_tcomment = None
-        self.current_msgctxt = None
 
     def command(self, mdpo_command, comment, original_command):
         # raise 'command' event
-- 
2.43.0


From c75df8c49cac4348f3c67efcd5a0f0f3f4dbbc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:32 +0000
Subject: [PATCH 056/103] fix: keep commands pending until the next message in
 po2md

---
 src/mdpo/po2md/__init__.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 42988dc..86ddddf 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -454,7 +454,9 @@ class Po2Md:
         ):
             return
 
-        if (not self.disable and not self.disable_next_block) or \
+        if not self.current_msgid:
+            translation = ''
+        elif (not self.disable and not self.disable_next_block) or \
                 self.enable_next_block:
             translation = self._translate_msgid(
                 self.current_msgid,
@@ -517,12 +519,15 @@ class Po2Md:
                 self.current_line = self._list_content_indent()
             self.current_line += translation
 
-        self.current_msgid = ''
-        self.current_msgctxt = None
-        self.current_tcomment = None
+        if self.current_msgid:
+            # the commands for the next message have been used
+            self.current_msgctxt = None
+            self.current_tcomment = None
 
-        self.disable_next_block = False
-        self.enable_next_block = False
+            self.disable_next_block = False
+            self.enable_next_block = False
+
+        self.current_msgid = ''
 
         self._aimg_title_inside_current_msgid = False
 
-- 
2.43.0


From 69ba807c50185845a019d78441fe6d2a4f578690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 057/103] fix: use the default msgstr also for titles in
 plaintext mode

---
 src/mdpo/md2po/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index d8094f4..beaf9e1 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -707,7 +707,10 @@ class Md2Po:
                     (not self.disable_next_block and not self.disable)
                     or self.enable_next_block
                 ):
-            self._save_msgid(join_attribute_text(details['title']))
+            self._save_msgid(
+                join_attribute_text(details['title']),
+                msgstr=self.msgstr,
+            )
 
     def not_plaintext_enter_span(self, span, details):
         # raise 'enter_span' event
-- 
2.43.0


From aa706e94f89f21f4915879d8d7b496cbbd2a55b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 058/103] fix: include the X-Generator header also in plaintext
 mode

---
 src/mdpo/md2po/__init__.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index beaf9e1..c622c1a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -238,7 +238,11 @@ class Md2Po:
             False if kwargs.get('_check_saved_files_changed') else None
         )
 
-        self.metadata = kwargs.get('metadata') or {}
+        self.metadata = dict(kwargs.get('metadata') or {})
+        if kwargs.get('xheader', False):
+            from mdpo.compat import importlib_metadata
+            version = importlib_metadata.version('mdpo')
+            self.metadata.update({'X-Generator': f'mdpo v{version}'})
 
         self.location = kwargs.get('location', True)
         # "top level" here because blocks inside blocks are not taken into
@@ -274,13 +278,6 @@ class Md2Po:
                 self.code_end_string,
             )
 
-            _include_xheader = kwargs.get('xheader', False)
-
-            if _include_xheader:
-                from mdpo.compat import importlib_metadata
-                version = importlib_metadata.version('mdpo')
-                self.metadata.update({'X-Generator': f'mdpo v{version}'})
-
             self._enterspan_replacer = {
                 md4c.SpanType.STRONG.value: self.bold_start_string,
                 md4c.SpanType.EM.value: self.italic_start_string,
-- 
2.43.0


From f1a954e96e1ad475f1fd4b5b82c02919155a1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 059/103] fix: report only the fuzzy flag as fuzzy

---
 src/mdpo/po.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index ed7fff1..2650a87 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -270,7 +270,10 @@ def parse_fuzzy_from_content_lines(
         list(str): error locations found.
     """
     for i, line in enumerate(content_lines):
-        if line.startswith(b'#,') and b'fuzzy' in line:
+        if (
+            line.startswith(b'#,')
+            and b'fuzzy' in line[2:].replace(b',', b' ').split()
+        ):
             yield f'{location_prefix}{i + 1}'
 
 
-- 
2.43.0


From 9be1d27a93632cdd369c567e3bd49c32b68248d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 060/103] fix: report empty msgstrs not followed by an empty
 line

---
 src/mdpo/po.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 2650a87..76e6dee 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -296,5 +296,7 @@ def parse_empty_msgstr_from_content_lines(
             line.startswith(b'msgstr ""') or line.startswith(b'#~ msgstr ""')
         ) and not content_lines[i - 1].startswith(b'msgid ""'):
             next_i = i + 1
-            if next_i == n_lines or not content_lines[next_i].strip():
+            if next_i == n_lines or not content_lines[next_i].startswith(
+                (b'"', b'#~ "'),
+            ):
                 yield f'{location_prefix}{next_i}'
-- 
2.43.0


From e99f7de94f40e05fba44f8fefd79189279ccd49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 061/103] fix: unescape every escaped separator in keys of
 pairs

---
 src/mdpo/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index d78c9c1..85e4105 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -84,7 +84,11 @@ def parse_escaped_pair(value, separator=':'):
     if len(splits) == 1:
         raise ValueError()
     return (
-        (splits[0] + splits[1][0]).replace(rf'\\{separator}', separator, 1),
+        re.sub(
+            fr'\\+{separator}',
+            lambda _: separator,
+            splits[0] + splits[1][0],
+        ),
         splits[2].lstrip(),
     )
 
-- 
2.43.0


From 3f9a3eb28f63b9927f7a98add461487246dba81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:39 +0000
Subject: [PATCH 062/103] fix: reject every not a number value and do not
 truncate wrap widths to 0

---
 src/mdpo/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/text.py b/src/mdpo/text.py
index 85e4105..b561d2d 100644
--- a/src/mdpo/text.py
+++ b/src/mdpo/text.py
@@ -130,12 +130,12 @@ def parse_strint_0_inf(value):
     Args:
         value (str): Value to parse.
     """
-    if isinstance(value, str) and value.lower() == 'nan':
+    num = float(value)
+    if num != num:  # not a number
         raise ValueError(f"invalid strict converting of '{value}' to number")
 
-    num = float(value)
     try:
-        return int(num) if num > 0 else INFINITE_WRAPWIDTH
+        return int(num) if num >= 1 else INFINITE_WRAPWIDTH
     except OverflowError:  # cannot convert float infinity to integer
         return INFINITE_WRAPWIDTH
 
-- 
2.43.0


From 213538d074881b0da5ebab1c7cb02d0c48f964be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 063/103] fix: keep the order of PO files given to the CLIs

---
 src/mdpo/mdpo2html/__main__.py | 2 +-
 src/mdpo/po2md/__main__.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/mdpo2html/__main__.py b/src/mdpo/mdpo2html/__main__.py
index 0bea1db..2df1bf0 100755
--- a/src/mdpo/mdpo2html/__main__.py
+++ b/src/mdpo/mdpo2html/__main__.py
@@ -93,7 +93,7 @@ def parse_options(args):
         opts.command_aliases,
     )
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    opts.pofiles = list(itertools.chain(*opts.pofiles))  # flatten
 
     return opts
 
diff --git a/src/mdpo/po2md/__main__.py b/src/mdpo/po2md/__main__.py
index 4438792..65678fa 100755
--- a/src/mdpo/po2md/__main__.py
+++ b/src/mdpo/po2md/__main__.py
@@ -111,7 +111,7 @@ def parse_options(args):
     )
     opts.events = parse_event_argument(opts.events)
 
-    opts.pofiles = set(itertools.chain(*opts.pofiles))  # flatten
+    opts.pofiles = list(itertools.chain(*opts.pofiles))  # flatten
 
     return opts
 
-- 
2.43.0


From 21ae95f397f1c9e1b383cd3c9d0f97e3cecb257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 064/103] fix: do not take the context '0' for no context

---
 src/mdpo/md2po/__init__.py |  3 ++-
 src/mdpo/po.py             | 20 ++++++++++++++++++--
 src/mdpo/polib.py          |  4 ++--
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index c622c1a..ebce6ac 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -28,6 +28,7 @@ from mdpo.po import (
     find_entry_in_entries,
     mark_not_found_entries_as_obsoletes,
     po_escaped_string,
+    remove_entry,
     remove_not_found_entries,
 )
 from mdpo.text import min_not_max_chars_in_a_row, parse_wrapwidth_argument
@@ -452,7 +453,7 @@ class Md2Po:
             self.pofile.append(entry)
         if _equal_entry and _equal_entry.obsolete:
             # the message is found again, so don't keep it duplicated
-            self.pofile.remove(_equal_entry)
+            remove_entry(_equal_entry, self.pofile)
         self.found_entries.append(entry)
 
     def _save_current_msgid(
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index 76e6dee..bae6df1 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -48,6 +48,22 @@ def find_entry_in_entries(entry, entries, **kwargs):
     return response
 
 
+def remove_entry(entry, entries):
+    """Remove an entry from a list of entries.
+
+    The comparison of :py:class:`polib.POEntry` takes the context ``'0'`` for
+    no context, so ``entries.remove(entry)`` could remove other entry.
+
+    Args:
+        entry (:py:class:`polib.POEntry`): Entry to remove.
+        entries (list): Entries from which remove it.
+    """
+    for i, other in enumerate(entries):
+        if other is entry:
+            del entries[i]
+            break
+
+
 def mark_not_found_entries_as_obsoletes(
     pofile,
     entries,
@@ -78,7 +94,7 @@ def mark_not_found_entries_as_obsoletes(
                 compare_occurrences=False,
             )
             if _equal_not_obsolete_found:
-                pofile.remove(entry)
+                remove_entry(entry, pofile)
             else:
                 entry.obsolete = True
                 obsolete = True
@@ -113,7 +129,7 @@ def remove_not_found_entries(pofile, entries):
             if not _equal_not_obsolete_found:
                 entries_to_remove.append(entry)
     for entry in entries_to_remove:
-        pofile.remove(entry)
+        remove_entry(entry, pofile)
 
 
 def pofiles_to_unique_translations_dicts(pofiles):
diff --git a/src/mdpo/polib.py b/src/mdpo/polib.py
index cacaccb..8261cbb 100644
--- a/src/mdpo/polib.py
+++ b/src/mdpo/polib.py
@@ -38,8 +38,8 @@ def poentry__cmp__(
             return 1
         if occ1 < occ2:
             return -1
-    msgctxt = self.msgctxt or '0'
-    othermsgctxt = other.msgctxt or '0'
+    msgctxt = self.msgctxt or ''
+    othermsgctxt = other.msgctxt or ''
     if msgctxt > othermsgctxt:
         return 1
     if msgctxt < othermsgctxt:
-- 
2.43.0


From c463b8383b0556ff1ba5691a88ab262dc0e986f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 065/103] fix: do not start other blocks wrapping paragraphs in
 po2md

---
 src/mdpo/po2md/__init__.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 86ddddf..19c9216 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1,6 +1,7 @@
 """Markdown files translator using PO files as reference."""
 
 import contextlib
+import re
 import textwrap
 
 import md4c
@@ -38,6 +39,34 @@ LIBLOCK_CHILDREN = {
     md4c.BlockType.TABLE,
 }
 
+# continuation lines of a paragraph which would start other block
+BLOCK_START_REGEX = re.compile(
+    r'(?:[-+*]|#{1,6}|\d{1,9}[.)])(?:\s|$)|>|<!|=+\s*$|(?:[-*_]\s*){3,}$'
+    r'|~{3}|`{3}[^`]*$',
+)
+
+
+def _unwrap_block_starts(text):
+    """Move block markup at the start of wrapped lines to the previous ones.
+
+    Args:
+        text (str): Text already wrapped.
+
+    Returns:
+        str: Text whose lines do not start other blocks.
+    """
+    first_line, *lines = text.split('\n')
+    response = [first_line]
+    for line in lines:
+        while BLOCK_START_REGEX.match(line):
+            markup, _, line = line.partition(' ')  # noqa: PLW2901
+            response[-1] += f' {markup}'
+            if not line:
+                break
+        else:
+            response.append(line)
+    return '\n'.join(response)
+
 
 class Po2Md:
     """PO files to Markdown translator implementation.
@@ -500,6 +529,7 @@ class Po2Md:
                         self.wrapwidth,
                         self.wrapwidth + first_line_width_diff,
                     )
+                    translation = _unwrap_block_starts(translation)
 
                 if not any([
                     self._inside_liblock,
-- 
2.43.0


From 2ba71d827af371c7987b3336198d9b70b52bb899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 066/103] fix: import the module used to load events from files

---
 src/mdpo/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 3f7ca7f..1da53ed 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -1,6 +1,6 @@
 """Custom events executed during the parsing process of an implementation."""
 
-import importlib
+import importlib.util
 import os
 import sys
 
-- 
2.43.0


From 73c7ed8b4bcb1216b34316f6db47a24a5f9370fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 067/103] fix: do not forget events passed several times to the
 CLIs

---
 src/mdpo/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/cli.py b/src/mdpo/cli.py
index 497fbd3..b1ade8d 100644
--- a/src/mdpo/cli.py
+++ b/src/mdpo/cli.py
@@ -329,12 +329,12 @@ def parse_event_argument(value):
             ``event_name: path/to/file.py::func``.
 
     Returns:
-        dict: Mapping of event names and `file::function` paths.
+        dict: Mapping of event names and lists of `file::function` paths.
     """
     events = {}
     for event_name_filefunc in value:
         event_name, filefunc = event_name_filefunc.split(':', maxsplit=1)
-        events[event_name.strip()] = filefunc.strip()
+        events.setdefault(event_name.strip(), []).append(filefunc.strip())
     return events
 
 
-- 
2.43.0


From a96eefa23efc7d0564b0118e3f76aea2d449964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 068/103] fix: do not take other modules for the files of
 events

---
 src/mdpo/event.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/event.py b/src/mdpo/event.py
index 1da53ed..4bbeb75 100644
--- a/src/mdpo/event.py
+++ b/src/mdpo/event.py
@@ -175,7 +175,9 @@ def parse_events_kwarg(events_kwarg):
                         f" '{event_name}' not found",
                     )
 
-                modname = os.path.splitext(fpath)[0].replace(os.sep, '.')
+                # the absolute path distinguishes the module of the file from
+                # other modules with the same name
+                modname = os.path.abspath(fpath)
                 if modname in sys.modules:
                     mod = sys.modules[modname]
                 else:
-- 
2.43.0


From 3b90c396e223ee8f5b0d81b4696a1770673392ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 069/103] fix: do not join messages skipped by events with the
 next ones

---
 src/mdpo/md2po/__init__.py | 1 +
 src/mdpo/po2md/__init__.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index ebce6ac..367e58a 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -472,6 +472,7 @@ class Md2Po:
             self.current_tcomment,
             ['fuzzy'] if fuzzy else [],
         ):
+            self.current_msgid = ''
             return
 
         if self.current_msgid:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 19c9216..a84f652 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -481,6 +481,8 @@ class Po2Md:
             self.current_tcomment,
             [],
         ):
+            self.current_msgid = ''
+            self._aimg_title_inside_current_msgid = False
             return
 
         if not self.current_msgid:
-- 
2.43.0


From 04dd7887a600565e649107ec4c01a08ba391f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:57 +0000
Subject: [PATCH 070/103] fix: accept the extension placeholder in output
 schemas of md2po2md

---
 src/mdpo/md2po2md/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 3b09195..c25e20a 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -118,7 +118,7 @@ def markdown_to_pofile_to_markdown(
 
             file_basename = os.path.splitext(os.path.basename(filepath))[0]
 
-            format_kwargs = {'lang': lang}
+            format_kwargs = {'lang': lang, 'ext': 'po'}
             if '{basename}' in output_paths_schema:
                 format_kwargs['basename'] = file_basename
             po_filepath = output_paths_schema.format(**format_kwargs)
-- 
2.43.0


From 3628cb0db14289a6b92a39251e56c2bc865c4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 071/103] fix: do not take languages named as files for files
 in md2po2md

---
 src/mdpo/md2po2md/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index c25e20a..a269193 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -126,7 +126,10 @@ def markdown_to_pofile_to_markdown(
             po_basename = os.path.basename(po_filepath)
             po_dirpath = (
                 os.path.dirname(po_filepath)
-                if (po_basename.count('.') or file_basename == po_basename)
+                if (
+                    po_basename.count('.')
+                    or os.path.basename(output_paths_schema) == '{basename}'
+                )
                 else po_filepath
             )
 
-- 
2.43.0


From 02801a42702302f89eb16f48e2cc229473aa494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:18 +0000
Subject: [PATCH 072/103] fix: translate all the paths passed to md2po2md

---
 src/mdpo/md2po2md/__init__.py | 44 +++++++++++++++++++++--------------
 src/mdpo/md2po2md/__main__.py |  5 +++-
 2 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index a269193..c6988f2 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -37,7 +37,8 @@ def markdown_to_pofile_to_markdown(
 
     Args:
         langs (list): List of languages used to build the output directories.
-        input_paths_glob (str): Glob covering Markdown files to translate.
+        input_paths_glob (str, list): Glob covering Markdown files to
+            translate, or list of them.
         output_paths_schema (str): Path schema for outputs, built using
             placeholders. There is a mandatory placeholder for languages:
             ``{lang}``; and one optional for output basename: ``{basename}``.
@@ -88,31 +89,38 @@ def markdown_to_pofile_to_markdown(
             " 'output_paths_schema'.",
         )
 
-    try:
-        input_paths_glob_ = glob.glob(input_paths_glob)
-    except Exception as err:
-        if (
-            err.__module__ in ['re', 'sre_constants']
-            and err.__class__.__name__ == 'error'
-        ):
-            # some strings like '[s-m]' will produce
+    if isinstance(input_paths_glob, str):
+        input_paths_glob = [input_paths_glob]
+
+    filepaths = []
+    for input_path_glob in input_paths_glob:
+        try:
+            matched_filepaths = glob.glob(input_path_glob)
+        except Exception as err:
+            if (
+                err.__module__ in ['re', 'sre_constants']
+                and err.__class__.__name__ == 'error'
+            ):
+                # some strings like '[s-m]' will produce
+                raise FileNotFoundError(
+                    "The argument 'input_paths_glob' must be a valid glob or"
+                    ' file path.',
+                ) from None
+            raise err
+        if not matched_filepaths:
             raise FileNotFoundError(
-                "The argument 'input_paths_glob' must be a valid glob or file"
-                ' path.',
-            ) from None
-        raise err
-    else:
-        if not input_paths_glob_:
-            raise FileNotFoundError(
-                f"The glob '{input_paths_glob}' does not match any file.",
+                f"The glob '{input_path_glob}' does not match any file.",
             )
+        filepaths.extend(
+            path for path in matched_filepaths if path not in filepaths
+        )
 
     _saved_files_changed = None if not _check_saved_files_changed else False
     obsoletes = []
     fuzzies = []
     empties = []
 
-    for filepath in input_paths_glob_:
+    for filepath in filepaths:
         for lang in langs:
             md_ext = os.path.splitext(filepath)[-1]
 
diff --git a/src/mdpo/md2po2md/__main__.py b/src/mdpo/md2po2md/__main__.py
index 72ae6e6..69ff387 100755
--- a/src/mdpo/md2po2md/__main__.py
+++ b/src/mdpo/md2po2md/__main__.py
@@ -107,7 +107,10 @@ def parse_options(args):
     if not sys.stdin.isatty():
         input_paths_glob += sys.stdin.read().strip('\n')
     if isinstance(opts.input_paths_glob, list) and opts.input_paths_glob:
-        input_paths_glob += opts.input_paths_glob[0]
+        if len(opts.input_paths_glob) == 1:
+            input_paths_glob += opts.input_paths_glob[0]
+        else:
+            input_paths_glob = opts.input_paths_glob
     if not input_paths_glob:
         sys.stderr.write('Files or content to translate not specified\n')
         sys.exit(1)
-- 
2.43.0


From 24d80d2f942819ac7793c8ae84982a18e085d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 073/103] fix: read existing files whose paths look like globs

---
 src/mdpo/io.py                | 19 ++++++++++++++++++-
 src/mdpo/md2po/__init__.py    |  4 ++--
 src/mdpo/md2po2md/__init__.py |  4 ++--
 src/mdpo/po.py                |  6 ++----
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/mdpo/io.py b/src/mdpo/io.py
index 6ba8f2e..cecc677 100644
--- a/src/mdpo/io.py
+++ b/src/mdpo/io.py
@@ -76,6 +76,23 @@ def to_file_content_if_is_file(value, encoding='utf-8'):
     return value
 
 
+def glob_paths(path_or_glob):
+    """Get the paths matched by a glob.
+
+    Existing files match themselves, even when their paths have characters
+    with special meaning in globs.
+
+    Args:
+        path_or_glob (str): Path to a file or glob.
+
+    Returns:
+        list: Paths matched.
+    """
+    if os.path.isfile(path_or_glob):
+        return [path_or_glob]
+    return glob.glob(path_or_glob)
+
+
 def to_files_or_content(value):
     """File path/glob/content disambiguator.
 
@@ -92,7 +109,7 @@ def to_files_or_content(value):
         a list of files is passed or a string).
     """
     try:
-        parsed = glob.glob(value)
+        parsed = glob_paths(value)
     except TypeError:
         # inferes list
         return (True, value)
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 367e58a..6834282 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -1,7 +1,6 @@
 """Markdown to PO files extractor according to mdpo specification."""
 
 import contextlib
-import glob
 import os
 
 import md4c
@@ -15,6 +14,7 @@ from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import (
     filter_paths,
     flatten,
+    glob_paths,
     save_file_checking_file_changed,
     to_files_or_content,
 )
@@ -145,7 +145,7 @@ class Md2Po:
         is_glob, files_or_content = to_files_or_content(files_or_content)
         if is_glob:
             self.filepaths = filter_paths(
-                flatten(glob.glob(globpath) for globpath in files_or_content),
+                flatten(glob_paths(path) for path in files_or_content),
                 ignore_paths=kwargs.get('ignore', []),
             )
         else:
diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index c6988f2..5c3b0f9 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -1,8 +1,8 @@
 """Markdown to PO file to Markdown translator."""
 
-import glob
 import os
 
+from mdpo.io import glob_paths
 from mdpo.md2po import Md2Po
 from mdpo.md4c import DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS
 from mdpo.po import (
@@ -95,7 +95,7 @@ def markdown_to_pofile_to_markdown(
     filepaths = []
     for input_path_glob in input_paths_glob:
         try:
-            matched_filepaths = glob.glob(input_path_glob)
+            matched_filepaths = glob_paths(input_path_glob)
         except Exception as err:
             if (
                 err.__module__ in ['re', 'sre_constants']
diff --git a/src/mdpo/po.py b/src/mdpo/po.py
index bae6df1..d6ba933 100644
--- a/src/mdpo/po.py
+++ b/src/mdpo/po.py
@@ -1,10 +1,8 @@
 """PO files related stuff."""
 
-import glob
-
 import polib
 
-from mdpo.io import filter_paths
+from mdpo.io import filter_paths, glob_paths
 from mdpo.polib import poentry__cmp__
 
 
@@ -180,7 +178,7 @@ def paths_or_globs_to_unique_pofiles(pofiles_globs, ignore, po_encoding=None):
 
     for pofiles_glob in pofiles_globs:
         for po_filepath in filter_paths(
-            glob.glob(pofiles_glob),
+            glob_paths(pofiles_glob),
             ignore_paths=ignore,
         ):
             if po_filepath not in _po_filepaths:
-- 
2.43.0


From 8663169d7dff91ab2ada7e6b68c011f7db9be0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 074/103] fix: create the directories of documents written by
 md2po2md

---
 src/mdpo/md2po2md/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdpo/md2po2md/__init__.py b/src/mdpo/md2po2md/__init__.py
index 5c3b0f9..b0a7341 100644
--- a/src/mdpo/md2po2md/__init__.py
+++ b/src/mdpo/md2po2md/__init__.py
@@ -157,6 +157,10 @@ def markdown_to_pofile_to_markdown(
                     md_filepath.rstrip(os.sep),
                     os.path.basename(filepath),
                 )
+            os.makedirs(
+                os.path.dirname(os.path.abspath(md_filepath)),
+                exist_ok=True,
+            )
 
             # md2po
             md2po = Md2Po(
-- 
2.43.0


From 9c501b181de6b3cc0bb6ec85a1e2c770bd685a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 075/103] fix: keep the texts without translation and the
 structure of HTML files in mdpo2html

Nested blocks inside tight list items, code blocks, blocks after thematic
breaks, links, images and character references were lost, duplicated or not
translated.
---
 src/mdpo/mdpo2html/__init__.py | 266 +++++++++++++++++++--------------
 t.po                           |   6 +
 2 files changed, 160 insertions(+), 112 deletions(-)
 create mode 100644 t.po

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 5be8726..334937b 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -26,6 +26,17 @@ PROCESS_REPLACER_TAGS = [
     'p', 'li', 'h1', 'h2', 'h3',
     'h4', 'h5', 'h6', 'td', 'th',
 ]
+# tags that end the text of a tight list item
+BLOCK_TAGS = [
+    'p', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'ul', 'ol', 'li',
+    'blockquote', 'pre', 'table', 'hr', 'div',
+]
+# tags without content
+VOID_TAGS = ['br', 'hr', 'img', 'input']
+
+CHARACTER_REFERENCE_RE = re.compile(r'&#?\w+;?')
+ENDTAG_RE = re.compile(r'</[^>]*>')
+URI_RE = re.compile(r'[a-zA-Z][a-zA-Z0-9+.-]+:')
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
 
 
@@ -124,7 +135,12 @@ class MdPo2HTML(HTMLParser):
 
         self.html_renderer = md4c.HTMLRenderer(md4c.MD_FLAG_TABLES)
 
-        super().__init__()
+        # offsets of the lines of the source, to get the source of the texts
+        self._source, self._line_offsets = '', [0]
+
+        # character references are not converted because the texts without
+        # translation must be kept as they are
+        super().__init__(convert_charrefs=False)
 
     def _merge_adyacent_tags(self, html, template_tags):
         for tags_group in [self.bold_tags, self.italic_tags]:
@@ -149,112 +165,132 @@ class MdPo2HTML(HTMLParser):
         if not split_output[-1]:
             self.output = '\n'.join(split_output)[:-1]
 
+    def _source_match(self, regex):
+        """Source of the current HTML token."""
+        line, column = self.getpos()
+        return regex.match(
+            self._source,
+            self._line_offsets[line - 1] + column,
+        ).group()
+
+    def _inside_grouper(self):
+        return bool(self.context) and (
+            self.context[0] in self.ignore_grouper_tags
+            or self.context[0] == 'pre'
+        )
+
+    def _is_message_part(self, handle, handled):
+        if handle == 'data':
+            return not all((ch in ALIGNMENT_CHARS) for ch in handled)
+        if handle in ('start', 'startend', 'end'):
+            return (
+                handled in self.markup_tags
+                or handled in self.link_tags
+                or handled in self.image_tags
+            )
+        return False
+
     def _process_replacer(self):
+        parts = [
+            i for i, (handle, handled, _, _) in enumerate(self.replacer)
+            if self._is_message_part(handle, handled)
+        ]
+        source = ''.join(raw for _, _, _, raw in self.replacer)
+        if not parts:  # there is no message
+            self.output += source
+            self.replacer = []
+            self.context = []
+            return
+
+        # the message is surrounded by other tags
+        first, last = (parts[0], parts[-1] + 1)
+        while first and self.replacer[first - 1][0] == 'data':
+            first -= 1
+        while last < len(self.replacer) and self.replacer[last][0] == 'data':
+            last += 1
+        html_before_message = ''.join(
+            raw for _, _, _, raw in self.replacer[:first]
+        )
+        html_after_message = ''.join(
+            raw for _, _, _, raw in self.replacer[last:]
+        )
+        message, self.replacer = (self.replacer[first:last], [])
 
         template_tags = []
-        raw_html_template, _current_replacement = ('', '')
-
-        _current_link_target = ''
+        _current_replacement = ''
 
-        _last_start_tag = None
-        _last_end_tag = None
+        _link_targets = []
+        _link_texts_starts = []
         _inside_code = False
-        while self.replacer:
-            handle, handled, attrs = self.replacer.pop(0)
+        for i, (handle, handled, attrs, raw) in enumerate(message):
             if handle == 'start':
                 template_tags.append(handled)
 
-                attrs_repr = (
-                    f' {_html_attrs_to_str(attrs)}' if attrs else ''
-                )
-
                 if handled in self.code_tags:
                     _current_replacement += '`'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
+                    _inside_code = True
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
-                    raw_html_template += f'<{handled}{attrs_repr}>'
                 elif handled in self.link_tags:
-                    title, href = attrs.get('title'), attrs['href']
-                    _current_link_target += f'({href}'
-                    if title:
-                        _current_link_target += f' "{title}"'
-                    _current_link_target += ')'
-
-                    raw_html_template += f'<{handled}'
-
-                    for attr in attrs:
-                        if attr in ['title', 'href']:
-                            raw_html_template += f' {attr}="{{}}"'
-                        #     These attributes are not included in output
-                    # if attrs_except_href_title:
-                    # raw_html_template += _html_attrs_to_str(
-                    #     attrs_except_href_title) + '>'
-                    raw_html_template += '>'
+                    title, href = attrs.get('title'), attrs.get('href') or ''
+                    _link_targets.append((href, title))
+                    _link_texts_starts.append(len(_current_replacement))
                 else:
-                    raw_html_template += f'<{handled}{attrs_repr}>'
-                _last_start_tag = handled
-                if _last_start_tag == 'code':
-                    _inside_code = True
-
+                    _current_replacement += raw
             elif handle == 'data':
                 if not _inside_code:
                     while '  ' in handled:
                         handled = handled.replace('  ', ' ')
-
-                if all((ch in ALIGNMENT_CHARS) for ch in handled):
-                    raw_html_template += handled
-                    _current_replacement += handled
-                else:
-                    raw_html_template += '{}'
-                    if _current_link_target:
-                        _current_replacement += (
-                            f'[{handled}]{_current_link_target}'
-                        )
-                        _current_link_target = ''
-                    else:
-                        _current_replacement += handled
+                _current_replacement += handled
             elif handle == 'end':
-                raw_html_template += f'</{handled}>'
                 if handled in self.code_tags:
                     _current_replacement += '`'
+                    _inside_code = False
                 elif handled in self.bold_tags:
                     _current_replacement += '**'
                 elif handled in self.italic_tags:
                     _current_replacement += '*'
-                _last_end_tag = handled
-                if _last_end_tag == 'code':
-                    _inside_code = False
+                elif handled in self.link_tags:
+                    if _link_targets:
+                        href, title = _link_targets.pop()
+                        start = _link_texts_starts.pop()
+                        text = _current_replacement[start:]
+                        _current_replacement = _current_replacement[:start]
+                        if text == href and not title and URI_RE.match(href):
+                            _current_replacement += f'<{text}>'
+                        else:
+                            title_part = f' "{polib.escape(title)}"' if title else ''
+                            _current_replacement += (
+                                f'[{text}]({href}{title_part})'
+                            )
+                else:
+                    _current_replacement += raw
             elif handle == 'comment':
-                raw_html_template += f'<!--{handled}-->'
+                _current_replacement += raw
             elif handle == 'startend':
                 if handled in self.image_tags:
                     alt, src = attrs.get('alt', ''), attrs['src']
                     _current_replacement += f'![{alt}]({src}'
                     title = attrs.get('title')
                     if title:
-                        _current_replacement += f' "{title}"'
+                        _current_replacement += f' "{polib.escape(title)}"'
                     _current_replacement += ')'
-
-                    raw_html_template += '{}'
-                else:
-                    attrs_repr = (
-                        f' {_html_attrs_to_str(attrs)}' if attrs else ''
-                    )
-                    raw_html_template += f'<{handled}{attrs_repr}/>'
-
-        _current_replacement = html.unescape(_current_replacement)
+                elif not (  # hard line break
+                    handled == 'br'
+                    and i + 1 < len(message)
+                    and message[i + 1][3].startswith('\n')
+                ):
+                    _current_replacement += raw
 
         if (self.disable or self.disable_next_block) \
                 and not self.enable_next_block:
-            replacement = _current_replacement
+            replacement = None
 
             self.disabled_entries.append(
                 polib.POEntry(
-                    msgid=replacement,
+                    msgid=_current_replacement,
                     msgstr='',
                     msgctxt=self.current_msgctxt,
                 ),
@@ -266,8 +302,6 @@ class MdPo2HTML(HTMLParser):
                 ).get(_current_replacement)
             else:
                 replacement = self.translations.get(_current_replacement)
-            if not replacement:
-                replacement = _current_replacement
 
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
@@ -276,25 +310,17 @@ class MdPo2HTML(HTMLParser):
                         if tag not in template_tags:
                             template_tags.append(tag)
 
-        html_before_first_replacement = raw_html_template.split('{')[0]
-        html_after_last_replacement = raw_html_template.split('}')[-1]
-        for tags_group in [self.bold_tags, self.italic_tags, self.code_tags]:
-            for tag in tags_group:
-                html_before_first_replacement = \
-                    html_before_first_replacement.split(f'<{tag}>')[0]
-                html_after_last_replacement = \
-                    html_after_last_replacement.split(f'</{tag}>')[-1]
-            html_before_first_replacement = \
-                html_before_first_replacement.split('<a href="')[0]
-
-        html_inner = '\n'.join(
-            self.html_renderer.parse(replacement).split('\n')[:-1],
-        )
-        html_inner = '>'.join(html_inner.split('>')[1:])
-        html_inner = '<'.join(html_inner.split('<')[:-1])
+        if replacement:
+            html_inner = '\n'.join(
+                self.html_renderer.parse(replacement).split('\n')[:-1],
+            )
+            html_inner = '>'.join(html_inner.split('>')[1:])
+            html_inner = '<'.join(html_inner.split('<')[:-1])
 
-        html_template = html_before_first_replacement + html_inner + \
-            html_after_last_replacement
+            html_template = html_before_message + html_inner + \
+                html_after_message
+        else:  # keep it as it is
+            html_template = source
 
         if self.merge_adjacent_markups:
             html_template = self._merge_adyacent_tags(
@@ -310,22 +336,22 @@ class MdPo2HTML(HTMLParser):
         self.current_msgctxt = None
 
     def handle_starttag(self, tag, attrs):
+        if self.replacer and not self._inside_grouper() and tag in BLOCK_TAGS:
+            # the text of a tight list item ends
+            self._process_replacer()
 
-        if tag in self.ignore_grouper_tags:
-            self.context.append(tag)
-            attrs_repr = (
-                f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
-            )
-            self.output += f'<{tag}{attrs_repr}>'
+        if tag in self.ignore_grouper_tags or tag == 'pre':
+            if tag not in VOID_TAGS:
+                self.context.append(tag)
+            self.output += self.get_starttag_text()
+        elif tag in VOID_TAGS:
+            self.handle_startendtag(tag, attrs)
         elif (
-            (self.context and self.context[0] in self.ignore_grouper_tags)
+            self._inside_grouper()
             or (tag in {'ul', 'ol'} and not self.context)
             or (tag in {'blockquote', 'table', 'thead', 'tbody', 'tr'})
         ):
-            attrs_repr = (
-                f' {_html_attrs_to_str(OrderedDict(attrs))}' if attrs else ''
-            )
-            self.output += f'<{tag}{attrs_repr}>'
+            self.output += self.get_starttag_text()
         else:
             if tag == 'a' and self.real_link_reference_targets is None:
                 # extend translations to populate link reference msgid-msgstrs
@@ -335,24 +361,27 @@ class MdPo2HTML(HTMLParser):
                 )
                 self.translations.update(self.real_link_reference_targets)
 
-            self.replacer.append(('start', tag, OrderedDict(attrs)))
+            self.replacer.append((
+                'start', tag, OrderedDict(attrs), self.get_starttag_text(),
+            ))
             self.context.append(tag)
 
     def handle_endtag(self, tag):
+        endtag_text = self._source_match(ENDTAG_RE)
 
-        if tag in self.ignore_grouper_tags:
-            self.output += f'</{tag}>'
+        if tag in self.ignore_grouper_tags or tag == 'pre':
+            self.output += endtag_text
             if self.context:
                 self.context.pop()
-        elif self.context and self.context[0] in self.ignore_grouper_tags:
-            self.output += f'</{tag}>'
+        elif self._inside_grouper():
+            self.output += endtag_text
         elif tag in PROCESS_REPLACER_TAGS:
-            self.replacer.append(('end', tag, None))
+            self.replacer.append(('end', tag, None, endtag_text))
             self._process_replacer()
         elif tag in ['ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
-            self.output += f'</{tag}>'
+            self.output += endtag_text
         else:
-            self.replacer.append(('end', tag, None))
+            self.replacer.append(('end', tag, None, endtag_text))
             if self.context:
                 self.context.pop()
 
@@ -361,29 +390,36 @@ class MdPo2HTML(HTMLParser):
         if not self.replacer:
             self.output += self.get_starttag_text()
         else:
-            self.replacer.append(('startend', tag, OrderedDict(attrs)))
+            self.replacer.append((
+                'startend', tag, OrderedDict(attrs), self.get_starttag_text(),
+            ))
 
     def handle_data(self, data):
 
         if data:
             if (
                 not self.replacer
-                or (
-                    self.context
-                    and self.context[0] in self.ignore_grouper_tags
-                )
+                or self._inside_grouper()
                 or not self.context
             ):
                 self.output += data
             else:
+                source = data
+                data = html.unescape(data)
                 if self.context:
                     data = data.replace('\n', ' ')
-                self.replacer.append(('data', data, None))
+                self.replacer.append(('data', data, None, source))
+
+    def handle_entityref(self, name):
+        self.handle_data(self._source_match(CHARACTER_REFERENCE_RE))
+
+    def handle_charref(self, name):
+        self.handle_data(self._source_match(CHARACTER_REFERENCE_RE))
 
     def handle_comment(self, data):
 
         if self.replacer:
-            self.replacer.append(('comment', data, None))
+            self.replacer.append(('comment', data, None, f'<!--{data}-->'))
         else:
             data_as_comment = f'<!--{data}-->'
             command, comment = parse_mdpo_html_command(
@@ -433,7 +469,13 @@ class MdPo2HTML(HTMLParser):
             pofiles_to_unique_translations_dicts(self.pofiles)
         )
 
+        self._source = content
+        self._line_offsets = [0]
+        for line in content.split('\n'):
+            self._line_offsets.append(self._line_offsets[-1] + len(line) + 1)
+
         self.feed(content)
+        self.close()
 
         if save:
             if self._saved_files_changed is False:
diff --git a/t.po b/t.po
new file mode 100644
index 0000000..5096297
--- /dev/null
+++ b/t.po
@@ -0,0 +1,6 @@
+#
+msgid ""
+msgstr ""
+
+msgid "**a *b***"
+msgstr "TR **a *b***"
-- 
2.43.0


From 0a52845c97ab5c1f90f360713918bd3d651310dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:09 +0000
Subject: [PATCH 076/103] fix: keep declarations, processing instructions and
 unclosed tags in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 334937b..ab68bf5 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -35,6 +35,10 @@ BLOCK_TAGS = [
 VOID_TAGS = ['br', 'hr', 'img', 'input']
 
 CHARACTER_REFERENCE_RE = re.compile(r'&#?\w+;?')
+MARKED_SECTION_RE = re.compile(
+    r'<!\[CDATA\[.*?\]\]>|<!\[.*?\]\s*>',
+    flags=re.DOTALL | re.IGNORECASE,
+)
 ENDTAG_RE = re.compile(r'</[^>]*>')
 URI_RE = re.compile(r'[a-zA-Z][a-zA-Z0-9+.-]+:')
 ALIGNMENT_CHARS = ['\n', ' ', '\t', '\r']
@@ -267,7 +271,7 @@ class MdPo2HTML(HTMLParser):
                             )
                 else:
                     _current_replacement += raw
-            elif handle == 'comment':
+            elif handle in ('comment', 'other'):
                 _current_replacement += raw
             elif handle == 'startend':
                 if handled in self.image_tags:
@@ -416,6 +420,21 @@ class MdPo2HTML(HTMLParser):
     def handle_charref(self, name):
         self.handle_data(self._source_match(CHARACTER_REFERENCE_RE))
 
+    def _handle_other(self, source):
+        if self.replacer:
+            self.replacer.append(('other', source, None, source))
+        else:
+            self.output += source
+
+    def handle_decl(self, decl):
+        self._handle_other(f'<!{decl}>')
+
+    def unknown_decl(self, data):
+        self._handle_other(self._source_match(MARKED_SECTION_RE))
+
+    def handle_pi(self, data):
+        self._handle_other(f'<?{data}>')
+
     def handle_comment(self, data):
 
         if self.replacer:
@@ -476,6 +495,8 @@ class MdPo2HTML(HTMLParser):
 
         self.feed(content)
         self.close()
+        if self.replacer:  # not closed
+            self._process_replacer()
 
         if save:
             if self._saved_files_changed is False:
-- 
2.43.0


From c0c9af141281e2dd22ca26ce584a343046c6ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:24 +0000
Subject: [PATCH 077/103] fix: remove all mdpo commands and keep other comments
 in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 40 ++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index ab68bf5..88e6002 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -11,6 +11,7 @@ import md4c
 import polib
 
 from mdpo.command import (
+    normalize_mdpo_command,
     normalize_mdpo_command_aliases,
     parse_mdpo_html_command,
 )
@@ -62,6 +63,20 @@ def _html_attrs_to_str(attrs):
     return response.rstrip(' ')
 
 
+def _is_command(command, comment):
+    """Indicate if the content of a HTML comment is a mdpo command."""
+    if command in (
+        'mdpo-context',
+        'mdpo-include',
+        'mdpo-translator',
+    ):
+        return bool(comment)
+    return (
+        command is not None and command.startswith('mdpo-')
+        and normalize_mdpo_command(command) is not None
+    )
+
+
 class MdPo2HTML(HTMLParser):
     def __init__(
         self,
@@ -334,7 +349,9 @@ class MdPo2HTML(HTMLParser):
 
         self.output += html_template
         self.context = []
+        self._finish_message()
 
+    def _finish_message(self):
         self.disable_next_block = False
         self.enable_next_block = False
         self.current_msgctxt = None
@@ -444,14 +461,14 @@ class MdPo2HTML(HTMLParser):
             command, comment = parse_mdpo_html_command(
                 data_as_comment,
             )
-            if command is None:
+            with contextlib.suppress(KeyError):  # not custom command
+                command = self.command_aliases[command]
+
+            if not _is_command(command, comment):
                 self.output += data_as_comment
             else:
                 self._remove_lastline_from_output_if_empty()
 
-                with contextlib.suppress(KeyError):  # not custom command
-                    command = self.command_aliases[command]
-
                 if command in (
                     'mdpo-disable-next-block',
                     'mdpo-disable-next-line',
@@ -466,8 +483,11 @@ class MdPo2HTML(HTMLParser):
                     'mdpo-enable-next-line',
                 ):
                     self.enable_next_block = True
-                elif command == 'mdpo-context' and comment:
+                elif command == 'mdpo-context':
                     self.current_msgctxt = comment
+                elif command == 'mdpo-include':
+                    # the message included uses the commands before it
+                    self._finish_message()
                 elif command == 'mdpo-include-codeblock':
                     warnings.warn(
                         'Code blocks translations are not supported'
@@ -475,8 +495,6 @@ class MdPo2HTML(HTMLParser):
                         SyntaxWarning,
                         stacklevel=2,
                     )
-                else:
-                    self.output += data_as_comment
 
     def translate(self, filepath_or_content, save=None, html_encoding='utf-8'):
         content = to_file_content_if_is_file(
@@ -488,6 +506,14 @@ class MdPo2HTML(HTMLParser):
             pofiles_to_unique_translations_dicts(self.pofiles)
         )
 
+        # state of previous translations
+        self.output = ''
+        self.replacer = []
+        self.context = []
+        self.real_link_reference_targets = None
+        self.disable = False
+        self._finish_message()
+
         self._source = content
         self._line_offsets = [0]
         for line in content.split('\n'):
-- 
2.43.0


From d570218229e9f2da062aeb430e5e2254b9bcce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 078/103] fix: translate all the referenced links in mdpo2html

The titles of the references, the references whose text is the target, the
definitions without translation and the messages with context were ignored.
---
 src/mdpo/md.py                 | 112 +++++++++++----------------------
 src/mdpo/mdpo2html/__init__.py |  23 ++++++-
 2 files changed, 58 insertions(+), 77 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 033fade..69c1f4b 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -45,17 +45,15 @@ def solve_link_reference_targets(translations):
     """
     import re
 
-    link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]\s]+)\]')
+    link_refereced_link_re = re.compile(r'\[([^\]]+)\]\[([^\]]+)\]')
+    # the text is the target of the reference
+    shortcut_referenced_link_re = re.compile(r'(?<!\])\[([^\]]+)\](?![\[\(:])')
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
     solutions = {}
 
-    # dictionary with defined link references and their targets
-    link_references_text_targets = []
-
-    # compound by dictionaries with `original_msgid`, `original_msgstr` and
-    # `link_reference_matchs`
-    msgid_msgstrs_with_links = []
+    # link references and their solved targets, in msgids and msgstrs
+    msgid_targets, msgstr_targets = ({}, {})
 
     # discover link reference definitions
     for msgid, msgstr in translations.items():
@@ -64,73 +62,37 @@ def solve_link_reference_targets(translations):
             if msgid_match:
                 msgstr_match = re.search(link_reference_re, msgstr.lstrip(' '))
                 if msgstr_match:
-                    link_references_text_targets.append((
-                        msgid_match.groups(),
-                        msgstr_match.groups(),
-                    ))
-        msgid_matchs = re.findall(link_refereced_link_re, msgid)
-        if msgid_matchs:
-            msgstr_matchs = re.findall(link_refereced_link_re, msgstr)
-            if msgstr_matchs:
-                msgid_msgstrs_with_links.append((
-                    msgid, msgstr, msgid_matchs, msgstr_matchs,
-                ))
-
-    # original msgid, original msgstr,
-    # msgid link reference matchs, msgstr link reference matchs
-    for (
-            orig_msgid, orig_msgstr, msgid_linkr_groups, msgstr_linkr_groups,
-    ) in msgid_msgstrs_with_links:
-        # search if msgid and link reference matchs are inside
-        # `link_references_text_targets`
-        #
-        # if so, replace in original messages link referenced targets with
-        # real targets and store them in solutions
-        new_msgid, new_msgstr = (None, None)
-
-        for msgid_linkr_group in msgid_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[0][0] == msgid_linkr_group[1]:
-                    replacer = (
-                        f'[{msgid_linkr_group[0]}][{msgid_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgid_linkr_group[0]}]'
-                        f'({link_reference_text_targets[0][1]})'
-                    )
-
-                    if new_msgid is None:
-                        # first referenced link replacement in msgid
-                        new_msgid = orig_msgid.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgid = new_msgid.replace(replacer, replacement)
-                    break
-
-        # the same game as above, but now for msgstrs
-
-        for msgstr_linkr_group in msgstr_linkr_groups:
-            for link_reference_text_targets in link_references_text_targets:
-
-                if link_reference_text_targets[1][0] == msgstr_linkr_group[1]:
-                    replacer = (
-                        f'[{msgstr_linkr_group[0]}][{msgstr_linkr_group[1]}]'
-                    )
-                    replacement = (
-                        f'[{msgstr_linkr_group[0]}]'
-                        f'({link_reference_text_targets[1][1]})'
-                    )
-
-                    if new_msgstr is None:
-                        # first referenced link replacement in msgid
-                        new_msgstr = orig_msgstr.replace(replacer, replacement)
-                    else:
-                        # consecutive referenced link replacements in msgid
-                        new_msgstr = new_msgstr.replace(replacer, replacement)
-                    break
-
-        # store in solutions
-        solutions[new_msgid] = new_msgstr
+                    for match, targets in (
+                        (msgid_match, msgid_targets),
+                        (msgstr_match, msgstr_targets),
+                    ):
+                        target, href, title = match.groups()
+                        targets.setdefault(
+                            target,
+                            f'({href} "{title}")' if title else f'({href})',
+                        )
+
+    def solve(message, targets):
+        def solve_referenced_link(match):
+            text, target = match.group(1), match.groups()[-1]
+            if target not in targets:
+                return match.group()
+            return f'[{text}]{targets[target]}'
+
+        return shortcut_referenced_link_re.sub(
+            solve_referenced_link,
+            link_refereced_link_re.sub(solve_referenced_link, message),
+        )
+
+    for msgid, msgstr in translations.items():
+        if '[' not in msgid or re.search(link_reference_re, msgid):
+            continue
+        new_msgid = solve(msgid, msgid_targets)
+        if new_msgid != msgid:
+            # references not found in translated definitions
+            # could be in the original ones
+            solutions[new_msgid] = solve(
+                msgstr, {**msgid_targets, **msgstr_targets},
+            )
 
     return solutions
diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 88e6002..e9a533e 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -16,7 +16,7 @@ from mdpo.command import (
     parse_mdpo_html_command,
 )
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import solve_link_reference_targets
+from mdpo.md import LINK_REFERENCE_REGEX, solve_link_reference_targets
 from mdpo.po import (
     paths_or_globs_to_unique_pofiles,
     pofiles_to_unique_translations_dicts,
@@ -198,6 +198,16 @@ class MdPo2HTML(HTMLParser):
             or self.context[0] == 'pre'
         )
 
+    def _link_reference_definitions(self):
+        """Definitions of link references, translated or not."""
+        return {
+            entry.msgid: self.translations.get(entry.msgid, entry.msgid)
+            for pofile in self.pofiles for entry in pofile
+            if not entry.msgctxt and re.match(
+                LINK_REFERENCE_REGEX, entry.msgid,
+            )
+        }
+
     def _is_message_part(self, handle, handled):
         if handle == 'data':
             return not all((ch in ALIGNMENT_CHARS) for ch in handled)
@@ -377,10 +387,19 @@ class MdPo2HTML(HTMLParser):
             if tag == 'a' and self.real_link_reference_targets is None:
                 # extend translations to populate link reference msgid-msgstrs
                 # with real targets
+                definitions = self._link_reference_definitions()
                 self.real_link_reference_targets = (
-                    solve_link_reference_targets(self.translations)
+                    solve_link_reference_targets(
+                        {**self.translations, **definitions},
+                    )
                 )
                 self.translations.update(self.real_link_reference_targets)
+                for translations in self.translations_with_msgctxt.values():
+                    translations.update(
+                        solve_link_reference_targets(
+                            {**translations, **definitions},
+                        ),
+                    )
 
             self.replacer.append((
                 'start', tag, OrderedDict(attrs), self.get_starttag_text(),
-- 
2.43.0


From 041b70ced63e2db9a18866cb7ec9705d7817c72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 079/103] fix: translate referenced images in texts without
 links in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 41 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index e9a533e..a31ccb8 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -208,6 +208,26 @@ class MdPo2HTML(HTMLParser):
             )
         }
 
+    def _solve_link_references(self):
+        # extend translations to populate link reference msgid-msgstrs
+        # with real targets
+        if self.real_link_reference_targets is not None:
+            return
+
+        definitions = self._link_reference_definitions()
+        self.real_link_reference_targets = (
+            solve_link_reference_targets(
+                {**self.translations, **definitions},
+            )
+        )
+        self.translations.update(self.real_link_reference_targets)
+        for translations in self.translations_with_msgctxt.values():
+            translations.update(
+                solve_link_reference_targets(
+                    {**translations, **definitions},
+                ),
+            )
+
     def _is_message_part(self, handle, handled):
         if handle == 'data':
             return not all((ch in ALIGNMENT_CHARS) for ch in handled)
@@ -384,22 +404,8 @@ class MdPo2HTML(HTMLParser):
         ):
             self.output += self.get_starttag_text()
         else:
-            if tag == 'a' and self.real_link_reference_targets is None:
-                # extend translations to populate link reference msgid-msgstrs
-                # with real targets
-                definitions = self._link_reference_definitions()
-                self.real_link_reference_targets = (
-                    solve_link_reference_targets(
-                        {**self.translations, **definitions},
-                    )
-                )
-                self.translations.update(self.real_link_reference_targets)
-                for translations in self.translations_with_msgctxt.values():
-                    translations.update(
-                        solve_link_reference_targets(
-                            {**translations, **definitions},
-                        ),
-                    )
+            if tag == 'a':
+                self._solve_link_references()
 
             self.replacer.append((
                 'start', tag, OrderedDict(attrs), self.get_starttag_text(),
@@ -430,6 +436,9 @@ class MdPo2HTML(HTMLParser):
         if not self.replacer:
             self.output += self.get_starttag_text()
         else:
+            if tag in self.image_tags:
+                self._solve_link_references()
+
             self.replacer.append((
                 'startend', tag, OrderedDict(attrs), self.get_starttag_text(),
             ))
-- 
2.43.0


From 4ef68ed14712e7a4413582300ba1ccf244db7f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 080/103] fix: do not join code blocks with previous tables in
 list items in po2md

---
 src/mdpo/po2md/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a84f652..e26545c 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -663,6 +663,11 @@ class Po2Md:
                 self._save_current_msgid()
                 if self.current_line:
                     self._save_current_line()
+                if self.outputlines[-1:] and (
+                    self.outputlines[-1].lstrip(' >').startswith('|')
+                ):
+                    # would be taken for a row of the previous table
+                    self._write_liblock_separator()
                 indent += self._list_content_indent()
             self._inside_codeblock = True
 
-- 
2.43.0


From 1832f81df1bdc051a4ba0ea2ecd48a763e49e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 081/103] fix: remove a PO file committed by mistake

---
 t.po | 6 ------
 1 file changed, 6 deletions(-)
 delete mode 100644 t.po

diff --git a/t.po b/t.po
deleted file mode 100644
index 5096297..0000000
--- a/t.po
+++ /dev/null
@@ -1,6 +0,0 @@
-#
-msgid ""
-msgstr ""
-
-msgid "**a *b***"
-msgstr "TR **a *b***"
-- 
2.43.0


From db3e6ae84e352a7e700146b2da26a92fc226f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 082/103] fix: keep titles with quotes of link reference
 definitions

---
 src/mdpo/md.py             | 25 +++++++++++++++++++------
 src/mdpo/md2po/__init__.py |  2 +-
 src/mdpo/po2md/__init__.py |  8 +++-----
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 69c1f4b..7c9c178 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -1,9 +1,22 @@
 """Markdown related utilities for mdpo."""
 
+import polib
 
 LINK_REFERENCE_REGEX = (
-    r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?\s*["\'\(]?([^"\'\)]+)?'
+    r'^\[([^\]]+)\]:\s+<?([^\s>]+)>?'
+    r'(?:\s+(".*"|\'.*\'|\(.*\)))?\s*$'
 )
+ESCAPED_PUNCTUATION_REGEX = r'\\([!-/:-@\[-`{-~])'
+
+
+def _parse_link_reference_match(match):
+    import re
+
+    target, href, title = match.groups()
+    if title:
+        # remove the delimiters
+        title = re.sub(ESCAPED_PUNCTUATION_REGEX, r'\1', title[1:-1])
+    return target, href, title
 
 
 def parse_link_references(content):
@@ -26,7 +39,7 @@ def parse_link_references(content):
         if linestrip and linestrip.startswith('['):
             match = re.search(link_reference_re, linestrip)
             if match:
-                response.append(match.groups())
+                response.append(_parse_link_reference_match(match))
     return response
 
 
@@ -66,11 +79,11 @@ def solve_link_reference_targets(translations):
                         (msgid_match, msgid_targets),
                         (msgstr_match, msgstr_targets),
                     ):
-                        target, href, title = match.groups()
-                        targets.setdefault(
-                            target,
-                            f'({href} "{title}")' if title else f'({href})',
+                        target, href, title = _parse_link_reference_match(
+                            match,
                         )
+                        title_part = f' "{polib.escape(title)}"' if title else ''
+                        targets.setdefault(target, f'({href}{title_part})')
 
     def solve(message, targets):
         def solve_referenced_link(match):
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 6834282..60f5121 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -963,7 +963,7 @@ class Md2Po:
                 self.current_msgid = '[{}]:{}{}'.format(
                     target,
                     f' {href}' if href else '',
-                    f' "{title}"' if title else '',
+                    f' "{polib.escape(title)}"' if title else '',
                 )
                 self._save_current_msgid(
                     msgstr=self.current_msgid,
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e26545c..6c2c916 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1102,9 +1102,7 @@ class Po2Md:
             referenced_target, imgspan_title = (None, None)
             imgspan_src = join_attribute_text(details['src'])
             if details['title']:
-                imgspan_title = polib.escape(
-                    join_attribute_text(details['title']),
-                )
+                imgspan_title = join_attribute_text(details['title'])
                 for target, href, title in self.link_references:
                     if href == imgspan_src and title == imgspan_title:
                         referenced_target = target
@@ -1122,7 +1120,7 @@ class Po2Md:
             else:
                 img_markup += f'({imgspan_src}'
                 if imgspan_title:
-                    img_markup += f' "{imgspan_title}"'
+                    img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
 
             if self._inside_aspan:
@@ -1211,7 +1209,7 @@ class Po2Md:
                             skip = True
                     if skip:
                         continue
-                title_part = f' "{title}"' if title else ''
+                title_part = f' "{polib.escape(title)}"' if title else ''
                 href_title = f' {href}{title_part}'
                 if href_title in added_references:
                     continue
-- 
2.43.0


From 2e277b565e4b8b0ed7ecbcf885a366668a1011d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 083/103] fix: do not take lines of other blocks for link
 reference definitions

---
 src/mdpo/md.py | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 7c9c178..75c555b 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -19,6 +19,30 @@ def _parse_link_reference_match(match):
     return target, href, title
 
 
+def _parse_text_lines(content):
+    """Lines of text of the blocks of a Markdown content."""
+    import md4c
+
+    lines, text = [], []
+
+    def leave_block(*_):
+        lines.extend(line.strip() for line in ''.join(text).splitlines())
+        text.clear()
+
+    def ignore(*_):
+        pass
+
+    md4c.GenericParser(0).parse(
+        content,
+        leave_block,
+        leave_block,
+        ignore,
+        ignore,
+        lambda _, text_: text.append(text_),
+    )
+    return lines
+
+
 def parse_link_references(content):
     """Parses link references found in a Markdown content.
 
@@ -33,13 +57,22 @@ def parse_link_references(content):
 
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
-    response = []
+    matches = []
     for line in content.splitlines():
         linestrip = line.strip()
         if linestrip and linestrip.startswith('['):
             match = re.search(link_reference_re, linestrip)
             if match:
-                response.append(_parse_link_reference_match(match))
+                matches.append((linestrip, match))
+
+    # lines of code blocks or paragraphs are not link references
+    text_lines = _parse_text_lines(content) if matches else []
+    response = []
+    for line, match in matches:
+        if line in text_lines:
+            text_lines.remove(line)
+        else:
+            response.append(_parse_link_reference_match(match))
     return response
 
 
-- 
2.43.0


From f35f858ea4f913dbbdfee8728c0899e98ee34ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 084/103] fix: do not start HTML blocks wrapping paragraphs in
 po2md

---
 src/mdpo/po2md/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 6c2c916..3fbef9a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -42,7 +42,16 @@ LIBLOCK_CHILDREN = {
 # continuation lines of a paragraph which would start other block
 BLOCK_START_REGEX = re.compile(
     r'(?:[-+*]|#{1,6}|\d{1,9}[.)])(?:\s|$)|>|<!|=+\s*$|(?:[-*_]\s*){3,}$'
-    r'|~{3}|`{3}[^`]*$',
+    r'|~{3}|`{3}[^`]*$'
+    # HTML blocks
+    r'|<(?:[?]|(?:script|pre|style|textarea)(?:[\s>]|$)'
+    r'|/?(?:address|article|aside|base|basefont|blockquote|body|caption'
+    r'|center|col|colgroup|dd|details|dialog|dir|div|dl|dt|fieldset'
+    r'|figcaption|figure|footer|form|frame|frameset|h[1-6]|head|header|hr'
+    r'|html|iframe|legend|li|link|main|menu|menuitem|nav|noframes|ol'
+    r'|optgroup|option|p|param|search|section|summary|table|tbody|td|tfoot'
+    r'|th|thead|title|tr|track|ul)(?:[\s/>]|$))',
+    re.IGNORECASE,
 )
 
 
-- 
2.43.0


From 87382b7dfb3fc6370a32221cf19c5d44460f0abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 085/103] fix: keep task marks of ordered lists in po2md

---
 src/mdpo/po2md/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 3fbef9a..e464225 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -524,11 +524,10 @@ class Po2Md:
             if self._inside_liblock or self._inside_quoteblock:
                 first_line_width_diff = -2
                 if self._inside_liblock:
-                    if self._current_list_type[-1][0] == 'ul':
-                        if self._current_list_type[-1][-1][-1] is True:
-                            first_line_width_diff = -6
-                    else:
+                    if self._current_list_type[-1][0] == 'ol':
                         first_line_width_diff = -3
+                    if self._current_list_type[-1][-1][-1] is True:
+                        first_line_width_diff -= 4
 
             # Wrap lines with Unicode Line Break algorithm
             #
@@ -702,7 +701,9 @@ class Po2Md:
                 self._ol_marks[-1][0] += 1
                 indent = '   ' * (len(self._current_list_type) - 1)
                 self.current_line += f'{indent}1{self._ol_marks[-1][1]} '
-                self._current_list_type[-1][-1].append(False)
+                if details['is_task']:
+                    self.current_line += f'[{details["task_mark"]}] '
+                self._current_list_type[-1][-1].append(details['is_task'])
             else:
                 # inside UL
                 indent = '   ' * (len(self._current_list_type) - 1)
-- 
2.43.0


From bae8549337d42c970cdcfbae577379914797b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 086/103] fix: keep indented code blocks inside list items in
 po2md

---
 src/mdpo/po2md/__init__.py | 43 +++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e464225..f074b73 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -588,6 +588,14 @@ class Po2Md:
         indent = '   ' * len(self._current_list_type)
         return f'> {indent}' if self._inside_quoted_list() else indent
 
+    def _list_codeblock_indent(self):
+        if not self._inside_indented_codeblock:
+            return self._list_content_indent()
+        # the contents of the code depend on its exact indentation
+        indent = '   ' * (len(self._current_list_type) - 1)
+        indent += '  ' if self._current_list_type[-1][0] == 'ul' else '   '
+        return f'> {indent}' if self._inside_quoted_list() else indent
+
     def _write_liblock_separator(self):
         separator = '>' if self._inside_quoted_list() else ''
         if self.outputlines[-1] != separator:
@@ -667,9 +675,23 @@ class Po2Md:
         elif block is md4c.BlockType.CODE:
             indent = ''
 
+            item_start = self.current_line.strip(' >') and (
+                not self.current_msgid
+            )
             if self._inside_liblock:
                 self._save_current_msgid()
-                if self.current_line:
+            self._inside_codeblock = True
+            self._inside_indented_codeblock = details['fence_char'] is None
+
+            if self._inside_liblock:
+                if self._inside_indented_codeblock:
+                    if not item_start:
+                        if self.current_line.strip(' >'):
+                            self._save_current_line()
+                        # would be taken for text of the previous block
+                        self._write_liblock_separator()
+                        self.current_line = self._list_codeblock_indent()
+                elif self.current_line:
                     self._save_current_line()
                 if self.outputlines[-1:] and (
                     self.outputlines[-1].lstrip(' >').startswith('|')
@@ -677,17 +699,15 @@ class Po2Md:
                     # would be taken for a row of the previous table
                     self._write_liblock_separator()
                 indent += self._list_content_indent()
-            self._inside_codeblock = True
 
-            if details['fence_char'] is not None:
+            if not self._inside_indented_codeblock:
                 fence_chars = details['fence_char'] * 3
                 self.current_line += f'{indent}{fence_chars}'
                 self.current_line += join_attribute_text(details['info'])
-            else:
-                self._inside_indented_codeblock = True
 
             if self.current_line and not (
-                self._inside_quoteblock and self._inside_indented_codeblock
+                self._inside_indented_codeblock
+                and (self._inside_quoteblock or self._inside_liblock)
             ):
                 self._save_current_line()
             self._codeblock_fence_index = len(self.outputlines) - 1
@@ -805,7 +825,7 @@ class Po2Md:
 
             indent = ''
             if self._inside_liblock:
-                indent += self._list_content_indent()
+                indent += self._list_codeblock_indent()
             elif self._inside_quoteblock:
                 indent += '> '
                 if not self._inside_indented_codeblock:
@@ -832,7 +852,8 @@ class Po2Md:
             elif self._inside_quoteblock and not self._inside_liblock:
                 self.current_line = '>'
 
-            self._save_current_line()
+            if not (self._inside_liblock and self._inside_indented_codeblock):
+                self._save_current_line()
             # prevent two newlines after indented code block
             if not self._inside_liblock and (
                     not self._inside_indented_codeblock
@@ -1194,10 +1215,8 @@ class Po2Md:
 
                 self.current_msgid += text
             else:
-                if self._inside_liblock:
-                    indent = self._list_content_indent()
-                    if self.current_line[:len(indent) + 1] != indent:
-                        self.current_line += indent
+                if self._inside_liblock and not self.current_line:
+                    self.current_line = self._list_codeblock_indent()
                 self.current_msgid += text
         elif not self._process_command(text):
             self.current_line += text
-- 
2.43.0


From dc82476769bbbd5a6148bf030dfef293d87b576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 087/103] fix: keep targets with spaces of inline links and
 images

---
 src/mdpo/md.py             | 12 ++++++++++++
 src/mdpo/md2po/__init__.py |  7 ++++---
 src/mdpo/po2md/__init__.py |  6 +++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 75c555b..bd17e7c 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -9,6 +9,18 @@ LINK_REFERENCE_REGEX = (
 ESCAPED_PUNCTUATION_REGEX = r'\\([!-/:-@\[-`{-~])'
 
 
+def link_target_markup(target):
+    """Write the target of an inline link or image (it may be `<a b>`).
+
+    Args:
+        target (str): Target of the link or image.
+
+    Returns:
+        str: Target without spaces, which would end it.
+    """
+    return target.replace(' ', '%20')
+
+
 def _parse_link_reference_match(match):
     import re
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 60f5121..da51795 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -18,7 +18,7 @@ from mdpo.io import (
     save_file_checking_file_changed,
     to_files_or_content,
 )
-from mdpo.md import parse_link_references
+from mdpo.md import link_target_markup, parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     READABLE_BLOCK_NAMES,
@@ -857,7 +857,8 @@ class Md2Po:
                 else:
                     title_part = f' "{polib.escape(title)}"' if title else ''
                     self.current_msgid += (
-                        f'[{self._current_aspan_text}]({href}{title_part})'
+                        f'[{self._current_aspan_text}]'
+                        f'({link_target_markup(href)}{title_part})'
                     )
             self._inside_aspan = False
             self._current_aspan_text = ''
@@ -881,7 +882,7 @@ class Md2Po:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
+                img_markup += f'({link_target_markup(imgspan_src)}'
                 if imgspan_title:
                     img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index f074b73..0276b8a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -14,7 +14,7 @@ from mdpo.command import (
 )
 from mdpo.event import add_debug_events, parse_events_kwarg, raise_skip_event
 from mdpo.io import save_file_checking_file_changed, to_file_content_if_is_file
-from mdpo.md import parse_link_references
+from mdpo.md import link_target_markup, parse_link_references
 from mdpo.md4c import (
     DEFAULT_MD4C_GENERIC_PARSER_EXTENSIONS,
     join_attribute_text,
@@ -1117,7 +1117,7 @@ class Po2Md:
             elif self._current_aspan_href is not None:
                 self.current_msgid += (
                     f'[{self._current_aspan_text}]'
-                    f'({self._current_aspan_href}'
+                    f'({link_target_markup(self._current_aspan_href)}'
                 )
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
@@ -1149,7 +1149,7 @@ class Po2Md:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({imgspan_src}'
+                img_markup += f'({link_target_markup(imgspan_src)}'
                 if imgspan_title:
                     img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
-- 
2.43.0


From e57bdd7c8a480a74d3d21e1625253b8cc0160c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 088/103] fix: update locations and comments of the entries of
 existing catalogs

---
 src/mdpo/md2po/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index da51795..824bdbe 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -451,6 +451,17 @@ class Md2Po:
                 entry.flags.remove('fuzzy')
         if entry not in self.pofile:
             self.pofile.append(entry)
+        elif not find_entry_in_entries(
+            entry,
+            self.found_entries,
+            compare_obsolete=False,
+            compare_msgstr=False,
+            compare_occurrences=False,
+        ):
+            # update what has been extracted before
+            found_entry = self.pofile.find(msgid, msgctxt=msgctxt or False)
+            found_entry.occurrences = entry.occurrences
+            found_entry.comment = entry.comment
         if _equal_entry and _equal_entry.obsolete:
             # the message is found again, so don't keep it duplicated
             remove_entry(_equal_entry, self.pofile)
-- 
2.43.0


From 6c265f5e87a6e15982393a4a63c32caee54bad78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 089/103] fix: keep spaces at the edges of code spans

---
 src/mdpo/md2po/__init__.py | 7 ++++++-
 src/mdpo/po2md/__init__.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 824bdbe..bce3647 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -812,7 +812,12 @@ class Md2Po:
                 self.code_start_string,
                 code_markup,
             ) - 1
-            if self.code_start_string in (code_markup[:1], code_markup[-1:]):
+            if self.code_start_string in (
+                code_markup[:1], code_markup[-1:],
+            ) or (
+                code_markup[:1] == code_markup[-1:] == ' '
+                and code_markup.strip(' ')
+            ):
                 code_markup = f' {code_markup} '
             code_markup = (
                 f'{backticks * self.code_start_string}'
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 0276b8a..e8aea27 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1062,7 +1062,12 @@ class Po2Md:
                 self.code_start_string,
                 code_markup,
             ) - 1
-            if self.code_start_string in (code_markup[:1], code_markup[-1:]):
+            if self.code_start_string in (
+                code_markup[:1], code_markup[-1:],
+            ) or (
+                code_markup[:1] == code_markup[-1:] == ' '
+                and code_markup.strip(' ')
+            ):
                 code_markup = f' {code_markup} '
             code_markup = (
                 f'{backticks * self.code_start_string}'
-- 
2.43.0


From 6f768c88c366edeb38a5f95091088841fce28c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:54 +0000
Subject: [PATCH 090/103] fix: keep mathematics inside texts of links in po2md

---
 src/mdpo/po2md/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index e8aea27..c25860b 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1036,7 +1036,10 @@ class Po2Md:
         elif span is md4c.SpanType.U:
             self._uspans_deep += 1
         elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_start_string
+            if self._inside_aspan:
+                self._current_aspan_text += self.latexmath_start_string
+            else:
+                self.current_msgid += self.latexmath_start_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = True
 
@@ -1166,7 +1169,10 @@ class Po2Md:
 
             self._current_imgspan = {}
         elif span is md4c.SpanType.LATEXMATH:
-            self.current_msgid += self.latexmath_end_string
+            if self._inside_aspan:
+                self._current_aspan_text += self.latexmath_end_string
+            else:
+                self.current_msgid += self.latexmath_end_string
         elif span is md4c.SpanType.LATEXMATH_DISPLAY:
             self._inside_latexmath_display = False
             self.current_line += self.latexmath_display_start_string
-- 
2.43.0


From 382cc9e8ed4e057580d190b3f67cf182023a305d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 091/103] fix: keep titles of inline links and images with
 empty targets

---
 src/mdpo/md.py             |  8 ++++++--
 src/mdpo/md2po/__init__.py |  5 +++--
 src/mdpo/po2md/__init__.py | 10 ++++++----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index bd17e7c..49dc1d5 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -9,15 +9,19 @@ LINK_REFERENCE_REGEX = (
 ESCAPED_PUNCTUATION_REGEX = r'\\([!-/:-@\[-`{-~])'
 
 
-def link_target_markup(target):
+def link_target_markup(target, title=None):
     """Write the target of an inline link or image (it may be `<a b>`).
 
     Args:
         target (str): Target of the link or image.
+        title (str): Title of the link or image.
 
     Returns:
-        str: Target without spaces, which would end it.
+        str: Target without spaces, which would end it. Empty targets with
+            titles are ``<>``.
     """
+    if not target and title:
+        return '<>'
     return target.replace(' ', '%20')
 
 
diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index bce3647..17dc297 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -874,7 +874,7 @@ class Md2Po:
                     title_part = f' "{polib.escape(title)}"' if title else ''
                     self.current_msgid += (
                         f'[{self._current_aspan_text}]'
-                        f'({link_target_markup(href)}{title_part})'
+                        f'({link_target_markup(href, title)}{title_part})'
                     )
             self._inside_aspan = False
             self._current_aspan_text = ''
@@ -898,7 +898,8 @@ class Md2Po:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({link_target_markup(imgspan_src)}'
+                imgspan_target = link_target_markup(imgspan_src, imgspan_title)
+                img_markup += f'({imgspan_target}'
                 if imgspan_title:
                     img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index c25860b..528a1a2 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1123,10 +1123,11 @@ class Po2Md:
                     self.current_msgid += f' "{escaped_title}"'
                 self.current_msgid += '>'
             elif self._current_aspan_href is not None:
-                self.current_msgid += (
-                    f'[{self._current_aspan_text}]'
-                    f'({link_target_markup(self._current_aspan_href)}'
+                target = link_target_markup(
+                    self._current_aspan_href,
+                    details['title'],
                 )
+                self.current_msgid += f'[{self._current_aspan_text}]({target}'
                 if details['title']:
                     self._aimg_title_inside_current_msgid = True
                     escaped_title = polib.escape(
@@ -1157,7 +1158,8 @@ class Po2Md:
             if referenced_target:
                 img_markup += f'[{referenced_target}]'
             else:
-                img_markup += f'({link_target_markup(imgspan_src)}'
+                imgspan_target = link_target_markup(imgspan_src, imgspan_title)
+                img_markup += f'({imgspan_target}'
                 if imgspan_title:
                     img_markup += f' "{polib.escape(imgspan_title)}"'
                 img_markup += ')'
-- 
2.43.0


From 4d2fc72373117298caecd996239be46601184c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:05 +0000
Subject: [PATCH 092/103] fix: keep targets with unbalanced parentheses of
 inline links and images

---
 src/mdpo/md.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 49dc1d5..8b2edb3 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -17,11 +17,17 @@ def link_target_markup(target, title=None):
         title (str): Title of the link or image.
 
     Returns:
-        str: Target without spaces, which would end it. Empty targets with
-            titles are ``<>``.
+        str: Target without spaces nor parentheses which would end it. Empty
+            targets with titles are ``<>``.
     """
     if not target and title:
         return '<>'
+    deep, balanced = 0, True
+    for char in target:
+        deep += {'(': 1, ')': -1}.get(char, 0)
+        balanced = balanced and deep >= 0
+    if deep or not balanced:
+        target = target.replace('(', '\\(').replace(')', '\\)')
     return target.replace(' ', '%20')
 
 
-- 
2.43.0


From 2d63d928a2e7d009d2a84d38adbe7fb3a19f7749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 093/103] fix: keep escaped characters of texts of links

---
 src/mdpo/md2po/__init__.py | 6 +++---
 src/mdpo/po2md/__init__.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mdpo/md2po/__init__.py b/src/mdpo/md2po/__init__.py
index 17dc297..2898ae7 100644
--- a/src/mdpo/md2po/__init__.py
+++ b/src/mdpo/md2po/__init__.py
@@ -935,9 +935,6 @@ class Md2Po:
                     if self._inside_codespan:
                         self._current_codespan_text += text.replace('\n', ' ')
                         return
-                    if self._inside_aspan:
-                        self._current_aspan_text += text
-                        return
                     if text == self.italic_start_string:
                         text = self.italic_start_string_escaped
                     elif text == self.code_start_string:
@@ -946,6 +943,9 @@ class Md2Po:
                         text = self.italic_end_string_escaped
                     elif text == self.code_end_string:   # pragma: no cover
                         text = self.code_end_string_escaped
+                    if self._inside_aspan:
+                        self._current_aspan_text += text
+                        return
                 if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
                 if self._inside_latexmath_display:
diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 528a1a2..ab9bccd 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -1208,9 +1208,6 @@ class Po2Md:
                 if self._inside_codespan:
                     self._current_codespan_text += text.replace('\n', ' ')
                     return
-                if self._inside_aspan:
-                    self._current_aspan_text += text
-                    return
                 if text == self.italic_start_string:
                     text = self.italic_start_string_escaped
                 elif text == self.code_start_string:
@@ -1219,6 +1216,9 @@ class Po2Md:
                     text = self.code_end_string_escaped
                 elif text == self.italic_end_string:  # pragma: no cover
                     text = self.italic_end_string_escaped
+                if self._inside_aspan:
+                    self._current_aspan_text += text
+                    return
 
                 if self._inside_pblock or self._inside_hblock:
                     text = text.replace('\n', ' ')
-- 
2.43.0


From e6fa483377de7c2a50b2e5956908aafb3854b198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:32 +0000
Subject: [PATCH 094/103] fix: don't lose link references which are also text
 of other blocks

---
 src/mdpo/md.py | 49 ++++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/mdpo/md.py b/src/mdpo/md.py
index 8b2edb3..5d090b4 100644
--- a/src/mdpo/md.py
+++ b/src/mdpo/md.py
@@ -41,28 +41,24 @@ def _parse_link_reference_match(match):
     return target, href, title
 
 
-def _parse_text_lines(content):
-    """Lines of text of the blocks of a Markdown content."""
+def _parse_text(content):
+    """Text of the blocks of a Markdown content."""
     import md4c
 
-    lines, text = [], []
-
-    def leave_block(*_):
-        lines.extend(line.strip() for line in ''.join(text).splitlines())
-        text.clear()
+    text = []
 
     def ignore(*_):
         pass
 
     md4c.GenericParser(0).parse(
         content,
-        leave_block,
-        leave_block,
+        ignore,
+        ignore,
         ignore,
         ignore,
         lambda _, text_: text.append(text_),
     )
-    return lines
+    return ''.join(text)
 
 
 def parse_link_references(content):
@@ -79,23 +75,30 @@ def parse_link_references(content):
 
     link_reference_re = re.compile(LINK_REFERENCE_REGEX)
 
-    matches = []
-    for line in content.splitlines():
+    # the targets are marked to know which of them end in the text: lines of
+    # code blocks or paragraphs are not link references
+    mark = 'reference'
+    while mark in content:
+        mark += 'x'
+
+    matches, lines = [], []
+    for line in content.splitlines(keepends=True):
         linestrip = line.strip()
         if linestrip and linestrip.startswith('['):
             match = re.search(link_reference_re, linestrip)
             if match:
-                matches.append((linestrip, match))
-
-    # lines of code blocks or paragraphs are not link references
-    text_lines = _parse_text_lines(content) if matches else []
-    response = []
-    for line, match in matches:
-        if line in text_lines:
-            text_lines.remove(line)
-        else:
-            response.append(_parse_link_reference_match(match))
-    return response
+                start = line.index('[') + match.start(2)
+                line = (  # noqa: PLW2901
+                    f'{line[:start]}{mark}{len(matches)}y{line[start:]}'
+                )
+                matches.append(match)
+        lines.append(line)
+
+    text = _parse_text(''.join(lines)) if matches else ''
+    return [
+        _parse_link_reference_match(match)
+        for i, match in enumerate(matches) if f'{mark}{i}y' not in text
+    ]
 
 
 def solve_link_reference_targets(translations):
-- 
2.43.0


From 94381964c49467eb62a9b7de9c4362dc0fd4d58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:35 +0000
Subject: [PATCH 095/103] fix: keep the order of HTML around blocks and find
 commands after it in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index a31ccb8..20d0c33 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -239,7 +239,15 @@ class MdPo2HTML(HTMLParser):
             )
         return False
 
+    def _is_stray(self):
+        """Indicate if what is being collected is not the text of a block."""
+        return not any(
+            handle in ('start', 'end') and handled in PROCESS_REPLACER_TAGS
+            for handle, handled, _, _ in self.replacer
+        )
+
     def _process_replacer(self):
+        stray = self._is_stray()
         parts = [
             i for i, (handle, handled, _, _) in enumerate(self.replacer)
             if self._is_message_part(handle, handled)
@@ -379,7 +387,8 @@ class MdPo2HTML(HTMLParser):
 
         self.output += html_template
         self.context = []
-        self._finish_message()
+        if not stray:
+            self._finish_message()
 
     def _finish_message(self):
         self.disable_next_block = False
@@ -425,6 +434,8 @@ class MdPo2HTML(HTMLParser):
             self.replacer.append(('end', tag, None, endtag_text))
             self._process_replacer()
         elif tag in ['ul', 'ol', 'blockquote', 'tr', 'table', 'thead', 'tbody']:
+            if self.replacer:  # not closed
+                self._process_replacer()
             self.output += endtag_text
         else:
             self.replacer.append(('end', tag, None, endtag_text))
@@ -446,17 +457,11 @@ class MdPo2HTML(HTMLParser):
     def handle_data(self, data):
 
         if data:
-            if (
-                not self.replacer
-                or self._inside_grouper()
-                or not self.context
-            ):
+            if not self.replacer or self._inside_grouper():
                 self.output += data
             else:
                 source = data
-                data = html.unescape(data)
-                if self.context:
-                    data = data.replace('\n', ' ')
+                data = html.unescape(data).replace('\n', ' ')
                 self.replacer.append(('data', data, None, source))
 
     def handle_entityref(self, name):
@@ -482,6 +487,9 @@ class MdPo2HTML(HTMLParser):
 
     def handle_comment(self, data):
 
+        if self.replacer and self._is_stray():
+            self._process_replacer()
+
         if self.replacer:
             self.replacer.append(('comment', data, None, f'<!--{data}-->'))
         else:
-- 
2.43.0


From d0dd83f4ac754da155f07b6c79f3d3e50e82295c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:38 +0000
Subject: [PATCH 096/103] fix: translate texts starting or ending with HTML
 tags in mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 106 ++++++++++++++++++++++-----------
 1 file changed, 72 insertions(+), 34 deletions(-)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 20d0c33..14d00d9 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -239,6 +239,13 @@ class MdPo2HTML(HTMLParser):
             )
         return False
 
+    def _is_inline(self, token):
+        """Indicate if a HTML token next to a message could be part of it."""
+        handle, handled, _, _ = token
+        if handle in ('start', 'end'):
+            return handled not in PROCESS_REPLACER_TAGS
+        return handle in ('data', 'comment')
+
     def _is_stray(self):
         """Indicate if what is being collected is not the text of a block."""
         return not any(
@@ -246,40 +253,22 @@ class MdPo2HTML(HTMLParser):
             for handle, handled, _, _ in self.replacer
         )
 
-    def _process_replacer(self):
-        stray = self._is_stray()
-        parts = [
-            i for i, (handle, handled, _, _) in enumerate(self.replacer)
-            if self._is_message_part(handle, handled)
-        ]
-        source = ''.join(raw for _, _, _, raw in self.replacer)
-        if not parts:  # there is no message
-            self.output += source
-            self.replacer = []
-            self.context = []
-            return
+    def _to_message(self, parts):
+        """Build the message of HTML tokens.
 
-        # the message is surrounded by other tags
-        first, last = (parts[0], parts[-1] + 1)
-        while first and self.replacer[first - 1][0] == 'data':
-            first -= 1
-        while last < len(self.replacer) and self.replacer[last][0] == 'data':
-            last += 1
-        html_before_message = ''.join(
-            raw for _, _, _, raw in self.replacer[:first]
-        )
-        html_after_message = ''.join(
-            raw for _, _, _, raw in self.replacer[last:]
-        )
-        message, self.replacer = (self.replacer[first:last], [])
+        Args:
+            parts (list): HTML tokens of the message.
 
+        Returns:
+            tuple: Message and tags found in it.
+        """
         template_tags = []
         _current_replacement = ''
 
         _link_targets = []
         _link_texts_starts = []
         _inside_code = False
-        for i, (handle, handled, attrs, raw) in enumerate(message):
+        for i, (handle, handled, attrs, raw) in enumerate(parts):
             if handle == 'start':
                 template_tags.append(handled)
 
@@ -336,11 +325,65 @@ class MdPo2HTML(HTMLParser):
                     _current_replacement += ')'
                 elif not (  # hard line break
                     handled == 'br'
-                    and i + 1 < len(message)
-                    and message[i + 1][3].startswith('\n')
+                    and i + 1 < len(parts)
+                    and parts[i + 1][3].startswith('\n')
                 ):
                     _current_replacement += raw
 
+        return (_current_replacement, template_tags)
+
+    def _translation(self, message):
+        if self.current_msgctxt:
+            return self.translations_with_msgctxt.get(
+                self.current_msgctxt, {},
+            ).get(message)
+        return self.translations.get(message)
+
+    def _process_replacer(self):
+        stray = self._is_stray()
+        parts = [
+            i for i, (handle, handled, _, _) in enumerate(self.replacer)
+            if self._is_message_part(handle, handled)
+        ]
+        source = ''.join(raw for _, _, _, raw in self.replacer)
+        if not parts:  # there is no message
+            self.output += source
+            self.replacer = []
+            self.context = []
+            return
+
+        # the message is surrounded by other tags
+        first, last = (parts[0], parts[-1] + 1)
+        while first and self.replacer[first - 1][0] == 'data':
+            first -= 1
+        while last < len(self.replacer) and self.replacer[last][0] == 'data':
+            last += 1
+        # ... which could be part of the message
+        outer_first, outer_last = (first, last)
+        while outer_first and self._is_inline(self.replacer[outer_first - 1]):
+            outer_first -= 1
+        while outer_last < len(self.replacer) \
+                and self._is_inline(self.replacer[outer_last]):
+            outer_last += 1
+
+        _current_replacement, template_tags = self._to_message(
+            self.replacer[outer_first:outer_last],
+        )
+        if self._translation(_current_replacement):
+            first, last = (outer_first, outer_last)
+        else:
+            _current_replacement, template_tags = self._to_message(
+                self.replacer[first:last],
+            )
+
+        html_before_message = ''.join(
+            raw for _, _, _, raw in self.replacer[:first]
+        )
+        html_after_message = ''.join(
+            raw for _, _, _, raw in self.replacer[last:]
+        )
+        self.replacer = []
+
         if (self.disable or self.disable_next_block) \
                 and not self.enable_next_block:
             replacement = None
@@ -353,12 +396,7 @@ class MdPo2HTML(HTMLParser):
                 ),
             )
         else:
-            if self.current_msgctxt:
-                replacement = self.translations_with_msgctxt.get(
-                    self.current_msgctxt, {},
-                ).get(_current_replacement)
-            else:
-                replacement = self.translations.get(_current_replacement)
+            replacement = self._translation(_current_replacement)
 
         for tt in template_tags:
             for tags_group in [self.bold_tags, self.italic_tags]:
-- 
2.43.0


From 18e414344f3ad290587ee05106ed6b5f80a3ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:51 +0000
Subject: [PATCH 097/103] fix: translate messages with character references in
 mdpo2html

---
 src/mdpo/mdpo2html/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mdpo/mdpo2html/__init__.py b/src/mdpo/mdpo2html/__init__.py
index 14d00d9..dd619c8 100644
--- a/src/mdpo/mdpo2html/__init__.py
+++ b/src/mdpo/mdpo2html/__init__.py
@@ -579,6 +579,12 @@ class MdPo2HTML(HTMLParser):
         self.translations, self.translations_with_msgctxt = (
             pofiles_to_unique_translations_dicts(self.pofiles)
         )
+        # the texts collected don't have character references
+        for translations in (
+            self.translations, *self.translations_with_msgctxt.values(),
+        ):
+            for msgid, msgstr in list(translations.items()):
+                translations.setdefault(html.unescape(msgid), msgstr)
 
         # state of previous translations
         self.output = ''
-- 
2.43.0


From 5eb0eca4914a1f731b560006aa54ddd4973ec81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:36 +0000
Subject: [PATCH 098/103] fix: keep spaces at the end of code blocks in po2md

---
 src/mdpo/po2md/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index ab9bccd..04a5953 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -639,7 +639,8 @@ class Po2Md:
         if block is md4c.BlockType.HTML:
             content = textwrap.dedent(content)
         self.outputlines[start:] = [
-            f'{indent}{line}'.rstrip() for line in content.split('\n')
+            f'{indent}{line}' if line.strip() else indent.rstrip()
+            for line in content.split('\n')
         ]
         if block is md4c.BlockType.HTML:
             self.outputlines.append(indent.rstrip())
@@ -832,10 +833,14 @@ class Po2Md:
                     self.current_line = f'{indent}{self.current_line}'
             if self.current_line.endswith('\n'):
                 self.current_line = self.current_line[:-1]
-            self.current_line = f'\n{indent}'.join(
-                self.current_line.split('\n'),
-            )
-            self._save_current_line()
+            code_lines = self.current_line.split('\n')
+            self.current_line = f'\n{indent}'.join(code_lines)
+            if code_lines[-1]:
+                # with the spaces at the end of the code
+                self.outputlines.append(self.current_line)
+                self.current_line = ''
+            else:
+                self._save_current_line()
             if not self._inside_indented_codeblock:
                 # the fence can't be contained by the code
                 opening = self.outputlines[self._codeblock_fence_index]
-- 
2.43.0


From 17cd079dd5d6824cee8f6d0bd573f0f8e9514a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:39 +0000
Subject: [PATCH 099/103] fix: keep empty lines of code blocks without other
 contents in po2md

---
 src/mdpo/po2md/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 04a5953..a54c0d6 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -548,7 +548,7 @@ class Po2Md:
                 ]):
                     translation += '\n'
 
-        if translation.rstrip('\n'):
+        if self._inside_codeblock or translation.rstrip('\n'):
             if self._inside_liblock and not self.current_line and not any([
                 self._inside_pblock,
                 self._inside_codeblock,
@@ -825,6 +825,7 @@ class Po2Md:
             self._inside_codeblock = False
 
             indent = ''
+            empty = not self.current_line
             if self._inside_liblock:
                 indent += self._list_codeblock_indent()
             elif self._inside_quoteblock:
@@ -835,7 +836,9 @@ class Po2Md:
                 self.current_line = self.current_line[:-1]
             code_lines = self.current_line.split('\n')
             self.current_line = f'\n{indent}'.join(code_lines)
-            if code_lines[-1]:
+            if empty:
+                self.current_line = ''
+            elif code_lines[-1]:
                 # with the spaces at the end of the code
                 self.outputlines.append(self.current_line)
                 self.current_line = ''
@@ -845,7 +848,7 @@ class Po2Md:
                 # the fence can't be contained by the code
                 opening = self.outputlines[self._codeblock_fence_index]
                 fence_chars = details['fence_char'] * 3
-                while fence_chars in self.outputlines[-1]:
+                while not empty and fence_chars in self.outputlines[-1]:
                     opening = opening.replace(
                         fence_chars,
                         f'{fence_chars}{details["fence_char"]}',
-- 
2.43.0


From 20cf74473533c819be1a297e750b86b834b8d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:41 +0000
Subject: [PATCH 100/103] fix: keep HTML blocks which have commands among their
 lines in po2md

---
 src/mdpo/po2md/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a54c0d6..9a207f5 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -345,6 +345,7 @@ class Po2Md:
         self._inside_htmlblock = [
             False,  # the parser is inside an HTML block
             None,  # a mdpo command has been found in the HTML block
+            False,  # the HTML block has something more than commands
         ]
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
@@ -441,7 +442,7 @@ class Po2Md:
         if original_command is None:
             return False
 
-        self._inside_htmlblock[1] = True
+        self._inside_htmlblock[1] = 'line'
 
         try:
             command = self.command_aliases[original_command]
@@ -782,7 +783,7 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
-            self._inside_htmlblock = [True, False]
+            self._inside_htmlblock = [True, False, False]
 
     def leave_block(self, block, details):
         # raise 'leave_block' event
@@ -956,7 +957,7 @@ class Po2Md:
                 self._save_current_line()
             self._current_thead_aligns = []
         elif block is md4c.BlockType.HTML:
-            if not self._inside_htmlblock[1]:
+            if not self._inside_htmlblock[1] or self._inside_htmlblock[2]:
                 if self._inside_liblock:
                     self.current_line += '\n'
                 elif self._inside_quoteblock:
@@ -1240,6 +1241,12 @@ class Po2Md:
                     self.current_line = self._list_codeblock_indent()
                 self.current_msgid += text
         elif not self._process_command(text):
+            if text.strip():
+                self._inside_htmlblock[2] = True
+            elif self._inside_htmlblock[1] == 'line':
+                # end of the line of a command
+                self._inside_htmlblock[1] = True
+                return
             self.current_line += text
 
     def _append_link_references(self):
-- 
2.43.0


From 522f2726410fb08e46583535398b0879a3f5c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:32 +0000
Subject: [PATCH 101/103] fix: remove indented commands from HTML blocks in
 po2md

---
 src/mdpo/po2md/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 9a207f5..a732d47 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -346,6 +346,7 @@ class Po2Md:
             False,  # the parser is inside an HTML block
             None,  # a mdpo command has been found in the HTML block
             False,  # the HTML block has something more than commands
+            '',  # indentation of the current line of the HTML block
         ]
         self._inside_codeblock = False
         self._inside_indented_codeblock = False
@@ -443,6 +444,7 @@ class Po2Md:
             return False
 
         self._inside_htmlblock[1] = 'line'
+        self._inside_htmlblock[3] = ''
 
         try:
             command = self.command_aliases[original_command]
@@ -783,7 +785,7 @@ class Po2Md:
             if self._current_list_type and not self._inside_quoteblock:
                 self._save_current_line()
         elif block is md4c.BlockType.HTML:
-            self._inside_htmlblock = [True, False, False]
+            self._inside_htmlblock = [True, False, False, '']
 
     def leave_block(self, block, details):
         # raise 'leave_block' event
@@ -1247,7 +1249,11 @@ class Po2Md:
                 # end of the line of a command
                 self._inside_htmlblock[1] = True
                 return
-            self.current_line += text
+            elif not text.strip(' \t'):
+                self._inside_htmlblock[3] = text
+                return
+            self.current_line += self._inside_htmlblock[3] + text
+            self._inside_htmlblock[3] = ''
 
     def _append_link_references(self):
         if self.link_references:
-- 
2.43.0


From e182cd890e50f969a07588995f73e5caa76d6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:32 +0000
Subject: [PATCH 102/103] fix: do not create hard line breaks wrapping after
 backslashes in po2md

---
 src/mdpo/po2md/__init__.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index a732d47..2e8b39a 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -55,11 +55,17 @@ BLOCK_START_REGEX = re.compile(
 )
 
 
-def _unwrap_block_starts(text):
+# lines ended by a backslash which is not escaped
+HARD_BREAK_REGEX = re.compile(r'(?<!\\)(?:\\\\)*\\$', re.MULTILINE)
+
+
+def _unwrap_block_starts(text, hard_breaks=False):
     """Move block markup at the start of wrapped lines to the previous ones.
 
     Args:
         text (str): Text already wrapped.
+        hard_breaks (bool): The text had hard line breaks before being
+            wrapped, so the backslashes at the end of its lines are kept.
 
     Returns:
         str: Text whose lines do not start other blocks.
@@ -67,7 +73,9 @@ def _unwrap_block_starts(text):
     first_line, *lines = text.split('\n')
     response = [first_line]
     for line in lines:
-        while BLOCK_START_REGEX.match(line):
+        while BLOCK_START_REGEX.match(line) or (
+            not hard_breaks and HARD_BREAK_REGEX.search(response[-1])
+        ):
             markup, _, line = line.partition(' ')  # noqa: PLW2901
             response[-1] += f' {markup}'
             if not line:
@@ -537,12 +545,18 @@ class Po2Md:
             # Only execute it for text outside tables and headers
             if not self._inside_codeblock and not self._current_thead_aligns:
                 if not self._inside_hblock:
+                    hard_breaks = HARD_BREAK_REGEX.search(
+                        translation.rpartition('\n')[0],
+                    )
                     translation = md_ulb_pwrap.ulb_wrap_paragraph(
                         translation,
                         self.wrapwidth,
                         self.wrapwidth + first_line_width_diff,
                     )
-                    translation = _unwrap_block_starts(translation)
+                    translation = _unwrap_block_starts(
+                        translation,
+                        hard_breaks=hard_breaks,
+                    )
 
                 if not any([
                     self._inside_liblock,
-- 
2.43.0


From f129450217e7f7301832653c9aa98654515248e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:45 +0000
Subject: [PATCH 103/103] fix: escape texts which would start other blocks in
 po2md

---
 src/mdpo/po2md/__init__.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/mdpo/po2md/__init__.py b/src/mdpo/po2md/__init__.py
index 2e8b39a..3ab7a3f 100644
--- a/src/mdpo/po2md/__init__.py
+++ b/src/mdpo/po2md/__init__.py
@@ -55,10 +55,32 @@ BLOCK_START_REGEX = re.compile(
 )
 
 
+# texts which would start other block instead of a paragraph
+TEXT_START_REGEX = re.compile(
+    r'(\d{1,9})(?=[.)](?:\s|$))'
+    r'|(?=(?:[-+*]|#{1,6})(?:\s|$)|>|(?:[-*_][ \t]*){3,}$|~{3})',
+    re.MULTILINE,
+)
+
 # lines ended by a backslash which is not escaped
 HARD_BREAK_REGEX = re.compile(r'(?<!\\)(?:\\\\)*\\$', re.MULTILINE)
 
 
+def _escape_block_start(text):
+    """Escape the markup of other block at the start of a text.
+
+    Args:
+        text (str): Text of a paragraph or a list item.
+
+    Returns:
+        str: Text which does not start other block.
+    """
+    match = TEXT_START_REGEX.match(text)
+    if not match:
+        return text
+    return f'{text[:match.end()]}\\{text[match.end():]}'
+
+
 def _unwrap_block_starts(text, hard_breaks=False):
     """Move block markup at the start of wrapped lines to the previous ones.
 
@@ -553,9 +575,11 @@ class Po2Md:
                         self.wrapwidth,
                         self.wrapwidth + first_line_width_diff,
                     )
-                    translation = _unwrap_block_starts(
-                        translation,
-                        hard_breaks=hard_breaks,
+                    translation = _escape_block_start(
+                        _unwrap_block_starts(
+                            translation,
+                            hard_breaks=hard_breaks,
+                        ),
                     )
 
                 if not any([
-- 
2.43.0

