From 0683aced35fc3674f968519ba6db60687b7af368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:46 +0000
Subject: [PATCH 01/45] fix: do not crash on wrapped text that starts with a
 period

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c4f15e9..0b5b55a 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -89,7 +89,7 @@ def code_split(
     else:
         remaining_text = text[last_end:]
         if (
-            remaining_text
+            split_text
             and remaining_text.startswith(".")
             and not remaining_text.startswith("..")
         ):
@@ -176,7 +176,7 @@ def link_split(
 
     remaining_text = text[last_end:]
     if (
-        remaining_text
+        split_text
         and remaining_text.startswith(".")
         and not remaining_text.startswith("..")
     ):
-- 
2.43.0


From f74673df87c1d10cfce2f33798794bf2fb525bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 02/45] fix: keep the outer URL of a linked image when
 splitting links

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 0b5b55a..f4599dd 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -162,11 +162,11 @@ def link_split(
 
         leading_spaces.append(False)
         if "](" in match.group():
-            split_link = match.group().split("](")
+            split_link = match.group().split("](", maxsplit=1)
             split_text.append(split_link[0].strip() + "](")
             split_text.append(split_link[1].strip())
         else:
-            split_link = match.group().split("][")
+            split_link = match.group().split("][", maxsplit=1)
             split_text.append(split_link[0].strip() + "][")
             split_text.append(split_link[1].strip())
 
-- 
2.43.0


From 49539b10e5c4eba7ba1bee7b140c94a9624830cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 03/45] fix: do not duplicate text where link matches overlap

---
 markflow/_utils/textwrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index f4599dd..5279f05 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -137,6 +137,9 @@ def link_split(
     # Each iteration of this for loop operates on non-link text followed by
     # link text.
     for match in matches:
+        if match.start() < last_end:
+            # This overlaps with the link we just handled, e.g. `[a][b](c)`.
+            continue
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
-- 
2.43.0


From 605a0448938bf6042969784ee29c1fe4080ba572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 04/45] fix: only break lines at spaces, link targets, and HTML
 new lines

---
 markflow/_utils/textwrap.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 5279f05..18aa75e 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -10,8 +10,20 @@ URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
 
 
 def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
+    # Lines may only be broken where there was a space, inside of a link in front of its
+    # target, and after an HTML new line. Any other text has to stay together.
+    words: List[Tuple[str, bool, bool]] = []
+    for text, leading_space in zip(split_text, leading_spaces):
+        ends_line = bool(HTML_NEWLINE_REGEX.match(text))
+        if words and not leading_space:
+            last_word, last_leading_space, last_ends_line = words[-1]
+            if not last_ends_line and not last_word.endswith(("](", "][")):
+                words[-1] = (last_word + text, last_leading_space, ends_line)
+                continue
+        words.append((text, leading_space, ends_line))
+
     new_split_text = [""]
-    for word, leading_space in zip(split_text, leading_spaces):
+    for word, leading_space, ends_line in words:
         if leading_space and new_split_text[-1]:
             potential_new_string = f"{new_split_text[-1]} {word}"
         else:
@@ -22,7 +34,7 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
             new_split_text.append(word)
 
         # If we hit an HTML new line, the next text should begin on a new line.
-        if HTML_NEWLINE_REGEX.match(word):
+        if ends_line:
             new_split_text.append("")
 
     if not new_split_text[-1]:
-- 
2.43.0


From 8ec429bbb789f66df36884b4feed7e706e622504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:23 +0000
Subject: [PATCH 05/45] fix: do not turn stray white space into empty words
 when wrapping

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 18aa75e..18a0b66 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -251,7 +251,7 @@ def space_split(
     leading_spaces: List[bool] = []
     evaluates: List[bool] = []
     for word in text.split(" "):
-        if not word:
+        if not word.strip():
             continue
         split_text.append(word.strip())
         if not leading_spaces:
-- 
2.43.0


From d962676ae4edd8b806888e93c5aa2d37018435cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 06/45] fix: do not crash if a document ends with a hard line
 break

---
 markflow/detectors/paragraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 4abf9f9..0670aad 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -106,7 +106,7 @@ def split_paragraph_ignoring_setext(
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
                 if tail[0].endswith("  "):
-                    remaining_lines = next(tail_lines_generator)
+                    remaining_lines = next(tail_lines_generator, [])
                     break
             else:
                 remaining_lines = tail
-- 
2.43.0


From 5d0b3c1e37d42c7f73df3a8484a556864622fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 07/45] fix: strip any white space before a quote marker, not
 just spaces

---
 markflow/detectors/block_quote.py  | 2 +-
 markflow/formatters/block_quote.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index c624cbc..8768e52 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -15,7 +15,7 @@ from .ordered_list import split_ordered_list
 from .table import split_table
 from .thematic_break import split_thematic_break
 
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 
 def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> bool:
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f3cc4ff..2d16838 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -11,7 +11,7 @@ __all__ = ["MarkdownBlockQuote"]
 
 REPR_CONTENT_LEN = 20
 NON_ESCAPED_QUOTE_MARKER = re.compile(r"(?<= )>")
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 logger = logging.getLogger(__name__)
 
-- 
2.43.0


From e413fbb6ccd67889426558837f8dbd5500ef88d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 08/45] fix: enforce the line length in indented block quotes

---
 markflow/formatters/block_quote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 2d16838..75fc340 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -36,8 +36,6 @@ class MarkdownBlockQuote(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        indent = len(self.lines[0].lstrip()) - len(self.lines[0])
-
         depth = 0
         fully_quoted_lines = []
         for line in self.lines:
@@ -70,8 +68,8 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - indent - 1
-        prefix = " " * indent + ">"
+        sub_width = width - 1
+        prefix = ">"
         if has_space:
             sub_width -= 1
             prefix += " "
-- 
2.43.0


From 9c4405a399a79b9ceb99a597f99c58c6167bf063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:48 +0000
Subject: [PATCH 09/45] fix: restore logging.INFO if reformatting nested text
 fails

---
 markflow/_utils/_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1a9ebd4..4aec769 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -30,5 +30,7 @@ def truncate_str(str_: str, length: int) -> str:
 def redirect_info_logs_to_debug() -> Iterator[None]:
     old_info = logging.INFO
     logging.INFO = logging.DEBUG
-    yield
-    logging.INFO = old_info
+    try:
+        yield
+    finally:
+        logging.INFO = old_info
-- 
2.43.0


From c177fa9b7909dc2d432d8a50f47ffc8c9fa679bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 10/45] fix: leave the logger's level as it was after
 reformatting

---
 markflow/reformat_markdown.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 61582d8..710d5a5 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -87,12 +87,14 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width)
-    level = logger.getEffectiveLevel()
+    level = logger.level
     # Mute logging during second pass since it means nothing to the user.
-    if level > logging.DEBUG:
+    if logger.getEffectiveLevel() > logging.DEBUG:
         logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width)
-    logger.setLevel(level)
+    try:
+        new_new_text = _reformat_markdown_text(new_text, width)
+    finally:
+        logger.setLevel(level)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From 630556c5db7dd62455573994f78ba3432707f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 11/45] fix: no trailing space after an empty ATX heading

---
 markflow/formatters/atx_heading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/atx_heading.py b/markflow/formatters/atx_heading.py
index 5bce961..196d07f 100644
--- a/markflow/formatters/atx_heading.py
+++ b/markflow/formatters/atx_heading.py
@@ -64,7 +64,7 @@ class MarkdownATXHeading(MarkdownSection):
                 "corrected.",
                 self.line_index + 1,
             )
-        return "#" * self.depth + " " + self.content
+        return ("#" * self.depth + " " + self.content).rstrip()
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From a5173fc78da3133f8ed77b94dd707a48203c8c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 12/45] fix: thematic breaks are at least three characters long

---
 markflow/formatters/thematic_break.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/thematic_break.py b/markflow/formatters/thematic_break.py
index 763f373..6760e19 100644
--- a/markflow/formatters/thematic_break.py
+++ b/markflow/formatters/thematic_break.py
@@ -43,7 +43,8 @@ class MarkdownThematicBreak(MarkdownSection):
                     f"Invalid width {repr(width)} passed. How did you manage this?"
                 )
         else:
-            return self.char * width
+            # Anything shorter would not be a thematic break anymore.
+            return self.char * max(width, 3)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__}: char={repr(self.char)}>"
-- 
2.43.0


From dbc1c3b1c7d769e524bdcee7c2fbc1d58d6f8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 13/45] fix: thematic breaks with spaces are not bullet lists

---
 markflow/detectors/_lines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f9bbae0..ac72db8 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -158,8 +158,10 @@ def is_bullet_list_start_line(line: str) -> bool:
     Returns:
         True if the line is could start a bullet list. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and bool(
-        BULLET_LIST_START_REGEX.search(line)
+    return (
+        not is_indented_code_block_start_line(line)
+        and not is_thematic_break_line(line)
+        and bool(BULLET_LIST_START_REGEX.search(line))
     )
 
 
-- 
2.43.0


From b20298ac01eb0ec742734bcc830f8fa7c36e7dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:11 +0000
Subject: [PATCH 14/45] fix: keep the last line of fenced code blocks that are
 not closed by the same fence

---
 markflow/detectors/fenced_code_block.py  |  3 ++-
 markflow/formatters/fenced_code_block.py | 12 ++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 8fa2066..9f04e94 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -128,7 +128,8 @@ def split_fenced_code_block(
 
     for index, line in indexed_line_generator:
         fenced_code_block.append(line)
-        if line.strip() == full_fence:
+        # The closing fence may be longer than the opening one.
+        if line.strip().startswith(full_fence) and not line.strip().strip(fence):
             if get_indent(line) > 3 + fence_indent:
                 logger.warning(
                     "Detected that the fence on line %d is over indented per the "
diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index a975e48..23e96f0 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -54,9 +54,13 @@ class MarkdownFencedCodeBlock(MarkdownSection):
             self.lines[0].strip().lstrip(self.fence_char)
         )
 
+    def _is_closing_fence(self, line: str) -> bool:
+        line = line.strip()
+        return len(line) >= self.fence_count and not line.strip(self.fence_char)
+
     @property
     def first_line(self) -> Optional[str]:
-        if len(self.lines) == 2:
+        if len(self.lines) <= 2:
             return None
         else:
             return self.lines[1].strip()
@@ -70,7 +74,11 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.lines[1:-1] + [fence]
+        content = self.lines[1:]
+        # If the block was never closed, the last line is part of the content.
+        if content and self._is_closing_fence(content[-1]):
+            content = content[:-1]
+        new_lines = [fence + self.language] + content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From 9bece0f3c9bcce54cc0f6dcc2c47ba5a514ae8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 15/45] fix: lines of inline code do not start fenced code
 blocks

---
 markflow/detectors/_lines.py            | 3 ++-
 markflow/detectors/fenced_code_block.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index ac72db8..b81a639 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -102,7 +102,8 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     """
     for fence in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
         if line.strip().startswith(fence * 3):
-            return True
+            # If there are more backticks after the fence, this is inline code.
+            return fence != "`" or "`" not in line.strip().lstrip(fence)
     return False
 
 
diff --git a/markflow/detectors/fenced_code_block.py b/markflow/detectors/fenced_code_block.py
index 9f04e94..5752c06 100644
--- a/markflow/detectors/fenced_code_block.py
+++ b/markflow/detectors/fenced_code_block.py
@@ -22,6 +22,7 @@ import logging
 from typing import List, Tuple
 
 from .._utils import get_indent
+from ._lines import is_fenced_code_block_start_line
 
 logger = logging.getLogger(__name__)
 
@@ -116,7 +117,7 @@ def split_fenced_code_block(
 
     index, line = next(indexed_line_generator)
     for fence in FENCES:
-        if line.strip().startswith(fence * 3):
+        if is_fenced_code_block_start_line(line) and line.strip().startswith(fence):
             count = len(line.lstrip()) - len(line.lstrip().lstrip(fence))
             fence_indent = get_indent(line)
             full_fence = fence * count
-- 
2.43.0


From 68cd66469f0387788d9b852fcc4e085fe01b64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 16/45] fix: keep a space in front of info strings that start
 with a tilde

---
 markflow/formatters/fenced_code_block.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index 23e96f0..3c015ac 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -78,7 +78,11 @@ class MarkdownFencedCodeBlock(MarkdownSection):
         # If the block was never closed, the last line is part of the content.
         if content and self._is_closing_fence(content[-1]):
             content = content[:-1]
-        new_lines = [fence + self.language] + content + [fence]
+        language = self.language
+        if language.startswith(self.fence_char):
+            # Without a space, this would change the length of the fence.
+            language = " " + language
+        new_lines = [fence + language] + content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From 000d41ce9bb2a3af0ad59154faaa6d6277fd62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 17/45] fix: keep the label and link of definitions whose title
 is moved to the next line

---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index c3248b2..2281005 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -105,7 +105,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
                 lines = str_.splitlines()
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
-                str_ = "\n" + wrap(title, width)
+                str_ += "\n" + wrap(title, width)
         else:
             str_ += "\n" + wrap(title, width)
 
-- 
2.43.0


From 7f16e90de3424760fe65370e75a6c3732b034037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 18/45] fix: keep links and titles on their line if their text
 is also on another one

---
 markflow/formatters/link_reference_definition.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 2281005..8bd283a 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -81,16 +81,16 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        # Last index indicates that last line we checked for content
-        last_index = 0
+        # The text of the line with the link after the label, if that's on it
+        link_line = self.lines[0].split("]:", maxsplit=1)[1]
         str_ = f"[{self.name}]:"
         if not self.link:
             return str_
 
-        if self.link in self.lines[last_index]:
+        if link_line.strip():
             str_ += f" {self.link}"
         else:
-            last_index = 1
+            link_line = self.lines[1]
             str_ += f"\n{self.link}"
 
         title = self.title
@@ -99,7 +99,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
 
         # We don't naively wrap link reference definitions because they are allowed to
         # overflow lines (the label and url portions).
-        if title.split()[0] in self.lines[last_index]:
+        if len(link_line.split()) > 1:
             # Our title was on the line with our link
             if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
                 lines = str_.splitlines()
-- 
2.43.0


From b8ba9b66c19757d1ef1aee3294a88b3871a63b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:53 +0000
Subject: [PATCH 19/45] fix: detect link reference definitions at the end of a
 document

---
 markflow/detectors/link_reference_definition.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 3bb2ec0..4711a1b 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -88,6 +88,7 @@ def split_link_reference_definition(
             index, line = next(indexed_line_generator)
             title_text = line
         except StopIteration:
+            index += 1
             title_text = ""
         is_complete = True
     else:
@@ -110,9 +111,13 @@ def split_link_reference_definition(
             return link_reference_definition, remaining_lines
         elif len(line.split(maxsplit=1)) == 1:
             # Only the URL is on the second line
-            index, line = next(indexed_line_generator)
+            try:
+                index, line = next(indexed_line_generator)
+                title_text = line
+            except StopIteration:
+                index += 1
+                title_text = ""
             is_complete = True
-            title_text = line
         else:
             # The URL and possible title (or part of it) are on the second line
             title_text = line.split(maxsplit=1)[1]
-- 
2.43.0


From 13bc186d4cc3f2430f8abb71469c3c79ffcf62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 20/45] fix: link reference definitions do not swallow lines
 after an unclosed quote

---
 markflow/detectors/link_reference_definition.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 4711a1b..6fa9993 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -129,14 +129,18 @@ def split_link_reference_definition(
 
     if quotation_character in QUOTATION_CHARACTERS:
         closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(quotation_character))
-        for index, line in itertools.chain(
+        title_index = index
+        for line_index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
+            if line_index > title_index and not line.strip():
+                # Titles cannot contain blank lines.
+                break
             match = closing_regex.search(line.rstrip())
             if match:
                 if match.end() == len(line.rstrip()):
                     is_complete = True
-                    index += 1
+                    index = line_index + 1
                 break
 
     if is_complete:
-- 
2.43.0


From 5986c34187a85acd2ac42e84428fbe2293f06525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 21/45] fix: keep cells of tables with escaped pipes or without
 trailing pipes

---
 markflow/formatters/table.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 10b859e..ea52ef9 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -1,6 +1,7 @@
 import enum
 import math
 import re
+from typing import List
 
 from ..exceptions import MarkdownFormatException
 from ..typing import Number
@@ -35,6 +36,14 @@ def right_align(text: str, width: int) -> str:
     return f"{' ' * padding}{text}"
 
 
+def split_row(line: str) -> List[str]:
+    """Split a row of a table, which may lack the trailing pipe, into its cells"""
+    cells = [cell.strip() for cell in COLUMN_DIVIDER_REGEX.split(line)[1:]]
+    if len(cells) > 1 and not cells[-1]:
+        cells = cells[:-1]
+    return cells
+
+
 class MarkdownTable(MarkdownSection):
     def append(self, line: str) -> None:
         self.lines.append(line)
@@ -45,9 +54,7 @@ class MarkdownTable(MarkdownSection):
             if i == 1:
                 # Skip the divider line
                 continue
-            cols = COLUMN_DIVIDER_REGEX.split(line)[1:-1]
-            cols = [col.strip() for col in cols]
-            column_widths.append(tuple(len(col) for col in cols))
+            column_widths.append(tuple(len(col) for col in split_row(line)))
 
         column_alignments = []
         for divider in self.lines[1].strip()[1:-1].split("|"):
@@ -77,7 +84,7 @@ class MarkdownTable(MarkdownSection):
 
         new_lines = []
         # First line is headers. We'll center them.
-        headers = COLUMN_DIVIDER_REGEX.split(self.lines[0])[1:-1]
+        headers = split_row(self.lines[0])
         header_strings = []
         for header, width, alignment in zip(
             headers, new_column_widths, column_alignments
@@ -111,7 +118,7 @@ class MarkdownTable(MarkdownSection):
         for line in self.lines[2:]:
             columns = []
             for column, width, alignment in zip(
-                line.split("|")[1:-1], new_column_widths, column_alignments
+                split_row(line), new_column_widths, column_alignments
             ):
                 column = column.strip()
                 if alignment == Alignment.CENTER:
-- 
2.43.0


From affd23f909f6d7575c6851fc99ae59c22ac5c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 22/45] fix: report tables without a proper divider instead of
 overwriting their rows

---
 markflow/formatters/table.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index ea52ef9..1fb05f5 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -10,6 +10,7 @@ from .base import MarkdownSection
 __all__ = ["MarkdownTable"]
 
 COLUMN_DIVIDER_REGEX = re.compile(r"(?<!\\)" r"\|")  # Ignore escaped |
+DIVIDER_REGEX = re.compile(r":?-+:?")
 
 
 class Alignment(enum.Enum):
@@ -57,8 +58,15 @@ class MarkdownTable(MarkdownSection):
             column_widths.append(tuple(len(col) for col in split_row(line)))
 
         column_alignments = []
-        for divider in self.lines[1].strip()[1:-1].split("|"):
-            divider = divider.strip()
+        dividers = split_row(self.lines[1]) if len(self.lines) > 1 else []
+        if len(dividers) != len(column_widths[0]) or not all(
+            DIVIDER_REGEX.fullmatch(divider) for divider in dividers
+        ):
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 2} does not divide the header of the table "
+                f"from its rows (expected columns: {len(column_widths[0])})"
+            )
+        for divider in dividers:
             if divider.startswith(":") and divider.endswith(":"):
                 column_alignments.append(Alignment.CENTER)
             elif divider.startswith(":"):
-- 
2.43.0


From a8e2336140bca5932db6ea912f769d168ea31c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:21 +0000
Subject: [PATCH 23/45] fix: detect code blocks that are indented with tabs

---
 markflow/detectors/_lines.py              | 3 ++-
 markflow/detectors/indented_code_block.py | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index b81a639..597c188 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -121,7 +121,8 @@ def is_indented_code_block_start_line(line: str) -> bool:
     Returns:
         True if the line is could start an indented code block. False otherwise.
     """
-    return bool(line.strip()) and get_indent(line) >= 4
+    # Tabs behave as if they were replaced by spaces with a tab stop of 4 characters.
+    return bool(line.strip()) and get_indent(line.expandtabs(4)) >= 4
 
 
 def is_ordered_list_start_line(line: str) -> bool:
diff --git a/markflow/detectors/indented_code_block.py b/markflow/detectors/indented_code_block.py
index b9322cd..d31efcf 100644
--- a/markflow/detectors/indented_code_block.py
+++ b/markflow/detectors/indented_code_block.py
@@ -12,7 +12,7 @@ Example:
 
 from typing import List, Tuple
 
-from .._utils import get_indent
+from ._lines import is_indented_code_block_start_line
 
 
 def split_indented_code_block(
@@ -37,13 +37,13 @@ def split_indented_code_block(
     # By default, everything to the end of the document is a block quote
     index, line = next(indexed_line_generator)
     close_index = index + 1
-    if line.strip() and get_indent(line) >= 4:
+    if is_indented_code_block_start_line(line):
         # Find the next line that isn't indented at least 4, excluding trailing blank
         # lines
         for index, line in indexed_line_generator:
             if not line.strip():
                 continue
-            elif get_indent(line) >= 4:
+            elif is_indented_code_block_start_line(line):
                 close_index = index
             else:
                 break
-- 
2.43.0


From 03d81ea01150937843d6dbb186eb518f7efb3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:12 +0000
Subject: [PATCH 24/45] fix: keep empty list entries and leave no trailing
 space after their markers

---
 markflow/detectors/_lines.py    | 25 +++++++++++++++++++++++--
 markflow/detectors/paragraph.py |  8 +++++++-
 markflow/formatters/lists.py    | 22 ++++++++++++----------
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index 597c188..fcf6dcf 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -16,14 +16,15 @@ BULLET_LIST_START_REGEX = re.compile(
     r"*"  # Asterisk list marker
     r"+"  # Plus list marker
     r"-"  # Dash list marker
-    r"] "  # Lists need a space after their identifier
+    r"]( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
     r"[0-9]+\."  # Numeric list marker
-    r") "  # Lists need a space after their identifier
+    r")( |$)"  # Lists need a space after their identifier unless the entry is empty
 )
+EMPTY_LIST_ENTRY_REGEX = re.compile(r"^\s*([*+-]|[0-9]+\.)\s*$")
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
 
 
@@ -167,6 +168,26 @@ def is_bullet_list_start_line(line: str) -> bool:
     )
 
 
+def is_empty_list_entry_line(line: str) -> bool:
+    """Evaluates whether a line is a list entry without any text
+
+    These can start lists, but they cannot interrupt paragraphs.
+
+    Examples:
+        ```
+        *
+        1.
+        ```
+
+    Args:
+        line: The line to evaluate
+
+    Returns:
+        True if the line is an empty list entry. False otherwise.
+    """
+    return bool(EMPTY_LIST_ENTRY_REGEX.search(line))
+
+
 def is_paragraph_start_line(line: str) -> bool:
     """Evaluates whether a line could start a paragraph
 
diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 0670aad..729e7ef 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -1,6 +1,10 @@
 from typing import Generator, List, Tuple
 
-from ._lines import is_paragraph_start_line, is_setext_underline
+from ._lines import (
+    is_empty_list_entry_line,
+    is_paragraph_start_line,
+    is_setext_underline,
+)
 from .atx_heading import split_atx_heading
 from .blank_line import split_blank_line
 from .block_quote import split_block_quote
@@ -28,6 +32,8 @@ def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> b
     Returns:
         True if the first line would continue the paragraph. False otherwise.
     """
+    if is_empty_list_entry_line(lines[0]) and not is_setext_underline(lines[0]):
+        return True
     for splitter in [
         split_atx_heading,
         split_blank_line,
diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index edfb4c4..c10cfe4 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -103,6 +103,14 @@ def _dedent_entries(list_entries: List[List[str]]) -> List[List[str]]:
     return dedented_entries
 
 
+def _indent_entry(marker: str, entry: str, indent: int) -> str:
+    """Put the marker in front of an entry and indent all but its first line"""
+    first_line, *lines = entry.split("\n")
+    indented_lines = [f"{marker} {first_line}" if first_line else marker]
+    indented_lines += [" " * indent + line if line else "" for line in lines]
+    return "\n".join(indented_lines)
+
+
 class MarkdownBulletList(MarkdownSection):
     @property
     def marker(self) -> str:
@@ -127,12 +135,9 @@ class MarkdownBulletList(MarkdownSection):
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
                 ).rstrip("\n")
-            reformatted_entry = (
-                self.marker
-                + " "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
+            reformatted_entries.append(
+                _indent_entry(self.marker, reformatted_entry, toplevel_indent)
             )
-            reformatted_entries.append(reformatted_entry)
 
         return "\n".join(reformatted_entries)
 
@@ -173,12 +178,9 @@ class MarkdownOrderedList(MarkdownSection):
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
                 ).rstrip("\n")
-            reformatted_entry = (
-                str(entry_number)
-                + ". "
-                + ("\n" + toplevel_indent * " ").join(reformatted_entry.split("\n"))
+            reformatted_entries.append(
+                _indent_entry(f"{entry_number}.", reformatted_entry, toplevel_indent)
             )
-            reformatted_entries.append(reformatted_entry)
 
         return "\n".join(reformatted_entries)
 
-- 
2.43.0


From 2c5e05068bfe0e96fbe3dcd7f677fee9cdf03fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 25/45] fix: do not write any files with --check

---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 39f0c6b..cf724ec 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -300,7 +300,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
-            if output_path != input_path:
+            if not args.check and output_path != input_path:
                 output_path.write_text(new_contents)
             files_left_unchanged += 1
 
-- 
2.43.0


From f4ab147b4267df9411029253ccece45870d52362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:43 +0000
Subject: [PATCH 26/45] fix: check that the paths to reformat can be read

---
 markflow/_argparse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index adfe12c..0adbefa 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -27,6 +27,12 @@ class ExistingPath:
             raise argparse.ArgumentTypeError(
                 f"specified path does not exist: {repr(str(path))}"
             )
+
+        for permission in self._permissions:
+            if not os.access(path, permission.os_constant):
+                raise argparse.ArgumentTypeError(
+                    f"cannot {permission.verbiage} path: {repr(str(path))}"
+                )
         return path
 
 
-- 
2.43.0


From 9bdc76a73a3fcbe23f2a12e4798f1c07cde20512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 27/45] fix: find the files of directories with special
 characters in their name

---
 markflow/_argparse.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index 0adbefa..330e902 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -128,6 +128,10 @@ class AddMarkdownFilesInDirOrPathsAction(argparse.Action):
             if value.is_file():
                 expanded_paths.append(value)
             else:
-                markdown_paths = glob.glob(str(value / "**" / "*.md"), recursive=True)
-                expanded_paths += [pathlib.Path(path) for path in markdown_paths]
+                directory = pathlib.Path(glob.escape(str(value)))
+                markdown_paths = glob.glob(
+                    str(directory / "**" / "*.md"), recursive=True
+                )
+                paths = [pathlib.Path(path) for path in markdown_paths]
+                expanded_paths += [path for path in paths if path.is_file()]
         setattr(namespace, self.dest, expanded_paths)
-- 
2.43.0


From a09d64257831162d564dff7ff71fd77b7280aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 28/45] fix: correct line endings of files that only differ in
 those

---
 markflow/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index cf724ec..0f95b93 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -277,7 +277,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-        old_contents = input_path.read_text()
+        # Keep line endings as they are so that we notice if they need to be corrected.
+        with input_path.open(newline="") as input_file:
+            old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
         except RuntimeError as runtime_error:
-- 
2.43.0


From 419404498bcdc51b95a3ad15fcaac86571edc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 29/45] fix: indent the lines of ordered list entries by the
 length of their own marker

---
 markflow/formatters/lists.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index c10cfe4..c95871b 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -178,8 +178,11 @@ class MarkdownOrderedList(MarkdownSection):
                 reformatted_entry = _reformat_markdown(
                     entry, width - toplevel_indent
                 ).rstrip("\n")
+            # Lines have to align with the text after their own entry's marker. Otherwise,
+            # we would add to the indentation of nested code.
+            marker = f"{entry_number}."
             reformatted_entries.append(
-                _indent_entry(f"{entry_number}.", reformatted_entry, toplevel_indent)
+                _indent_entry(marker, reformatted_entry, len(marker) + 1)
             )
 
         return "\n".join(reformatted_entries)
-- 
2.43.0


From 36abf5ab33152cc875e4405b061c09ee778f2de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 30/45] fix: keep hard line breaks in block quotes

---
 markflow/formatters/block_quote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 75fc340..59000a5 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -77,7 +77,9 @@ class MarkdownBlockQuote(MarkdownSection):
         # ToDo (jmholla): Issues with leading > in paragraphs will be handled by a later
         #  change.
         text = _reformat_markdown(stripped_lines, width=sub_width)
-        text = "\n".join((prefix + line).strip() for line in text.splitlines())
+        text = "\n".join(
+            prefix + line if line else prefix.rstrip() for line in text.splitlines()
+        )
 
         return text
 
-- 
2.43.0


From c14e56737f3e92954771f484b72dc99172ac32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:40 +0000
Subject: [PATCH 31/45] fix: keep thematic breaks, headings and tables inside
 of list entries

---
 markflow/detectors/bullet_list.py  | 10 ++++++----
 markflow/detectors/ordered_list.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/markflow/detectors/bullet_list.py b/markflow/detectors/bullet_list.py
index 5adc533..5ce5694 100644
--- a/markflow/detectors/bullet_list.py
+++ b/markflow/detectors/bullet_list.py
@@ -1,5 +1,6 @@
 from typing import List, Tuple
 
+from .._utils import get_indent
 from ._lines import (
     is_blank_line_line,
     is_bullet_list_start_line,
@@ -20,11 +21,12 @@ def split_bullet_list(
         return bullet_list, remaining_lines
 
     bullet_list.append(line)
+    # Lines that are indented at least this much are part of an entry.
+    entry_indent = get_indent(line) + len(line.split(maxsplit=1)[0]) + 1
     for index, line in indexed_line_generator:
-        if (
-            is_blank_line_line(line)
-            or is_table_start_line(line)
-            or is_thematic_break_line(line)
+        if is_blank_line_line(line) or (
+            get_indent(line) < entry_indent
+            and (is_table_start_line(line) or is_thematic_break_line(line))
         ):
             break
         else:
diff --git a/markflow/detectors/ordered_list.py b/markflow/detectors/ordered_list.py
index 4d63b66..bbc15bd 100644
--- a/markflow/detectors/ordered_list.py
+++ b/markflow/detectors/ordered_list.py
@@ -1,5 +1,6 @@
 from typing import List, Tuple
 
+from .._utils import get_indent
 from ._lines import (
     is_blank_line_line,
     is_ordered_list_start_line,
@@ -20,11 +21,12 @@ def split_ordered_list(
         return ordered_list, remaining_lines
 
     ordered_list.append(line)
+    # Lines that are indented at least this much are part of an entry.
+    entry_indent = get_indent(line) + len(line.split(maxsplit=1)[0]) + 1
     for index, line in indexed_line_generator:
-        if (
-            is_blank_line_line(line)
-            or is_table_start_line(line)
-            or is_thematic_break_line(line)
+        if is_blank_line_line(line) or (
+            get_indent(line) < entry_indent
+            and (is_table_start_line(line) or is_thematic_break_line(line))
         ):
             break
         else:
-- 
2.43.0


From f19831cb703bd6193ff01f8a0acec86a6884668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 32/45] fix: handle block quotes whose first line is indented
 by more than a space

---
 markflow/formatters/block_quote.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 59000a5..1fd175f 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -53,12 +53,8 @@ class MarkdownBlockQuote(MarkdownSection):
         for line in stripped_lines:
             if not line.strip():
                 continue
-            if get_indent(line) == 1:
-                has_space = True
-                break
-            elif get_indent(line) == 0:
-                has_space = False
-                break
+            has_space = get_indent(line) >= 1
+            break
         else:
             has_space = False
 
-- 
2.43.0


From b347afa67d264283d680624cde8dc5628500761e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 33/45] fix: do not treat indented code that starts with a
 fence as fenced

---
 markflow/detectors/_lines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index fcf6dcf..07b200b 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -101,6 +101,8 @@ def is_fenced_code_block_start_line(line: str) -> bool:
     Returns:
         True if the line is could open a fenced code block. False otherwise.
     """
+    if is_indented_code_block_start_line(line):
+        return False
     for fence in FENCED_CODE_BLOCK_FENCE_CHARACTERS:
         if line.strip().startswith(fence * 3):
             # If there are more backticks after the fence, this is inline code.
-- 
2.43.0


From fd389ea4d599874a7bf33ca41e0f617af037426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:40 +0000
Subject: [PATCH 34/45] fix: name the file if its format is incorrect

---
 markflow/__main__.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 0f95b93..f60a978 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -282,17 +282,15 @@ def _reformat_files(args: argparse.Namespace) -> int:
             old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
-        except RuntimeError as runtime_error:
-            if args.write_renders and isinstance(
-                runtime_error, ReformatInconsistentException
-            ):
+        except (MarkdownFormatException, RuntimeError) as error:
+            if args.write_renders and isinstance(error, ReformatInconsistentException):
                 _write_renders(input_path, output_path, args.line_length)
             # Add file information to our exception
             new_args = []
-            new_args.append(runtime_error.args[0] + f" (file: {str(input_path)})")
-            for arg in runtime_error.args[1:]:
+            new_args.append(error.args[0] + f" (file: {str(input_path)})")
+            for arg in error.args[1:]:
                 new_args.append(arg)
-            runtime_error.args = tuple(new_args)
+            error.args = tuple(new_args)
             raise
         if new_contents != old_contents:
             files_changed += 1
-- 
2.43.0


From 30ffb6783d08387fb377855033688bb4226fc598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 35/45] fix: recognise fenced code properly when splitting
 lists into entries

---
 markflow/formatters/lists.py | 46 +++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index c95871b..8c32700 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -8,6 +8,7 @@ import string
 from typing import List
 
 from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from ..detectors._lines import is_fenced_code_block_start_line
 from ..typing import Number
 from .base import MarkdownSection
 
@@ -21,7 +22,6 @@ MARKER_REGEX = re.compile(
     r")"
     r"($| )"  # End of line or space
 )
-CODE_BLOCK_FENCES = "`~"
 REPR_CONTENT_LEN = 20
 
 
@@ -58,35 +58,33 @@ def _list_marker_end_pos(line: str) -> int:
 
 
 def _split_list(lines: List[str]) -> List[List[str]]:
-    in_code_block = False
-    code_block_end = ""
+    fence = ""
+    fence_indent = 0
 
     list_entries: List[List[str]] = []
     max_indent = _list_marker_end_pos(lines[0])
     for line in lines:
-        if any(line.lstrip().startswith(f * 3) for f in CODE_BLOCK_FENCES):
-            code_block_symbol = line.lstrip()[0]
-            code_block_marker_length = len(line.lstrip()) - len(
-                line.lstrip(code_block_symbol)
-            )
-            code_block_marker = code_block_marker_length * code_block_symbol
-            if in_code_block:
-                if code_block_end == code_block_marker:
-                    in_code_block = False
-            else:
-                in_code_block = True
-                code_block_end = code_block_marker
-
-        if MARKER_REGEX.match(line) and not in_code_block:
-            line_indent = get_indent(line)
-            list_indent = _list_marker_end_pos(line)
-            if line_indent <= max_indent:
-                max_indent = list_indent
-                list_entries.append([line])
-            else:
-                list_entries[-1].append(line)
+        is_entry = bool(MARKER_REGEX.match(line)) and get_indent(line) <= max_indent
+        if fence and is_entry and get_indent(line) < fence_indent:
+            # The code ended with the entry that it is in.
+            fence = ""
+
+        if is_entry and not fence:
+            max_indent = _list_marker_end_pos(line)
+            list_entries.append([line])
         else:
             list_entries[-1].append(line)
+
+        # Fences may be on the same line as one or more markers.
+        text = line
+        while not fence and MARKER_REGEX.match(text):
+            text = text[_list_marker_end_pos(text) :]
+        text = text.strip()
+        if not fence and is_fenced_code_block_start_line(text):
+            fence = text[: len(text) - len(text.lstrip(text[0]))]
+            fence_indent = line.index(fence)
+        elif fence and text.startswith(fence) and not text.strip(fence[0]):
+            fence = ""
     return list_entries
 
 
-- 
2.43.0


From dd4e7336539858d32d239daf2a049b7726b947b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 36/45] fix: recognise indented titles of link reference
 definitions

---
 markflow/detectors/link_reference_definition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 6fa9993..ea7ee7a 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -86,7 +86,7 @@ def split_link_reference_definition(
         # Only the label and URL are on the first line
         try:
             index, line = next(indexed_line_generator)
-            title_text = line
+            title_text = line.lstrip()
         except StopIteration:
             index += 1
             title_text = ""
@@ -113,7 +113,7 @@ def split_link_reference_definition(
             # Only the URL is on the second line
             try:
                 index, line = next(indexed_line_generator)
-                title_text = line
+                title_text = line.lstrip()
             except StopIteration:
                 index += 1
                 title_text = ""
-- 
2.43.0


From eba5564b724bd54179e86b9fe9b978a1db9d722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 37/45] fix: recognise titles of link reference definitions in
 parentheses

---
 markflow/detectors/link_reference_definition.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index ea7ee7a..c1e4983 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -7,7 +7,8 @@ enclosed in brackets ([]) that serve as the label. It is followed by a colon (:)
 optional whitespace. That is then followed by a series of non-whitespace characters that
 serve as the link. This can optionally be followed by white-space and then a quotation
 (' or ") enclosed series of characters that serves as the title. Any of the optional
-whitespace may be a new line.
+whitespace may be a new line. Instead of quotation marks, titles can be enclosed in
+parentheses.
 
 Examples:
     ```
@@ -36,7 +37,8 @@ LINK_REFERENCE_DEFINITION_FIRST_ELEMENT_REGEX = re.compile(
     r"[^\]]{1,999}"  # At least one and up to 999 characters as the name
     r"\]:"  # End bracket and colon
 )
-QUOTATION_CHARACTERS = "'\""
+# The characters a title starts with, and the ones it ends with
+QUOTATION_CHARACTERS = {"'": "'", '"': '"', "(": ")"}
 
 
 def split_link_reference_definition(
@@ -128,7 +130,11 @@ def split_link_reference_definition(
         quotation_character = "NO QUOTE"
 
     if quotation_character in QUOTATION_CHARACTERS:
-        closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(quotation_character))
+        closing_regex = re.compile(
+            r"(?<!\\)(\\\\)*{}".format(
+                re.escape(QUOTATION_CHARACTERS[quotation_character])
+            )
+        )
         title_index = index
         for line_index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
-- 
2.43.0


From 2b55bd6f400fd4e3d3e154ec885bb4648292e8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 38/45] fix: recognise link reference definitions whose label
 has escaped brackets

---
 markflow/detectors/link_reference_definition.py  | 2 +-
 markflow/formatters/link_reference_definition.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index c1e4983..7dc3b1a 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -34,7 +34,7 @@ logger = logging.getLogger(__name__)
 
 LINK_REFERENCE_DEFINITION_FIRST_ELEMENT_REGEX = re.compile(
     r"\["  # Open bracket
-    r"[^\]]{1,999}"  # At least one and up to 999 characters as the name
+    r"(?:[^\]\\]|\\.){1,999}"  # At least one and up to 999 characters as the name
     r"\]:"  # End bracket and colon
 )
 # The characters a title starts with, and the ones it ends with
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 8bd283a..f811fcc 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -36,7 +36,7 @@ POST_COLON_SPACE_REGEX = re.compile(r":\s+")
 REPR_CONTENT_LEN = 20
 LINK_REFERENCE_DEFINITION_REGEX = re.compile(
     r"\["
-    r"(?P<name>[^\]]{1,999})"
+    r"(?P<name>(?:[^\]\\]|\\.){1,999})"
     r"\]:"
     r"\s*"
     r"(?P<link>[^\s]*)"
@@ -82,7 +82,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         # The text of the line with the link after the label, if that's on it
-        link_line = self.lines[0].split("]:", maxsplit=1)[1]
+        link_line = self.lines[0].split(f"[{self.name}]:", maxsplit=1)[1]
         str_ = f"[{self.name}]:"
         if not self.link:
             return str_
-- 
2.43.0


From 9487e35c54578d78a1dc6d605bd87a6d92f292af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 39/45] fix: keep the space between two links

---
 markflow/_utils/textwrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 18a0b66..b92ebde 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -173,7 +173,9 @@ def link_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(False)
+                # ToDo: A space in front of the text of a footnote is still dropped.
+                is_link = "](" in match.group() or match.group().startswith("[")
+                leading_spaces.append(is_link and non_link_text.startswith(" "))
 
         leading_spaces.append(False)
         if "](" in match.group():
-- 
2.43.0


From e52e266803bf8b0be95e0076347179e01849e687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 40/45] fix: keep white space at the end of link texts

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index b92ebde..e5a85a9 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -180,11 +180,11 @@ def link_split(
         leading_spaces.append(False)
         if "](" in match.group():
             split_link = match.group().split("](", maxsplit=1)
-            split_text.append(split_link[0].strip() + "](")
+            split_text.append(split_link[0] + "](")
             split_text.append(split_link[1].strip())
         else:
             split_link = match.group().split("][", maxsplit=1)
-            split_text.append(split_link[0].strip() + "][")
+            split_text.append(split_link[0] + "][")
             split_text.append(split_link[1].strip())
 
         # Don't modify our hyperlink
-- 
2.43.0


From 82b913b12b50c92925d786a018f9999009625c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 41/45] fix: do not parse block quotes that nothing could
 continue

Every level of nesting doubled the time that formatting took, so that a line with
twenty quote markers took most of a minute.
---
 markflow/detectors/block_quote.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index 8768e52..0424ace 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -135,6 +135,11 @@ def split_block_quote(
             block_quote += [remaining_lines[0]]
             remaining_lines = remaining_lines[1:]
 
+        # Parsing the block quote is expensive, particularly if it contains others, so we
+        # only do so if there is anything that could continue it.
+        if not remaining_lines:
+            break
+
         check_for_continuation = _block_quote_ends_with_paragraph(block_quote)
 
         if check_for_continuation:
-- 
2.43.0


From e62df4ddc624ac7e07bbfd678362065926d205ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 42/45] fix: keep the indentation of lazy lines of block quotes

---
 markflow/formatters/block_quote.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 1fd175f..c488a20 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -44,7 +44,8 @@ class MarkdownBlockQuote(MarkdownSection):
                 depth = len(spaceless_string) - len(spaceless_string.lstrip(">"))
                 fully_quoted_lines.append(line)
             else:
-                fully_quoted_lines.append((">" * depth) + line)
+                # The space keeps the indentation of lines whose quote has one.
+                fully_quoted_lines.append((">" * depth) + " " + line)
 
         stripped_lines: List[str] = []
         for line in fully_quoted_lines:
-- 
2.43.0


From 21136e6b3e090fb06ae31c2e9220e4b058e0e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 43/45] fix: end lines only where Markdown ends them

---
 markflow/_utils/_utils.py                        | 11 ++++++++++-
 markflow/_utils/textwrap.py                      |  4 +++-
 markflow/formatters/block_quote.py               |  4 ++--
 markflow/formatters/link_reference_definition.py |  6 +++---
 markflow/formatters/setext_heading.py            |  4 ++--
 markflow/reformat_markdown.py                    |  3 ++-
 6 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 4aec769..6dbee5c 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -1,9 +1,10 @@
 import contextlib
 import logging
-from typing import Iterator
+from typing import Iterator, List
 
 __all__ = [
     "get_indent",
+    "split_lines",
     "truncate_str",
     "redirect_info_logs_to_debug",
 ]
@@ -15,6 +16,14 @@ def get_indent(line: str) -> int:
     return len(line) - len(line.lstrip())
 
 
+def split_lines(text: str) -> List[str]:
+    """Split text at the line endings of Markdown, which are fewer than Python's"""
+    lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
+    if not lines[-1]:
+        lines.pop()
+    return lines
+
+
 def truncate_str(str_: str, length: int) -> str:
     if len(str_) <= length:
         pass
diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index e5a85a9..2ec31b7 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -3,6 +3,8 @@ from typing import List, Tuple
 
 from markflow.typing import Number
 
+from ._utils import split_lines
+
 INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
@@ -267,7 +269,7 @@ def space_split(
 
 def wrap(text: str, width: Number) -> str:
     # TODO: Should wrap be modifying the input. Maybe assert there's no newlines?
-    lines = text.splitlines()
+    lines = split_lines(text)
     text = " ".join([line.strip() for line in lines])
 
     split_text: List[str] = [text]
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index c488a20..faac7f0 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -2,7 +2,7 @@ import logging
 import re
 from typing import List
 
-from .._utils import get_indent, redirect_info_logs_to_debug, truncate_str
+from .._utils import get_indent, redirect_info_logs_to_debug, split_lines, truncate_str
 from ..detectors._lines import is_explicit_block_quote_line
 from ..typing import Number
 from .base import MarkdownSection
@@ -75,7 +75,7 @@ class MarkdownBlockQuote(MarkdownSection):
         #  change.
         text = _reformat_markdown(stripped_lines, width=sub_width)
         text = "\n".join(
-            prefix + line if line else prefix.rstrip() for line in text.splitlines()
+            prefix + line if line else prefix.rstrip() for line in split_lines(text)
         )
 
         return text
diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index f811fcc..6e39f41 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -25,7 +25,7 @@ https://spec.commonmark.org/0.29/#link-label
 
 import re
 
-from .._utils import truncate_str
+from .._utils import split_lines, truncate_str
 from .._utils.textwrap import wrap
 from ..typing import Number
 from .base import MarkdownSection
@@ -101,8 +101,8 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         # overflow lines (the label and url portions).
         if len(link_line.split()) > 1:
             # Our title was on the line with our link
-            if len(title.split()[0]) + len(str_.splitlines()[-1]) <= width:
-                lines = str_.splitlines()
+            if len(title.split()[0]) + len(split_lines(str_)[-1]) <= width:
+                lines = split_lines(str_)
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
                 str_ += "\n" + wrap(title, width)
diff --git a/markflow/formatters/setext_heading.py b/markflow/formatters/setext_heading.py
index 4581361..8cb289c 100644
--- a/markflow/formatters/setext_heading.py
+++ b/markflow/formatters/setext_heading.py
@@ -24,7 +24,7 @@ blank line is needed between them.
 https://spec.commonmark.org/0.29/#setext-headings
 """
 
-from .._utils import truncate_str
+from .._utils import split_lines, truncate_str
 from .._utils.textwrap import wrap
 from ..typing import Number
 from .base import MarkdownSection
@@ -56,7 +56,7 @@ class MarkdownSetextHeading(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         heading_str = wrap(self.content, width)
-        heading_len = max(len(line) for line in heading_str.splitlines())
+        heading_len = max(len(line) for line in split_lines(heading_str))
         return heading_str + "\n" + self.char * heading_len
 
     def __repr__(self) -> str:
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 710d5a5..e11bfd7 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -1,6 +1,7 @@
 import logging
 from typing import Dict, Type
 
+from ._utils import split_lines
 from .exceptions import ReformatInconsistentException
 from .formatters import (
     MarkdownATXHeading,
@@ -42,7 +43,7 @@ FORMATTERS: Dict[MarkdownSectionEnum, Type[MarkdownSection]] = {
 
 
 def _reformat_markdown_text(text: str, width: Number = 88, line_index: int = 0) -> str:
-    sections = parse_markdown(text.splitlines())
+    sections = parse_markdown(split_lines(text))
 
     formatters = []
     last_section_type = MarkdownSectionEnum.INVALID
-- 
2.43.0


From 0aebed50fea6c0797601f2f907a7cf4425fee211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 44/45] fix: notice all white space around code, links and line
 breaks

---
 markflow/_utils/textwrap.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 2ec31b7..a098a79 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -71,7 +71,7 @@ def code_split(
                 if not leading_spaces:
                     leading_spaces.append(leading_space)
                 else:
-                    leading_spaces.append(plaintext.startswith(" "))
+                    leading_spaces.append(plaintext[:1].isspace())
                 split_text.append(plaintext.strip())
                 evaluates.append(True)
             open_marker_len = len(code_marker.group())
@@ -80,7 +80,7 @@ def code_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(plaintext.endswith(" "))
+                leading_spaces.append(plaintext[-1:].isspace())
             evaluates.append(False)
             split_text.append("`" * open_marker_len)
         elif len(code_marker.group()) == open_marker_len:
@@ -114,7 +114,7 @@ def code_split(
             if last_end == 0:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(remaining_text.startswith(" "))
+                leading_spaces.append(remaining_text[:1].isspace())
             evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
@@ -167,9 +167,9 @@ def link_split(
             if not leading_spaces:
                 leading_spaces.append(leading_space)
             else:
-                leading_spaces.append(non_link_text.startswith(" "))
+                leading_spaces.append(non_link_text[:1].isspace())
 
-            leading_spaces.append(text[match.start() - 1] == " ")
+            leading_spaces.append(text[match.start() - 1].isspace())
             evaluates.append(True)
         else:
             if not leading_spaces:
@@ -177,7 +177,7 @@ def link_split(
             else:
                 # ToDo: A space in front of the text of a footnote is still dropped.
                 is_link = "](" in match.group() or match.group().startswith("[")
-                leading_spaces.append(is_link and non_link_text.startswith(" "))
+                leading_spaces.append(is_link and non_link_text[:1].isspace())
 
         leading_spaces.append(False)
         if "](" in match.group():
@@ -206,7 +206,7 @@ def link_split(
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(remaining_text.startswith(" "))
+            leading_spaces.append(remaining_text[:1].isspace())
         evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
@@ -226,12 +226,12 @@ def newline_split(
         if not leading_spaces:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(text[last_end] == " ")
+            leading_spaces.append(text[last_end].isspace())
 
         if non_newline_text.strip():
             split_text.append(non_newline_text.strip())
             evaluates.append(True)
-            leading_spaces.append(non_newline_text.endswith(" "))
+            leading_spaces.append(non_newline_text[-1:].isspace())
 
         split_text.append(match.group())
         evaluates.append(False)
@@ -242,7 +242,7 @@ def newline_split(
         if last_end == 0:
             leading_spaces.append(leading_space)
         else:
-            leading_spaces.append(text[last_end:].startswith(" "))
+            leading_spaces.append(text[last_end:][:1].isspace())
         evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
-- 
2.43.0


From d8c549d50e6899dadcc837b78588c18835a97d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:09 +0000
Subject: [PATCH 45/45] fix: keep text that would start a section off the start
 of lines

---
 markflow/_utils/textwrap.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index a098a79..340b2b2 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -8,19 +8,32 @@ from ._utils import split_lines
 INLINE_CODE_MARKER_REGEX = re.compile(r"(((?!<\\)`)+)")
 FOOTNOTE_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\[[^\]]+\][^\s\[\(]*")
 HTML_NEWLINE_REGEX = re.compile(r"<br ?/?>")
+# Text that would begin another section if it were at the start of a line, or that might
+# be taken for an underline or a thematic break.
+SECTION_START_REGEX = re.compile(
+    r"[#>|]|<[!?]|~~~|`{3,}[^`]*$|([0-9]+[.)]|[+]|[*]+|-+|_+|=+)( |$)"
+)
+# Text that might be a thematic break or an underline if it were all of a line.
+RULE_REGEX = re.compile(r"[*]+( [*]+)*|-+( -+)*|_+( _+)*|=+( =+)*")
 URL_REGEX = re.compile(r"[^\s\]\)]*\[[^\[]+\]\([^\)]+\)[^\s\[\(]*")
 
 
 def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> str:
     # Lines may only be broken where there was a space, inside of a link in front of its
-    # target, and after an HTML new line. Any other text has to stay together.
+    # target, and after an HTML new line. Any other text has to stay together, and so does
+    # text that would mean something else in a line of its own.
     words: List[Tuple[str, bool, bool]] = []
     for text, leading_space in zip(split_text, leading_spaces):
         ends_line = bool(HTML_NEWLINE_REGEX.match(text))
-        if words and not leading_space:
+        if words:
             last_word, last_leading_space, last_ends_line = words[-1]
-            if not last_ends_line and not last_word.endswith(("](", "][")):
-                words[-1] = (last_word + text, last_leading_space, ends_line)
+            if (
+                not (leading_space or last_ends_line or last_word.endswith(("](", "][")))
+                or SECTION_START_REGEX.match(text)
+                or RULE_REGEX.fullmatch(last_word)
+            ):
+                separator = " " if leading_space else ""
+                words[-1] = (last_word + separator + text, last_leading_space, ends_line)
                 continue
         words.append((text, leading_space, ends_line))
 
-- 
2.43.0

