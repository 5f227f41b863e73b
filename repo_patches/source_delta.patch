From 65f8ae9a8ec4d4d728419f8b179ea912cd0e4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:46 +0000
Subject: [PATCH 01/50] fix: accept fulltext sources that have an XML encoding
 declaration

lxml rejects unicode strings with an encoding declaration, every such
training file failed to be processed.
---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 9c76fed..10117c3 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -221,7 +221,8 @@ class FixingHtmlParser(HTMLParser):
 def get_fixed_xml_str(xml_str: str) -> str:
     try:
         # return passed in xml if it is valid
-        etree.fromstring(xml_str)
+        # (using bytes because strings with an encoding declaration are rejected by lxml)
+        etree.fromstring(xml_str.encode('utf-8'))
         LOGGER.debug('passed in xml is valid, returning as is')
         return xml_str
     except etree.XMLSyntaxError:
-- 
2.43.0


From a4cb4e8977ada7c98c8f0f8a361a341c7bac9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:25 +0000
Subject: [PATCH 02/50] fix: recognise and write line breaks in the namespace
 of the document

In namespaced training files (references, affiliation-address) lb elements
were not recognised, the line break was lost and words joined.
---
 .../structured_document/grobid_training_tei.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 42754dc..efea47c 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -297,7 +297,7 @@ def _iter_extract_lines_from_element(
     LOGGER.debug('current_path: %s', current_path)
 
     for child_element in parent_element:
-        if child_element.tag == TeiTagNames.LB:
+        if etree.QName(child_element).localname == TeiTagNames.LB:
             yield line_buffer.flush()
 
         child_path = current_path + [_node_to_tag_expression(child_element)]
@@ -447,11 +447,12 @@ def _lines_to_tei(
     if tag_to_tei_path_mapping is None:
         tag_to_tei_path_mapping = {}
     writer = XmlTreeWriter(parent)
+    lb_tag = etree.QName(etree.QName(parent).namespace, TeiTagNames.LB).text
     pending_space_tokens = []
     pending_reset_tag_values = set()
     for line_index, line in enumerate(lines):
         if line_index:
-            writer.append(E(TeiTagNames.LB))
+            writer.append(E(lb_tag))
         for token in line.tokens:
             main_full_tag = token.attrib.get(TAG_ATTRIB_NAME)
             if not main_full_tag:
-- 
2.43.0


From 1d99f70b922cc1ca3b91cba6268c0e148899ce3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:46 +0000
Subject: [PATCH 03/50] fix: do not repeat previous lines when removing
 untagged tokens

---
 .../structured_document/grobid_training_tei.py                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index efea47c..3ced0c7 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -721,6 +721,7 @@ class GrobidTrainingTeiStructuredDocument(AbstractStructuredDocument):
                 current_result_line_tokens.append(token)
             if current_result_line_tokens:
                 updated_lines.append(TeiLine(current_result_line_tokens))
+                current_result_line_tokens = []
         self._lines = updated_lines
 
     def __repr__(self):
-- 
2.43.0


From c8cc6c3ead651652fd25e02f0d483bba82d79717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:05 +0000
Subject: [PATCH 04/50] fix: keep the attributes and the following text of the
 container node

Attributes such as xml:lang were dropped and text following the container
was moved into it.
---
 .../structured_document/grobid_training_tei.py       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 3ced0c7..f9eda78 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -283,7 +283,8 @@ def _iter_extract_lines_from_element(
         current_path: List[str],
         root_paths: Set[str],
         parent_tagged_path: List[str] = None,
-        begin_tag: bool = True) -> Iterable[TeiLine]:
+        begin_tag: bool = True,
+        include_tail: bool = True) -> Iterable[TeiLine]:
     previous_tag = line_buffer.next_tag
     current_tag = '/'.join(current_path) if current_path else None
     if has_direct_text(parent_element) or current_tag in root_paths:
@@ -314,7 +315,8 @@ def _iter_extract_lines_from_element(
         line_buffer.reset_next_tag()
     else:
         line_buffer.reset_next_sub_tag()
-    line_buffer.append_text(parent_element.tail)
+    if include_tail:
+        line_buffer.append_text(parent_element.tail)
 
 
 def _iter_extract_lines_from_container_elements(
@@ -325,7 +327,7 @@ def _iter_extract_lines_from_container_elements(
 
     for container_element in container_elements:
         lines = _iter_extract_lines_from_element(
-            container_element, line_buffer, current_path, **kwargs
+            container_element, line_buffer, current_path, include_tail=False, **kwargs
         )
         for line in lines:
             yield line
@@ -545,7 +547,9 @@ def _updated_tei_with_lines(
         raise RuntimeError('container node path not found: %s (namespaces=%s) (has %s)' % (
             container_node_path, namespaces, list(updated_root)
         ))
-    container_node.clear()
+    container_attrib = dict(container_node.attrib)
+    container_node.clear(keep_tail=True)
+    container_node.attrib.update(container_attrib)
     _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
     return updated_root
 
-- 
2.43.0


From 9b94bc270c05dbe18e7b6f07633dd79b4fe1af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:25 +0000
Subject: [PATCH 05/50] fix: keep existing sub tags across line breaks and
 nested elements

Text following a line break or a nested element within a sub element
lost its sub tag when preserving sub tags.
---
 .../structured_document/grobid_training_tei.py    | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index f9eda78..211bc64 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -133,6 +133,7 @@ class TokenWriter:
         self.tokens = []
         self.next_tag = None
         self.next_sub_tag = None
+        self.appended_token_count = 0
 
     def reset_next_tag(self):
         self.next_tag = None
@@ -186,9 +187,11 @@ class TokenWriter:
 
     def append(self, token: TeiText):
         self.tokens.append(token)
+        self.appended_token_count += 1
 
     def extend(self, tokens: List[TeiText]):
         self.tokens.extend(tokens)
+        self.appended_token_count += len(tokens)
 
     def __len__(self):
         return len(self.tokens)
@@ -286,6 +289,8 @@ def _iter_extract_lines_from_element(
         begin_tag: bool = True,
         include_tail: bool = True) -> Iterable[TeiLine]:
     previous_tag = line_buffer.next_tag
+    previous_sub_tag = line_buffer.next_sub_tag
+    previous_token_count = line_buffer.appended_token_count
     current_tag = '/'.join(current_path) if current_path else None
     if has_direct_text(parent_element) or current_tag in root_paths:
         if not previous_tag:
@@ -313,6 +318,16 @@ def _iter_extract_lines_from_element(
 
     if not previous_tag:
         line_buffer.reset_next_tag()
+        line_buffer.reset_next_sub_tag()
+    elif previous_sub_tag:
+        # continue the sub tag we were in before this (line break or nested) element
+        line_buffer.set_next_sub_tag(
+            strip_tag_prefix(previous_sub_tag),
+            begin_tag=(
+                previous_sub_tag.startswith(B_TAG_PREFIX)
+                and line_buffer.appended_token_count == previous_token_count
+            )
+        )
     else:
         line_buffer.reset_next_sub_tag()
     if include_tail:
-- 
2.43.0


From bad173ee6a2514e8d040a670b3255915ed252cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:21 +0000
Subject: [PATCH 06/50] fix: do not share temporary source files between
 concurrently processed documents

With more than one thread the shared exit stack removed the temporary
sources of other documents while they were still in use.
---
 .../auto_annotate_figure.py                     |  8 +++-----
 .../auto_annotate_fulltext.py                   |  7 +++----
 .../auto_annotate_utils.py                      | 17 +++++++++++------
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
index 8a14e86..d08d431 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_figure.py
@@ -3,7 +3,7 @@ from __future__ import absolute_import
 import argparse
 import logging
 import os
-from contextlib import contextmanager
+from contextlib import ExitStack, contextmanager
 from tempfile import TemporaryDirectory
 from typing import Iterator, List
 
@@ -132,10 +132,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
                 self.tag_to_tei_path_mapping[field] = 'note[@type="%s"]' % field
         self.annotator_config.use_sub_annotations = True
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
index 97bb52e..a12f682 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_fulltext.py
@@ -2,6 +2,7 @@ from __future__ import absolute_import
 
 import argparse
 import logging
+from contextlib import ExitStack
 from typing import List
 
 from .core.annotation.annotator import AbstractAnnotator, Annotator
@@ -213,10 +214,8 @@ class AnnotatePipelineFactory(AbstractAnnotatePipelineFactory):
         self.expand_to_previous_untagged_lines = opt.expand_to_previous_untagged_lines
         self.expand_to_following_untagged_lines = opt.expand_to_following_untagged_lines
 
-    def get_final_source_url(self, source_url: str) -> str:
-        final_source_url_context = get_fixed_source_url(source_url)
-        self.file_exit_stack.push(final_source_url_context)
-        return final_source_url_context.__enter__()  # pylint: disable=no-member
+    def get_final_source_url(self, source_url: str, file_exit_stack: ExitStack) -> str:
+        return file_exit_stack.enter_context(get_fixed_source_url(source_url))
 
     def get_annotator(self, source_url: str):
         target_xml_path = self.get_target_xml_for_source_file(source_url)
diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index 4666bd2..f4dbbdd 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -599,7 +599,6 @@ class AbstractAnnotatePipelineFactory(ABC):
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-        self.file_exit_stack = ExitStack()
 
     @abstractmethod
     def get_annotator(self, source_url: str):
@@ -642,17 +641,23 @@ class AbstractAnnotatePipelineFactory(ABC):
             target_annotations=target_annotations
         )
 
-    def get_final_source_url(self, source_url: str) -> str:
+    def get_final_source_url(
+            self,
+            source_url: str,
+            file_exit_stack: ExitStack) -> str:  # pylint: disable=unused-argument
         return source_url
 
     def auto_annotate(self, source_url: str):
-        with self.file_exit_stack:
-            self._auto_annotate(source_url)
+        # Note: files may be processed concurrently, the exit stack must not be shared
+        with ExitStack() as file_exit_stack:
+            self._auto_annotate(source_url, file_exit_stack=file_exit_stack)
 
-    def _auto_annotate(self, source_url: str):
+    def _auto_annotate(self, source_url: str, file_exit_stack: ExitStack):
         try:
             output_xml_path = self.get_tei_xml_output_file_for_source_file(source_url)
-            final_source_url = self.get_final_source_url(source_url)
+            final_source_url = self.get_final_source_url(
+                source_url, file_exit_stack=file_exit_stack
+            )
             annotator = self.get_annotator(final_source_url)
             annotate_structured_document(
                 final_source_url,
-- 
2.43.0


From b196b1676b71f55ee477dd11a6c67b5fef6691b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:24 +0000
Subject: [PATCH 07/50] fix: only group untagged tokens between elements of the
 same group

All untagged text following the last list item (or address field) was
labelled as part of the list (or address).
---
 .../annotation/merge_group_tags_annotator.py  | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
index b88487a..103e025 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
@@ -46,24 +46,31 @@ class MergeGroupTagsPostProcessingAnnotator(AbstractAnnotator):
         all_tokens_iterable = iter_all_tokens_excluding_space(structured_document)
         unmatched_tags = set()
         current_group_tag = None
+        # tokens following a grouped tag, they are only part of the group
+        # if they are followed by another tag of the same group
+        pending_tokens: list = []
         for token in all_tokens_iterable:
             if tag_level:
                 # if we looking at sub tags, then only consider tokens with a tag
                 if not structured_document.get_tag_or_preserved_tag(token):
                     continue
             tag = structured_document.get_tag_or_preserved_tag_value(token, level=tag_level)
-            if tag:
-                current_group_tag = self.config.get_group_tag_for_tag_fn(tag)
-                if not current_group_tag:
-                    unmatched_tags.add(tag)
+            if not tag:
+                if current_group_tag:
+                    pending_tokens.append(token)
                 continue
-            if not current_group_tag:
-                continue
-            structured_document.set_tag_only(
-                token,
-                add_tag_prefix(current_group_tag, prefix=I_TAG_PREFIX),
-                level=tag_level
-            )
-            LOGGER.debug('updated group token (%r): %s', current_group_tag, token)
+            group_tag = self.config.get_group_tag_for_tag_fn(tag)
+            if not group_tag:
+                unmatched_tags.add(tag)
+            elif group_tag == current_group_tag:
+                for pending_token in pending_tokens:
+                    structured_document.set_tag_only(
+                        pending_token,
+                        add_tag_prefix(group_tag, prefix=I_TAG_PREFIX),
+                        level=tag_level
+                    )
+                    LOGGER.debug('updated group token (%r): %s', group_tag, pending_token)
+            current_group_tag = group_tag
+            pending_tokens = []
         LOGGER.debug('ignored unmatched tags: %s', unmatched_tags)
         return structured_document
-- 
2.43.0


From 575486d611bfb86f7da4f51ff7c3bd384b862781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:08 +0000
Subject: [PATCH 08/50] fix: use document offsets for values matched in chunks

---
 sciencebeam_trainer_grobid_tools/utils/fuzzy.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
index 4596f99..5aa729f 100644
--- a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
+++ b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
@@ -392,6 +392,8 @@ def get_str_left_strided_matching_blocks_chunks(
         ):
             start_index += stride
             continue
+        # the matching blocks are relative to the window
+        matching_blocks = get_offset_matching_blocks(matching_blocks, a_offset=start_index)
         if (
             get_matching_blocks_b_gap_ratio(
                 haystack, needle, matching_blocks, isjunk=isjunk
@@ -423,7 +425,9 @@ def get_str_left_strided_matching_blocks_chunks(
                     first_chunk_matching_blocks, 1
                 )
                 remaining_needle = needle[first_chunk_needle_end:]
-                remaining_start_index = start_index + first_chunk_needle_end
+                remaining_start_index = get_matching_blocks_end_offset(
+                    first_chunk_matching_blocks, 0
+                )
             else:
                 assert last_chunk_matching_blocks
                 first_chunk_needle_start = get_required_matching_blocks_start_offset(
@@ -456,12 +460,7 @@ def get_str_left_strided_matching_blocks_chunks(
                 )
                 for remaining_matching_blocks in remaining_matching_blocks_chunks
             ]
-        if not start_index:
-            return [matching_blocks]
-        return [[
-            (ai + start_index, bi, size)
-            for ai, bi, size in matching_blocks
-        ]]
+        return [matching_blocks]
     return []
 
 
-- 
2.43.0


From 855afcb727e8fff35cd6b323c0397034d06188ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:28 +0000
Subject: [PATCH 09/50] fix: do not write field tags into segmentation files
 with --no-merge-references

---
 .../annotation/segmentation_annotator.py         | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index 940d378..9fe1424 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -146,6 +146,17 @@ def _clear_line_token_tags(
             structured_document.set_tag(token, None)
 
 
+def _replace_other_line_token_tags(
+        structured_document: AbstractStructuredDocument,
+        line,
+        tag: str):
+    assert isinstance(structured_document, GrobidTrainingTeiStructuredDocument)
+    for token in structured_document.get_all_tokens_of_line(line):
+        token_tag = structured_document.get_tag(token)
+        if token_tag and strip_tag_prefix(token_tag) != tag:
+            structured_document.set_tag(token, tag)
+
+
 def get_segmentation_tag_name_by_tag_name(
         segmentation_config: SegmentationConfig) -> Dict[str, str]:
     return {
@@ -439,6 +450,11 @@ class SegmentationAnnotator(AbstractAnnotator):
                 )
                 if not self.config.no_merge_references:
                     line.set_segmentation_tag(segmentation_tag)
+                else:
+                    # tags of individual fields are not segmentation tags
+                    _replace_other_line_token_tags(
+                        structured_document, line.line, segmentation_tag
+                    )
             elif segmentation_tag:
                 line.set_segmentation_tag(segmentation_tag)
             elif majority_tag_name is None:
-- 
2.43.0


From c1c2ca1b77f304791b92139dfcbdcb18e23b747b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:56 +0000
Subject: [PATCH 10/50] fix: do not start a new entry for ignored sub tags

---
 .../structured_document/grobid_training_tei.py                   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 211bc64..05b9db0 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -496,6 +496,7 @@ def _lines_to_tei(
                     'ignoring sub tag outside main path: %s (%s)',
                     sub_tag, sub_required_path
                 )
+                sub_prefix = None
                 sub_tag = None
                 sub_full_tag = None
                 sub_required_path = []
-- 
2.43.0


From c4e38cb95f2c479bc6e4d6b758d63368d4e883c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:49 +0000
Subject: [PATCH 11/50] fix: normalise dashes and quotes when matching sub
 annotations

---
 .../annotation/simple_matching_annotator.py              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
index 90a53ca..c57a90d 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/simple_matching_annotator.py
@@ -37,6 +37,7 @@ from sciencebeam_trainer_grobid_tools.annotation.matching_utils import (
     SequencesText,
     join_tokens_text,
     normalise_and_remove_junk_str,
+    normalise_str,
     normalise_str_or_list,
     normalise_and_remove_junk_str_or_list
 )
@@ -526,14 +527,16 @@ class SimpleMatchingAnnotator(AbstractAnnotator):
         LOGGER.debug('processing sub annotations: %s', sub_annotations)
         tokens = list(text.iter_tokens_between(index_range))
         LOGGER.debug('sub_tokens: %s', tokens)
-        sub_text = SequencesText([SequenceWrapper(structured_document, tokens)])
-        sub_text_str = str(sub_text).lower()
+        sub_text = SequencesText([SequenceWrapper(
+            structured_document, tokens, str_filter_f=normalise_str
+        )])
+        sub_text_str = str(sub_text)
         LOGGER.debug('sub_text_str: %r', sub_text_str)
         for sub_annotation in sub_annotations:
             sub_tag_name = sub_annotation.name
             target_value = sub_annotation.value
             assert not isinstance(target_value, list), 'list sub annotation values not supported'
-            target_value = target_value.lower()
+            target_value = normalise_str(target_value)
             sub_index_ranges_iterable = iter_fuzzy_search_all_index_ranges(
                 sub_text_str, target_value,
                 threshold=self.config.threshold,
-- 
2.43.0


From 009f798516c5bbabfcd09ee211bd957af68569fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:29 +0000
Subject: [PATCH 12/50] fix: prefer a single match over a match in chunks

---
 sciencebeam_trainer_grobid_tools/utils/fuzzy.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
index 5aa729f..068af68 100644
--- a/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
+++ b/sciencebeam_trainer_grobid_tools/utils/fuzzy.py
@@ -378,6 +378,20 @@ def get_str_left_strided_matching_blocks_chunks(
     LocalSequenceMatcher scales quadratically (O(n*m) with n=haystack length and m=needle length)
     By using a window, we are limiting the memory usage and stop early if we found a match.
     """
+    if max_chunks > 1:
+        # prefer a single match, which may be in a later window
+        single_matching_blocks_chunks = get_str_left_strided_matching_blocks_chunks(
+            haystack=haystack,
+            needle=needle,
+            max_length=max_length,
+            stride=stride,
+            threshold=threshold,
+            isjunk=isjunk,
+            max_chunks=1,
+            start_index=start_index
+        )
+        if single_matching_blocks_chunks:
+            return single_matching_blocks_chunks
     max_offset = stride
     while start_index < len(haystack):
         LOGGER.debug('start_index: %d, threshold: %.3f', start_index, threshold)
-- 
2.43.0


From 3068e06914744ab945567366a70f952cab0b7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:04 +0000
Subject: [PATCH 13/50] fix: do not group sub tags across separate affiliations

---
 .../annotation/merge_group_tags_annotator.py  | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
index 103e025..6273673 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/merge_group_tags_annotator.py
@@ -7,6 +7,8 @@ from sciencebeam_trainer_grobid_tools.core.annotation.annotator import (
 
 from sciencebeam_trainer_grobid_tools.core.structured_document import (
     add_tag_prefix,
+    split_tag_prefix,
+    B_TAG_PREFIX,
     I_TAG_PREFIX
 )
 
@@ -16,7 +18,7 @@ from sciencebeam_trainer_grobid_tools.structured_document.grobid_training_tei im
 )
 
 from sciencebeam_trainer_grobid_tools.structured_document.utils import (
-    iter_all_tokens_excluding_space
+    iter_all_tokens_including_space
 )
 
 
@@ -43,17 +45,28 @@ class MergeGroupTagsPostProcessingAnnotator(AbstractAnnotator):
         # As a workaround we are adding the a separate parent tag, to the tokens without tag.
         # That way those tokens will share a common parent element in the output.
         tag_level = self.config.tag_level
-        all_tokens_iterable = iter_all_tokens_excluding_space(structured_document)
+        all_tokens_iterable = iter_all_tokens_including_space(structured_document)
         unmatched_tags = set()
         current_group_tag = None
         # tokens following a grouped tag, they are only part of the group
         # if they are followed by another tag of the same group
         pending_tokens: list = []
+        current_main_tag = None
         for token in all_tokens_iterable:
             if tag_level:
+                # sub tags of separate elements are never part of the same group
+                main_prefix, main_tag = split_tag_prefix(
+                    structured_document.get_tag_or_preserved_tag(token)
+                )
+                if main_prefix == B_TAG_PREFIX or (main_tag and main_tag != current_main_tag):
+                    current_group_tag = None
+                    pending_tokens = []
+                    current_main_tag = main_tag
                 # if we looking at sub tags, then only consider tokens with a tag
-                if not structured_document.get_tag_or_preserved_tag(token):
+                if not main_tag:
                     continue
+            if not structured_document.get_text(token).strip():
+                continue
             tag = structured_document.get_tag_or_preserved_tag_value(token, level=tag_level)
             if not tag:
                 if current_group_tag:
-- 
2.43.0


From 3e748291414eb96c5aeac4795ab0226a888552e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:07 +0000
Subject: [PATCH 14/50] fix: keep the line break at the very end of a document

---
 .../grobid_training_tei.py                    | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 05b9db0..3e09b4b 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -460,7 +460,8 @@ class XmlTreeWriter:
 def _lines_to_tei(
         parent: etree.Element,
         lines: List[TeiLine],
-        tag_to_tei_path_mapping: Dict[str, str] = None):
+        tag_to_tei_path_mapping: Dict[str, str] = None,
+        ends_with_line_break: bool = False):
     if tag_to_tei_path_mapping is None:
         tag_to_tei_path_mapping = {}
     writer = XmlTreeWriter(parent)
@@ -542,6 +543,9 @@ def _lines_to_tei(
             writer.require_path(required_path, token=token)
             writer.append_text(token.text)
 
+    if ends_with_line_break:
+        writer.append(E(lb_tag))
+
     for pending_space_token in pending_space_tokens:
         writer.require_path_or_below([], token=pending_space_token)
         writer.append_text(pending_space_token.text)
@@ -550,6 +554,16 @@ def _lines_to_tei(
     return parent
 
 
+def _is_ending_with_line_break(element: etree.Element) -> bool:
+    last_child = _get_last_child_or_none(element)
+    if last_child is None or last_child.tail:
+        return False
+    return (
+        etree.QName(last_child).localname == TeiTagNames.LB
+        or _is_ending_with_line_break(last_child)
+    )
+
+
 def _updated_tei_with_lines(
         original_root: etree.Element,
         lines: list,
@@ -564,9 +578,14 @@ def _updated_tei_with_lines(
             container_node_path, namespaces, list(updated_root)
         ))
     container_attrib = dict(container_node.attrib)
+    # a line break at the very end is not followed by another line
+    ends_with_line_break = _is_ending_with_line_break(container_node)
     container_node.clear(keep_tail=True)
     container_node.attrib.update(container_attrib)
-    _lines_to_tei(container_node, lines, tag_to_tei_path_mapping)
+    _lines_to_tei(
+        container_node, lines, tag_to_tei_path_mapping,
+        ends_with_line_break=ends_with_line_break
+    )
     return updated_root
 
 
-- 
2.43.0


From 3765914c78f6d72e233c2df509226c7e6b717c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:21 +0000
Subject: [PATCH 15/50] fix: write output files under their final name only
 when complete

An interrupted or failing write left a partial (or empty) output file behind,
which --resume then skipped as if the document had been processed.
---
 .../structured_document/grobid_training_tei.py      | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
index 3e09b4b..4344ecb 100644
--- a/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
+++ b/sciencebeam_trainer_grobid_tools/structured_document/grobid_training_tei.py
@@ -13,6 +13,8 @@ from lxml import etree
 from lxml.builder import E
 
 from sciencebeam_utils.beam_utils.io import (
+    basename,
+    dirname,
     save_file_content
 )
 
@@ -783,4 +785,13 @@ def save_grobid_training_tei_structured_document(
         xml = etree.tostring(grobid_training_tei_structured_document.root)
     except Exception as e:
         raise RuntimeError('failed to convert to xml for %s due to %s' % (filename, e)) from e
-    save_file_content(filename, xml)
+    # only use the final name once the file is complete,
+    # because existing output files will be skipped when resuming
+    temp_filename = FileSystems.join(dirname(filename), '.part-' + basename(filename))
+    try:
+        save_file_content(temp_filename, xml)
+        FileSystems.rename([temp_filename], [filename])
+    except Exception:
+        if FileSystems.exists(temp_filename):
+            FileSystems.delete([temp_filename])
+        raise
-- 
2.43.0


From ab56e170f4160fff4367e285c6340691be3472a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:22 +0000
Subject: [PATCH 16/50] fix: parse --min-line-number-ratio as a number

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index f4dbbdd..d67ee07 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -237,7 +237,7 @@ def add_annotation_pipeline_arguments(
         ])
     )
     line_no_group.add_argument(
-        '--min-line-number-ratio', type=str,
+        '--min-line-number-ratio', type=float,
         default=DEFAULT_LINE_NUMBER_RATIO_THRESHOLD,
         help=' '.join([
             'minimum ratio of line number candidates vs non-line number tokens',
-- 
2.43.0


From 3764a8bfc59eb8215902194233b69e2f23b2ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:22 +0000
Subject: [PATCH 17/50] fix: pass --max-line-number-gap on to the line number
 annotator

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index d67ee07..d5a93c2 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -596,6 +596,7 @@ class AbstractAnnotatePipelineFactory(ABC):
             use_line_number_annotator=opt.use_line_number_annotator,
             line_number_annotator_config=TextLineNumberAnnotatorConfig(
                 min_line_number=opt.min_line_numbers_per_page,
+                max_line_number_gap=opt.max_line_number_gap,
                 line_number_ratio_threshold=opt.min_line_number_ratio,
             )
         )
-- 
2.43.0


From bb5bf8d3fb3d37d70eed58b139edc624c629dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:15 +0000
Subject: [PATCH 18/50] fix: do not turn numbered lines of one word into line
 numbers (segmentation)

---
 .../annotation/segmentation_annotator.py                     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index 9fe1424..b73647f 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -46,6 +46,7 @@ class SegmentationTagNames:
     FRONT = 'front'
     PAGE = 'page'
     HEADNOTE = 'headnote'
+    LINE_NO = 'line_no'
     BODY = 'body'
     REFERENCE = 'reference'
     ANNEX = 'annex'
@@ -430,6 +431,10 @@ class SegmentationAnnotator(AbstractAnnotator):
         for line in segmentation_lines.lines:
             full_line_token_tags = line.get_line_token_tags()
             line_token_tags = _to_tag_values(full_line_token_tags)
+            # a line number only determines the region of a line without any other text
+            line_token_tags = [
+                tag for tag in line_token_tags if tag != SegmentationTagNames.LINE_NO
+            ] or line_token_tags
             line_tag_counts = Counter(line_token_tags)
             if not line_tag_counts:
                 continue
-- 
2.43.0


From b14fbcde92afa3e4cbd68c5529b45e6188171076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:41 +0000
Subject: [PATCH 19/50] fix: do not turn lines of other regions into running
 heads (segmentation)

---
 .../annotation/segmentation_annotator.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index b73647f..12b1be5 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -357,7 +357,7 @@ def find_and_tag_page_headers(
         if min_count is None:
             min_count = max(2, count - 1)
         LOGGER.debug('setting page header (headnote) for line(s): %r (%d)', text, count)
-        for line in segmentation_lines:
+        for line in segmentation_lines.iter_untagged():
             if line.text == text:
                 line.set_segmentation_tag(SegmentationTagNames.HEADNOTE)
 
-- 
2.43.0


From c595bed701ab16dae6558f422a1bafd8fcb3d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:37 +0000
Subject: [PATCH 20/50] fix: recognise existing page numbers of segmentation
 files

---
 .../annotation/segmentation_annotator.py                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
index 12b1be5..d06c137 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/segmentation_annotator.py
@@ -134,7 +134,7 @@ def _get_line_token_tag_values(*args, **kwargs) -> List[Optional[str]]:
 def _get_line_token_tags_or_preserved_tags(
         structured_document: GrobidTrainingTeiStructuredDocument, line) -> List[str]:
     return [
-        structured_document.get_tag_or_preserved_tag(token)
+        structured_document.get_tag_or_preserved_tag_value(token)
         for token in structured_document.get_tokens_of_line(line)
     ]
 
-- 
2.43.0


From 8d53bfff3f4d1bcb3701375ed92cf7ae12d61e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:04 +0000
Subject: [PATCH 21/50] fix: keep text and elements around removed annotations
 of references (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f3b4917..ac27864 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -222,6 +222,10 @@ def add_text_to_tail_prefix(current: etree.Element, text: str):
 
 def replace_element_with_text(current: etree.Element, text: str):
     add_text_to_previous(current, text)
+    for child in list(current):
+        current.addprevious(child)
+    # the tail would otherwise be removed together with the element
+    add_text_to_previous(current, current.tail or '')
     current.getparent().remove(current)
 
 
-- 
2.43.0


From 7fa5f66e738ad49aa0c28f390aed031c7f9af8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:04 +0000
Subject: [PATCH 22/50] fix: keep text order when shrinking annotations with
 child elements (fix jats)

---
 .../fix_jats_xml.py                           | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index ac27864..f851066 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -242,6 +242,16 @@ def add_next_sibling_elements(element: etree.Element, new_elements: List[etree.E
         element = new_element
 
 
+def move_children_after_element(element: etree.Element):
+    children = list(element)
+    if not children:
+        return
+    tail = element.tail
+    element.tail = None
+    add_next_sibling_elements(element, children)
+    children[-1].tail = (children[-1].tail or '') + (tail or '')
+
+
 def find_re_pattern_start_end(
         text: str,
         pattern: str,
@@ -421,6 +431,9 @@ def change_annotation_to_matching_text(
     LOGGER.debug('matching: %s (%r, %s)', start_end, matching_text, find_start_end_fn.__name__)
     element.text = matching_text
     add_text_to_previous(element, text[:start])
+    if text[end:]:
+        # keep the text order: children follow the text
+        move_children_after_element(element)
     add_text_to_tail_prefix(element, text[end:])
 
 
@@ -607,7 +620,12 @@ def remove_training_comma_from_element(element: etree.Element):
 
 def fix_article_title(reference_element: etree.Element):
     change_annotations_to_matching_text(
-        reference_element.xpath(JatsXpaths.ARTICLE_TITLE),
+        [
+            element
+            for element in reference_element.xpath(JatsXpaths.ARTICLE_TITLE)
+            # the end of the text is not the end of the title if there are child elements
+            if not len(element)
+        ],
         find_start_end_fn=find_article_title_start_end
     )
     for element in reference_element.xpath(JatsXpaths.ARTICLE_TITLE):
-- 
2.43.0


From bf0df6a9443c27eb91a36f3720a8f542923a5422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:04 +0000
Subject: [PATCH 23/50] fix: keep text order when splitting links of references
 (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f851066..f1377c7 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -560,6 +560,9 @@ def fix_ext_link(reference_element: etree.Element):
             continue
         href = child_element.attrib.get(XLINK_HREF)
         hrefs = split_url(text)
+        if len(child_element):
+            # the child elements follow the text
+            continue
         # very special case where hrefs are joined by 'w'
         if not href or (href != text and href != 'w'.join(hrefs)):
             continue
@@ -567,10 +570,14 @@ def fix_ext_link(reference_element: etree.Element):
         if len(hrefs) > 1:
             child_element.text = hrefs[0]
             child_element.attrib[XLINK_HREF] = hrefs[0]
-        add_next_sibling_elements(child_element, [
+        other_elements = [
             get_jats_ext_link_element(other_href)
             for other_href in hrefs[1:]
-        ])
+        ]
+        if other_elements:
+            other_elements[-1].tail = child_element.tail
+            child_element.tail = None
+        add_next_sibling_elements(child_element, other_elements)
     change_annotations_to_matching_text(
         reference_element.xpath(JatsXpaths.EXT_LINK),
         find_start_end_fn=find_ext_link_start_end
-- 
2.43.0


From 76615e89f23b75e5c041cf09e590ad05a85c9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:04 +0000
Subject: [PATCH 24/50] fix: keep text order when annotating identifiers in
 comments (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index f1377c7..3eb1a56 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -465,7 +465,9 @@ def add_annotation_to_element_text_if_matching(
         create_element_fn(matching_text),
         tail=text[end:]
     )
-    if as_next_sibling:
+    if as_next_sibling and not len(element):
+        new_element.tail = text[end:] + (element.tail or '')
+        element.tail = None
         add_next_sibling_element(element, new_element)
     else:
         element.insert(0, new_element)
-- 
2.43.0


From a061f1019a9aedf8743e0540b57b9ef5a0de12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:05 +0000
Subject: [PATCH 25/50] fix: do not fail on or lose content of DOI elements
 without text (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 3eb1a56..8c5941c 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -652,6 +652,8 @@ def fix_doi(reference_element: etree.Element):
 def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element):
     for doi_element in reference_element.xpath(JatsXpaths.DOI):
         previous_text = get_previous_text(doi_element)
+        if not previous_text or not doi_element.text:
+            continue
         start_end = find_doi_url_prefix_valid_start_end(previous_text)
         if not start_end:
             LOGGER.debug('not matching doi url prefix: %r', previous_text)
@@ -661,13 +663,12 @@ def replace_doi_annotation_with_ext_link_if_url(reference_element: etree.Element
         doi_url = matching_doi_url_prefix + doi_element.text
         LOGGER.debug('matching doi url prefix: %s (%r)', start_end, matching_doi_url_prefix)
         set_previous_text(doi_element, previous_text[:start])
-        doi_element.getparent().replace(
-            doi_element,
-            get_jats_ext_link_element(
-                doi_url,
-                tail=doi_element.tail
-            )
+        ext_link_element = get_jats_ext_link_element(
+            doi_url,
+            tail=doi_element.tail
         )
+        ext_link_element.extend(list(doi_element))
+        doi_element.getparent().replace(doi_element, ext_link_element)
 
 
 def fix_pii(reference_element: etree.Element):
-- 
2.43.0


From bd2bca5de0ac28a05569ce098c726ccc4398304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 26/50] fix: do not take volumes and page numbers after a comma
 for a PII (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 8c5941c..4b3fe9c 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -80,7 +80,7 @@ RIGHT_BY_LEFT_QUOTE_CHAR = {
 DOI_PATTERN = r'\b(10\.\d{4,}(?:\.\d{1,})*/.+)'
 
 # https://en.wikipedia.org/wiki/Publisher_Item_Identifier
-PII_VALID_PATTERN = r'\b([S,B]\W*(?:[0-9xX]\W*){15,}[0-9xX])'
+PII_VALID_PATTERN = r'\b([SB]\W*(?:[0-9xX]\W*){15,}[0-9xX])'
 PII_OTHER_PATTERN = r'\b(?:doi\:)?(\S{5,})\s*\[pii\]'
 
 PMID_FIX_PATTERN = r'(?:PMID\s*\:\s*)?\b(\d{1,10})\b'
-- 
2.43.0


From c281afe50dd6ab2f6635c9082b4f75c4191216cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 27/50] fix: do not annotate the end of a DOI as PII (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 4b3fe9c..1d392da 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -80,7 +80,8 @@ RIGHT_BY_LEFT_QUOTE_CHAR = {
 DOI_PATTERN = r'\b(10\.\d{4,}(?:\.\d{1,})*/.+)'
 
 # https://en.wikipedia.org/wiki/Publisher_Item_Identifier
-PII_VALID_PATTERN = r'\b([SB]\W*(?:[0-9xX]\W*){15,}[0-9xX])'
+# (not if it is part of a DOI or URL)
+PII_VALID_PATTERN = r'(?<!/)\b([SB]\W*(?:[0-9xX]\W*){15,}[0-9xX])'
 PII_OTHER_PATTERN = r'\b(?:doi\:)?(\S{5,})\s*\[pii\]'
 
 PMID_FIX_PATTERN = r'(?:PMID\s*\:\s*)?\b(\d{1,10})\b'
-- 
2.43.0


From 170e25550acd75eff88b1444b82712a436aeda86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 28/50] fix: only merge DOIs with the URL prefix directly
 before them (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index 1d392da..fafeca6 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -89,7 +89,8 @@ PMID_PATTERN = r'(?:PMID\s*\:\s*)(\d{1,10})\b'
 PMCID_PATTERN = r'(PMC\d{1,})'
 WOS_PATTERN = r'(?:WOS\s*\:\s*)(\d{15,15})\b'
 
-DOI_URL_PREFIX_PATTERN = r'((?:https?\s*\:\s*/\s*/\s*)?(?:[a-z]+\s*\.\s*)?doi\s*.\s*org\s*/\s*)'
+# (directly before the DOI)
+DOI_URL_PREFIX_PATTERN = r'((?:https?\s*\:\s*/\s*/\s*)?(?:[a-z]+\s*\.\s*)?doi\s*.\s*org\s*/\s*)$'
 
 ARTICLE_TITLE_PATTERN = r'^(.*?)(\;\s*PMC\d+|\s*,\s*)?$'
 
-- 
2.43.0


From 1a37260937fc73a7b211971ebf649eb1a6f197dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 29/50] fix: right double quote belongs to left double quote in
 article titles (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index fafeca6..e5d932f 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -72,7 +72,7 @@ LEFT_QUOTE_CHARS = {'"', SpecialChars.LSQUO, SpecialChars.LDQUO}
 RIGHT_BY_LEFT_QUOTE_CHAR = {
     '"': '"',
     SpecialChars.LSQUO: SpecialChars.RSQUO,
-    SpecialChars.LDQUO: SpecialChars.RSQUO
+    SpecialChars.LDQUO: SpecialChars.RDQUO
 }
 
 
-- 
2.43.0


From 64dc68fa16b882c5ec2823233ff4bd69db01c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 30/50] fix: remove quotes and comma from article titles
 without child elements (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index e5d932f..bd6a72b 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -609,6 +609,9 @@ def remove_surrounding_quotes_from_element(element: etree.Element):
         if children and children[-1].tail:
             add_text_to_tail_prefix(element, children[-1].tail[-1:])
             children[-1].tail = children[-1].tail[:-1]
+        elif not children:
+            add_text_to_tail_prefix(element, element.text[-1:])
+            element.text = element.text[:-1]
     elif text[0] in LEFT_QUOTE_CHARS:
         right_quote_char = RIGHT_BY_LEFT_QUOTE_CHAR[text[0]]
         if right_quote_char not in text[1:] and element.text:
@@ -627,6 +630,9 @@ def remove_training_comma_from_element(element: etree.Element):
         tail_end = max(0, len(tail) + len(rstripped_text) - len(text))
         add_text_to_tail_prefix(element, tail[tail_end:])
         children[-1].tail = tail[:tail_end]
+    elif not children:
+        add_text_to_tail_prefix(element, text[len(rstripped_text):])
+        element.text = rstripped_text
 
 
 def fix_article_title(reference_element: etree.Element):
-- 
2.43.0


From b7b06fc041eed3d6a00b629536132e38d10cfe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 31/50] fix: convert newly annotated DOIs with URL prefix to
 links, too (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index bd6a72b..dcc74ef 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -789,6 +789,7 @@ def fix_reference(reference_element: etree.Element) -> etree.Element:
     add_pii_other_pub_id_annotation_if_not_present(reference_element)
     add_wos_as_other_pub_id_annotation_if_not_present(reference_element)
     add_doi_annotation_if_not_present(reference_element)
+    replace_doi_annotation_with_ext_link_if_url(reference_element)
     return reference_element
 
 
-- 
2.43.0


From bc4257ae9b16b807ff268017295d669ed3e49d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:24 +0000
Subject: [PATCH 32/50] fix: annotate identifiers following XML comments (fix
 jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index dcc74ef..dbcf13a 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -512,7 +512,8 @@ def add_annotation_to_element_if_matching(
         create_element_fn=create_element_fn
     ):
         return True
-    for child_element in element.xpath('./*'):
+    # including XML comments and processing instructions, they may be followed by text, too
+    for child_element in list(element):
         if add_annotation_to_element_tail_if_matching(
             child_element,
             find_start_end_fn=find_start_end_fn,
-- 
2.43.0


From 1b9f87bfdc03f41ab369024c4f357628e73bd1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:34 +0000
Subject: [PATCH 33/50] fix: read compressed local XML files

---
 sciencebeam_trainer_grobid_tools/utils/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/io.py b/sciencebeam_trainer_grobid_tools/utils/io.py
index b6756ad..303dac6 100644
--- a/sciencebeam_trainer_grobid_tools/utils/io.py
+++ b/sciencebeam_trainer_grobid_tools/utils/io.py
@@ -23,12 +23,15 @@ def auto_download_input_file(
     else:
         open_fn = file_url_or_open_fn
 
-    if file_url and '://' not in file_url:
+    if file_url and '://' not in file_url and not file_url.endswith('.gz'):
         yield file_url
         return
     with TemporaryDirectory(suffix='-input') as temp_dir:
         if file_url:
             temp_file = os.path.join(temp_dir, os.path.basename(file_url))
+            # FileSystems.open transparently decompresses the file
+            if temp_file.endswith('.gz'):
+                temp_file = temp_file[:-len('.gz')]
             open_fn = partial(FileSystems.open, file_url)
         else:
             temp_file = os.path.join(temp_dir, 'temp.file')
-- 
2.43.0


From f052e3c5f12754a2a24f161bd95506e751b8807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:40 +0000
Subject: [PATCH 34/50] fix: never overwrite the source, however its path is
 spelled (fix jats)

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index dbcf13a..c994bfb 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -915,7 +915,7 @@ class FixJatsProcessor:
     def process_source_file(self, source_file: str):
         try:
             output_file = self.get_output_file_for_source_file(source_file)
-            assert output_file != source_file
+            assert os.path.realpath(output_file) != os.path.realpath(source_file)
             fix_jats_xml_file(source_file, output_file, log_file_enabled=self.log_file_enabled)
         except Exception as exc:
             raise RuntimeError('failed to process %r due to %r' % (source_file, exc)) from exc
-- 
2.43.0


From 436a226c79c0c529ce97cb8b9e4ef25fe4aa75ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:46 +0000
Subject: [PATCH 35/50] fix: use the directory of the file list as the default
 base path (download)

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 1b61985..6e3cdfe 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -154,7 +154,10 @@ class FileList(object):
 
 def load_file_list_from_config(file_list_config, limit):
     return FileList(
-        base_path=file_list_config['base_path'],
+        base_path=(
+            file_list_config['base_path']
+            or os.path.dirname(file_list_config['file_list'])
+        ),
         file_list=load_file_list(
             file_list_config['file_list'],
             column=file_list_config['file_column'],
-- 
2.43.0


From fe43be986cd42281e1c72483d675993435b196ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:09 +0000
Subject: [PATCH 36/50] fix: refuse to write several files to the same output
 or over a source (download)

---
 .../download_source_files.py                  | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 6e3cdfe..97f0454 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -3,7 +3,7 @@ import logging
 import os
 from shutil import copyfileobj
 from multiprocessing.dummy import Pool as ThreadPool
-from typing import List, Tuple
+from typing import Dict, List, Tuple
 
 from apache_beam.io.filesystems import FileSystems
 
@@ -287,6 +287,20 @@ def filter_file_pair_exists(
     )
 
 
+def check_output_files(source_file_list: List[str], output_file_list: List[str]):
+    source_file_by_output_file: Dict[str, str] = {}
+    real_source_files = {os.path.realpath(source_file) for source_file in source_file_list}
+    for source_file, output_file in zip(source_file_list, output_file_list):
+        real_output_file = os.path.realpath(output_file)
+        if real_output_file in real_source_files:
+            raise ValueError('output file would overwrite source file: %r' % output_file)
+        other_source_file = source_file_by_output_file.setdefault(real_output_file, source_file)
+        if other_source_file != source_file:
+            raise ValueError('same output file %r for %r and %r' % (
+                output_file, other_source_file, source_file
+            ))
+
+
 def run(args):
     all_document_file_list = load_file_list_from_config(
         get_file_list_config(args, 'document'),
@@ -333,6 +347,11 @@ def run(args):
     LOGGER.debug('document_output_file_list: %s', document_output_file_list)
     LOGGER.debug('target_output_file_list: %s', target_output_file_list)
 
+    check_output_files(
+        document_file_list.absolute_file_list + target_file_list.absolute_file_list,
+        document_output_file_list.absolute_file_list + target_output_file_list.absolute_file_list
+    )
+
     pool = ThreadPool(args.threads)
 
     copy_files(
-- 
2.43.0


From 4da68a090a36c77884cd6ec803eb24c94d45a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:07 +0000
Subject: [PATCH 37/50] fix: keep upper case letters of element and attribute
 names when repairing XML (fulltext)

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 10117c3..52bce6a 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import re
 import xml.sax.saxutils
 from contextlib import contextmanager
 from html.parser import HTMLParser
@@ -171,13 +172,22 @@ class FixingHtmlParser(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
         LOGGER.debug('starttag: tag=%r, attrs=%s', tag, attrs)
+        # HTMLParser will convert all names to lower case
+        tag = self._get_original_name(tag)
         self.buffer.write(f'<{tag}')
         for key, value in attrs:
+            key = self._get_original_name(key)
             quoted_value = xml.sax.saxutils.quoteattr(value)
             self.buffer.write(f' {key}={quoted_value}')
         self.buffer.write('>')
         self.tag_stack.append(tag)
 
+    def _get_original_name(self, name):
+        match = re.search(
+            r'[<\s](%s)(?=[\s/>=])' % re.escape(name), self.get_starttag_text(), re.IGNORECASE
+        )
+        return match.group(1) if match else name
+
     def _close_current_element(self):
         tag = self.tag_stack.pop()
         LOGGER.debug('endtag: tag=%r', tag)
@@ -185,7 +195,7 @@ class FixingHtmlParser(HTMLParser):
 
     @property
     def _current_tag(self):
-        return self.tag_stack[-1]
+        return self.tag_stack[-1].lower()
 
     def handle_endtag(self, tag):
         if not self.tag_stack:
@@ -194,7 +204,7 @@ class FixingHtmlParser(HTMLParser):
         if tag == self._current_tag:
             self._close_current_element()
             return
-        if tag not in self.tag_stack:
+        if tag not in {open_tag.lower() for open_tag in self.tag_stack}:
             LOGGER.warning(
                 'end tag tag=%r not matching any open element, closing tag=%r',
                 tag, self._current_tag
-- 
2.43.0


From 44ab61c318f9f54be6f802cb312ba3c5c167b7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:45 +0000
Subject: [PATCH 38/50] fix: close the element an end tag belongs to when
 repairing XML with unclosed elements (fulltext)

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 52bce6a..281a85d 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -166,6 +166,7 @@ class FixingHtmlParser(HTMLParser):
         super().__init__(*args, **kwargs)
         self.buffer = StringIO()
         self.tag_stack = []
+        self.implicitly_closed_tags = []
 
     def error(self, message):
         raise RuntimeError('parser error: %r' % message)
@@ -181,6 +182,7 @@ class FixingHtmlParser(HTMLParser):
             self.buffer.write(f' {key}={quoted_value}')
         self.buffer.write('>')
         self.tag_stack.append(tag)
+        self.implicitly_closed_tags = []
 
     def _get_original_name(self, name):
         match = re.search(
@@ -204,6 +206,10 @@ class FixingHtmlParser(HTMLParser):
         if tag == self._current_tag:
             self._close_current_element()
             return
+        if tag in self.implicitly_closed_tags:
+            LOGGER.warning('end tag tag=%r of element that is already closed', tag)
+            self.implicitly_closed_tags.remove(tag)
+            return
         if tag not in {open_tag.lower() for open_tag in self.tag_stack}:
             LOGGER.warning(
                 'end tag tag=%r not matching any open element, closing tag=%r',
@@ -216,7 +222,9 @@ class FixingHtmlParser(HTMLParser):
                 'end tag tag=%r not matching immediate open element, first closing tag=%r',
                 tag, self._current_tag
             )
+            self.implicitly_closed_tags.append(self._current_tag)
             self._close_current_element()
+        self._close_current_element()
 
     def handle_data(self, data):
         LOGGER.debug('endtag: data=%r', data)
-- 
2.43.0


From 79fb6fb67d98d1ee3afb3652e1ae3336eb06b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 39/50] fix: name the unrecognised root tag and the available
 ones in the error

---
 .../annotation/target_annotation.py                             | 2 +-
 .../core/annotation/target_annotation.py                        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index 35ff79e..d57ab13 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -78,7 +78,7 @@ def is_wildcard_children_xpaths(children_xpaths: List[str]) -> bool:
 def xml_root_to_target_annotations(xml_root, xml_mapping):
     if xml_root.tag not in xml_mapping:
         raise Exception("unrecognised tag: {} (available: {})".format(
-            xml_root.tag, xml_mapping.sections())
+            xml_root.tag, list(xml_mapping.keys()))
         )
 
     mapping = xml_mapping[xml_root.tag]
diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index 9b9449a..e53e338 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -330,7 +330,7 @@ def extract_sub_annotations(parent_node, sub_xpaths, mapping, parent_key):
 def xml_root_to_target_annotations(xml_root, xml_mapping):
     if xml_root.tag not in xml_mapping:
         raise Exception("unrecognised tag: {} (available: {})".format(
-            xml_root.tag, xml_mapping.sections())
+            xml_root.tag, list(xml_mapping.keys()))
         )
 
     mapping = xml_mapping[xml_root.tag]
-- 
2.43.0


From 6fbf671a06b5c07cb3dc065622b5e12dea07233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 40/50] fix: comments inside an element do not make its parent
 contain raw text

---
 .../annotation/target_annotation.py                            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index d57ab13..1574c48 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -43,7 +43,8 @@ def contains_raw_text(element: etree.Element) -> bool:
     for child in element:
         if not is_blank(child.tail):
             return True
-        if list(child) and contains_raw_text(child):
+        # comments and processing instructions do not make an element a container
+        if list(child.iterchildren('*')) and contains_raw_text(child):
             return True
     return False
 
-- 
2.43.0


From 74b5d2affba796a8a74aab6434dcbbab3f667f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 41/50] fix: separate words of adjacent elements also after
 text with several lines

---
 .../annotation/target_annotation.py                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
index 1574c48..87feae2 100644
--- a/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/annotation/target_annotation.py
@@ -50,7 +50,7 @@ def contains_raw_text(element: etree.Element) -> bool:
 
 
 def is_ends_with_word(text: str) -> bool:
-    return re.match(r'.*\w$', text) is not None
+    return re.search(r'\w$', text) is not None
 
 
 def is_starts_with_word(text: str) -> bool:
-- 
2.43.0


From ea1afc24852f4632d4626fb1732b3a23235c3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 42/50] fix: comments are not part of the text when elements
 are ignored

---
 sciencebeam_trainer_grobid_tools/utils/xml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/utils/xml.py b/sciencebeam_trainer_grobid_tools/utils/xml.py
index 281a85d..aa3adb0 100644
--- a/sciencebeam_trainer_grobid_tools/utils/xml.py
+++ b/sciencebeam_trainer_grobid_tools/utils/xml.py
@@ -33,7 +33,8 @@ def iter_text_content_and_exclude(
     if node.text is not None:
         yield node.text
     for child in node.iterchildren():
-        if child not in exclude:
+        is_element = isinstance(child.tag, str)  # not a comment or processing instruction
+        if is_element and child not in exclude:
             yield from iter_text_content_and_exclude(child, exclude=exclude)
         if child.tail:
             yield child.tail
-- 
2.43.0


From f8d1cdbee3d6b71132c33cf9859aeea6278cd96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 43/50] fix: comments are not part of the unmatched parent text

---
 .../core/annotation/target_annotation.py                       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index e53e338..d5079cb 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -243,9 +243,10 @@ def extract_children(
                 text_values = filter_truthy(strip_all(get_immediate_text(child)))
                 text_content_list.extend(text_values)
     if unmatched_parent_text:
+        comments = parent.xpath('.//comment() | .//processing-instruction()')
         value = get_stripped_text_content(
             parent,
-            exclude=set(other_child_nodes) | used_nodes
+            exclude=set(other_child_nodes) | used_nodes | set(comments)
         ).strip()
         if value and value not in text_content_list:
             text_content_list.append(value)
-- 
2.43.0


From e35a91785e0319aa3b1dc4c4065a4184e4677d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:08 +0000
Subject: [PATCH 44/50] fix: keep the values of a range that is not ascending

---
 .../core/annotation/target_annotation.py                   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
index d5079cb..66a6e00 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/target_annotation.py
@@ -197,7 +197,10 @@ def extract_children_range(parent, children_range):
         )
         if len(temp_values) == 2:
             temp_values = strip_all(temp_values)
-            if all(s.isdigit() for s in temp_values):
+            if (
+                all(s.isdigit() for s in temp_values)
+                and int(temp_values[0]) <= int(temp_values[1])
+            ):
                 num_values = [int(s) for s in temp_values]
                 range_values = [str(x) for x in range(num_values[0], num_values[1] + 1)]
                 if range_item.get('standalone'):
@@ -206,7 +209,7 @@ def extract_children_range(parent, children_range):
                     values.extend(range_values)
                 used_nodes |= temp_used_nodes
             else:
-                get_logger().info('values not integers: %s', temp_values)
+                get_logger().info('values not an integer range: %s', temp_values)
     return values, standalone_values, used_nodes
 
 
-- 
2.43.0


From d5807ebfdd8b45fccff195b31f2c27b694bdae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:44 +0000
Subject: [PATCH 45/50] fix: keep the settings of selected sub fields

---
 sciencebeam_trainer_grobid_tools/auto_annotate_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
index d5a93c2..aaa0d6a 100644
--- a/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
+++ b/sciencebeam_trainer_grobid_tools/auto_annotate_utils.py
@@ -340,7 +340,8 @@ def get_sub_field_for_key_or_none(key: str) -> Optional[str]:
     sub_prefix = field_name + XmlMappingSuffix.SUB + '.'
     if not key.startswith(sub_prefix):
         return None
-    return key[len(sub_prefix):]
+    # the settings of a sub field (e.g. `.extract-regex`) belong to that sub field
+    return get_mapping_key_field_name(key[len(sub_prefix):])
 
 
 def is_key_selected_sub_fields_or_no_sub_field(
-- 
2.43.0


From e0fcdbe31a70101feff7d011565124a5b4fd8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:53 +0000
Subject: [PATCH 46/50] fix: do not take the end of the previous sentence as
 sub domain of a DOI URL

---
 sciencebeam_trainer_grobid_tools/fix_jats_xml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
index c994bfb..54d0c15 100644
--- a/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
+++ b/sciencebeam_trainer_grobid_tools/fix_jats_xml.py
@@ -90,7 +90,11 @@ PMCID_PATTERN = r'(PMC\d{1,})'
 WOS_PATTERN = r'(?:WOS\s*\:\s*)(\d{15,15})\b'
 
 # (directly before the DOI)
-DOI_URL_PREFIX_PATTERN = r'((?:https?\s*\:\s*/\s*/\s*)?(?:[a-z]+\s*\.\s*)?doi\s*.\s*org\s*/\s*)$'
+# without scheme, only known sub domains (otherwise it may be the end of the previous sentence)
+DOI_URL_PREFIX_PATTERN = (
+    r'((?:https?\s*\:\s*/\s*/\s*(?:[a-z]+\s*\.\s*)?|(?:(?:dx|www)\s*\.\s*)?)'
+    r'doi\s*.\s*org\s*/\s*)$'
+)
 
 ARTICLE_TITLE_PATTERN = r'^(.*?)(\;\s*PMC\d+|\s*,\s*)?$'
 
-- 
2.43.0


From 70670172b9a833f7f256548c447af13cef3493c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:33 +0000
Subject: [PATCH 47/50] fix: file names in lists of the download command are
 relative to the base path, if given

---
 sciencebeam_trainer_grobid_tools/download_source_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 97f0454..44c00c5 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -161,7 +161,8 @@ def load_file_list_from_config(file_list_config, limit):
         file_list=load_file_list(
             file_list_config['file_list'],
             column=file_list_config['file_column'],
-            limit=limit
+            limit=limit,
+            to_absolute=False  # relative to the base path (see FileList)
         )
     )
 
-- 
2.43.0


From 0a550d5e476201c2da5cb0ba9fd68d48e8cb186a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:42 +0000
Subject: [PATCH 48/50] fix: complex matcher: space between two lines is not
 part of the next line

The first word of the line after a value was labelled as part of the value,
because the joining space was taken as a match in the next line
---
 .../core/annotation/matching_annotator.py                 | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
index 539f3cb..7a7fb21 100644
--- a/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
+++ b/sciencebeam_trainer_grobid_tools/core/annotation/matching_annotator.py
@@ -411,7 +411,9 @@ class TargetAnnotationMatchFinder(object):
                 len(s1) - start_index < len(current_choice_str))
             if not tag_to_choice_match:
                 fm_combined = fuzzy_match(s1, choice_str)
-                fm, fm_next = fm_combined.b_split_at(len(current_choice_str))
+                fm, _ = fm_combined.b_split_at(len(current_choice_str))
+                # the space between the choices is not part of the next choice
+                _, fm_next = fm_combined.b_split_at(len(current_choice_str) + 1)
                 get_logger().debug(
                     'regular match: s1=%s, choice=%s, fm=%s (combined: %s)',
                     s1, choice, fm, fm_combined
@@ -455,7 +457,9 @@ class TargetAnnotationMatchFinder(object):
             else:
                 s1_sub = s1[start_index:]
                 fm_combined = fuzzy_match(choice_str, s1_sub)
-                fm, fm_next = fm_combined.a_split_at(len(current_choice_str))
+                fm, _ = fm_combined.a_split_at(len(current_choice_str))
+                # the space between the choices is not part of the next choice
+                _, fm_next = fm_combined.a_split_at(len(current_choice_str) + 1)
                 get_logger().debug(
                     'short match: s1_sub=%s, choice=%s, fm=%s (combined: %s)',
                     s1_sub, choice, fm, fm_combined
-- 
2.43.0


From 249099db435fac4b895b13a6b157f6a71ab4e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:12 +0000
Subject: [PATCH 49/50] fix: stop the threads of the download command also if
 copying fails

---
 .../download_source_files.py                  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/sciencebeam_trainer_grobid_tools/download_source_files.py b/sciencebeam_trainer_grobid_tools/download_source_files.py
index 44c00c5..3bd889d 100644
--- a/sciencebeam_trainer_grobid_tools/download_source_files.py
+++ b/sciencebeam_trainer_grobid_tools/download_source_files.py
@@ -353,22 +353,22 @@ def run(args):
         document_output_file_list.absolute_file_list + target_output_file_list.absolute_file_list
     )
 
-    pool = ThreadPool(args.threads)
-
-    copy_files(
-        document_file_list.absolute_file_list,
-        document_output_file_list.absolute_file_list,
-        pool=pool
-    )
+    # the threads are stopped, also if copying fails
+    with ThreadPool(args.threads) as pool:
+        copy_files(
+            document_file_list.absolute_file_list,
+            document_output_file_list.absolute_file_list,
+            pool=pool
+        )
 
-    copy_files(
-        target_file_list.absolute_file_list,
-        target_output_file_list.absolute_file_list,
-        pool=pool
-    )
+        copy_files(
+            target_file_list.absolute_file_list,
+            target_output_file_list.absolute_file_list,
+            pool=pool
+        )
 
-    pool.close()
-    pool.join()
+        pool.close()
+        pool.join()
 
 
 def main(argv=None):
-- 
2.43.0


From 2a45825c9b45d7632f4fa18dec83551a3a47cacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:28 +0000
Subject: [PATCH 50/50] fix: number before the label of an affiliation is not
 part of the affiliation

The prefix pattern matched the last digit of a longer number ('page 13' before
'3 Department ...'), and the whole number became part of the affiliation.
---
 config/xml-mapping.conf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/xml-mapping.conf b/config/xml-mapping.conf
index 7dedc89..fbd0a75 100644
--- a/config/xml-mapping.conf
+++ b/config/xml-mapping.conf
@@ -55,7 +55,7 @@ author_aff.merge = false
 
 # Note: some JATS XML may omit separators between the label and the other affiliation text
 #   this regular expressions is aiming to include the label as well
-author_aff.match-prefix-regex = ({author_aff-label})\s*[\.-]*\s*$
+author_aff.match-prefix-regex = (?<!\w)({author_aff-label})\s*[\.-]*\s*$
 
 email =
   front/article-meta/contrib-group/aff/email
-- 
2.43.0

