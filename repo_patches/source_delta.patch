From 5cfa2dfb8c33b99b87b9c0e925fb35718de4d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:52 +0000
Subject: [PATCH 01/72] fix: do not keep a knowledge base cache entry for
 inputs that failed to load or were modified

---
 refextract/references/kbs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index b909067..601ee95 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -22,6 +22,7 @@
 # or submit itself to any jurisdiction.
 
 import contextlib
+import copy
 import csv
 import re
 
@@ -65,8 +66,12 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
 
     for kb_type, kb in kbs.items():
         if kb != cache_inputs.get(kb_type):
-            cache_inputs[kb_type] = kb
             cache[kb_type] = load_kb_by_type(kb_type, kb)
+            # recorded only once loading succeeded, and as a snapshot, so that
+            # neither a failed load nor a later change of ``kb`` goes unnoticed
+            cache_inputs[kb_type] = (
+                copy.deepcopy(kb) if isinstance(kb, (dict, list, set, tuple)) else kb
+            )
     return cache
 
 
-- 
2.43.0


From b6b91dadcef404b0236051fcb5f6bcee70c60e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:52 +0000
Subject: [PATCH 02/72] fix: give every extraction its own view of the
 knowledge bases, also when nested or concurrent

---
 refextract/references/kbs.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 601ee95..81356ac 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -25,6 +25,7 @@ import contextlib
 import copy
 import csv
 import re
+import threading
 
 from refextract.documents.text import re_group_captured_multiple_space
 from refextract.references.config import CFG_REFEXTRACT_KBS
@@ -37,6 +38,9 @@ from refextract.references.regexs import (
 )
 
 
+KBS_LOCK = threading.RLock()
+
+
 @contextlib.contextmanager
 def file_resolving(fpath, reader=None, **kwargs):
     if isinstance(fpath, str):
@@ -64,15 +68,16 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
     if custom_kbs:
         kbs.update({kb_type: kb for (kb_type, kb) in custom_kbs.items() if kb})
 
-    for kb_type, kb in kbs.items():
-        if kb != cache_inputs.get(kb_type):
-            cache[kb_type] = load_kb_by_type(kb_type, kb)
-            # recorded only once loading succeeded, and as a snapshot, so that
-            # neither a failed load nor a later change of ``kb`` goes unnoticed
-            cache_inputs[kb_type] = (
-                copy.deepcopy(kb) if isinstance(kb, (dict, list, set, tuple)) else kb
-            )
-    return cache
+    with KBS_LOCK:
+        for kb_type, kb in kbs.items():
+            if kb != cache_inputs.get(kb_type):
+                cache[kb_type] = load_kb_by_type(kb_type, kb)
+                # recorded only once loading succeeded, and as a snapshot, so that
+                # neither a failed load nor a later change of ``kb`` goes unnoticed
+                cache_inputs[kb_type] = (
+                    copy.deepcopy(kb) if isinstance(kb, (dict, list, set, tuple)) else kb
+                )
+        return cache.copy()
 
 
 def load_kb_by_type(kb_type, kb):
-- 
2.43.0


From 1982b0a3821e218b325eb9d3621914835db6f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:52 +0000
Subject: [PATCH 03/72] fix: keep journal regexps out of the cached journals
 knowledge base

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index af892b7..be3643c 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -120,7 +120,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # Some journals need to match exact regexps because they can
     # conflict with other elements
     # e.g. DAN is also a common first name
-    standardised_titles = kbs["journals"][1]
+    standardised_titles = kbs["journals"][1].copy()
     standardised_titles.update(kbs["journals_re"])
     journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
 
-- 
2.43.0


From 39f7d4feb0a147020530edb3176e9b1aae42da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:09 +0000
Subject: [PATCH 04/72] fix: keep positions aligned when upper-casing a
 reference line changes its length

---
 refextract/references/tag.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index be3643c..154c675 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -128,7 +128,11 @@ def tag_reference_line(line, kbs, record_titles_count):
     working_line2 = strip_tags(working_line1)
 
     # Transform the line to upper-case, now making a new working line:
-    working_line2 = working_line2.upper()
+    # (characters whose upper-case form is longer are kept as they are: positions
+    # found in this line are used to read from the original one)
+    working_line2 = "".join(
+        char.upper() if len(char.upper()) == 1 else char for char in working_line2
+    )
 
     # Strip punctuation from the line:
     working_line2 = re_punctuation.sub(" ", working_line2)
-- 
2.43.0


From 31e2f52467fcacc660279a4fa2bde4a681d85ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:09 +0000
Subject: [PATCH 05/72] fix: locate journals found by regexp correctly after
 punctuation or multiple spaces

---
 refextract/references/tag.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 154c675..6859921 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -122,7 +122,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # e.g. DAN is also a common first name
     standardised_titles = kbs["journals"][1].copy()
     standardised_titles.update(kbs["journals_re"])
-    journals_matches = identifiy_journals_re(working_line1, kbs["journals_re"])
+    journals_matches_re = identifiy_journals_re(working_line1, kbs["journals_re"])
 
     # Remove identified tags
     working_line2 = strip_tags(working_line1)
@@ -143,6 +143,14 @@ def tag_reference_line(line, kbs, record_titles_count):
         working_line2
     )
 
+    # The regular expressions were matched in the line before multiple spaces
+    # were removed, translate their coordinates:
+    journals_matches = {
+        start
+        - sum(count for pos, count in removed_spaces.items() if pos < start): title
+        for start, title in journals_matches_re.items()
+    }
+
     # Identify and record coordinates of institute preprint report numbers:
     found_pprint_repnum_matchlens, found_pprint_repnum_replstr, working_line2 = (
         identify_report_numbers(working_line2, kbs["report-numbers"])
-- 
2.43.0


From 7e0a428527489e7879fb33010ed48da0c3baddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:09 +0000
Subject: [PATCH 06/72] fix: support journal regexps that do not match their
 own text

---
 refextract/references/tag.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 6859921..87aa664 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -121,8 +121,10 @@ def tag_reference_line(line, kbs, record_titles_count):
     # conflict with other elements
     # e.g. DAN is also a common first name
     standardised_titles = kbs["journals"][1].copy()
-    standardised_titles.update(kbs["journals_re"])
-    journals_matches_re = identifiy_journals_re(working_line1, kbs["journals_re"])
+    journals_matches_re, journals_titles_re = identifiy_journals_re(
+        working_line1, kbs["journals_re"]
+    )
+    standardised_titles.update(journals_titles_re)
 
     # Remove identified tags
     working_line2 = strip_tags(working_line1)
@@ -453,11 +455,13 @@ def tag_atlas_conf(line):
 
 def identifiy_journals_re(line, kb_journals):
     matches = {}
-    for pattern, _dummy_journal in kb_journals:
+    titles = {}
+    for pattern, journal in kb_journals:
         match = re.search(pattern, line)
         if match:
             matches[match.start()] = match.group(0)
-    return matches
+            titles[match.group(0)] = journal
+    return matches, titles
 
 
 def find_numeration_more(line):
-- 
2.43.0


From 93b445a1387f31cfe95f1177b961fc2d1291cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:09 +0000
Subject: [PATCH 07/72] fix: add up the totals of all reference lines in the
 statistics

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 87aa664..624a1ca 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1081,7 +1081,7 @@ def sum_2_dictionaries(dicta, dictb):
     """
     dict_out = dicta.copy()
     for key in dictb:
-        if "key" in dict_out:
+        if key in dict_out:
             # Add the sum for key in dictb to that of dict_out:
             dict_out[key] += dictb[key]
         else:
-- 
2.43.0


From bf1be5de20006ae9bac3111515446c89bde2641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 08/72] fix: do not truncate PDF files that lack an end marker
 after their header

---
 refextract/references/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 96aab19..34b9363 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1460,6 +1460,9 @@ def clean_pdf_file(filename):
             return
         end = mmfile.rfind(b"%%EOF")
         offset = len(b"%%EOF")
+        if end < start:
+            # no end marker after the PDF marker, there is no trailing junk
+            end = len(mmfile) - offset
         if start > 0:
             LOGGER.debug("moving and truncating")
             mmfile.move(0, start, end + offset - start)
-- 
2.43.0


From ab5bde68d09fde57d7f1e4b71c4db2aea9563285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 09/72] fix: report an empty file as a document of unknown type

---
 refextract/references/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 34b9363..88105f8 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -25,6 +25,7 @@
 
 import logging
 import mmap
+import os
 import re
 from datetime import datetime
 
@@ -1486,7 +1487,8 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     @return: (list) of strings - each string being a line in the document.
     """
     textbody = []
-    clean_pdf_file(fpath)
+    if os.path.getsize(fpath):
+        clean_pdf_file(fpath)
     mime_type = magic.from_file(fpath, mime=True)
 
     if mime_type == "text/plain":
-- 
2.43.0


From 6dd4ee6c903d3b817a4ed895fcdba7d2463ec314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 10/72] fix: read plain text files that are not valid UTF-8

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 88105f8..284df2e 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1492,7 +1492,7 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     mime_type = magic.from_file(fpath, mime=True)
 
     if mime_type == "text/plain":
-        with open(fpath, "r") as f:
+        with open(fpath, "r", errors="replace") as f:
             textbody = f.readlines()
     elif mime_type == "application/pdf":
         textbody = convert_PDF_to_plaintext(fpath, keep_layout)
-- 
2.43.0


From 5934f998a52d9bf93d34254a52e275fe62ea9e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 11/72] fix: accept URLs whose last part is too long for a file
 name

---
 refextract/references/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 26af485..2dd4fc4 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -81,7 +81,8 @@ def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
     """
     # Get temporary filepath to download to
     filename, filepath = mkstemp(
-        suffix="_{0}".format(os.path.basename(url)),
+        # file names are limited to 255 bytes
+        suffix="_{0}".format(os.path.basename(url)[-60:]),
     )
     os.close(filename)
 
-- 
2.43.0


From 448bf8aef23a83ca845f608233293526dde26f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 12/72] fix: do not lose an author when the next citation on
 the line has its own

---
 refextract/references/engine.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 284df2e..ea492cb 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -316,11 +316,19 @@ def postpone_last_auth(current_citation, num_auth):
     if num_auth == 0:
         return None
 
-    func = current_citation.__getitem__ if num_auth == 1 else current_citation.pop
-
-    for idx, el in enumerate(reversed(current_citation), 1):
+    for el in reversed(current_citation):
         if el["type"] == "AUTH":
-            return func(-idx)
+            return el
+
+
+def insert_postponed_auth(postponed_auth, previous_citation, current_citation):
+    current_citation.insert(0, postponed_auth)
+    if sum(el["type"] == "AUTH" for el in previous_citation) > 1:
+        # the previous citation has its own author, move this one
+        for idx, el in enumerate(previous_citation):
+            if el is postponed_auth:
+                del previous_citation[idx]
+                break
 
 
 def split_citations_iter(citation_elements):
@@ -336,6 +344,7 @@ def split_citations_iter(citation_elements):
     last_type = None
     num_auth = 0
     postponed_auth = None
+    previous_citation = None
     prev_split_reason = None
 
     for el in citation_elements:
@@ -347,11 +356,14 @@ def split_citations_iter(citation_elements):
             if postponed_auth and (
                 num_auth == 0 or prev_split_reason == "repeated field"
             ):
-                current_citation.insert(0, postponed_auth)
+                insert_postponed_auth(
+                    postponed_auth, previous_citation, current_citation
+                )
                 num_auth += 1
             postponed_auth = postpone_last_auth(current_citation, num_auth)
             yield current_citation
 
+            previous_citation = current_citation
             current_citation = []
             current_types = set()
             last_type = None
@@ -371,7 +383,7 @@ def split_citations_iter(citation_elements):
         current_types.add(last_type)
 
     if postponed_auth and (num_auth == 0 or prev_split_reason == "repeated field"):
-        current_citation.insert(0, postponed_auth)
+        insert_postponed_auth(postponed_auth, previous_citation, current_citation)
     yield current_citation
 
 
-- 
2.43.0


From ea7fad42d1e0c137be2b72f25329cb38a07fa52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:59 +0000
Subject: [PATCH 13/72] fix: do not mistake text of a reference for internal
 tags

---
 refextract/references/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index ea492cb..71ac378 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -634,6 +634,8 @@ def parse_reference_line(ref_line, kbs, bad_titles_count=None, linker_callback=N
     if bad_titles_count is None:
         bad_titles_count = {}
     line_marker, ref_line = remove_reference_line_marker(ref_line)
+    # Make sure that the tags found in the line are our own
+    ref_line = re.sub(r"<(/?cds\.)", r"< \g<1>", ref_line)
     # Find DOI sections in citation
     ref_line, identified_dois = identify_and_tag_DOI(ref_line)
     # Identify and replace URLs in the line:
-- 
2.43.0


From 906be8ac8548cba170723f0176279d2eca689afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:34 +0000
Subject: [PATCH 14/72] fix: keep what follows an arXiv number separated from
 it

---
 refextract/references/regexs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c8c4d31..bdcbf50 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -93,7 +93,7 @@ re_arxiv = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>\d{2})-?(?P<month>\d{2})
     [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d))?
-    \s*(?P<suffix>\[[A-Z.-]+\])? """,
+    (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
 
@@ -101,7 +101,7 @@ re_arxiv_5digits = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>(1[3-9]|[2-8][0-9]))-?(?P<month>(0[1-9]|1[0-2]))
     [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d))?
-    \s*(?P<suffix>\[[A-Z.-]+\])? """,
+    (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
 
@@ -283,7 +283,7 @@ re_new_arxiv = re.compile(
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
     \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d))?(?!\d)
-    \s*(?P<suffix>\[[A-Z.-]+\])? """
+    (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """
     % {"arxiv_years": arxiv_years},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -294,7 +294,7 @@ re_new_arxiv_5digits = re.compile(
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
     \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d))?(?!\d)
-    \s*(?P<suffix>\[[A-Z.-]+\])? """
+    (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """
     % {"arxiv_years": arxiv_years_5digits},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
-- 
2.43.0


From e86bb1d56832fd0853a9fc62e0019ae04a49376a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:34 +0000
Subject: [PATCH 15/72] fix: do not break the tag that precedes a report number

---
 refextract/references/tag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 624a1ca..005bb11 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -520,7 +520,9 @@ def add_tagged_report_number(
     # of the institutional REPORT-NUMBER. However, stop 1 character before the
     # replacement index of this REPORT-NUMBER to allow for removal of braces,
     # if necessary:
-    if (true_replacement_index - startpos - 1) >= 0:
+    if (true_replacement_index - startpos - 1) >= 0 and reading_line[
+        true_replacement_index - 1
+    ] != ">":
         rebuilt_line += reading_line[startpos : true_replacement_index - 1]
     else:
         rebuilt_line += reading_line[startpos:true_replacement_index]
-- 
2.43.0


From ee7dd5628aaeb8139bd88bb433e393353db9f3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:31 +0000
Subject: [PATCH 16/72] fix: do not tag anything inside quoted titles, nor
 quote what is already tagged

---
 refextract/references/tag.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 005bb11..5b72ac2 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -103,18 +103,18 @@ def tag_reference_line(line, kbs, record_titles_count):
     working_line1 = tag_quoted_text(working_line1)
 
     # Identify ISBN (for books)
-    working_line1 = tag_isbn(working_line1)
+    working_line1 = tag_outside_quotes(tag_isbn, working_line1)
 
     # Identify arxiv reports
-    working_line1 = tag_arxiv(working_line1)
-    working_line1 = tag_arxiv_more(working_line1)
+    working_line1 = tag_outside_quotes(tag_arxiv, working_line1)
+    working_line1 = tag_outside_quotes(tag_arxiv_more, working_line1)
     # Identify volume for POS journal
     # needs special handling because the volume contains the year
-    working_line1 = tag_pos_volume(working_line1)
+    working_line1 = tag_outside_quotes(tag_pos_volume, working_line1)
     # Identify ATL-CONF and ATLAS-CONF report numbers
     # needs special handling because it has 2 formats depending on the year
     # and a 2 years digit format to convert
-    working_line1 = tag_atlas_conf(working_line1)
+    working_line1 = tag_outside_quotes(tag_atlas_conf, working_line1)
 
     # Identify journals with regular expression
     # Some journals need to match exact regexps because they can
@@ -122,7 +122,7 @@ def tag_reference_line(line, kbs, record_titles_count):
     # e.g. DAN is also a common first name
     standardised_titles = kbs["journals"][1].copy()
     journals_matches_re, journals_titles_re = identifiy_journals_re(
-        working_line1, kbs["journals_re"]
+        strip_tags(working_line1), kbs["journals_re"]
     )
     standardised_titles.update(journals_titles_re)
 
@@ -361,8 +361,23 @@ def tag_quoted_text(line):
     We use titles for pretty display of references that we could not
     associate we record.
     We also use titles for recognising books.
+    Quoted text that already contains tags is left alone, as tags do not nest.
     """
-    return re_quoted.sub(r"<cds.QUOTED>\g<title></cds.QUOTED>", line)
+
+    def tagger(match):
+        if "<cds." in match.group("title"):
+            return match.group(0)
+        return "<cds.QUOTED>%s</cds.QUOTED>" % match.group("title")
+
+    return re_quoted.sub(tagger, line)
+
+
+def tag_outside_quotes(tagger, line):
+    """Apply a tagger to what is not tagged as quoted text"""
+    return "".join(
+        part if part.startswith("<cds.QUOTED>") else tagger(part)
+        for part in re.split(r"(<cds\.QUOTED>.*?</cds\.QUOTED>)", line, flags=re.DOTALL)
+    )
 
 
 def tag_arxiv(line):
-- 
2.43.0


From 3f8289b8329d24a3e04f86236f46a37e66847435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:54 +0000
Subject: [PATCH 17/72] fix: recognise tags around text that contains an angle
 bracket

---
 refextract/references/tag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 5b72ac2..e24278b 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -885,7 +885,9 @@ def strip_tags(line):
     # author content can be checked for underscores later on
     # Note that we don't have embedded tags this is why
     # we can do this
-    re_tag = re.compile(r"<cds\.[A-Z]+>[^<]*</cds\.[A-Z]+>|<cds\.[A-Z]+ />", re.UNICODE)
+    re_tag = re.compile(
+        r"<cds\.[A-Z]+>.*?</cds\.[A-Z]+>|<cds\.[A-Z]+ />", re.UNICODE | re.DOTALL
+    )
     for m in re_tag.finditer(line):
         chars_count = m.end() - m.start()
         line = re_tag.sub("_" * chars_count, line, count=1)
-- 
2.43.0


From fdb4cdd6cc439a6498ff37d486c3809d79f1f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:55 +0000
Subject: [PATCH 18/72] fix: do not tag a collaboration inside an author

---
 refextract/references/tag.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index e24278b..d8891d7 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -907,8 +907,15 @@ def identify_and_tag_collaborations(line, collaborations_kb):
     """
     for _dummy_collab, re_collab in collaborations_kb.items():
         matches = re_collab.finditer(strip_tags(line))
+        authors = [
+            match.span()
+            for match in re.finditer(r"<cds\.AUTH\w+>.*?</cds\.AUTH\w+>", line)
+        ]
 
         for match in reversed(list(matches)):
+            if any(start <= match.start(1) < end for start, end in authors):
+                # tags do not nest
+                continue
             line = (
                 line[: match.start()]
                 + CFG_REFEXTRACT_MARKER_OPENING_COLLABORATION
-- 
2.43.0


From 4214bb32b484361c2549f3f516104593ad78e3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:55 +0000
Subject: [PATCH 19/72] fix: do not extend an author over text that is already
 tagged

---
 refextract/references/tag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index d8891d7..edd924c 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1016,8 +1016,10 @@ def identify_and_tag_authors(line, authors_kb):
                 # Search using a weaker author pattern to try and find the
                 # missed author(s) (cut away the end 'and')
                 weaker_match = re_auth_near_miss.match(m["text_before"])
-                if weaker_match and not (
-                    weaker_match.group("es") or weaker_match.group("ee")
+                if (
+                    weaker_match
+                    and "_" not in m["text_before"]
+                    and not (weaker_match.group("es") or weaker_match.group("ee"))
                 ):
                     # Change the start of the author group to include this new
                     # author group
-- 
2.43.0


From 0338c0e02272820c50d1775b9b761142a21d2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:47 +0000
Subject: [PATCH 20/72] fix: check the transliterated line when authors were
 found in it

---
 refextract/references/tag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index edd924c..971cb2a 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -948,6 +948,7 @@ def identify_and_tag_authors(line, authors_kb):
 
     if len(matched_authors_unidecode) > len(matched_authors):
         output_line = unidecode(output_line)
+        line = unidecoded_line
         matched_authors = matched_authors_unidecode
 
     # If there is at least one matched author group
-- 
2.43.0


From 7cb68abb803b3c6b271e498af6f8c69bdc32fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:08 +0000
Subject: [PATCH 21/72] fix: attach the links found in a PDF in a reproducible
 order

---
 refextract/references/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 2dd4fc4..7ad7d33 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -154,7 +154,7 @@ def extract_references_from_file(
             for ref, ref_texkey_urls in zip(
                 parsed_refs, extracted_texkeys_urls, strict=False
             ):
-                update_reference_with_urls(ref, ref_texkey_urls.get("urls", []))
+                update_reference_with_urls(ref, sorted(ref_texkey_urls.get("urls", [])))
                 if ref.get("url"):
                     ref["url"] = dedupe_list(ref["url"])
                 parsed_refs_updated.append(
-- 
2.43.0


From 5e9c1680fd5bba502dcb08eaff7ed85cd26d34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:55 +0000
Subject: [PATCH 22/72] fix: separate the references when the section title is
 on the line of the first one

---
 refextract/references/find.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 29d2b3a..8582c4c 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -168,7 +168,10 @@ def find_numeration_in_title(docbody, title):
     mk_with_title_match = regex_match_list(first_line, mk_with_title_ptns)
     if mk_with_title_match:
         mk = mk_with_title_match.group("mark")
-        mk_ptn = mk_with_title_match.re.pattern
+        # only the first line has the title, the marker of the others does not
+        mk_ptn = get_reference_line_numeration_marker_patterns()[
+            mk_with_title_ptns.index(mk_with_title_match.re)
+        ].pattern
         m_num = re_num.search(mk)
         if m_num and m_num.group(0) == "1":
             # Mark found
-- 
2.43.0


From 774a9a711dc28bb26e63b62c8d4493c785331430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:08 +0000
Subject: [PATCH 23/72] fix: extract TeXkeys from PDFs whose destination names
 are byte strings

---
 refextract/references/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 010943b..3dbb79a 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -68,7 +68,7 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
             )
             match = re_reference_in_dest.match(destination_key)
             if match:
-                refs.append(destination)
+                refs.append((destination_key, destination[1]))
         two_column_layout = False
         try:
             if _destinations_in_two_columns(pdf, refs):
-- 
2.43.0


From 8064f823e8d76f2fc386a39fc7fd6b2e44640d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:22 +0000
Subject: [PATCH 24/72] fix: do not crash on a line number that cannot be
 converted

---
 refextract/references/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 80b3690..8fa7f26 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -247,9 +247,9 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
             except ValueError:
                 # If the mark is a unicode character category [Nd],
                 # it is not always convertible to int by int()
-                # We can't use its numerical value, but we still accept it
-                # as numeration
-                pass
+                # We can't use its numerical value, it does not start a
+                # new reference
+                marknum = 0
 
             new_line_detected = False
             if marknum is None or current_ref + 1 == marknum:
-- 
2.43.0


From a1a102d90a8acf90ac3a4b55ca0ef9c376ffb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:22 +0000
Subject: [PATCH 25/72] fix: do not fail on destination names that are not
 valid UTF-8

---
 refextract/references/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 3dbb79a..660d219 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -62,7 +62,7 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
         refs = []
         for destination in destinations.items():
             destination_key = (
-                destination[0].decode("utf-8")
+                destination[0].decode("utf-8", errors="replace")
                 if isinstance(destination[0], ByteStringObject)
                 else destination[0]
             )
-- 
2.43.0


From 50af5defab705b3cc3456e2b730bf5c7511d82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:57 +0000
Subject: [PATCH 26/72] fix: end the reference section before a numeric table,
 also with blank lines in it

The first line of the table was kept as part of the last reference, and a
table with blank lines between its rows did not end the section at all.
---
 refextract/references/find.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 8582c4c..ebf68fa 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -457,7 +457,7 @@ def find_end_of_reference_section(
             if len(digit_test_str) > 10 and digit_test_str.isdigit():
                 # The line contains only digits and is longer than 10 chars:
                 y = x + 1
-                digit_lines = 4
+                digit_lines = wanted_digit_lines = 4
                 num_digit_lines = 1
                 while y < x + digit_lines and y < len(docbody):
                     digit_test_str = (
@@ -477,8 +477,9 @@ def find_end_of_reference_section(
                         # documents that are double-line spaced:
                         digit_lines += 1
                     y = y + 1
-                if num_digit_lines == digit_lines:
+                if num_digit_lines == wanted_digit_lines:
                     section_ended = True
+        if not section_ended:
             x += 1
     return x - 1
 
-- 
2.43.0


From bf6042494a21e39aa14522787ce45ebd063396f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:31 +0000
Subject: [PATCH 27/72] fix: let empty lines separate the references of a
 string

Blank lines were only recognised as separators when they contain whitespace,
which is always so for the lines of a file (the line end) but not for the
lines of a string.
---
 refextract/references/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 8fa7f26..ec184e4 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -340,11 +340,11 @@ def test_for_blank_lines_separating_reference_lines(ref_sect):
     x = 0
     max_line = len(ref_sect)
     while x < max_line:
-        if not ref_sect[x].isspace():
+        if ref_sect[x].strip():
             # not an empty line:
             num_lines += 1
             x += 1  # Move past line
-            while x < len(ref_sect) and not ref_sect[x].isspace():
+            while x < len(ref_sect) and ref_sect[x].strip():
                 multi_nonblanks_found = 1
                 x += 1
             x -= 1
@@ -352,7 +352,7 @@ def test_for_blank_lines_separating_reference_lines(ref_sect):
             # empty line
             num_blanks += 1
             x += 1
-            while x < len(ref_sect) and ref_sect[x].isspace():
+            while x < len(ref_sect) and not ref_sect[x].strip():
                 x += 1
             if x == len(ref_sect):
                 # Blanks at end doc: dont count
-- 
2.43.0


From 10d0cc10fec3fa343446d3c7450655702a5ddd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:34 +0000
Subject: [PATCH 28/72] fix: do not report blank lines as references

Blank lines before the first number, or repeated ones between references
without numbers, were reported as references with empty text.
---
 refextract/references/text.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index ec184e4..9ee7da4 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -218,6 +218,12 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
     rebuilt_references = []
     working_ref = []
 
+    def add_ref(working_ref):
+        ref = prepare_ref(working_ref)
+        # blank lines are not a reference
+        if ref:
+            rebuilt_references.append(ref)
+
     def prepare_ref(working_ref):
         working_ref = working_ref[:CFG_REFEXTRACT_MAX_LINES]
         working_line = ""
@@ -277,7 +283,7 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
 
                 # Append current working line to the refs list
                 if working_ref:
-                    rebuilt_references.append(prepare_ref(working_ref))
+                    add_ref(working_ref)
 
                 current_ref = marknum
                 working_ref = []
@@ -297,7 +303,7 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
 
     if working_ref:
         # Append last line
-        rebuilt_references.append(prepare_ref(working_ref))
+        add_ref(working_ref)
 
     return rebuilt_references
 
-- 
2.43.0


From ed1a3abee279355e8194ab0cda921a1b8129fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:41 +0000
Subject: [PATCH 29/72] fix: keep the hyphen that ends a reference before an
 indented number

---
 refextract/references/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 9ee7da4..555cc3c 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -273,7 +273,7 @@ def rebuild_reference_lines(ref_sectn, ref_line_marker_ptn):
                 # list of fixed references and reset the working_line to
                 # 'blank'
                 start = m_ref_line_marker.start()
-                if line[:start]:
+                if line[:start].strip():
                     # If it's not a blank line to separate refs
                     # Only append from the start of the marker
                     # For this case:
-- 
2.43.0


From 6aa1e513b3f3dbec3e02ddd761b66874a3f426ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:02 +0000
Subject: [PATCH 30/72] fix: recognise arXiv versions with several digits as
 part of the identifier

---
 refextract/references/regexs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index bdcbf50..dfff021 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -92,7 +92,7 @@ re_pos = compute_pos_patterns(re_pos_patterns)
 re_arxiv = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>\d{2})-?(?P<month>\d{2})
-    [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d))?
+    [\s.-]*(?P<num>\d{4})(?!\d)(?:[\s-]*V(?P<version>\d+))?
     (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -100,7 +100,7 @@ re_arxiv = re.compile(
 re_arxiv_5digits = re.compile(
     r"""
     ARXIV[\s:-]*(?P<year>(1[3-9]|[2-8][0-9]))-?(?P<month>(0[1-9]|1[0-2]))
-    [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d))?
+    [\s.-]*(?P<num>\d{5})(?!\d)(?:[\s-]*V(?P<version>\d+))?
     (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """,
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
 )
@@ -282,7 +282,7 @@ re_new_arxiv = re.compile(
     (?<!ARXIV:)(?<!\d)
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d))?(?!\d)
+    \.(?P<num>\d{4})(?:[\s-]*V(?P<version>\d+))?(?!\d)
     (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """
     % {"arxiv_years": arxiv_years},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
@@ -293,7 +293,7 @@ re_new_arxiv_5digits = re.compile(
     (?<!ARXIV:)(?<!\d)
     (?P<year>%(arxiv_years)s)
     (?P<month>(0[1-9]|1[0-2]))
-    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d))?(?!\d)
+    \.(?P<num>\d{5})(?:[\s-]*V(?P<version>\d+))?(?!\d)
     (?:\s*(?P<suffix>\[[A-Z.-]+\]))? """
     % {"arxiv_years": arxiv_years_5digits},
     re.VERBOSE | re.UNICODE | re.IGNORECASE,
-- 
2.43.0


From 171711c435301816606fdec170f37b0dba03261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:07 +0000
Subject: [PATCH 31/72] fix: do not take the punctuation after a DOI as part of
 it

---
 refextract/references/tag.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 971cb2a..f04cf80 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1485,6 +1485,19 @@ def identify_and_tag_URLs(line):
     return line, identified_urls
 
 
+def strip_trailing_punctuation(doi):
+    """Remove the punctuation that follows a DOI from its end.
+
+    Brackets can be part of a DOI, only unbalanced ones are removed.
+    """
+    while doi[-1:] in (";", ":", ".") or any(
+        doi.endswith(closing) and doi.count(closing) > doi.count(opening)
+        for opening, closing in ("()", "<>")
+    ):
+        doi = doi[:-1]
+    return doi
+
+
 def identify_and_tag_DOI(line):
     """takes a single citation line and attempts to locate any DOI references.
     DOI references are recognised in both http (url) format and also the
@@ -1503,7 +1516,9 @@ def identify_and_tag_DOI(line):
         start = match.start()
         end = match.end()
         # Get the actual DOI string (remove the url part of the doi string)
-        doi_phrase = match.group("doi")
+        doi_phrase = strip_trailing_punctuation(match.group("doi"))
+        # What was stripped is not part of the DOI, it stays in the line
+        end -= len(match.group("doi")) - len(doi_phrase)
         if "%2f" in doi_phrase.lower():
             doi_phrase = unquote(doi_phrase)
 
-- 
2.43.0


From d8dc0f96fd5e856729fccbdcd0a080bc1b3ff710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:07 +0000
Subject: [PATCH 32/72] fix: keep handles in their own citation and without the
 punctuation after them

---
 refextract/references/engine.py | 27 +++++++++++++++++----------
 refextract/references/regexs.py |  2 +-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 71ac378..a13fcf7 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -584,16 +584,23 @@ def look_for_hdl(citation_elements):
     When finding an hdl, creates a new HDL element.
     @param citation_elements: (list) elements to process
     """
-    for el in list(citation_elements):
-        matched_hdl = re_hdl.finditer(el["misc_txt"])
-        for match in reversed(list(matched_hdl)):
-            hdl_el = {
-                "type": "HDL",
-                "hdl_id": match.group("hdl_id"),
-                "misc_txt": el["misc_txt"][match.end() :],
-            }
-            el["misc_txt"] = el["misc_txt"][0 : match.start()]
-            citation_elements.insert(citation_elements.index(el) + 1, hdl_el)
+    new_elements = []
+    for el in citation_elements:
+        start = 0
+        for match in re_hdl.finditer(el["misc_txt"]):
+            # the misc txt of an element is the text that precedes it
+            new_elements.append(
+                {
+                    "type": "HDL",
+                    "hdl_id": match.group("hdl_id"),
+                    "misc_txt": el["misc_txt"][start : match.start()],
+                }
+            )
+            start = match.end()
+        el["misc_txt"] = el["misc_txt"][start:]
+        if start == 0 or el["type"] != "MISC" or el["misc_txt"].strip(" .;,"):
+            new_elements.append(el)
+    citation_elements[:] = new_elements
 
 
 def look_for_hdl_urls(citation_elements):
diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index dfff021..7615280 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -837,7 +837,7 @@ re_doi = re.compile(
 re_hdl = re.compile(
     r"""([hH][dD][lL]:
                           |https?://hdl\.handle\.net/)
-                         (?P<hdl_id>\S+/\S+)""",
+                         (?P<hdl_id>\S+/\S*[^\s.,;:)\]}])""",
     re.UNICODE | re.VERBOSE,
 )
 
-- 
2.43.0


From 779d3bca86f8e0bbe60bea77ec9d535070545ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:03 +0000
Subject: [PATCH 33/72] fix: keep the text before a repeated collaboration

---
 refextract/references/engine.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index a13fcf7..66d3d82 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -539,10 +539,11 @@ def remove_duplicated_authors(splitted_citations):
 def remove_duplicated_dois(splitted_citations):
     for citation in splitted_citations:
         found_doi = False
-        for el in citation[:]:
+        for el in citation:
             if el["type"] == "DOI":
                 if found_doi:
-                    citation.remove(el)
+                    # keep the text that precedes it
+                    el["type"] = "MISC"
                 else:
                     found_doi = True
 
@@ -552,10 +553,11 @@ def remove_duplicated_dois(splitted_citations):
 def remove_duplicated_collaborations(splitted_citations):
     for citation in splitted_citations:
         collabs = []
-        for el in citation[:]:
+        for el in citation:
             if el["type"] == "COLLABORATION":
                 if el["collaboration"] in collabs:
-                    citation.remove(el)
+                    # keep the text that precedes it
+                    el["type"] = "MISC"
                 else:
                     collabs.append(el["collaboration"])
 
-- 
2.43.0


From 927a5f46bdee60045de096478551726500595938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:12 +0000
Subject: [PATCH 34/72] fix: keep books in their own citation, with the text
 before them

---
 refextract/references/engine.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 66d3d82..032e7ac 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -231,15 +231,15 @@ def look_for_books(citation_elements, kbs):
         normalized_title = title["title"].upper()
         if normalized_title in kbs["books"]:
             line = kbs["books"][normalized_title]
-            el = {
-                "type": "BOOK",
-                "misc_txt": "",
-                "authors": line[0],
-                "title": line[1],
-                "year": line[2].strip(";"),
-            }
-            citation_elements.append(el)
-            citation_elements.remove(title)
+            # the book takes the place of its title
+            title.update(
+                {
+                    "type": "BOOK",
+                    "authors": line[0],
+                    "title": line[1],
+                    "year": line[2].strip(";"),
+                }
+            )
 
     return citation_elements
 
-- 
2.43.0


From 507ec4a5d9ae12d74d811ffce330e297de9aecc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:06 +0000
Subject: [PATCH 35/72] fix: report implied ibids with their page range and a
 volume in the format of the journal

---
 refextract/references/engine.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 032e7ac..907a30c 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -481,7 +481,7 @@ def add_year_elements(splitted_citations):
     return splitted_citations
 
 
-def look_for_implied_ibids(splitted_citations):
+def look_for_implied_ibids(splitted_citations, kbs):
     def look_for_journal(els):
         return any(el["type"] == "JOURNAL" for el in els)
 
@@ -500,17 +500,23 @@ def look_for_implied_ibids(splitted_citations):
                             volume = numeration["series"] + numeration["volume"]
                         else:
                             volume = numeration["volume"]
+                        page = numeration["page"] or numeration["jinst_page"]
+                        if numeration["page_end"]:
+                            page = "%s-%s" % (page, numeration["page_end"])
                         ibid_el = {
                             "type": "JOURNAL",
                             "misc_txt": "",
                             "title": current_journal["title"],
                             "volume": volume,
-                            "year": numeration["year"],
-                            "page": numeration["page"] or numeration["jinst_page"],
-                            "page_end": numeration["page_end"],
+                            "year": numeration["year"] or "",
+                            "page": page,
                             "is_ibid": True,
                             "extra_ibids": [],
                         }
+                        format_volume([ibid_el])
+                        handle_special_journals([ibid_el], kbs)
+                        remove_b_for_nucl_phys([ibid_el])
+                        mangle_volume([ibid_el])
                         citation.append(ibid_el)
                         el["misc_txt"] = el["misc_txt"][numeration["len"] :]
 
@@ -685,7 +691,7 @@ def parse_reference_line(ref_line, kbs, bad_titles_count=None, linker_callback=N
     splitted_citations = list(split_citations_iter(citation_elements))
 
     # Look for implied ibids
-    look_for_implied_ibids(splitted_citations)
+    look_for_implied_ibids(splitted_citations, kbs)
     # Find year
     add_year_elements(splitted_citations)
     # Look for books in misc field
-- 
2.43.0


From 5185c67d70408df82ff69f54b0ff2e858abad80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:19 +0000
Subject: [PATCH 36/72] fix: find every journal of a line that matches a
 journal regexp

---
 refextract/references/tag.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index f04cf80..5c84a2d 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -472,8 +472,7 @@ def identifiy_journals_re(line, kb_journals):
     matches = {}
     titles = {}
     for pattern, journal in kb_journals:
-        match = re.search(pattern, line)
-        if match:
+        for match in re.finditer(pattern, line):
             matches[match.start()] = match.group(0)
             titles[match.group(0)] = journal
     return matches, titles
-- 
2.43.0


From acb1fb589d5d2674159945c11d7c45c12e97fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:56 +0000
Subject: [PATCH 37/72] fix: split the citations of a line at every semicolon
 that separates some

---
 refextract/references/engine.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 907a30c..9e83d75 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -312,6 +312,29 @@ def split_needed(next_el, current_types, last_type):
     return None
 
 
+def isolate_semicolons(citation_elements):
+    """Rewrite the elements so that each has at most one semicolon to split at.
+
+    Semicolons that do not separate anything are left out.
+    """
+
+    def is_blank(txt):
+        return not txt.strip(" .,")
+
+    for idx, el in enumerate(citation_elements):
+        parts = el["misc_txt"].split(";")
+        parts[1:-1] = [part for part in parts[1:-1] if not is_blank(part)]
+        if len(parts) > 1 and idx == 0 and is_blank(parts[0]):
+            parts.pop(0)
+        if len(parts) > 1 and el["type"] == "MISC" and is_blank(parts[-1]):
+            parts.pop()
+        while len(parts) > 2:
+            yield {"type": "MISC", "misc_txt": ";".join(parts[:2])}
+            parts[:2] = [""]
+        el["misc_txt"] = ";".join(parts)
+        yield el
+
+
 def postpone_last_auth(current_citation, num_auth):
     if num_auth == 0:
         return None
@@ -347,7 +370,7 @@ def split_citations_iter(citation_elements):
     previous_citation = None
     prev_split_reason = None
 
-    for el in citation_elements:
+    for el in isolate_semicolons(citation_elements):
         split_reason = split_needed(el, current_types, last_type)
         if split_reason:
             if split_reason == "semicolon":
-- 
2.43.0


From 32ac40dc371dbc463b4c26a585544d1f6a62baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:25 +0000
Subject: [PATCH 38/72] fix: keep a separator that directly precedes a report
 number

---
 refextract/references/tag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 5c84a2d..db41a74 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -536,7 +536,7 @@ def add_tagged_report_number(
     # if necessary:
     if (true_replacement_index - startpos - 1) >= 0 and reading_line[
         true_replacement_index - 1
-    ] != ">":
+    ] in (" ", "[", "("):
         rebuilt_line += reading_line[startpos : true_replacement_index - 1]
     else:
         rebuilt_line += reading_line[startpos:true_replacement_index]
-- 
2.43.0


From c2598854721000ca99c0fa4856cb0485283ba5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 39/72] fix: remove a year from the text without joining words
 or changing numbers

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 7615280..c353075 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -1106,5 +1106,5 @@ def remove_year(s, year=None):
     year_pattern = re.escape(year) if year else "(?:19|20)\\d{2}"
     s = re.sub(r"\[\s*%s\s*\]" % year_pattern, "", s)
     s = re.sub(r"\(\s*%s\s*\)" % year_pattern, "", s)
-    s = re.sub(r"\s*%s\s*" % year_pattern, "", s)
+    s = re.sub(r"\s*(?<!\d)%s(?!\d)\s*" % year_pattern, " ", s)
     return s
-- 
2.43.0


From 155617e3448b72d2ecc5e17fb491e0bca673a02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:29 +0000
Subject: [PATCH 40/72] fix: do not repeat the text before an author that is
 taken over by the next citation

---
 refextract/references/engine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 9e83d75..f572faa 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -345,13 +345,16 @@ def postpone_last_auth(current_citation, num_auth):
 
 
 def insert_postponed_auth(postponed_auth, previous_citation, current_citation):
-    current_citation.insert(0, postponed_auth)
     if sum(el["type"] == "AUTH" for el in previous_citation) > 1:
         # the previous citation has its own author, move this one
         for idx, el in enumerate(previous_citation):
             if el is postponed_auth:
                 del previous_citation[idx]
                 break
+        current_citation.insert(0, postponed_auth)
+    else:
+        # both citations have this author, but the text before it stays where it is
+        current_citation.insert(0, dict(postponed_auth, misc_txt=""))
 
 
 def split_citations_iter(citation_elements):
-- 
2.43.0


From 25761298454293a1659dcfb649f9e34931252cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:00 +0000
Subject: [PATCH 41/72] fix: recognise collaborations that are followed by a
 semicolon or another piece

---
 refextract/references/kbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 81356ac..ab951f2 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -575,7 +575,7 @@ def build_collaborations_kb(knowledgebase):
     for pattern, collab in knowledgebase:
         prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
         collaboration_pattern = r"(?:\s*coll(?:aborations?|\.)?)?"
-        suffix = r"(?=$|[><\]\)\"\s.,:])"
+        suffix = r"(?=$|[><\]\)\"\s.,:;_])"
         pattern = pattern.replace(" ", r"\s")
         pattern = pattern.replace("Collaboration", collaboration_pattern)
         re_pattern = "%s(%s)%s" % (prefix, pattern, suffix)
-- 
2.43.0


From d1f4cfb92619e2d0691d1911cc88d63428909f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:43 +0000
Subject: [PATCH 42/72] fix: report a hep-th number whose first letter is
 missing as hep-th, not hep-ph

---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c353075..c1f5747 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -199,7 +199,7 @@ old_arxiv = {
     r"nlin-si": "nlin.si",
     r"quantum-ph": "quant-ph",
     r"ep-ph": "hep-ph",
-    r"ep-th": "hep-ph",
+    r"ep-th": "hep-th",
     r"ep-ex": "hep-ex",
     r"hept-h": "hep-th",
     r"hepp-h": "hep-ph",
-- 
2.43.0


From cb413c0b6e0a063ecddcd81285ecf7547dfc6e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:30 +0000
Subject: [PATCH 43/72] fix: recognise every book of a line and separate it
 from other titles

---
 refextract/references/engine.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index f572faa..6bfb1fa 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -221,13 +221,9 @@ def look_for_books(citation_elements, kbs):
     Create book tags by using the authors and the title to find books
     in our knowledge base
     """
-    title = None
-    for el in citation_elements:
-        if el["type"] == "QUOTED":
-            title = el
-            break
-
-    if title:
+    for title in citation_elements:
+        if title["type"] != "QUOTED":
+            continue
         normalized_title = title["title"].upper()
         if normalized_title in kbs["books"]:
             line = kbs["books"][normalized_title]
@@ -299,9 +295,18 @@ def associate_recids(citation_elements, linker_callback):
     return citation_elements
 
 
+def get_splitting_type(el):
+    if el.get("is_arxiv"):
+        return "ARXIV"
+    if el["type"] == "BOOK":
+        # books are recognised by their title
+        return "QUOTED"
+    return el["type"]
+
+
 def split_needed(next_el, current_types, last_type):
     repeatable_if_adjacent = {"REPORTNUMBER", "COLLABORATION"}
-    next_type = "ARXIV" if next_el.get("is_arxiv") else next_el["type"]
+    next_type = get_splitting_type(next_el)
 
     if ";" in next_el["misc_txt"]:
         return "semicolon"
@@ -405,7 +410,7 @@ def split_citations_iter(citation_elements):
             # detection of authors has many false positives, don't take them
             # into account for splitting
             continue
-        last_type = "ARXIV" if el.get("is_arxiv") else el["type"]
+        last_type = get_splitting_type(el)
         current_types.add(last_type)
 
     if postponed_auth and (num_auth == 0 or prev_split_reason == "repeated field"):
-- 
2.43.0


From 9640dcca6c9b9328102920dd0ff23839a3f6cbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:10 +0000
Subject: [PATCH 44/72] =?UTF-8?q?fix:=20cut=20a=20book=20title=20out=20of?=
 =?UTF-8?q?=20the=20text=20at=20its=20right=20place=20after=20characters?=
 =?UTF-8?q?=20like=20=C3=9F?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 refextract/references/engine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 6bfb1fa..e139bb0 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -837,8 +837,12 @@ def get_possible_author_names(citation):
     return []
 
 
+def upper_keeping_positions(s):
+    return "".join(c.upper() if len(c.upper()) == 1 else c for c in s)
+
+
 def find_substring_ignore_special_chars(s, substr):
-    s = s.upper()
+    s = upper_keeping_positions(s)
     substr = substr.upper()
     clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s)
     clean_substr, dummy_subs_in_substr = re.subn("[^A-Z0-9]", "", substr)
@@ -862,7 +866,7 @@ def find_substring_ignore_special_chars(s, substr):
 def cut_substring_with_special_chars(s, sub, startIndex):
     counter = 0
     subPosition = 0
-    s_Upper = s.upper()
+    s_Upper = upper_keeping_positions(s)
     sub = sub.upper()
     clean_sub = re.sub("[^A-Z0-9]", "", sub)
     for char in s_Upper[startIndex:]:
-- 
2.43.0


From 4ba454d44c170b7386fe869a1c37f8fd654e8fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:05 +0000
Subject: [PATCH 45/72] fix: do not move a comma that stands before a quoted
 title into it

---
 refextract/references/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index 555cc3c..e0e207a 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -319,8 +319,12 @@ def wash_and_repair_reference_line(line):
     # Replace various undesirable characters with their alternatives:
     line = replace_undesirable_characters(line)
     # Replace "<title>," with "<title>",
-    # common typing mistake
-    line = re.sub(r'"([^"]+),"', r'"\g<1>",', line)
+    # common typing mistake (what is between two quoted titles is left alone)
+    line = re.sub(
+        r'"([^"]+)"',
+        lambda m: re.sub(r'^"(.+),"$', r'"\g<1>",', m.group(0), flags=re.DOTALL),
+        line,
+    )
     line = replace_undesirable_characters(line)
     # Remove instances of multiple spaces from line, replacing with a
     # single space:
-- 
2.43.0


From c02f39d5e46db4c8a4b92f56d0f6f67669c42402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:59 +0000
Subject: [PATCH 46/72] fix: recognise ISBNs introduced by their full name

Spaces in a verbose regular expression are ignored unless escaped, so
'International Standard Book Number 3-16-148410-X' was never recognised.
---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index c1f5747..bf88423 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -305,7 +305,7 @@ re_quoted = re.compile(r'"(?P<title>[^"]+)"', re.UNICODE)
 # Pattern to recognise an ISBN for a book:
 re_isbn = re.compile(
     r"""
-    (?:ISBN[-– ]*(?:|10|13)|International Standard Book Number)
+    (?:ISBN[-– ]*(?:|10|13)|International\ Standard\ Book\ Number)
     [:\s]*
     (?P<code>[-\-–0-9Xx]{10,25})""",
     re.VERBOSE | re.UNICODE,
-- 
2.43.0


From 193b3cf15b7e44e141e58f81c751fb71ceee936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:00 +0000
Subject: [PATCH 47/72] fix: report the full archive of numbers like
 physics.plasm-ph/9901123

The part after the dot is an archive of its own in some cases (acc-ph,
atom-ph, chem-ph, plasm-ph), which was taken out of the longer name and
left 'physics' and even internal markup behind.
---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index bf88423..64be10e 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -249,7 +249,7 @@ def compute_arxiv_re(report_pattern, report_number):
     if report_number is None:
         report_number = r"\g<name>"
     report_re = re.compile(
-        r"(?<!<cds\.REPORTNUMBER>)(?<!\w)"
+        r"(?<!<cds\.REPORTNUMBER>)(?<!\w)(?<!physics\.)"
         + "(?P<name>"
         + report_pattern
         + ")"
-- 
2.43.0


From 579b12c9a0f7ef1e6a2aecd8bf5525c005b5b5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:02 +0000
Subject: [PATCH 48/72] fix: notice when the file of a knowledge base was
 changed

A knowledge base given as a file was never read again, so that later
extractions went on with the old contents of the file. The order of the
entries of a dictionary counts as well.
---
 refextract/references/kbs.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index ab951f2..c7583e0 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -24,6 +24,7 @@
 import contextlib
 import copy
 import csv
+import os
 import re
 import threading
 
@@ -57,6 +58,20 @@ def file_resolving(fpath, reader=None, **kwargs):
         yield fpath
 
 
+def kb_snapshot(kb):
+    """What a knowledge base is at this moment.
+
+    Files are known by their name and state, everything else by its contents
+    (in order), so that changes made by the caller afterwards are noticed.
+    """
+    if isinstance(kb, str):
+        stat = os.stat(kb)
+        return kb, stat.st_mtime_ns, stat.st_size, stat.st_ino
+    if isinstance(kb, dict):
+        return dict, list(kb.items())
+    return copy.deepcopy(kb) if isinstance(kb, (list, set, tuple)) else kb
+
+
 def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
     """Load kbs (with caching).
 
@@ -70,13 +85,12 @@ def get_kbs(custom_kbs=None, cache={}, cache_inputs={}):  # noqa
 
     with KBS_LOCK:
         for kb_type, kb in kbs.items():
-            if kb != cache_inputs.get(kb_type):
+            snapshot = kb_snapshot(kb)
+            if kb_type not in cache or snapshot != cache_inputs.get(kb_type):
                 cache[kb_type] = load_kb_by_type(kb_type, kb)
-                # recorded only once loading succeeded, and as a snapshot, so that
-                # neither a failed load nor a later change of ``kb`` goes unnoticed
-                cache_inputs[kb_type] = (
-                    copy.deepcopy(kb) if isinstance(kb, (dict, list, set, tuple)) else kb
-                )
+                # recorded only once loading succeeded, so that a failed load
+                # does not go unnoticed
+                cache_inputs[kb_type] = snapshot
         return cache.copy()
 
 
-- 
2.43.0


From a18bd8c7efdb1a91e74a60b37ed75852f80c003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:08 +0000
Subject: [PATCH 49/72] fix: ignore the spaces around the separator in
 knowledge base files

The documented format has spaces before and after '---', but those before it
were taken as part of the term to look for, and those at the end of the line as
part of its replacement.
---
 refextract/references/regexs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 64be10e..791b6be 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -313,7 +313,7 @@ re_isbn = re.compile(
 
 # Pattern to recognise a correct knowledge base line:
 re_kb_line = re.compile(
-    r"^\s*(?P<seek>[^\s].*)\s*---\s*(?P<repl>[^\s].*)\s*$", re.UNICODE
+    r"^\s*(?P<seek>\S(?:.*\S)?)\s*---\s*(?P<repl>\S(?:.*\S)?)\s*$", re.UNICODE
 )
 
 # Pattern to recognise references in PDF named destinations
-- 
2.43.0


From 190fdb7d1af18d107900305f7b0e8884ec821f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:26 +0000
Subject: [PATCH 50/72] fix: look for journal titles in the form that lines are
 searched in

Lines are searched without punctuation and multiple spaces, but of the titles in
a knowledge base only dots were replaced, so that 'Foo. Bar.' or 'Foo-Bar' were
never found.
---
 refextract/references/kbs.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index c7583e0..066c5cf 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -505,6 +505,14 @@ def load_kb_from_file(path, builder):
         return builder(lazy_parser(fh))
 
 
+def simplify_title(title):
+    """Upper-case, without punctuation and multiple spaces, like the lines
+    in which titles are looked for."""
+    title = "".join(c.upper() if len(c.upper()) == 1 else c for c in title)
+    title = re_punctuation.sub(" ", title)
+    return re_group_captured_multiple_space.sub(" ", title).strip()
+
+
 def build_journals_kb(knowledgebase):
     """Given the path to a knowledge base file, read in the contents
     of that file into a dictionary of search->replace word phrases.
@@ -544,9 +552,11 @@ def build_journals_kb(knowledgebase):
     # by the KB:
     repl_terms = {}
     for seek_phrase, repl in knowledgebase:
-        # We match on a simplified line, thus dots are replaced
-        # with spaces
-        seek_phrase = seek_phrase.replace(".", " ").upper()
+        # We match on a simplified line, thus the phrase is simplified
+        # in the same way
+        seek_phrase = simplify_title(seek_phrase)
+        if not seek_phrase:
+            continue
 
         # good KB line
         # Add the 'replacement term' into the dictionary of
@@ -564,10 +574,7 @@ def build_journals_kb(knowledgebase):
     # Now, for every 'replacement term' found in the KB, if it is
     # not already in the KB as a "search term", add it:
     for repl_term in repl_terms:
-        raw_repl_phrase = repl_term.upper()
-        raw_repl_phrase = re_punctuation.sub(" ", raw_repl_phrase)
-        raw_repl_phrase = re_group_captured_multiple_space.sub(" ", raw_repl_phrase)
-        raw_repl_phrase = raw_repl_phrase.strip()
+        raw_repl_phrase = simplify_title(repl_term)
         if raw_repl_phrase not in kb:
             # The replace-phrase was not in the KB as a seek phrase
             # It should be added.
-- 
2.43.0


From b78c4a8ce848310da91492d07447dfcc8187818b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:27 +0000
Subject: [PATCH 51/72] fix: recognise a collaboration by all of its names in
 the knowledge base

Names of the same collaboration replaced each other, only the last was known.
---
 refextract/references/kbs.py | 7 ++++---
 refextract/references/tag.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index 066c5cf..cfac949 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -593,13 +593,14 @@ def build_journals_kb(knowledgebase):
 
 def build_collaborations_kb(knowledgebase):
     kb = {}
-    for pattern, collab in knowledgebase:
+    for name, _dummy_collab in knowledgebase:
         prefix = r"(?:^|[\(\"\[\s]|(?<=\W))\s*(?:(?:the|and)\s+)?"
         collaboration_pattern = r"(?:\s*coll(?:aborations?|\.)?)?"
         suffix = r"(?=$|[><\]\)\"\s.,:;_])"
-        pattern = pattern.replace(" ", r"\s")
+        pattern = name.replace(" ", r"\s")
         pattern = pattern.replace("Collaboration", collaboration_pattern)
         re_pattern = "%s(%s)%s" % (prefix, pattern, suffix)
-        kb[collab] = re.compile(re_pattern, re.I | re.U)
+        # a collaboration may have several names
+        kb[name] = re.compile(re_pattern, re.I | re.U)
 
     return kb
diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index db41a74..3fa112d 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -904,7 +904,7 @@ def identify_and_tag_collaborations(line, collaborations_kb):
     which won't influence the reference splitting heuristics
     (used when looking at mulitple <AUTH> tags in a line).
     """
-    for _dummy_collab, re_collab in collaborations_kb.items():
+    for _dummy_name, re_collab in collaborations_kb.items():
         matches = re_collab.finditer(strip_tags(line))
         authors = [
             match.span()
-- 
2.43.0


From 8216c41ad9e10888b21911056837f0543f818920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:13 +0000
Subject: [PATCH 52/72] fix: report the publisher with the longest name once

Kluwer Academic was reported as two publishers, Kluwer and Academic Press, in two
citations, and Wiley-VCH as Wiley or as Wiley-VCH, depending on the order of the
knowledge base.
---
 refextract/references/tag.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 3fa112d..9260882 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -1361,10 +1361,18 @@ def identify_publishers(line, kb_publishers):
     matches_repl = {}  # standardised report numbers matched
     # at given locations in line
 
-    for abbrev, info in kb_publishers.items():
+    # the longest names first, what is part of one is not a publisher of its own
+    for abbrev, info in sorted(
+        kb_publishers.items(), key=lambda item: len(item[0]), reverse=True
+    ):
         for match in info["pattern"].finditer(line):
             # record the matched non-standard version of the publisher:
             matches_repl[match.start(0)] = abbrev
+            line = (
+                line[: match.start()]
+                + "_" * (match.end() - match.start())
+                + line[match.end() :]
+            )
 
     return matches_repl
 
-- 
2.43.0


From 9359645fa356320e97ce19261df29dfb24cee203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:55 +0000
Subject: [PATCH 53/72] fix: read documents that are not writable

A PDF was always opened for writing, although there is usually no junk to remove from it.
---
 refextract/references/engine.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index e139bb0..16fde7c 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1515,8 +1515,8 @@ def clean_pdf_file(filename):
     strip leading and/or trailing junk from a PDF file
     """
     with (
-        open(filename, "r+b") as file,
-        mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
+        open(filename, "rb") as file,
+        mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_READ) as mmfile,
     ):
         start = mmfile.find(b"%PDF-")
         if start == -1:
@@ -1525,18 +1525,26 @@ def clean_pdf_file(filename):
             return
         end = mmfile.rfind(b"%%EOF")
         offset = len(b"%%EOF")
+        size = len(mmfile)
         if end < start:
             # no end marker after the PDF marker, there is no trailing junk
-            end = len(mmfile) - offset
+            end = size - offset
+
+    if start == 0 and end + offset == size:
+        # there is no junk, the file needs not be writable
+        return
+
+    with (
+        open(filename, "r+b") as file,
+        mmap.mmap(file.fileno(), 0, access=mmap.ACCESS_WRITE) as mmfile,
+    ):
         if start > 0:
             LOGGER.debug("moving and truncating")
             mmfile.move(0, start, end + offset - start)
-            mmfile.resize(end + offset - start)
-            mmfile.flush()
-        elif end > 0 and end + offset != mmfile.size():
+        else:
             LOGGER.debug("truncating only")
-            mmfile.resize(end + offset - start)
-            mmfile.flush()
+        mmfile.resize(end + offset - start)
+        mmfile.flush()
 
 
 def get_plaintext_document_body(fpath, keep_layout=False):
-- 
2.43.0


From 1d4982cbdfa190664ecda6dc0522beff626aa49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:55 +0000
Subject: [PATCH 54/72] fix: read the first line of a text file without its
 byte order mark

A section title or number after the mark was not recognised. The encoding of a document also no longer depends on the locale.
---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 16fde7c..8c76e01 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1564,7 +1564,7 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     mime_type = magic.from_file(fpath, mime=True)
 
     if mime_type == "text/plain":
-        with open(fpath, "r", errors="replace") as f:
+        with open(fpath, "r", encoding="utf-8-sig", errors="replace") as f:
             textbody = f.readlines()
     elif mime_type == "application/pdf":
         textbody = convert_PDF_to_plaintext(fpath, keep_layout)
-- 
2.43.0


From f5f0b07c8f5bb87e11131369ac6c014ba1baf55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:55 +0000
Subject: [PATCH 55/72] fix: convert PDFs whose name looks like an option of
 pdftotext

---
 refextract/documents/pdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/documents/pdf.py b/refextract/documents/pdf.py
index ce1f207..6fdb515 100644
--- a/refextract/documents/pdf.py
+++ b/refextract/documents/pdf.py
@@ -70,7 +70,8 @@ def convert_PDF_to_plaintext(fpath, keep_layout=False):
         "-q",
         "-enc",
         "UTF-8",
-        fpath,
+        # the name could be mistaken for an option
+        os.path.abspath(fpath),
         "-",
     ]
 
-- 
2.43.0


From 3db0e9fbbf50a2e3b81b0fa2614f13903c72c18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:13 +0000
Subject: [PATCH 56/72] fix: keep the first reference when it stands on the
 line of a numbered section title

'7. References [1] Riotto' was dropped together with the numbering.
---
 refextract/references/find.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index ebf68fa..929fb19 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -161,6 +161,9 @@ def find_numeration_in_title(docbody, title):
     except IndexError:
         return ref_details, found_title
 
+    # The title may be numbered itself, like '7. References [1] Riotto'
+    first_line = first_line[max(first_line.find(title), 0) :]
+
     # Need to escape to avoid problems like 'References['
     title = re.escape(title)
 
-- 
2.43.0


From c0c281f346edfd977108dbab2b60fb69f75e0d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:55 +0000
Subject: [PATCH 57/72] fix: do not take the last reference for the title of a
 following section

'[2] Summary talk by A. Smith' ended the section when no other reference followed.
---
 refextract/references/find.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index 929fb19..d2eb5d8 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -408,14 +408,23 @@ def find_end_of_reference_section(
     while x < len(docbody) and not section_ended:
         # save the reference count
         num_match = regex_match_list(docbody[x].strip(), mk_patterns)
+        is_next_reference = False
         if num_match:
             with contextlib.suppress(ValueError, IndexError):
-                current_reference_count = int(num_match.group("marknum"))
+                num = int(num_match.group("marknum"))
+                # section titles can have a number, but not one like [2]
+                is_next_reference = (
+                    num == current_reference_count + 1
+                    and num_match.group("mark").startswith(("[", "{", "<", "("))
+                )
+                current_reference_count = num
 
         # look for a likely section title that would follow a reference
         # section:
         end_match = regex_match_list(docbody[x].strip(), t_patterns)
-        if not end_match:
+        if is_next_reference:
+            pass
+        elif not end_match:
             # didn't match a section title - try looking for keywords that
             # suggest the end of a reference section:
             end_match = regex_match_list(docbody[x].strip(), kw_patterns)
-- 
2.43.0


From f28774c707a9611ae73fed207e37cd590066c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:31 +0000
Subject: [PATCH 58/72] fix: count the first reference when it stands on the
 line of the section title

---
 refextract/references/find.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/find.py b/refextract/references/find.py
index d2eb5d8..847358c 100644
--- a/refextract/references/find.py
+++ b/refextract/references/find.py
@@ -408,6 +408,9 @@ def find_end_of_reference_section(
     while x < len(docbody) and not section_ended:
         # save the reference count
         num_match = regex_match_list(docbody[x].strip(), mk_patterns)
+        if not num_match and x == ref_start_line and ref_line_marker:
+            # the first reference can stand on the line of the section title
+            num_match = mk_patterns[0].search(docbody[x])
         is_next_reference = False
         if num_match:
             with contextlib.suppress(ValueError, IndexError):
-- 
2.43.0


From 01374e45103508d3a8396aab18923a51e3732678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:34 +0000
Subject: [PATCH 59/72] fix: recognise repetitions of a section title that has
 the first reference on its line

---
 refextract/references/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/text.py b/refextract/references/text.py
index e0e207a..8e029a8 100644
--- a/refextract/references/text.py
+++ b/refextract/references/text.py
@@ -159,7 +159,7 @@ def match_pagination(ref_line):
 
 def strip_footer(ref_lines, section_title):
     """Remove footer title from references lines"""
-    pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title)
+    pattern = r"\(?\[?\d{0,4}\]?\)?\.?\s*%s\s*$" % re.escape(section_title.strip())
     re_footer = re.compile(pattern, re.UNICODE)
     return [line for line in ref_lines if not re_footer.match(line)]
 
-- 
2.43.0


From e648f03ec06caddc94af75f2963a13cbeca3292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 60/72] fix: do not fail on links of a PDF whose target is not
 a text string

---
 refextract/references/pdf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 660d219..4d210f9 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -87,7 +87,8 @@ def extract_texkeys_and_urls_from_pdf(pdf_file):
 
             refs = [(dest[0], _destination_position(pdf, dest[1])) for dest in refs]
             refs.sort(key=sortfunc)
-            urls = [(uri["/A"]["/URI"], _uri_position(pdf, uri)) for uri in urls]
+            urls = [(_uri_text(uri), _uri_position(pdf, uri)) for uri in urls]
+            urls = [url for url in urls if url[0]]
             urls.sort(key=sortfunc)
             texkey_url_list = []
             for nb, ref in enumerate(refs):
@@ -241,6 +242,16 @@ def _destination_position(pdf, destination):
     )
 
 
+def _uri_text(uri_destination):
+    """
+    Gives the URI as a string, or None if it is not a text
+    """
+    uri = uri_destination["/A"]["/URI"]
+    if isinstance(uri, ByteStringObject):
+        return uri.decode("utf-8", errors="replace")
+    return uri if isinstance(uri, str) else None
+
+
 def _uri_position(pdf, uri_destination):
     """
     Gives a tuple (page, column, -y, x) representing the position of the URI
-- 
2.43.0


From c9646fbb8334e1a9c29ba0f85844387b32eebe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 61/72] fix: attach the links of a PDF to the reference they
 stand in only

---
 refextract/references/pdf.py | 61 ++++++++----------------------------
 1 file changed, 13 insertions(+), 48 deletions(-)

diff --git a/refextract/references/pdf.py b/refextract/references/pdf.py
index 4d210f9..c58f47a 100644
--- a/refextract/references/pdf.py
+++ b/refextract/references/pdf.py
@@ -122,7 +122,7 @@ def _match_urls_with_reference(
 ):
     ref_page_number, ref_column, ref_y, _ = reference[1]
     if next_reference:
-        next_ref_page_number, next_ref_col, next_ref_y, _ = next_reference[1]
+        next_ref_page_number, _, next_ref_y, _ = next_reference[1]
     urls_for_reference = set()
     for url_index, url in enumerate(urls_to_match):
         url_page_number, url_col, url_y, _ = url[1]
@@ -141,55 +141,20 @@ def _match_urls_with_reference(
             ) and is_url_under_texkey:
                 urls_for_reference.add(url[0])
             continue
-        is_url_between_texkeys = (
-            is_reference_on_same_page_as_url or is_reference_on_previous_page_than_url
-        ) and (ref_y <= url_y <= next_ref_y)
-        is_next_reference_on_the_same_page = next_ref_page_number == url_page_number
-        is_last_reference_in_page = (
-            is_reference_on_same_page_as_url
-            and (next_ref_page_number > url_page_number)
-            and is_url_under_texkey
-        )
-        is_last_reference_in_page_two_col_layout = (
-            is_reference_on_same_page_as_url
-            and is_next_reference_on_the_same_page
-            and is_url_under_texkey
-            and (next_ref_col > url_col)
-            and next_ref_y < url_y
-            and ref_y <= url_y
-            and (is_url_in_same_col or is_url_in_next_col)
-        )
-        is_in_new_column = (
-            is_reference_on_same_page_as_url
-            and is_next_reference_on_the_same_page
-            and ref_y > url_y
-            and (next_ref_col > ref_column)
-            and (next_ref_y > url_y)
-        )
-        is_url_for_other_reference_in_new_column = (
-            is_reference_on_same_page_as_url
-            and (next_ref_page_number == url_page_number)
-            and (next_ref_col == ref_column < url_col)
-            and (next_ref_y > url_y)
-        )
-        is_url_unrelated_to_references = ref_page_number > url_page_number
-        is_url_for_next_reference = url_y >= next_ref_y
-        if is_url_between_texkeys:
-            if not two_column_layout or (two_column_layout and url_col == ref_column):
-                urls_for_reference.add(url[0])
-                continue
-        elif (
-            is_last_reference_in_page
-            or is_last_reference_in_page_two_col_layout
-            or is_in_new_column
-        ):
-            urls_for_reference.add(url[0])
-            continue
-        elif is_url_unrelated_to_references:
-            continue
-        elif is_url_for_next_reference or is_url_for_other_reference_in_new_column:
+        if two_column_layout:
+            is_url_after_texkey = reference[1][:3] <= url[1][:3]
+            is_url_before_next_texkey = url[1][:3] < next_reference[1][:3]
+        else:
+            is_url_after_texkey = (ref_page_number, ref_y) <= (url_page_number, url_y)
+            is_url_before_next_texkey = (url_page_number, url_y) < (
+                next_ref_page_number,
+                next_ref_y,
+            )
+        if not is_url_before_next_texkey:
             urls_to_match = urls_to_match[url_index:]
             break
+        if is_url_after_texkey:
+            urls_for_reference.add(url[0])
     if not next_reference:
         urls_to_match = []
     return urls_for_reference, urls_to_match
-- 
2.43.0


From 731fad35209b415cbe3a14444275881dc9598342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 62/72] fix: report only HTTP errors of the download as a
 missing full text

---
 refextract/references/api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 7ad7d33..47ba5e1 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -88,13 +88,14 @@ def extract_references_from_url(url, headers=None, chunk_size=1024, **kwargs):
 
     try:
         req = requests.get(url=url, headers=headers, stream=True)
-        req.raise_for_status()
+        try:
+            req.raise_for_status()
+        except requests.exceptions.HTTPError as exc:
+            raise FullTextNotAvailableError(f"URL not found: '{url}'") from exc
         with open(filepath, "wb") as f:
             for chunk in req.iter_content(chunk_size):
                 f.write(chunk)
         references = extract_references_from_file(filepath, **kwargs)
-    except requests.exceptions.HTTPError as exc:
-        raise FullTextNotAvailableError(f"URL not found: '{url}'") from exc
     finally:
         os.remove(filepath)
     return references
-- 
2.43.0


From e541c802d3658a9921044a3397be6cc0a0594e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 63/72] fix: read documents through symbolic links

---
 refextract/references/api.py    | 2 +-
 refextract/references/engine.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/refextract/references/api.py b/refextract/references/api.py
index 47ba5e1..4c845bc 100644
--- a/refextract/references/api.py
+++ b/refextract/references/api.py
@@ -148,7 +148,7 @@ def extract_references_from_file(
         override_kbs_files=override_kbs_files,
     )
 
-    if magic.from_file(path, mime=True) == "application/pdf":
+    if magic.from_file(os.path.realpath(path), mime=True) == "application/pdf":
         extracted_texkeys_urls = extract_texkeys_and_urls_from_pdf(path)
         if len(extracted_texkeys_urls) == len(parsed_refs):
             parsed_refs_updated = []
diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 8c76e01..d964948 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1561,7 +1561,8 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     textbody = []
     if os.path.getsize(fpath):
         clean_pdf_file(fpath)
-    mime_type = magic.from_file(fpath, mime=True)
+    # magic does not follow links
+    mime_type = magic.from_file(os.path.realpath(fpath), mime=True)
 
     if mime_type == "text/plain":
         with open(fpath, "r", encoding="utf-8-sig", errors="replace") as f:
-- 
2.43.0


From 6b2d9b75ffe19769ed01f382cd6b81f42ccbb9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 64/72] fix: read plain text whose lines have the same number
 of commas

---
 refextract/references/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index d964948..5659ad1 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1564,7 +1564,8 @@ def get_plaintext_document_body(fpath, keep_layout=False):
     # magic does not follow links
     mime_type = magic.from_file(os.path.realpath(fpath), mime=True)
 
-    if mime_type == "text/plain":
+    # lines with the same number of commas are taken for CSV
+    if mime_type in ("text/plain", "text/csv", "application/csv"):
         with open(fpath, "r", encoding="utf-8-sig", errors="replace") as f:
             textbody = f.readlines()
     elif mime_type == "application/pdf":
-- 
2.43.0


From 76daade0722fe9153b122906f52e15e3570ddc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 65/72] fix: read PDFs that are not writable and end with a
 line end

---
 refextract/references/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 5659ad1..d900a56 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -1533,6 +1533,9 @@ def clean_pdf_file(filename):
     if start == 0 and end + offset == size:
         # there is no junk, the file needs not be writable
         return
+    if not os.access(filename, os.W_OK):
+        LOGGER.debug("the file is not writable, it is used as it is")
+        return
 
     with (
         open(filename, "r+b") as file,
-- 
2.43.0


From 454149fadfe91673e51745dc48a5e6d745fe3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:51 +0000
Subject: [PATCH 66/72] fix: do not report blank text as a field of a reference

---
 refextract/references/record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/record.py b/refextract/references/record.py
index e00522e..0f9b4ee 100644
--- a/refextract/references/record.py
+++ b/refextract/references/record.py
@@ -50,7 +50,7 @@ def build_references(citations, reference_format=False):
 
 
 def add_subfield(field, code, value):
-    if value:
+    if value and value.strip():
         field.setdefault(code, []).append(value)
 
 
-- 
2.43.0


From 4cb7e0ebf7a399692aac2e235a92be1fac9406d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:09 +0000
Subject: [PATCH 67/72] fix: do not leave part of a publisher's name with
 punctuation in the text

---
 refextract/references/tag.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index 9260882..f88f217 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -289,6 +289,7 @@ def process_reference_line(
                 replacement_types,
                 pprint_repnum_len,
                 journals_matches,
+                publishers_matches,
                 replacement_index,
             )
 
@@ -797,6 +798,7 @@ def account_for_stripped_whitespace(
     replacement_types,
     len_reportnums,
     journals_matches,
+    publishers_matches,
     replacement_index,
 ):
     """To build a processed (MARC XML) reference line in which the
@@ -834,6 +836,8 @@ def account_for_stripped_whitespace(
      NUMBERs matched at the various indices in the line.
     @param len_titles: (dictionary) - the lengths of the various
      TITLEs matched at the various indices in the line.
+    @param publishers_matches: (dictionary) - the publishers matched at the
+     various indices in the line.
     @param replacement_index: (integer) - the index in the working line
      of the identified TITLE or REPORT-NUMBER citation.
     @return: (tuple) containing 2 elements:
@@ -873,6 +877,15 @@ def account_for_stripped_whitespace(
             # before its recognition:
             spare_replacement_index += removed_spaces[space]
             extras += removed_spaces[space]
+        elif (
+            space >= spare_replacement_index
+            and replacement_types[replacement_index] == "publisher"
+            and space
+            < (spare_replacement_index + len(publishers_matches[replacement_index]))
+        ):
+            # The same for a publisher
+            spare_replacement_index += removed_spaces[space]
+            extras += removed_spaces[space]
 
     # return the new values for replacement indices with stripped
     # whitespace accounted for:
-- 
2.43.0


From 3ef2fb0c205d7c905c03e01b0a1aa7c001e64548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:08 +0000
Subject: [PATCH 68/72] fix: do not fail on book titles without a latin letter
 or digit

---
 refextract/references/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index d900a56..1b7e6eb 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -846,7 +846,8 @@ def find_substring_ignore_special_chars(s, substr):
     substr = substr.upper()
     clean_s, dummy_subs_in_s = re.subn("[^A-Z0-9]", "", s)
     clean_substr, dummy_subs_in_substr = re.subn("[^A-Z0-9]", "", substr)
-    startIndex = clean_s.find(clean_substr)
+    # a text without any character that counts cannot be looked for
+    startIndex = clean_s.find(clean_substr) if clean_substr else -1
     if startIndex != -1:
         i = 0
         real_index = 0
-- 
2.43.0


From 23d09baaf6d344069b0fd53c67735646500df2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 69/72] fix: ignore the spaces at the end of a line of the
 report numbers knowledge base

---
 refextract/references/kbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/kbs.py b/refextract/references/kbs.py
index cfac949..616c753 100644
--- a/refextract/references/kbs.py
+++ b/refextract/references/kbs.py
@@ -372,7 +372,7 @@ def build_reportnum_kb(fpath):
                     current_institute_preprint_classifications.append(
                         (
                             m_preprint_classification.group(1),
-                            m_preprint_classification.group(2),
+                            m_preprint_classification.group(2).strip(),
                         )
                     )
                 continue
-- 
2.43.0


From ee1cbc9343784a7e0b910f7b62a8278b9e3b07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 70/72] fix: keep the character that follows a journal without
 a year

---
 refextract/references/tag.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/refextract/references/tag.py b/refextract/references/tag.py
index f88f217..93ecde2 100644
--- a/refextract/references/tag.py
+++ b/refextract/references/tag.py
@@ -698,6 +698,9 @@ def add_tagged_journal(
             # Now look for more funky numeration
             # With possibly some elements before the journal title
             numerotation_info = find_numeration_more(numeration_line)
+            if numerotation_info:
+                # the space above is not part of the reading line
+                numerotation_info["len"] -= 1
 
         if not numerotation_info:
             startpos = old_startpos
-- 
2.43.0


From 398a1b52bf306498179c70dd61b325b9df5f4116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 71/72] fix: keep the text before a journal that is not taken
 for a citation

---
 refextract/references/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/refextract/references/engine.py b/refextract/references/engine.py
index 1b7e6eb..19b72e2 100644
--- a/refextract/references/engine.py
+++ b/refextract/references/engine.py
@@ -156,7 +156,7 @@ def handle_special_journals(citation_elements, kbs):
                 # actually a year, so we skip this reference
                 if el["year"] == "" and re.match(r"(19|20)\d{2}$", el["page"]):
                     el["type"] = "MISC"
-                    el["misc_txt"] = "%s,%s,%s" % (
+                    el["misc_txt"] += "%s,%s,%s" % (
                         el["title"],
                         el["volume"],
                         el["page"],
-- 
2.43.0


From 76fdeadd6e69a617b94655f78c9d3d6e2c18029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 72/72] fix: do not take part of a word or number for a
 contribution to PoS

---
 refextract/references/regexs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/refextract/references/regexs.py b/refextract/references/regexs.py
index 791b6be..29eb8f8 100644
--- a/refextract/references/regexs.py
+++ b/refextract/references/regexs.py
@@ -51,8 +51,8 @@ re_pos_volume = (
 # e.g. (LAT2007)
 re_pos_volume_par = r"\(" + re_pos_volume + r"\)"
 # e.g. 20
-re_pos_page = r"(?P<page>\d{1,4})"
-re_pos_title = r"POS"
+re_pos_page = r"(?P<page>\d{1,4})(?!\d)"
+re_pos_title = r"\bPOS"
 
 re_pos_patterns = [
     re_pos_title
-- 
2.43.0

