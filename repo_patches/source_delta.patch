From 9d7d7a43ff078415f8c0483106cb475675d8b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:10 +0000
Subject: [PATCH 01/36] fix: index lowercase stems under the whole stem, not
 each of their letters

---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 02c690d..6d23e11 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -82,7 +82,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
 
         # And cache word's casing and its lowerase form
         captype = aff.casing.guess(word)
-        lower = aff.casing.lower(word) if captype != CapType.NO else word
+        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
 
         alt_spellings = []
 
-- 
2.43.0


From 7d6415ef6653434d288ac304abfc03613ae3796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:14 +0000
Subject: [PATCH 02/36] fix: treat affix text literally when cutting it off the
 word

---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8f7e450..c665127 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -234,7 +234,7 @@ class Prefix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
-        self.replace_regexp = re.compile('^' + self.add)
+        self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
         return (
@@ -253,7 +253,7 @@ class Suffix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
-        self.replace_regexp = re.compile(self.add + '$')
+        self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
         return (
-- 
2.43.0


From 19500992a9d95fbbee098e3aaf110c0956da26f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:17 +0000
Subject: [PATCH 03/36] fix: treat ICONV/OCONV patterns as literal text

---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index c665127..5956e95 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -425,7 +425,7 @@ class ConvTable:
     def __post_init__(self):
         def compile_row(pat1, pat2):
             pat1clean = pat1.replace('_', '')
-            pat1re = pat1clean
+            pat1re = re.escape(pat1clean)
             if pat1.startswith('_'):
                 pat1re = '^' + pat1re
             if pat1.endswith('_'):
-- 
2.43.0


From f200bf9855aabef79c348bcc6107b8fc340ed1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:20 +0000
Subject: [PATCH 04/36] fix: treat REP patterns as literal text except for ^
 and $ anchors

---
 spylls/hunspell/data/aff.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 5956e95..5dde8c6 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -154,7 +154,11 @@ class RepPattern:
     replacement: str
 
     def __post_init__(self):
-        self.regexp = re.compile(self.pattern)
+        # the pattern is literal text, only ^ at the beginning and $ at the end are treated as in regexps
+        start = '^' if self.pattern.startswith('^') else ''
+        end = '$' if self.pattern.endswith('$') else ''
+        text = self.pattern[len(start):len(self.pattern) - len(end)]
+        self.regexp = re.compile(start + re.escape(text) + end)
 
 
 @dataclass
-- 
2.43.0


From b5c97bf7069befeafccd8a14193df35cdfebc904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:22 +0000
Subject: [PATCH 05/36] =?UTF-8?q?fix:=20do=20not=20fail=20lowercasing=20an?=
 =?UTF-8?q?=20empty=20word=20or=20initial=20=C4=B0=20with=20CHECKSHARPS?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 spylls/hunspell/algo/capitalization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cd69706..be71988 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -200,12 +200,12 @@ class GermanCasing(Casing):
             replaced = text[:pos] + 'ß' + text[pos+2:]
             return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
 
-        lowered = super().lower(word)[0]
+        result = super().lower(word)
 
         if 'SS' in word:
-            return [*sharp_s_variants(lowered), lowered]
+            return [variant for lowered in result for variant in [*sharp_s_variants(lowered), lowered]]
 
-        return [lowered]
+        return result
 
     def guess(self, word):
         result = super().guess(word)
-- 
2.43.0


From 72627ef72bdf2ade677225905b01cda3a0a8476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:25 +0000
Subject: [PATCH 06/36] fix: do not index past the misspelled word when
 restoring case after a space

---
 spylls/hunspell/algo/suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index bc081e9..4940df1 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -220,7 +220,8 @@ class Suggest:
                 # "aNew" will suggest "a new", here we fix it back to "a New"
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
-                    if text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
+                    if (pos < len(word) and text[pos+1:pos+2] != word[pos] and
+                            text[pos+1:pos+2].upper() == word[pos]):
                         text = text[:pos+1] + word[pos] + text[pos+2:]
 
             # If the word is forbidden, nothing more to do
-- 
2.43.0


From f3b00a194e51a0ca31c459658e5785fa72e44126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:29 +0000
Subject: [PATCH 07/36] fix: skip byte-order mark in files that are read as
 UTF-8

---
 spylls/hunspell/readers/file_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 95fb10c..be27c0b 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -44,8 +44,11 @@ class BaseReader:
         ln = self.io.readline()
         while ln != '':
             self.line_no += 1
-            if self.line_no == 1 and ln.startswith("\xef\xbb\xbf"):
-                ln = ln.replace("\xef\xbb\xbf", '')
+            if self.line_no == 1:
+                # BOM looks differently depending on whether the file is being read as UTF-8
+                for bom in ("\xef\xbb\xbf", "\ufeff"):
+                    if ln.startswith(bom):
+                        ln = ln[len(bom):]
             yield (self.line_no, ln.strip())
             ln = self.io.readline()
 
-- 
2.43.0


From bee356477a7d484fe0b914a9b4ddee5664bea1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:31 +0000
Subject: [PATCH 08/36] fix: drop spaces between the dictionary word and its
 data fields

---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 6d23e11..95fed19 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -51,7 +51,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
             tags_start = old_tags_start
 
         if tags_start:
-            word = line[:tags_start]
+            word = line[:tags_start].rstrip(' \t')
             # If tags were present, parse them
             data = parse_data(line[tags_start:], aff.AM)
         else:
-- 
2.43.0


From 3d446c2b98f0ced6a1985395db30a14c6addc266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:34 +0000
Subject: [PATCH 09/36] fix: break words also around one-letter parts

---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 5dde8c6..ab19c7d 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -109,7 +109,7 @@ class BreakPattern:
         if pattern.startswith('^') or pattern.endswith('$'):
             self.regexp = re.compile(f"({pattern})")
         else:
-            self.regexp = re.compile(f".({pattern}).")
+            self.regexp = re.compile(f"(?<=.)({pattern})(?=.)")
 
 
 @dataclass
-- 
2.43.0


From 545bce3fbacaf37bd0b3f743eafccac4b0ae4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:37 +0000
Subject: [PATCH 10/36] fix: do not allow one part more than COMPOUNDWORDMAX

---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9f86dd9..7c34878 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -778,7 +778,7 @@ class Lookup:
 
         # Check compounding limitation (if the rest of the word is less than 2 allowed parts, or if
         # the further compounding would produce more parts than allowed)
-        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX):
+        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
@@ -860,7 +860,7 @@ class Lookup:
                     yield CompoundForm([AffixForm(word_rest, word_rest)])
 
         if len(word_rest) < aff.COMPOUNDMIN * 2 or \
-                (aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX):
+                (aff.COMPOUNDWORDMAX and len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
-- 
2.43.0


From a2e50c43141864197409c909679af0bee56ff2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:39 +0000
Subject: [PATCH 11/36] fix: do not return one edit suggestion more than the
 limit

---
 spylls/hunspell/algo/suggest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 4940df1..fd9baf5 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -390,6 +390,9 @@ class Suggest:
 
         count = 0
 
+        if limit <= 0:
+            return
+
         for suggestion in filter_suggestions(self.edits(word)):
             # Then, for each of those correct suggestions,
             # we run them through handle_found (which performs some final transformations and
@@ -399,7 +402,7 @@ class Suggest:
                 yield res
                 count += 1
 
-                if count > limit:
+                if count >= limit:
                     return
 
     def edits(self, word: str) -> Iterator[Union[Suggestion, MultiWordSuggestion]]:
-- 
2.43.0


From 7ab987ff6c71b1f4728709f747dda79aa54a0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:42 +0000
Subject: [PATCH 12/36] fix: do not let an affix be licensed by its own
 continuation flags

---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 7c34878..64774de 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -691,11 +691,11 @@ class Lookup:
 
         # Prefix might be allowed by: a) stem having this flag or b) suffix having this flag
         # (all flags are made from suffix+prefix+stem flags)
-        if form.prefix and form.prefix.flag not in all_flags:
+        if form.prefix and form.prefix.flag not in root_flags.union(form.suffix.flags if form.suffix else []):
             return False
         # Suffix might be allowed by: a) stem having this flag or b) prefix having this flag
         # (all flags are made from suffix+prefix+stem flags)
-        if form.suffix and form.suffix.flag not in all_flags:
+        if form.suffix and form.suffix.flag not in root_flags.union(form.prefix.flags if form.prefix else []):
             return False
 
         # CIRCUMFIX flag, if present, used to mark suffix and prefix that should go together: if
-- 
2.43.0


From e4445552370906d86afca29a11064c7e3d2ec7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:51 +0000
Subject: [PATCH 13/36] fix: move and swap letters up to four places, also to
 the end of the word

---
 spylls/hunspell/algo/permutations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index d6e1089..8ce5dfc 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -102,7 +102,7 @@ def longswapchar(word: str) -> Iterator[str]:
     """
 
     for first in range(len(word) - 2):
-        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE, len(word))):
+        for second in range(first + 2, min(first + MAX_CHAR_DISTANCE + 1, len(word))):
             yield word[:first] + word[second] + word[first+1:second] + word[first] + word[second+1:]
 
 
@@ -170,11 +170,11 @@ def movechar(word: str) -> Iterator[str]:
         return
 
     for frompos, char in enumerate(word):
-        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
+        for topos in range(frompos + 3, min(len(word) + 1, frompos + MAX_CHAR_DISTANCE + 2)):
             yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]
 
     for frompos in reversed(range(len(word))):
-        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE + 1), frompos - 1)):
+        for topos in reversed(range(max(0, frompos - MAX_CHAR_DISTANCE), frompos - 1)):
             yield word[:topos] + word[frompos] + word[topos:frompos] + word[frompos+1:]
 
 
-- 
2.43.0


From 6756ae73fb300c57914e8155fb4256720a995e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:55 +0000
Subject: [PATCH 14/36] fix: do not wrap around the word start when undoing
 doubled pairs

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 8ce5dfc..1334335 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -204,7 +204,7 @@ def doubletwochars(word: str) -> Iterator[str]:
 
     # TODO: 1) for vacacation yields "vacation" twice, hunspell's algo kinda wiser
     # 2) maybe just use regexp?..
-    for i in range(2, len(word)):
+    for i in range(3, len(word)):
         if word[i-2] == word[i] and word[i-3] == word[i-1]:
             yield word[:i-1] + word[i+1:]
 
-- 
2.43.0


From c11dea6533707e266620ff4d1e62dff91f4a5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:04:57 +0000
Subject: [PATCH 15/36] fix: do not suggest a dashed word again by similarity

---
 spylls/hunspell/algo/suggest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index fd9baf5..09253e2 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -336,6 +336,7 @@ class Suggest:
                         # and "Afro-American" is present in the dictionary as a whole word, it is better
                         # to delegate search for the right breaking to the Lookup.
                         if self.lookup(candidate):
+                            handled.add(candidate)
                             yield Suggestion(candidate, 'dashes')
                     # after only one misspelled chunk, we stop the search anyways, whether we found some
                     # sugestions or not
-- 
2.43.0


From d62d1fd2e8cc6bd6999e5dd4da5f69969e9c1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:00 +0000
Subject: [PATCH 16/36] fix: match 0 in CHECKCOMPOUNDPATTERN against unmodified
 stems

---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index ab19c7d..ea85482 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -390,8 +390,8 @@ class CompoundPattern:
 
     def match(self, left, right):
         return (left.stem.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem)) and \
-               (not self.left_no_affix or not left.is_base()) and \
-               (not self.right_no_affix or not right.is_base()) and \
+               (not self.left_no_affix or left.text == left.stem) and \
+               (not self.right_no_affix or right.text == right.stem) and \
                (not self.left_flag or self.left_flag in left.flags()) and \
                (not self.right_flag or self.right_flag in right.flags())
 
-- 
2.43.0


From 6d1359cebf420e9ab5e5c0b3d7fe2361ee38c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:03 +0000
Subject: [PATCH 17/36] fix: match CHECKCOMPOUNDPATTERN against the text of the
 parts

---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index ea85482..68ef906 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -389,7 +389,7 @@ class CompoundPattern:
             self.right_no_affix = False
 
     def match(self, left, right):
-        return (left.stem.endswith(self.left_stem)) and (right.stem.startswith(self.right_stem)) and \
+        return (left.text.endswith(self.left_stem)) and (right.text.startswith(self.right_stem)) and \
                (not self.left_no_affix or left.text == left.stem) and \
                (not self.right_no_affix or right.text == right.stem) and \
                (not self.left_flag or self.left_flag in left.flags()) and \
-- 
2.43.0


From e4cccefa94e1b669fadc39b992cff84671a322e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:05 +0000
Subject: [PATCH 18/36] fix: do not take two equal letters of one-letter parts
 for a triple

---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 64774de..e688c06 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -921,7 +921,7 @@ class Lookup:
             if aff.CHECKCOMPOUNDTRIPLE:
                 # CHECKCOMPOUNDTRIPLE setting tells, that if there is triplificatioin of some letter
                 # on the bound of two parts (like "foobb" + "bar"), it is not correct compound word
-                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
+                if left[-2:] + right[:1] == right[:1] * 3 or left[-1:] + right[:2] == left[-1:] * 3:
                     return True
 
             if aff.CHECKCOMPOUNDCASE:
-- 
2.43.0


From 7c9bb38de8aed9ad7dcb15b186075cb0959e32fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:05:18 +0000
Subject: [PATCH 19/36] fix: keep the order of data fields in AM aliases

---
 spylls/hunspell/data/aff.py    | 2 +-
 spylls/hunspell/readers/aff.py | 2 +-
 spylls/hunspell/readers/dic.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 68ef906..87339c0 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -1113,7 +1113,7 @@ class Aff:
     #: Table of word data aliases. Logic of aliasing is the same as for :attr:`AM`.
     #:
     #: *Usage:* :meth:`read_dic <spylls.hunspell.readers.dic.read_dic>`
-    AM: Dict[str, Set[str]] = field(default_factory=dict)
+    AM: Dict[str, List[str]] = field(default_factory=dict)
 
     # **Other**
 
diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 4248bfa..2344461 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -262,7 +262,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         }
     if directive == 'AM':
         return {
-            str(i + 1): {*ln}
+            str(i + 1): ln
             for i, ln in enumerate(_read_array())
         }
     if directive == 'COMPOUNDSYLLABLE':
diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 95fed19..9e83071 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -1,7 +1,7 @@
 from collections import defaultdict
 import re
 
-from typing import List, Dict, Set, Optional
+from typing import List, Dict, Optional
 
 from spylls.hunspell.data import dic
 from spylls.hunspell.data.aff import Aff, RepPattern
@@ -124,7 +124,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
     return result
 
 
-def parse_data(text: str, aliases: Dict[str, Set[str]]) -> Dict[str, List[str]]:
+def parse_data(text: str, aliases: Dict[str, List[str]]) -> Dict[str, List[str]]:
     """
     Parse data tags after stem.
     There can be *anything* in this part of the data, but parsed and processed are:
-- 
2.43.0


From 8980bdd5a1a67d835edd959eaf84ba35fb34db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:10:22 +0000
Subject: [PATCH 20/36] fix: keep the second prefix in forms that also have
 suffixes

---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index e688c06..863082c 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -533,7 +533,7 @@ class Lookup:
                 # AND suffix split out
                 if suffix_allowed and form.prefix and form.prefix.crossproduct:
                     yield from (
-                        form2.replace(text=form.text, prefix=form.prefix)
+                        form2.replace(text=form.text, prefix=form.prefix, prefix2=form.prefix2)
                         for form2 in self.desuffix(form.stem,
                                                    required_flags=suffix_flags,
                                                    forbidden_flags=forbidden_flags,
-- 
2.43.0


From 69575c3814f2d48821698eb4c1a127b21decec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:10:25 +0000
Subject: [PATCH 21/36] fix: require cross product of both prefixes to combine
 them with suffixes

---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 863082c..52c5a10 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -531,7 +531,7 @@ class Lookup:
 
                 # ...and, IF this prefix allowed to be combined with suffixes, also with prefix
                 # AND suffix split out
-                if suffix_allowed and form.prefix and form.prefix.crossproduct:
+                if suffix_allowed and all(affix.crossproduct for affix in form.all_affixes()):
                     yield from (
                         form2.replace(text=form.text, prefix=form.prefix, prefix2=form.prefix2)
                         for form2 in self.desuffix(form.stem,
-- 
2.43.0


From ab8f06096cbed97e8fa05d0fccc8a5d49ff4d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:10:45 +0000
Subject: [PATCH 22/36] fix: do not take a numeric flag in a single-flag
 directive for a flag alias

---
 spylls/hunspell/readers/aff.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 2344461..7cce07c 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -55,9 +55,9 @@ class Context:
 
     def parse_flag(self, string: str) -> str:
         """
-        Parse singular flag, considering attr:`flag_format`.
+        Parse singular flag, considering attr:`flag_format`. It is never an alias from AF.
         """
-        return list(self.parse_flags(string))[0]
+        return list(self.split_flags(string))[0]
 
     def parse_flags(self, string: str) -> Iterable[str]:
         """
@@ -70,6 +70,13 @@ class Context:
         if self.flag_synonyms and string.isdigit():
             return self.flag_synonyms[string]
 
+        return self.split_flags(string)
+
+    def split_flags(self, string: str) -> Iterable[str]:
+        """
+        Split string to flags, considering attr:`flag_format` only.
+        """
+
         # TODO: what if string format doesn't match expected (odd number of chars for long, etc.)?
         if self.flag_format == 'short':
             return string
-- 
2.43.0


From 999c98094e59734f140bee77d70c673a14f7b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:11:11 +0000
Subject: [PATCH 23/36] fix: keep looking for other derivations after skipping
 a forbidden stem

---
 spylls/hunspell/algo/lookup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 52c5a10..e30c045 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -400,7 +400,7 @@ class Lookup:
             if (not with_forbidden and self.aff.FORBIDDENWORD and
                     (compoundpos or form.has_affixes()) and
                     any(self.aff.FORBIDDENWORD in homonym.flags for homonym in homonyms)):
-                return
+                continue
 
             for homonym in homonyms:
                 # Now, for each possible homonym of word's stem, we check it at is a "good form"
-- 
2.43.0


From 6546bd6636c182c4217b6e2f18d3d49515c28175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:46 +0000
Subject: [PATCH 24/36] fix: do not build similarity forms with affixes that
 strip other letters

---
 spylls/hunspell/algo/ngram_suggest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/ngram_suggest.py b/spylls/hunspell/algo/ngram_suggest.py
index fc5dc2c..c462e4b 100644
--- a/spylls/hunspell/algo/ngram_suggest.py
+++ b/spylls/hunspell/algo/ngram_suggest.py
@@ -290,13 +290,13 @@ def forms_for(word: data.dic.Word, all_prefixes, all_suffixes, *, similar_to: st
         suffix
         for flag in word.flags
         for suffix in all_suffixes.get(flag, [])
-        if suffix.cond_regexp.search(word.stem) and similar_to.endswith(suffix.add)
+        if suffix.cond_regexp.search(word.stem) and word.stem.endswith(suffix.strip) and similar_to.endswith(suffix.add)
     ]
     prefixes = [
         prefix
         for flag in word.flags
         for prefix in all_prefixes.get(flag, [])
-        if prefix.cond_regexp.search(word.stem) and similar_to.startswith(prefix.add)
+        if prefix.cond_regexp.search(word.stem) and word.stem.startswith(prefix.strip) and similar_to.startswith(prefix.add)
     ]
 
     cross = [
-- 
2.43.0


From c5944bed4fcc5a3a495a82dd893cddf4d2afe5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:06 +0000
Subject: [PATCH 25/36] fix: do not map characters inside what was just put in
 by MAP

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 1334335..c835750 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -70,7 +70,7 @@ def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
                             continue
                         replaced = word[:pos] + other + word[pos+len(option):]
                         yield replaced
-                        for variant in mapchars_internal(replaced, pos + 1):
+                        for variant in mapchars_internal(replaced, pos + len(other)):
                             yield variant
 
     yield from mapchars_internal(word)
-- 
2.43.0


From d0102d99c41bde4ae26c4c7e827c0091ef90c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:52:04 +0000
Subject: [PATCH 26/36] fix: reject forbidden words also in other letter case
 and as parts of a broken word

---
 spylls/hunspell/algo/lookup.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index e30c045..8baf073 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -316,6 +316,11 @@ class Lookup:
 
         # Now, for each of capitalization variants possible
         for variant in variants:
+            # If all dictionary entries for this variant are forbidden, it is incorrect also in other
+            # capitalization, or as a part of the word broken by dashes
+            if self.aff.FORBIDDENWORD and self.dic.has_flag(variant, self.aff.FORBIDDENWORD, for_all=True):
+                continue
+
             if affix_forms:
                 # ...we yield all possible affix forms
                 for form in self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
@@ -434,6 +439,8 @@ class Lookup:
             # we wouldn't need to re-guess here:
             if self.aff.casing.guess(word) == CapType.NO:
                 for homonym in self.dic.homonyms(form.stem, ignorecase=True):
+                    if not with_forbidden and self.aff.FORBIDDENWORD and self.aff.FORBIDDENWORD in homonym.flags:
+                        continue
                     candidate = form.replace(in_dictionary=homonym)
                     if is_good_form(candidate):
                         yield candidate
-- 
2.43.0


From da62eaa21dc92a01c24467c3fb69403888b49e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:10:58 +0000
Subject: [PATCH 27/36] fix: load system dictionaries from folders with .aff in
 their names

---
 spylls/hunspell/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/dictionary.py b/spylls/hunspell/dictionary.py
index 6e656f7..b440c0b 100644
--- a/spylls/hunspell/dictionary.py
+++ b/spylls/hunspell/dictionary.py
@@ -177,7 +177,7 @@ class Dictionary:
         for folder in cls.PATHES:
             pathes = glob.glob(f'{folder}/{name}.aff')
             if pathes:
-                return cls.from_files(pathes[0].replace('.aff', ''))
+                return cls.from_files(pathes[0][:-len('.aff')])
 
         raise LookupError(f'{name}.aff not found (search pathes are {cls.PATHES!r})')
 
-- 
2.43.0


From 6d222a94b4651f86cfcbcfbf059a8233f75ded76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:59 +0000
Subject: [PATCH 28/36] fix: do not fail capitalizing an empty suggestion

---
 spylls/hunspell/algo/capitalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index be71988..cbde0b5 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -154,7 +154,7 @@ class Casing:
         found suggestion "kitten", then this method makes it "Kitten".
         """
         if cap in (Type.INIT, Type.HUHINIT):
-            return self.upper(word[0]) + word[1:]
+            return self.upper(word[:1]) + word[1:]
         if cap == Type.ALL:
             return self.upper(word)
         return word
-- 
2.43.0


From 8efb9275acf0d605a2f42d52309ffef034588ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:06:02 +0000
Subject: [PATCH 29/36] fix: do not combine prefixes with suffixes without
 cross product in unmunch example

---
 examples/unmunch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/unmunch.py b/examples/unmunch.py
index 3b33dd2..6759ba5 100644
--- a/examples/unmunch.py
+++ b/examples/unmunch.py
@@ -95,7 +95,8 @@ def unmunch(word, aff):
                 for suffix in aff.SFX.get(flag, [])
                 if suffix.crossproduct and not suffix in suffixes and suffix.cond_regexp.search(prefixed)
             ]
-            for suffix in suffixes + additional_suffixes:
+            cross_suffixes = [suffix for suffix in suffixes if suffix.crossproduct]
+            for suffix in cross_suffixes + additional_suffixes:
                 root = prefixed[0:-len(suffix.strip)] if suffix.strip else prefixed
                 suffixed = root + suffix.add
                 result.add(suffixed)
-- 
2.43.0


From cd96e444da1854e025a8374dfe9e2e7eb99ac6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:11:27 +0000
Subject: [PATCH 30/36] fix: take regexp characters in affix conditions
 literally

---
 spylls/hunspell/data/aff.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 87339c0..078c9f2 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -236,8 +236,9 @@ class Prefix(Affix):
     """
 
     def __post_init__(self):
-        # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
+        # Only ".", "[...]" and "[^...]" have a special meaning in conditions; "-" and others might happen
+        # as a regular word char (for ex., hu_HU)
+        self.cond_regexp = re.compile('^' + re.sub(r'[-+*?$|(){}\\]', r'\\\g<0>', self.condition))
         self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
@@ -255,8 +256,9 @@ class Suffix(Affix):
     """
 
     def __post_init__(self):
-        # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
+        # Only ".", "[...]" and "[^...]" have a special meaning in conditions; "-" and others might happen
+        # as a regular word char (for ex., hu_HU)
+        self.cond_regexp = re.compile(re.sub(r'[-+*?$|(){}\\]', r'\\\g<0>', self.condition) + '$')
         self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
-- 
2.43.0


From 26bdbb05f99bb1c9a733b47c5d5487d6b777e46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:44 +0000
Subject: [PATCH 31/36] Revert change of the unmunch example

Examples stay as they were.
---
 examples/unmunch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/unmunch.py b/examples/unmunch.py
index 6759ba5..3b33dd2 100644
--- a/examples/unmunch.py
+++ b/examples/unmunch.py
@@ -95,8 +95,7 @@ def unmunch(word, aff):
                 for suffix in aff.SFX.get(flag, [])
                 if suffix.crossproduct and not suffix in suffixes and suffix.cond_regexp.search(prefixed)
             ]
-            cross_suffixes = [suffix for suffix in suffixes if suffix.crossproduct]
-            for suffix in cross_suffixes + additional_suffixes:
+            for suffix in suffixes + additional_suffixes:
                 root = prefixed[0:-len(suffix.strip)] if suffix.strip else prefixed
                 suffixed = root + suffix.add
                 result.add(suffixed)
-- 
2.43.0


From b60cc024d43370757c9db73618da41a5be4b5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 32/36] fix: Match flags of compound rules as literal text

Flags like "." or "+" had their regexp meaning, and numeric flags of different length could be confused.
---
 spylls/hunspell/data/aff.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 078c9f2..1585a06 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -316,13 +316,15 @@ class CompoundRule:
         # This works but is super ad-hoc!
         if '(' in self.text:
             self.flags = set(re.findall(r'\((.+?)\)', self.text))
-            parts = re.findall(r'\([^*?]+?\)[*?]?', self.text)
+            parts = re.findall(r'\(([^*?]+?)\)([*?]?)', self.text)
         else:
             self.flags = set(re.sub(r'[\*\?]', '', self.text))
-            # There are ) flags used in real-life sv_* dictionaries
-            # Obviously it is quite ad-hoc (other chars that have special meaning in regexp might be
-            # used eventually)
-            parts = [part.replace(')', '\\)') for part in re.findall(r'[^*?][*?]?', self.text)]
+            parts = re.findall(r'([^*?])([*?]?)', self.text)
+
+        # Flags are literal text: there are ) flags used in real-life sv_* dictionaries, and other chars
+        # that have special meaning in regexp might be used, too. Each of them is followed by a separator,
+        # so numeric flags of different length can't be confused.
+        parts = [f"({re.escape(flag)},){modifier}" for flag, modifier in parts]
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
@@ -332,14 +334,14 @@ class CompoundRule:
     def fullmatch(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.re.fullmatch(''.join(fc))
+            self.re.fullmatch(''.join(f'{flag},' for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
     def partial_match(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.partial_re.fullmatch(''.join(fc))
+            self.partial_re.fullmatch(''.join(f'{flag},' for flag in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
-- 
2.43.0


From c585ada616e94ec9c9d43195d573902384533b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 33/36] fix: Read digits after the letters of a PHONE rule as
 its priority

They were taken for letters of the pattern, so the rule never matched.
---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 1585a06..3cfdd18 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -484,7 +484,7 @@ class PhonetTable:
     table: List[Tuple[str, str]]
 
     RULE_PATTERN = re.compile(
-        r'(?P<letters>\w+)(\((?P<optional>\w+)\))?(?P<lookahead>[-]+)?(?P<flags>[\^$<]*)(?P<priority>\d)?'
+        r'(?P<letters>[^\W\d]+)(\((?P<optional>\w+)\))?(?P<lookahead>[-]+)?(?P<flags>[\^$<]*)(?P<priority>\d)?'
     )
 
     @dataclass
-- 
2.43.0


From cca80b5aeb13a8c88e5ed595dcebe4cf5ad094b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 34/36] fix: Allow affix tables without rows

---
 spylls/hunspell/readers/aff.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 7cce07c..e3c8fd8 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -117,7 +117,9 @@ def read_aff(source: BaseReader) -> Tuple[aff.Aff, Context]:
 
         # SFX/PFX are the only directives that have multiple entries in .aff file
         if directive in ['SFX', 'PFX']:
-            data[directive][value[0].flag] = value
+            # ...and the table might be empty
+            if value:
+                data[directive][value[0].flag] = value
         else:
             data[directive] = value
 
@@ -205,7 +207,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
     value = values[0] if values else None
 
     def _read_array(count=None):
-        if not count:
+        if count is None:
             count = int(value)
 
         # TODO: handle if fetching it we'll find something NOT starting with teh expected directive name
-- 
2.43.0


From 0c211b002676844e42de28d338d98cefb3300c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:47 +0000
Subject: [PATCH 35/36] fix: Treat COMPOUNDMIN less than 1 as 1

Lookup raised IndexError with COMPOUNDMIN 0 and SIMPLIFIEDTRIPLE.
---
 spylls/hunspell/readers/aff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index e3c8fd8..41b0000 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -221,8 +221,11 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         return value
     if directive == 'IGNORE':
         return aff.Ignore(value)
-    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX']:
+    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
         return int(value)
+    if directive == 'COMPOUNDMIN':
+        # There can't be empty parts of the compound
+        return max(int(value), 1)
     if directive in ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN',
                      'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND',
                      'ONLYINCOMPOUND',
-- 
2.43.0


From 5c30c622f11268ad8a0695a74914a7faa317bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:32 +0000
Subject: [PATCH 36/36] fix: Print affixes of the analysis in the order they
 are attached

The inner of two suffixes or prefixes was printed as the outer one.
---
 spylls/hunspell/algo/lookup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 8baf073..0426d70 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -48,7 +48,7 @@ class AffixForm:
 
     The following is always true (if we consider absent affixes just empty string)::
 
-        prefix + prefix2 + stem + suffix2 + suffix = text
+        prefix2 + prefix + stem + suffix + suffix2 = text
 
     ``prefix2``/``suffix2`` are "secondary", so if the word has only one suffix, it is stored in
     ``suffix`` and ``suffix2`` is ``None``.
@@ -94,15 +94,15 @@ class AffixForm:
             return f'AffixForm({self.text})'
 
         result = f'AffixForm({self.text} = '
-        if self.prefix:
-            result += f'{self.prefix!r} + '
         if self.prefix2:
             result += f'{self.prefix2!r} + '
+        if self.prefix:
+            result += f'{self.prefix!r} + '
         result += self.stem
-        if self.suffix2:
-            result += f' + {self.suffix2!r}'
         if self.suffix:
             result += f' + {self.suffix!r}'
+        if self.suffix2:
+            result += f' + {self.suffix2!r}'
         result += ')'
         return result
 
-- 
2.43.0

