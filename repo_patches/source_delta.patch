From d40fabea60182bfa1d745dc97eb449a20516ff2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 01/31] fix: index lowercase stems as a whole in read_dic

---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 02c690d..6d23e11 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -82,7 +82,7 @@ def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
 
         # And cache word's casing and its lowerase form
         captype = aff.casing.guess(word)
-        lower = aff.casing.lower(word) if captype != CapType.NO else word
+        lower = aff.casing.lower(word) if captype != CapType.NO else [word]
 
         alt_spellings = []
 
-- 
2.43.0


From 3eab217796c5fbf4305f32d9c7392658f38d3b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 02/31] fix: do not expand morphological aliases endlessly

---
 spylls/hunspell/readers/dic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index 6d23e11..e128896 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -161,7 +161,8 @@ def parse_data(text: str, aliases: Dict[str, Set[str]]) -> Dict[str, List[str]]:
             # (defined in .aff file list of data tags corresponding to some number)
             # So we just mutate the list of tags we are currently processing, so those fetched
             # by numeric alias would be handled.
-            parts.extend(aliases[tag_str])
+            # (Aliases are not nested: alias inside alias is just a data that is not a tag.)
+            parts.extend(tag for tag in aliases[tag_str] if not tag.isdigit())
         else:
             pass
 
-- 
2.43.0


From e7357466990a4f034386f0b74a2e5b4714c90190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 03/31] fix: lowercase empty and dotted-I words with sharp s
 casing

---
 spylls/hunspell/algo/capitalization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cd69706..be71988 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -200,12 +200,12 @@ class GermanCasing(Casing):
             replaced = text[:pos] + 'ß' + text[pos+2:]
             return [replaced, *sharp_s_variants(replaced, pos+1), *sharp_s_variants(text, pos+2)]
 
-        lowered = super().lower(word)[0]
+        result = super().lower(word)
 
         if 'SS' in word:
-            return [*sharp_s_variants(lowered), lowered]
+            return [variant for lowered in result for variant in [*sharp_s_variants(lowered), lowered]]
 
-        return [lowered]
+        return result
 
     def guess(self, word):
         result = super().guess(word)
-- 
2.43.0


From e1f22a53e797c1b4c183f868588ef09857ab6001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 04/31] fix: do not fail on capitalizing an empty suggestion

---
 spylls/hunspell/algo/capitalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index be71988..cbde0b5 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -154,7 +154,7 @@ class Casing:
         found suggestion "kitten", then this method makes it "Kitten".
         """
         if cap in (Type.INIT, Type.HUHINIT):
-            return self.upper(word[0]) + word[1:]
+            return self.upper(word[:1]) + word[1:]
         if cap == Type.ALL:
             return self.upper(word)
         return word
-- 
2.43.0


From 4c77eba653d35aca568f72d24f7e375435d9b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 05/31] fix: do not read past the word's end when
 recapitalizing split suggestion

---
 spylls/hunspell/algo/suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index bc081e9..1cb9939 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -220,7 +220,8 @@ class Suggest:
                 # "aNew" will suggest "a new", here we fix it back to "a New"
                 if captype in [CapType.HUH, CapType.HUHINIT] and ' ' in text:
                     pos = text.find(' ')
-                    if text[pos + 1] != word[pos] and text[pos + 1].upper() == word[pos]:
+                    if pos < len(word) and text[pos + 1:pos + 2] != word[pos] and \
+                            text[pos + 1:pos + 2].upper() == word[pos]:
                         text = text[:pos+1] + word[pos] + text[pos+2:]
 
             # If the word is forbidden, nothing more to do
-- 
2.43.0


From e2b6459b31bcd628febbe875311271519b7f62b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 06/31] fix: do not suggest the same dashed word twice

---
 spylls/hunspell/algo/suggest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 1cb9939..0ec4460 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -335,7 +335,8 @@ class Suggest:
                         # are ambiguities how to split: if we are fixing "quas-Afro-American"->"quasi-Afro-American",
                         # and "Afro-American" is present in the dictionary as a whole word, it is better
                         # to delegate search for the right breaking to the Lookup.
-                        if self.lookup(candidate):
+                        if candidate not in handled and self.lookup(candidate):
+                            handled.add(candidate)
                             yield Suggestion(candidate, 'dashes')
                     # after only one misspelled chunk, we stop the search anyways, whether we found some
                     # sugestions or not
-- 
2.43.0


From 24aa7644a319b5b65d56839fa94961f42980b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 07/31] fix: do not exceed the limit of edit suggestions by one

---
 spylls/hunspell/algo/suggest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/algo/suggest.py b/spylls/hunspell/algo/suggest.py
index 0ec4460..338f55c 100644
--- a/spylls/hunspell/algo/suggest.py
+++ b/spylls/hunspell/algo/suggest.py
@@ -392,6 +392,9 @@ class Suggest:
         count = 0
 
         for suggestion in filter_suggestions(self.edits(word)):
+            if count >= limit:
+                return
+
             # Then, for each of those correct suggestions,
             # we run them through handle_found (which performs some final transformations and
             # checks, and may handle 1 or 0 suggestions; 0 in the case it was already seen or
@@ -400,9 +403,6 @@ class Suggest:
                 yield res
                 count += 1
 
-                if count > limit:
-                    return
-
     def edits(self, word: str) -> Iterator[Union[Suggestion, MultiWordSuggestion]]:
         """
         Produces all possible word edits in a form of :class:`Suggestion` or :class:`MultiWordSuggestion`.
-- 
2.43.0


From 1612188ca9973291b63c43efdde1c314f7a498db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 08/31] fix: endless recursion when MAP replacement contains
 replaced text

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index d6e1089..70f39d2 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -70,7 +70,7 @@ def mapchars(word: str, maptable: List[Set[str]]) -> Iterator[str]:
                             continue
                         replaced = word[:pos] + other + word[pos+len(option):]
                         yield replaced
-                        for variant in mapchars_internal(replaced, pos + 1):
+                        for variant in mapchars_internal(replaced, pos + len(other)):
                             yield variant
 
     yield from mapchars_internal(word)
-- 
2.43.0


From 976a02ecad62b4cb883025f8e653ad9ffd6c0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:41 +0000
Subject: [PATCH 09/31] fix: do not look before the word's start in
 doubletwochars

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 70f39d2..4022bad 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -204,7 +204,7 @@ def doubletwochars(word: str) -> Iterator[str]:
 
     # TODO: 1) for vacacation yields "vacation" twice, hunspell's algo kinda wiser
     # 2) maybe just use regexp?..
-    for i in range(2, len(word)):
+    for i in range(3, len(word)):
         if word[i-2] == word[i] and word[i-3] == word[i-1]:
             yield word[:i-1] + word[i+1:]
 
-- 
2.43.0


From d51663b774acce944f9eb6977e13076a6c3d8a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 10/31] fix: endless loop on phonetic rule with empty match

---
 spylls/hunspell/algo/phonet_suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/phonet_suggest.py b/spylls/hunspell/algo/phonet_suggest.py
index 77de4f6..f44d5ff 100644
--- a/spylls/hunspell/algo/phonet_suggest.py
+++ b/spylls/hunspell/algo/phonet_suggest.py
@@ -119,7 +119,7 @@ def metaphone(table: aff.PhonetTable, word: str) -> str:
             match = rule.match(word, pos)
             if match:
                 res += rule.replacement
-                pos += match.span()[1] - match.span()[0]
+                pos += max(match.span()[1] - match.span()[0], 1)
                 break
         if not match:
             pos += 1
-- 
2.43.0


From 447fde54aa167c7510ef3f45cd8f5bfa4e6d87e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 11/31] fix: treat REP pattern text literally

---
 spylls/hunspell/data/aff.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 8f7e450..580a6ee 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -154,7 +154,11 @@ class RepPattern:
     replacement: str
 
     def __post_init__(self):
-        self.regexp = re.compile(self.pattern)
+        # only ^ at the beginning and $ at the end are special, everything else is literal
+        start = '^' if self.pattern.startswith('^') else ''
+        end = '$' if self.pattern.endswith('$') else ''
+        text = self.pattern[len(start):len(self.pattern) - len(end)]
+        self.regexp = re.compile(start + re.escape(text) + end)
 
 
 @dataclass
-- 
2.43.0


From 725d3368e98b3284805dfb37170b6ff3dca61134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 12/31] fix: treat affix text literally when removing it from
 the word

---
 spylls/hunspell/data/aff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 580a6ee..fa175e9 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -238,7 +238,7 @@ class Prefix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
-        self.replace_regexp = re.compile('^' + self.add)
+        self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
         return (
@@ -257,7 +257,7 @@ class Suffix(Affix):
     def __post_init__(self):
         # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
         self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
-        self.replace_regexp = re.compile(self.add + '$')
+        self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
         return (
-- 
2.43.0


From cc7c03e226572ed7f22d5bf51563a6900fdae09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 13/31] fix: treat ICONV/OCONV pattern text literally

---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index fa175e9..6baad09 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -429,7 +429,7 @@ class ConvTable:
     def __post_init__(self):
         def compile_row(pat1, pat2):
             pat1clean = pat1.replace('_', '')
-            pat1re = pat1clean
+            pat1re = re.escape(pat1clean)
             if pat1.startswith('_'):
                 pat1re = '^' + pat1re
             if pat1.endswith('_'):
-- 
2.43.0


From 1894d0c18b5697e4d4066f5256e971183241ce6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 14/31] fix: treat COMPOUNDMIN 0 as 1

---
 spylls/hunspell/readers/aff.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 4248bfa..777b065 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -212,8 +212,11 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
         return value
     if directive == 'IGNORE':
         return aff.Ignore(value)
-    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDMIN', 'COMPOUNDWORDMAX']:
+    if directive in ['MAXDIFF', 'MAXNGRAMSUGS', 'MAXCPDSUGS', 'COMPOUNDWORDMAX']:
         return int(value)
+    if directive == 'COMPOUNDMIN':
+        # compound parts can't be empty
+        return max(int(value), 1)
     if directive in ['NOSUGGEST', 'KEEPCASE', 'CIRCUMFIX', 'NEEDAFFIX', 'FORBIDDENWORD', 'WARN',
                      'COMPOUNDFLAG', 'COMPOUNDBEGIN', 'COMPOUNDMIDDLE', 'COMPOUNDEND',
                      'ONLYINCOMPOUND',
-- 
2.43.0


From b2ae7ec06b9c38631b286c88ada7ed6ad79f7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 15/31] fix: strip byte order mark from files read as UTF-8

---
 spylls/hunspell/readers/file_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/file_reader.py b/spylls/hunspell/readers/file_reader.py
index 95fb10c..1b838f4 100644
--- a/spylls/hunspell/readers/file_reader.py
+++ b/spylls/hunspell/readers/file_reader.py
@@ -44,8 +44,11 @@ class BaseReader:
         ln = self.io.readline()
         while ln != '':
             self.line_no += 1
-            if self.line_no == 1 and ln.startswith("\xef\xbb\xbf"):
-                ln = ln.replace("\xef\xbb\xbf", '')
+            if self.line_no == 1:
+                # BOM, as it is seen in single-byte encoding, or in UTF-8
+                for bom in ["\xef\xbb\xbf", "\ufeff"]:
+                    if ln.startswith(bom):
+                        ln = ln[len(bom):]
             yield (self.line_no, ln.strip())
             ln = self.io.readline()
 
-- 
2.43.0


From dc837eda988096d6390c15b9242acb9a9d07139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 16/31] fix: check FORBIDDENWORD for all capitalization
 variants

---
 spylls/hunspell/algo/lookup.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 9f86dd9..32a58db 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -316,6 +316,11 @@ class Lookup:
 
         # Now, for each of capitalization variants possible
         for variant in variants:
+            # The form that is explicitly forbidden by the dictionary can't be good, no matter how it
+            # was capitalized in the text (or which chars were converted or ignored to get to it)
+            if self.aff.FORBIDDENWORD and self.dic.has_flag(variant, self.aff.FORBIDDENWORD, for_all=True):
+                continue
+
             if affix_forms:
                 # ...we yield all possible affix forms
                 for form in self.affix_forms(variant, captype=captype, allow_nosuggest=allow_nosuggest):
-- 
2.43.0


From e90166a4d4a927e4b435cc4908b12e02f505678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 17/31] fix: compound of more than COMPOUNDWORDMAX parts is not
 allowed

---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 32a58db..4068274 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -783,7 +783,7 @@ class Lookup:
 
         # Check compounding limitation (if the rest of the word is less than 2 allowed parts, or if
         # the further compounding would produce more parts than allowed)
-        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth >= aff.COMPOUNDWORDMAX):
+        if len(word_rest) < aff.COMPOUNDMIN * 2 or (aff.COMPOUNDWORDMAX and depth + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         compoundpos = CompoundPos.MIDDLE if depth else CompoundPos.BEGIN
@@ -865,7 +865,7 @@ class Lookup:
                     yield CompoundForm([AffixForm(word_rest, word_rest)])
 
         if len(word_rest) < aff.COMPOUNDMIN * 2 or \
-                (aff.COMPOUNDWORDMAX and len(prev_parts) >= aff.COMPOUNDWORDMAX):
+                (aff.COMPOUNDWORDMAX and len(prev_parts) + 1 >= aff.COMPOUNDWORDMAX):
             return
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
-- 
2.43.0


From d82ba82c7e27065f8c3b11b45f4b37cff5511266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 18/31] fix: consider FORBIDDENWORD and NOSUGGEST in
 compounding by rules

---
 spylls/hunspell/algo/lookup.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 4068274..6e0466d 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -827,7 +827,7 @@ class Lookup:
                            word_rest: str,
                            prev_parts: List[data.dic.Word] = [],
                            rules: Optional[List[data.aff.CompoundRule]] = None,
-                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:  # pylint: disable=unused-argument
+                           allow_nosuggest: bool = True) -> Iterator[CompoundForm]:
         """
         Different way of producing compound words: by rules, looking like ``A*BC?CD``, where A, B, C, D
         are flags the word might have, and ``*?`` have the same meaning as in regular expressions.
@@ -853,12 +853,18 @@ class Lookup:
             # We start with all known rules
             rules = self.aff.COMPOUNDRULE
 
-        # FIXME: ignores flags like FORBIDDENWORD and nosuggest
+        # Same as for the other parts of compounds: forbidden words can't participate, and NOSUGGEST
+        # ones can't when called from suggest
+        def allowed_homonyms(stem):
+            homonyms = self.dic.homonyms(stem)
+            if aff.FORBIDDENWORD and any(aff.FORBIDDENWORD in homonym.flags for homonym in homonyms):
+                return []
+            return [homonym for homonym in homonyms if allow_nosuggest or aff.NOSUGGEST not in homonym.flags]
 
         # If it is middle of compounding process "the rest of the word is the whole last part" is always
         # possible
         if prev_parts:
-            for homonym in self.dic.homonyms(word_rest):
+            for homonym in allowed_homonyms(word_rest):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 if any(r.fullmatch(flag_sets) for r in rules):
@@ -870,12 +876,13 @@ class Lookup:
 
         for pos in range(aff.COMPOUNDMIN, len(word_rest) - aff.COMPOUNDMIN + 1):
             beg = word_rest[0:pos]
-            for homonym in self.dic.homonyms(beg):
+            for homonym in allowed_homonyms(beg):
                 parts = [*prev_parts, homonym]
                 flag_sets = [w.flags for w in parts]
                 compoundrules = [r for r in rules if r.partial_match(flag_sets)]
                 if compoundrules:
-                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts):
+                    for rest in self.compounds_by_rules(word_rest[pos:], rules=compoundrules, prev_parts=parts,
+                                                        allow_nosuggest=allow_nosuggest):
                         yield CompoundForm([AffixForm(beg, beg), *rest.parts])
 
     def is_bad_compound(self, compound: CompoundForm, captype: CapType) -> bool:
-- 
2.43.0


From 3fb424ed8c9321c292a49a98fec6f73669d9d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:56:42 +0000
Subject: [PATCH 19/31] fix: CHECKCOMPOUNDTRIPLE should prohibit only three
 repeating letters

---
 spylls/hunspell/algo/lookup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 6e0466d..82bca0e 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -933,7 +933,8 @@ class Lookup:
             if aff.CHECKCOMPOUNDTRIPLE:
                 # CHECKCOMPOUNDTRIPLE setting tells, that if there is triplificatioin of some letter
                 # on the bound of two parts (like "foobb" + "bar"), it is not correct compound word
-                if len(set(left[-2:] + right[:1])) == 1 or len(set(left[-1:] + right[:2])) == 1:
+                if any(len(bound) == 3 and len(set(bound)) == 1
+                       for bound in [left[-2:] + right[:1], left[-1:] + right[:2]]):
                     return True
 
             if aff.CHECKCOMPOUNDCASE:
-- 
2.43.0


From a1d332befd26bdf9d680ab62aeafa87bdda7f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:43 +0000
Subject: [PATCH 20/31] fix: capitalize one-letter word as a whole

---
 spylls/hunspell/algo/capitalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/capitalization.py b/spylls/hunspell/algo/capitalization.py
index cbde0b5..20e868d 100644
--- a/spylls/hunspell/algo/capitalization.py
+++ b/spylls/hunspell/algo/capitalization.py
@@ -84,7 +84,7 @@ class Casing:
             word:
         """
         if len(word) == 1:
-            return iter(self.upper(word[0]))
+            return iter([self.upper(word[0])])
         else:
             return (self.upper(word[0]) + lower for lower in self.lower(word[1:]))
 
-- 
2.43.0


From 310cc0eb25253632f6675f681154e574186c0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 16:59:45 +0000
Subject: [PATCH 21/31] fix: break the word at all break points, even one
 letter apart

---
 spylls/hunspell/data/aff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 6baad09..e715230 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -109,7 +109,7 @@ class BreakPattern:
         if pattern.startswith('^') or pattern.endswith('$'):
             self.regexp = re.compile(f"({pattern})")
         else:
-            self.regexp = re.compile(f".({pattern}).")
+            self.regexp = re.compile(f"(?<=.)({pattern})(?=.)")
 
 
 @dataclass
-- 
2.43.0


From c1c25a9664e36fa2074c4a9ed2ffa99efa1bb670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:02:41 +0000
Subject: [PATCH 22/31] fix: move a character to the very end of the word, too

---
 spylls/hunspell/algo/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/permutations.py b/spylls/hunspell/algo/permutations.py
index 4022bad..3d8732b 100644
--- a/spylls/hunspell/algo/permutations.py
+++ b/spylls/hunspell/algo/permutations.py
@@ -170,7 +170,7 @@ def movechar(word: str) -> Iterator[str]:
         return
 
     for frompos, char in enumerate(word):
-        for topos in range(frompos + 3, min(len(word), frompos + MAX_CHAR_DISTANCE + 1)):
+        for topos in range(frompos + 3, min(len(word) + 1, frompos + MAX_CHAR_DISTANCE + 1)):
             yield word[:frompos] + word[frompos+1:topos] + char + word[topos:]
 
     for frompos in reversed(range(len(word))):
-- 
2.43.0


From 0bf3bc0d1a10f18fe44ce03a4c0f484a13b0664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:22 +0000
Subject: [PATCH 23/31] fix: treat COMPOUNDRULE flags literally

---
 spylls/hunspell/data/aff.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index e715230..69fc19d 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -317,10 +317,9 @@ class CompoundRule:
             parts = re.findall(r'\([^*?]+?\)[*?]?', self.text)
         else:
             self.flags = set(re.sub(r'[\*\?]', '', self.text))
-            # There are ) flags used in real-life sv_* dictionaries
-            # Obviously it is quite ad-hoc (other chars that have special meaning in regexp might be
-            # used eventually)
-            parts = [part.replace(')', '\\)') for part in re.findall(r'[^*?][*?]?', self.text)]
+            # Flags can be any chars, including those having special meaning in regexp: there are ) flags
+            # used in real-life sv_* dictionaries
+            parts = [re.escape(part[0]) + part[1:] for part in re.findall(r'[^*?][*?]?', self.text)]
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
-- 
2.43.0


From b07fec2c88d05d649829b7a78422cad8c64ed4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:14:47 +0000
Subject: [PATCH 24/31] fix: match long and numeric COMPOUNDRULE flags as a
 whole

---
 spylls/hunspell/data/aff.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 69fc19d..37ec424 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -314,12 +314,15 @@ class CompoundRule:
         # This works but is super ad-hoc!
         if '(' in self.text:
             self.flags = set(re.findall(r'\((.+?)\)', self.text))
-            parts = re.findall(r'\([^*?]+?\)[*?]?', self.text)
+            # The end of each flag is marked, to not confuse 1+11 with 11+1
+            parts = [f'({re.escape(flag)},){mark}' for flag, mark in re.findall(r'\((.+?)\)([*?]?)', self.text)]
+            self.separator = ','
         else:
             self.flags = set(re.sub(r'[\*\?]', '', self.text))
             # Flags can be any chars, including those having special meaning in regexp: there are ) flags
             # used in real-life sv_* dictionaries
             parts = [re.escape(part[0]) + part[1:] for part in re.findall(r'[^*?][*?]?', self.text)]
+            self.separator = ''
 
         self.re = re.compile(''.join(parts))
         self.partial_re = re.compile(
@@ -329,14 +332,14 @@ class CompoundRule:
     def fullmatch(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.re.fullmatch(''.join(fc))
+            self.re.fullmatch(''.join(f + self.separator for f in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
     def partial_match(self, flag_sets):
         relevant_flags = [self.flags.intersection(f) for f in flag_sets]
         return any(
-            self.partial_re.fullmatch(''.join(fc))
+            self.partial_re.fullmatch(''.join(f + self.separator for f in fc))
             for fc in itertools.product(*relevant_flags)
         )
 
-- 
2.43.0


From 25f4421cbe5b09839458fdc1ea72b5da081425a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:16:39 +0000
Subject: [PATCH 25/31] fix: never treat single flag as a flag synonym's number

---
 spylls/hunspell/readers/aff.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 777b065..849e425 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -57,17 +57,18 @@ class Context:
         """
         Parse singular flag, considering attr:`flag_format`.
         """
-        return list(self.parse_flags(string))[0]
+        return list(self.parse_flags(string, synonyms=False))[0]
 
-    def parse_flags(self, string: str) -> Iterable[str]:
+    def parse_flags(self, string: str, *, synonyms: bool = True) -> Iterable[str]:
         """
-        Parse set of flags, considering attr:`flag_format`.
+        Parse set of flags, considering attr:`flag_format`. ``synonyms`` defines whether number could be the
+        reference to :attr:`flag_synonyms` (that's not so for single flags in directives).
         """
 
         if string is None:
             return []
 
-        if self.flag_synonyms and string.isdigit():
+        if synonyms and self.flag_synonyms and string.isdigit():
             return self.flag_synonyms[string]
 
         # TODO: what if string format doesn't match expected (odd number of chars for long, etc.)?
-- 
2.43.0


From ae2e8202db4844f09d93369a20eb04a1073038ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:00:43 +0000
Subject: [PATCH 26/31] fix: do not leave blanks at the end of a stem when
 several precede its data tags

---
 spylls/hunspell/readers/dic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/readers/dic.py b/spylls/hunspell/readers/dic.py
index e128896..12f2a5a 100644
--- a/spylls/hunspell/readers/dic.py
+++ b/spylls/hunspell/readers/dic.py
@@ -15,7 +15,7 @@ from spylls.hunspell.algo.capitalization import Type as CapType
 COUNT_REGEXP = re.compile(r'^\d+(\s+|$)')   # should start with digits, but can have whatever further
 SPACES_REGEXP = re.compile(r"\s+")
 SLASH_REGEXP = re.compile(r'(?<!\\)/')
-TAG_REGEXP = re.compile(r'[ \t]\w{2}:')
+TAG_REGEXP = re.compile(r'[ \t]+\w{2}:')
 
 
 def read_dic(source: BaseReader, *, aff: Aff, context: Context) -> dic.Dic:
-- 
2.43.0


From 9694a8ad84f219d403f303f2869f08a755072a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:48:02 +0000
Subject: [PATCH 27/31] fix: do not add entries to the PHONE table while
 searching it

---
 spylls/hunspell/algo/phonet_suggest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spylls/hunspell/algo/phonet_suggest.py b/spylls/hunspell/algo/phonet_suggest.py
index f44d5ff..de6f46f 100644
--- a/spylls/hunspell/algo/phonet_suggest.py
+++ b/spylls/hunspell/algo/phonet_suggest.py
@@ -115,7 +115,7 @@ def metaphone(table: aff.PhonetTable, word: str) -> str:
     # http://aspell.net/man-html/Phonetic-Code.html
     while pos < len(word):
         match = None
-        for rule in table.rules[word[pos]]:
+        for rule in table.rules.get(word[pos], []):
             match = rule.match(word, pos)
             if match:
                 res += rule.replacement
-- 
2.43.0


From c6ab73b2abd99e5f7cf1d012eed729167fad9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:06:56 +0000
Subject: [PATCH 28/31] fix: read affix tables that have no rows

A header of prefixes or suffixes with the number of rows 0 was an error,
or took the rows that follow (if the flag was a number): the count 0 was
treated as absent.
---
 spylls/hunspell/readers/aff.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/readers/aff.py b/spylls/hunspell/readers/aff.py
index 849e425..aa6f161 100644
--- a/spylls/hunspell/readers/aff.py
+++ b/spylls/hunspell/readers/aff.py
@@ -111,7 +111,8 @@ def read_aff(source: BaseReader) -> Tuple[aff.Aff, Context]:
 
         # SFX/PFX are the only directives that have multiple entries in .aff file
         if directive in ['SFX', 'PFX']:
-            data[directive][value[0].flag] = value
+            if value:
+                data[directive][value[0].flag] = value
         else:
             data[directive] = value
 
@@ -199,7 +200,7 @@ def read_value(source: BaseReader, directive: str, *values, context: Context) ->
     value = values[0] if values else None
 
     def _read_array(count=None):
-        if not count:
+        if count is None:
             count = int(value)
 
         # TODO: handle if fetching it we'll find something NOT starting with teh expected directive name
-- 
2.43.0


From b9e4a37f9d57a8c0077e725b77ed58214386e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:29:49 +0000
Subject: [PATCH 29/31] fix: take ^ and $ inside of BREAK patterns literally

They are anchors only at the beginning and at the end of a pattern;
elsewhere they made a pattern that matched nothing.
---
 spylls/hunspell/data/aff.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index 37ec424..eb7222d 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -104,12 +104,14 @@ class BreakPattern:
     pattern: str
 
     def __post_init__(self):
-        # special chars like #, -, * etc should be escaped, but ^ and $ should be treated as in regexps
-        pattern = re.escape(self.pattern).replace('\\^', '^').replace('\\$', '$')
-        if pattern.startswith('^') or pattern.endswith('$'):
-            self.regexp = re.compile(f"({pattern})")
+        # only ^ at the beginning and $ at the end are special, everything else is literal
+        start = '^' if self.pattern.startswith('^') else ''
+        end = '$' if self.pattern.endswith('$') else ''
+        text = re.escape(self.pattern[len(start):len(self.pattern) - len(end)])
+        if start or end:
+            self.regexp = re.compile(f"{start}({text}){end}")
         else:
-            self.regexp = re.compile(f"(?<=.)({pattern})(?=.)")
+            self.regexp = re.compile(f"(?<=.)({text})(?=.)")
 
 
 @dataclass
-- 
2.43.0


From f49a5e89988c54fba1194e8f7dbf06fecbc1192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:04 +0000
Subject: [PATCH 30/31] fix: take characters of affix conditions literally

---
 spylls/hunspell/data/aff.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/spylls/hunspell/data/aff.py b/spylls/hunspell/data/aff.py
index eb7222d..eb49c67 100644
--- a/spylls/hunspell/data/aff.py
+++ b/spylls/hunspell/data/aff.py
@@ -163,6 +163,12 @@ class RepPattern:
         self.regexp = re.compile(start + re.escape(text) + end)
 
 
+def condition_regexp(condition):
+    # Only [], [^] and . have a special meaning; everything else might happen as a regular word char
+    # (for ex., "-" in hu_HU)
+    return re.sub(r'[^\w\[\].^]|(?<!\[)\^', r'\\\g<0>', condition)
+
+
 @dataclass
 class Affix:
     """
@@ -238,8 +244,7 @@ class Prefix(Affix):
     """
 
     def __post_init__(self):
-        # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile('^' + self.condition.replace('-', '\\-'))
+        self.cond_regexp = re.compile('^' + condition_regexp(self.condition))
         self.replace_regexp = re.compile('^' + re.escape(self.add))
 
     def __repr__(self):
@@ -257,8 +262,7 @@ class Suffix(Affix):
     """
 
     def __post_init__(self):
-        # "-" does NOT have a special regex-meaning, while might happen as a regular word char (for ex., hu_HU)
-        self.cond_regexp = re.compile(self.condition.replace('-', '\\-') + '$')
+        self.cond_regexp = re.compile(condition_regexp(self.condition) + '$')
         self.replace_regexp = re.compile(re.escape(self.add) + '$')
 
     def __repr__(self):
-- 
2.43.0


From be7288ea4dc226ebb8da7e94f21e4d44f3842ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:04 +0000
Subject: [PATCH 31/31] fix: put back the strip text of affixes as it is
 written

---
 spylls/hunspell/algo/lookup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spylls/hunspell/algo/lookup.py b/spylls/hunspell/algo/lookup.py
index 82bca0e..9a98db9 100644
--- a/spylls/hunspell/algo/lookup.py
+++ b/spylls/hunspell/algo/lookup.py
@@ -583,7 +583,7 @@ class Lookup:
             # stem is produced by removing the suffix, and, optionally, adding the part of the
             # stem (named ``strip``). For example, suffix might be declared as ``(strip=y, add=ier)``,
             # then to restore the original stem from word "prettier" we must remove "ier" and add back "y"
-            stem = suffix.replace_regexp.sub(suffix.strip, word)
+            stem = suffix.replace_regexp.sub(lambda _: suffix.strip, word)
             # Even with matching flags, the suffix's condition still might prohibit this form
             if not suffix.cond_regexp.search(stem):
                 continue
@@ -620,7 +620,7 @@ class Lookup:
         )
 
         for prefix in possible_prefixes:
-            stem = prefix.replace_regexp.sub(prefix.strip, word)
+            stem = prefix.replace_regexp.sub(lambda _: prefix.strip, word)
 
             if not prefix.cond_regexp.search(stem):
                 continue
-- 
2.43.0

