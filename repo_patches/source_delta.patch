From 021e94d0eb796460a3afd2c199e07f28deff189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 01/65] fix: Lemmatizer.candidates called a method that does
 not exist

---
 soynlp/lemmatizer/_lemmatizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/lemmatizer/_lemmatizer.py b/soynlp/lemmatizer/_lemmatizer.py
index 8397c2e..3379f41 100644
--- a/soynlp/lemmatizer/_lemmatizer.py
+++ b/soynlp/lemmatizer/_lemmatizer.py
@@ -33,7 +33,7 @@ class Lemmatizer:
         for i in range(1, len(word) + 1):
             l = word[:i]
             r = word[i:]
-            candidates.update(self.lemma_candidate(l, r, self._predefined))
+            candidates.update(lemma_candidate(l, r, self._predefined))
         return candidates
 
 def debug_message(message, l, r):
-- 
2.43.0


From e64db360c4d732f065533bdcd2799717ceb296e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 02/65] fix: raise NotImplementedError instead of the
 NotImplemented constant

---
 soynlp/ner/_rules.py   | 12 ++++++------
 soynlp/word/_phrase.py |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/soynlp/ner/_rules.py b/soynlp/ner/_rules.py
index d4c4042..3f6274d 100644
--- a/soynlp/ner/_rules.py
+++ b/soynlp/ner/_rules.py
@@ -1,17 +1,17 @@
 def is_date(word):
-    raise NotImplemented
+    raise NotImplementedError
 
 def is_day(word):
-    raise NotImplemented
+    raise NotImplementedError
 
 def is_number(word):
-    raise NotImplemented
+    raise NotImplementedError
 
 def is_monetary(word):
-    raise NotImplemented
+    raise NotImplementedError
 
 def is_period(word):
-    raise NotImplemented
+    raise NotImplementedError
 
 def is_time(word):
-    raise NotImplemented
+    raise NotImplementedError
diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 316821a..9617ca3 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -77,7 +77,7 @@ class Bigram:
             return self._extract_by_pmi(topk, threshold)
         elif self.score == 'mikolov':
             return self._extract_by_mikolov(topk, threshold)
-        raise NotImplemented
+        raise NotImplementedError
 
     def _extract_by_pmi(self, topk=-1, threshold=0):
 
-- 
2.43.0


From a6d976c34029ef925655062b62ac2896450412cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 03/65] fix: NewsNounExtractor raised NameError when
 base_noun_dictionary was given

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index f58e5df..356e86d 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -14,7 +14,7 @@ class NewsNounExtractor:
         self.max_right_length = max_right_length
         self.verbose = verbose
         self.r_scores = {}
-        self.noun_dictionary = noun_dictionary if base_noun_dictionary else {}
+        self.noun_dictionary = dict.fromkeys(base_noun_dictionary) if base_noun_dictionary else {}
 
         import os
         directory = '/'.join(os.path.abspath(__file__).replace('\\', '/').split('/')[:-2])
-- 
2.43.0


From e174326c816627d7d8004b705d768f8df186bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 04/65] fix: NewsNounExtractor looked for its verb and
 adjective dictionaries in a missing folder

---
 soynlp/noun/_noun_news.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 356e86d..0a64a35 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -32,8 +32,8 @@ class NewsNounExtractor:
         print(directory)
 
         self._vdictionary = set()
-        self._vdictionary.update(self._load_dictionary('%s/pos/dictionary/sejong/Verb.txt' % directory))
-        self._vdictionary.update(self._load_dictionary('%s/pos/dictionary/sejong/Adjective.txt' % directory))
+        self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Verb.txt' % directory))
+        self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Adjective.txt' % directory))
 
     def _load_predictor(self, fname):
         try:
-- 
2.43.0


From 2fe984141cdae240c9d7ea184b49552e0710ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 05/65] fix: NewsNounExtractor printed debug output even when
 not verbose

---
 soynlp/noun/_noun_news.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 0a64a35..2f31133 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -29,8 +29,6 @@ class NewsNounExtractor:
         self.josa_dictionary = {r for r, s in self.r_scores.items() if s > 0.1}
         self.josa_dictionary.update({'는'})
 
-        print(directory)
-
         self._vdictionary = set()
         self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Verb.txt' % directory))
         self._vdictionary.update(self._load_dictionary('%s/postagger/dictionary/sejong/Adjective.txt' % directory))
@@ -135,14 +133,8 @@ class NewsNounExtractor:
         if self.verbose:
             print('\rpredicting noun score was done{}'.format(' '*40))
 
-        # debug code
-        print('before postprocessing', len(noun_scores))
-
         noun_scores = self._postprocessing(noun_scores, min_noun_score, min_feature_proportion)
 
-        # debug code
-        print('after postprocessing', len(noun_scores))
-
         self._post_eojeol_analysis(min_frequency)
 
         for noun in self.noun_dictionary:
@@ -247,8 +239,6 @@ class NewsNounExtractor:
             )
         )
 
-        print('_noun_scores_', len(self._noun_scores_))
-
         if self.verbose:
             message = 'finding NJsubJ (대학생(으)+로), NsubJ (떡볶+(이)), NVsubE (사기(당)+했다) ... '
             sys.stdout.write(message)
-- 
2.43.0


From be1670f37dca8d4f7f21d911c593193e8175e1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 06/65] fix: NewsNounExtractor compared min_feature_proportion
 with the frequency

---
 soynlp/noun/_noun_news.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index 2f31133..ba7d174 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -233,7 +233,7 @@ class NewsNounExtractor:
         self._noun_scores_ = dict(
             filter(
                 lambda x:((x[1][0] > min_noun_score) and
-                          (x[1][1] > min_feature_proportion) and
+                          (x[1][2] > min_feature_proportion) and
                           (len(x[0]) > 1)),
                        noun_scores.items()
             )
-- 
2.43.0


From d33d810e897f4013a969cdcb78caa8d2ec1d3769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 07/65] fix: LRNounExtractor.extract passed the noun table as
 the minimum score

---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index c21d4e7..9fc7ad6 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -150,7 +150,7 @@ class LRNounExtractor:
             if len(word) <= 1:
                 continue
 
-            score = self.predict(word, nouns)
+            score = self.predict(word, min_noun_score, nouns)
 
             if score[0] < min_noun_score:
                 continue
-- 
2.43.0


From 8ae92948676230f5aecbfc17037c20bfb858f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 08/65] fix: LRNounExtractor_v2 could not be constructed with a
 postprocessing option

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 92a228c..3a90b8e 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -45,7 +45,7 @@ class LRNounExtractor_v2:
                 'ignore_features',
                 'ignore_NJ'
             ]
-        elif isinstance(postprocessing) == str:
+        elif isinstance(postprocessing, str):
             postprocessing = [postprocessing]
 
         self.postprocessing = postprocessing
-- 
2.43.0


From 33b9ee9aef5b5f4a061adc296607306f267a4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 09/65] fix: Dictionary shared its word sets with the caller
 and failed on lists of words

---
 soynlp/postagger/_dictionary.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/soynlp/postagger/_dictionary.py b/soynlp/postagger/_dictionary.py
index 19e81e5..534fb31 100644
--- a/soynlp/postagger/_dictionary.py
+++ b/soynlp/postagger/_dictionary.py
@@ -10,12 +10,12 @@ import os
 class Dictionary:
     def __init__(self, pos_dict):
         if isinstance(pos_dict, dict):
-            for key in pos_dict:
-                if sys.version_info.major == 2:
-                    pos_dict[key] = set(map(unicode, pos_dict[key]))
-                else:
-                    pos_dict[key] = set(pos_dict[key])
-            self.pos_dict = pos_dict
+            if sys.version_info.major == 2:
+                self.pos_dict = {pos:set(map(unicode, words))
+                    for pos, words in pos_dict.items()}
+            else:
+                self.pos_dict = {pos:set(words)
+                    for pos, words in pos_dict.items()}
             self.max_length = self._check_max_length(self.pos_dict)
         elif isinstance(pos_dict, str):
             if os.path.exists(pos_dict):
@@ -68,8 +68,8 @@ class Dictionary:
 
     def _type_check(self, words):
         if isinstance(words, str):
-            words = set(words.split())
-        return words
+            words = words.split()
+        return set(words)
 
     def load(self, filename):
         if sys.version_info.major == 2:
-- 
2.43.0


From 2566f617d2888077053cca42c0c8f79ab55c96b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 10/65] fix: PredicatorExtractor filtered the eojeol counter
 and eomi set of its caller

---
 soynlp/predicator/_predicator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index bb711ee..034a26f 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -53,7 +53,7 @@ class PredicatorExtractor:
         self._verb_stems = verbs
         self._stems = {stem for stem in adjectives}
         self._stems = self._stems.union(verbs)
-        self._eomis = eomis
+        self._eomis = {eomi for eomi in eomis}
         self.verbose = verbose
         self.extract_eomi = extract_eomi
         self.extract_stem = extract_stem
@@ -216,10 +216,13 @@ class PredicatorExtractor:
         self._train_with_eojeol_counter(eojeol_counter)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
-        eojeol_counter._counter = {
+        counter = {
             eojeol:count for eojeol, count in eojeol_counter._counter.items()
             if count >= min_eojeol_frequency}
 
+        # do not change the counter of the caller
+        eojeol_counter = EojeolCounter()
+        eojeol_counter._counter = counter
         eojeol_counter._set_count_sum()
         self._num_of_eojeols = len(eojeol_counter)
         self._num_of_covered_eojeols = 0
-- 
2.43.0


From d7395a0470e45845a6b736041954e9b5f3401caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 11/65] fix: PredicatorExtractor.is_trained read an attribute
 that does not exist

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 034a26f..1c42a3e 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -133,7 +133,7 @@ class PredicatorExtractor:
 
     @property
     def is_trained(self):
-        return self.lrgraph
+        return self.eojeol_counter is not None
 
     def train_extract(self, inputs, min_eojeol_frequency=2,
         filtering_checkpoint=100000, candidates=None,
-- 
2.43.0


From 3830952f4850c5ea7dc723848b74c0ec2f83a163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 12/65] fix: EomiExtractor.predict failed except during extract

---
 soynlp/predicator/_eomi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soynlp/predicator/_eomi.py b/soynlp/predicator/_eomi.py
index 76218df..fa33548 100644
--- a/soynlp/predicator/_eomi.py
+++ b/soynlp/predicator/_eomi.py
@@ -18,6 +18,7 @@ class EomiExtractor:
         self.verbose = verbose
         self.logpath = logpath
         self._eomis = None
+        self._stem_surfaces = {l for stem in self._stems for l in _conjugate_stem(stem)}
 
     @property
     def is_trained(self):
@@ -79,8 +80,6 @@ class EomiExtractor:
         if reset_lrgraph:
             self.lrgraph.reset_lrgraph()
 
-        del self._stem_surfaces
-
         lemmas_ = {eomi:EomiScore(score[0], score[1]) for eomi, score in lemmas.items()}
         return lemmas_
 
-- 
2.43.0


From 43ca4d3066fedd016f836cd6715c3785c81bf11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 13/65] fix: LRGraph kept and edited the dict of its caller,
 and rejected empty graphs

---
 soynlp/utils/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e02775f..22283ac 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -358,12 +358,11 @@ class LRGraph:
             except:
                 raise ValueError('lrgraph type should be dict of dict, not {}'.format(
                     type(lrgraph)))
-        nested_dict_type = type(list(lrgraph.values())[0])
-        if nested_dict_type == defaultdict:
-            lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
-        elif not (nested_dict_type == dict):
-            raise ValueError('nested value type should be dict, not {}'.format(
-                nested_dict_type))
+        for nested_dict_type in {type(rdict) for rdict in lrgraph.values()}:
+            if not (nested_dict_type in (dict, defaultdict)):
+                raise ValueError('nested value type should be dict, not {}'.format(
+                    nested_dict_type))
+        lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         rlgraph = defaultdict(lambda: defaultdict(int))
         for l, rdict in lrgraph.items():
             for r, c in rdict.items():
-- 
2.43.0


From 59ec2d32b63e06085c85431ed4641ae898cd8e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:22 +0000
Subject: [PATCH 14/65] fix: POSExtractor called the extractors with option
 names they no longer have

---
 soynlp/postagger/_pos_extractor.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/soynlp/postagger/_pos_extractor.py b/soynlp/postagger/_pos_extractor.py
index 07b3869..bbb660d 100644
--- a/soynlp/postagger/_pos_extractor.py
+++ b/soynlp/postagger/_pos_extractor.py
@@ -39,23 +39,22 @@ class POSExtractor:
     def _extract_nouns(self, sentences):
 
         noun_extractor = LRNounExtractor_v2(
-            l_max_length = self.l_max_length,
-            r_max_length = self.r_max_length,
-            min_eojeol_count = 2,
+            max_left_length = self.l_max_length,
+            max_right_length = self.r_max_length,
             min_num_of_features = 2,
-            max_count_when_noun_is_eojeol = 15,
+            max_frequency_when_noun_is_eojeol = 15,
             extract_compound = False,
             logpath = self.logpath,
             extract_pos_feature = True,
             verbose = self.verbose
         )
 
-        noun_extractor.train(sentences)
+        noun_extractor.train(sentences, min_eojeol_frequency = 2)
 
         nouns = noun_extractor.extract(
             reset_lrgraph = False,
-            min_count = 10,
-            minimum_noun_score = 0.4,
+            min_noun_frequency = 10,
+            min_noun_score = 0.4,
         )
 
         self._lrgraph = LRGraph(
@@ -83,10 +82,8 @@ class POSExtractor:
             verbose = self.verbose
         )
 
-        predicator_extractor.train(sentences_or_lrgraph, min_eojeol_count=2)
-
-        predicators = predicator_extractor.extract(
-            candidates=None, min_count=10, reset_lrgraph=True,
+        predicator_extractor.train(
+            sentences_or_lrgraph, min_eojeol_frequency=2,
             # Eomi extractor
             min_num_of_features=5, min_eomi_score=0.3, min_eomi_frequency=1,
             # Stem extractor
@@ -94,6 +91,9 @@ class POSExtractor:
             min_entropy_of_R=1.5, min_stem_score=0.7, min_stem_frequency=100
         )
 
+        predicators = predicator_extractor.extract(
+            candidates=None, min_predicator_frequency=10)
+
         self._num_of_covered_eojeols += predicator_extractor._num_of_covered_eojeols
 
         self.predicator_extractor = predicator_extractor
-- 
2.43.0


From 1272bf69cd168ed9ddbd291d67222941ab0c626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 15/65] fix: calling RegexTokenizer or MaxLRScoreTokenizer
 turned debug mode on

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index e194591..51e77f9 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -21,7 +21,7 @@ class RegexTokenizer:
         
         self.doublewhite_pattern = re.compile('\s+')
 
-    def __call__(self, s, debug=True, flatten=True):
+    def __call__(self, s, debug=False, flatten=True):
         return self.tokenize(s, debug, flatten)
 
     def tokenize(self, s, debug=False, flatten=True):
@@ -274,7 +274,7 @@ class MaxLRScoreTokenizer:
         self.ensurable_score_l = ensurable_score_l
         self.ensurable_score_lr_diff = ensurable_score_lr_diff
 
-    def __call__(self, sent, debug=True, flatten=True):
+    def __call__(self, sent, debug=False, flatten=True):
         return self.tokenize(sent, debug, flatten)
 
     def tokenize(self, sent, debug=False, flatten=True):
-- 
2.43.0


From d0e8db03aed3c522fb9cea13e17635379cec116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 16/65] fix: MaxLRScoreTokenizer failed on unknown parts that
 hold a known R

---
 soynlp/tokenizer/_tokenizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 51e77f9..63bdf2f 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -451,7 +451,7 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.base_tokenizer.scores[w]])
+                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.Dr[w]])
             else:
                 words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
         return words_
\ No newline at end of file
-- 
2.43.0


From 99b511c042710bb9f92a5e058948a7c1a970ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 17/65] fix: MaxLRScoreTokenizer repeated the R part of the
 last word

---
 soynlp/tokenizer/_tokenizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 63bdf2f..bde9e19 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -416,7 +416,7 @@ class MaxLRScoreTokenizer:
         adds = []
         if words and words[0][2] > 0:
             adds += self._add_first_subword(t, words)
-        if words and words[-1][3] < n:
+        if words and words[-1][4] < n:
             adds += self._add_last_subword(t, words, n)
         adds += self._add_inter_subwords(t, words)
         post = [w for w in words] + adds
@@ -434,7 +434,7 @@ class MaxLRScoreTokenizer:
         return adds
 
     def _add_last_subword(self, t, words, n):
-        b = words[-1][3]
+        b = words[-1][4]
         subword = t[b:]
         return self._base_tokenizing_subword(subword, b)
 
-- 
2.43.0


From b8fb77bce9db11ddcbc909ab853027019e0b48a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 18/65] fix: MaxLRScoreTokenizer reported the same begin for
 all parts of an unknown word

---
 soynlp/tokenizer/_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index bde9e19..94110da 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -451,7 +451,8 @@ class MaxLRScoreTokenizer:
             n = len(w)
             # TODO: 여기를 바꿔야해
             if w in self.Dr:
-                words_.append(['', w, b+b_, b+b_, b+n, 0, n, n, 0, self.Dr[w]])
+                words_.append(['', w, b+b_, b+b_, b+b_+n, 0, n, n, 0, self.Dr[w]])
             else:
-                words_.append([w, '', b+b_, b+n, b+n, n, 0, n, 0, 0])
+                words_.append([w, '', b+b_, b+b_+n, b+b_+n, n, 0, n, 0, 0])
+            b_ += n
         return words_
\ No newline at end of file
-- 
2.43.0


From 3d076c7ecbadf5a889735dc25a882ad261665dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 19/65] fix: NounMatchTokenizer returned an empty word and
 stale scores when composing compounds

---
 soynlp/tokenizer/_noun_tokenizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soynlp/tokenizer/_noun_tokenizer.py b/soynlp/tokenizer/_noun_tokenizer.py
index 25d42c3..1c00edb 100644
--- a/soynlp/tokenizer/_noun_tokenizer.py
+++ b/soynlp/tokenizer/_noun_tokenizer.py
@@ -79,8 +79,9 @@ class NounMatchTokenizer:
                 if e == b_:
                     e, score = e_, max(score, score_)
                 else:
-                    words_.append((eojeol[b:e], b, e, score, e-b))
-                    b, e = b_, e_
+                    if e > b:
+                        words_.append((eojeol[b:e], b, e, score, e-b))
+                    b, e, score = b_, e_, score_
             if e > b:
                 words_.append((eojeol[b:e], b, e, score, e-b))
             return words_
-- 
2.43.0


From a2a6036590d0bcf21b3c8ce3d81b47259fa2d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 20/65] fix: missing comma in soynlp.utils.__all__

---
 soynlp/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/__init__.py b/soynlp/utils/__init__.py
index 6a98c89..8645764 100644
--- a/soynlp/utils/__init__.py
+++ b/soynlp/utils/__init__.py
@@ -11,7 +11,7 @@ from .math import svd
 
 __all__ = [
     # utils
-    'get_available_memory', 'get_process_memory', 'check_dirs'
+    'get_available_memory', 'get_process_memory', 'check_dirs',
     'sort_by_alphabet', 'most_similar', 'DoublespaceLineCorpus',
     'EojeolCounter', 'LRGraph',
     # math
-- 
2.43.0


From 971f11ec4afa6eb4b04347f2fb6cc81f405bc693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 21/65] fix: DoublespaceLineCorpus left its file open and
 failed on empty files

---
 soynlp/utils/utils.py | 59 +++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 22283ac..3856afc 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -127,18 +127,21 @@ class DoublespaceLineCorpus:
             for _ in range(self.skip_header):
                 next(f)
         except Exception as e:
+            f.close()
             print(e)
             return 0, 0
 
         # check length
-        for doc_idx, doc in enumerate(f):
-            if (num_doc > 0) and (doc_idx >= num_doc):
-                return doc_idx, num_sent_
-            sents = doc.split('  ')
-            sents = [sent for sent in sents if sent.strip()]
-            num_sent_ += len(sents)
-            if (num_sent > 0) and (num_sent_ > num_sent):
-                return doc_idx+1, min(num_sent, num_sent_)
+        doc_idx = -1
+        with f:
+            for doc_idx, doc in enumerate(f):
+                if (num_doc > 0) and (doc_idx >= num_doc):
+                    return doc_idx, num_sent_
+                sents = doc.split('  ')
+                sents = [sent for sent in sents if sent.strip()]
+                num_sent_ += len(sents)
+                if (num_sent > 0) and (num_sent_ > num_sent):
+                    return doc_idx+1, min(num_sent, num_sent_)
 
         return doc_idx+1, num_sent_
 
@@ -150,6 +153,7 @@ class DoublespaceLineCorpus:
                 f = open(self.corpus_fname, encoding='utf-8')
         except Exception as e:
             print(e)
+            return
 
         try:
             # skip headers
@@ -160,26 +164,27 @@ class DoublespaceLineCorpus:
 
         # iteration
         num_sent, stop = 0, False
-        for doc_idx, doc in enumerate(f):
-            if stop:
-                break
-
-            # yield doc
-            if not self.iter_sent:
-                yield doc.strip()
-                if (self.num_doc > 0) and ((doc_idx + 1) >= self.num_doc):
-                    stop = True
-                continue
-
-            # yield sents
-            for sent in doc.split('  '):
-                if (self.num_sent > 0) and (num_sent >= self.num_sent):
-                    stop = True
+        with f:
+            for doc_idx, doc in enumerate(f):
+                if stop:
                     break
-                sent = sent.strip()
-                if sent:
-                    yield sent
-                    num_sent += 1
+
+                # yield doc
+                if not self.iter_sent:
+                    yield doc.strip()
+                    if (self.num_doc > 0) and ((doc_idx + 1) >= self.num_doc):
+                        stop = True
+                    continue
+
+                # yield sents
+                for sent in doc.split('  '):
+                    if (self.num_sent > 0) and (num_sent >= self.num_sent):
+                        stop = True
+                        break
+                    sent = sent.strip()
+                    if sent:
+                        yield sent
+                        num_sent += 1
 
     def __len__(self):
         try:
-- 
2.43.0


From dd4d58112715c461c891e55c74720ed8fdc9a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 22/65] fix: PredicatorExtractor did not hand its verbose
 option to StemExtractor

---
 soynlp/predicator/_predicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 1c42a3e..5d6cd09 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -302,7 +302,8 @@ class PredicatorExtractor:
             eomis = self._eomis,
             min_num_of_unique_R_char = min_num_of_unique_R_char,
             min_entropy_of_R_char = min_entropy_of_R_char,
-            min_entropy_of_R = min_entropy_of_R
+            min_entropy_of_R = min_entropy_of_R,
+            verbose = self.verbose
         )
 
         extracted_stems = stem_extractor.extract(
-- 
2.43.0


From 14092f542735dd4bbd2702b90d2f6166c286af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 23/65] fix: PredicatorExtractor dropped min_eojeol_frequency
 and filtering_checkpoint

---
 soynlp/predicator/_predicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 5d6cd09..85493aa 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -209,11 +209,12 @@ class PredicatorExtractor:
         eojeol_counter = EojeolCounter(
             sentences,
             min_count = min_eojeol_frequency,
+            filtering_checkpoint = filtering_checkpoint,
             verbose = self.verbose,
             preprocess = preprocess
         )
 
-        self._train_with_eojeol_counter(eojeol_counter)
+        self._train_with_eojeol_counter(eojeol_counter, min_eojeol_frequency)
 
     def _train_with_eojeol_counter(self, eojeol_counter, min_eojeol_frequency=2):
         counter = {
-- 
2.43.0


From 1543d6d69d4f5f98c631b1145c1746e2fac667f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 24/65] fix: PredicatorExtractor excluded eojeols exactly at
 the minimum frequency

---
 soynlp/predicator/_predicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 85493aa..265fe37 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -334,7 +334,7 @@ class PredicatorExtractor:
         if (eojeol_counter is None) or (not eojeol_counter):
             eojeol_counter = {
                 eojeol:count for eojeol, count in self.eojeol_counter.items()
-                if (count > min_frequency) and all_character_are_complete_korean(eojeol)
+                if (count >= min_frequency) and all_character_are_complete_korean(eojeol)
             }
 
         lemmas = self._as_lemma_candidates(eojeol_counter)
-- 
2.43.0


From 5114d257a3899a765e6a5177d0b9c73c7127c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 25/65] fix: StemExtractor took the score of a surface for its
 frequency

---
 soynlp/predicator/_stem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_stem.py b/soynlp/predicator/_stem.py
index cb32cf6..9f8fbc6 100644
--- a/soynlp/predicator/_stem.py
+++ b/soynlp/predicator/_stem.py
@@ -250,7 +250,7 @@ class StemExtractor:
             return (freq0 + freq1, (score0 * freq0 + score1 * freq1) / (freq0 + freq1))
 
         stems = {}
-        for l, (freq0, score0) in surfaces.items():
+        for l, (score0, freq0) in surfaces.items():
             for r, count in self.lrgraph.get_r(l, -1):
                 try:
                     for stem, eomi in lemma_candidate(l, r):
-- 
2.43.0


From 49e0b8d976321a15e60e599df4180e9ac95d812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:02 +0000
Subject: [PATCH 26/65] fix: EojeolCounter.to_lrgraph ignored
 ignore_one_syllable

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 3856afc..7058335 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -286,7 +286,7 @@ class EojeolCounter:
         return self._counter.items()
 
     def to_lrgraph(self, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
-        return self._to_lrgraph(self._counter, l_max_length, r_max_length)
+        return self._to_lrgraph(self._counter, l_max_length, r_max_length, ignore_one_syllable)
 
     def _to_lrgraph(self, counter, l_max_length=10, r_max_length=9, ignore_one_syllable=False):
         _lrgraph = defaultdict(lambda: defaultdict(int))
-- 
2.43.0


From 2249b09f7133866c4fe4821de32e35bb7b5116d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 27/65] fix: LRGraph counted each eojeol of its sentences by
 the length of L instead of once

---
 soynlp/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index 7058335..d8e8a59 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -352,7 +352,7 @@ class LRGraph:
                     l, r = word[:e], word[e:]
                     if len(r) > self.r_max_length:
                         continue
-                    lrgraph[l][r] += e
+                    lrgraph[l][r] += 1
         lrgraph = {l:dict(rdict) for l,rdict in lrgraph.items()}
         return lrgraph
 
-- 
2.43.0


From 9a9e255f4b8b697698ba5243847791d23e750ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 28/65] fix: LRGraph.reset_lrgraph did nothing for a graph that
 was built empty

---
 soynlp/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index d8e8a59..a0c967e 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -378,7 +378,7 @@ class LRGraph:
         return lrgraph, rlgraph
 
     def reset_lrgraph(self):
-        if not self._lr_origin:
+        if self._lr_origin is None:
             return None
 
         self._lr, self._rl = self._check_lrgraph(
@@ -445,6 +445,7 @@ class LRGraph:
             {l:{r:c for r,c in rdict.items()}
              for l, rdict in self._lr_origin.items()}
         )
+        lr_graph.freeze()
         return lr_graph
 
     def to_EojeolCounter(self, reset_lrgraph=False):
-- 
2.43.0


From a0394e71c1c0eb5d6a86b13b991f14b3db7896ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 29/65] fix: LRGraph.add_lr_pair and add_eojeol raised KeyError
 for new pairs

---
 soynlp/utils/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index a0c967e..e174851 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -387,9 +387,11 @@ class LRGraph:
         )
 
     def add_lr_pair(self, l, r, count=1):
-        self._lr[l][r] += count
+        rdict = self._lr.setdefault(l, {})
+        rdict[r] = rdict.get(r, 0) + count
         if r:
-            self._rl[r][l] += count
+            ldict = self._rl.setdefault(r, {})
+            ldict[l] = ldict.get(l, 0) + count
 
     def add_eojeol(self, eojeol, count=1):
         for i in range(1, len(eojeol) + 1):
-- 
2.43.0


From fd59f76147a4db8c33b64cd0e427ab5f88f072bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 30/65] fix: a frozen LRGraph could not be saved or copied

---
 soynlp/utils/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index e174851..f7b291e 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -443,15 +443,16 @@ class LRGraph:
         lr_graph = LRGraph(
             l_max_length = self.l_max_length,
             r_max_length = self.r_max_length)
+        lr = self._lr if self._lr_origin is None else self._lr_origin
         lr_graph._lr, lr_graph._rl = self._check_lrgraph(
             {l:{r:c for r,c in rdict.items()}
-             for l, rdict in self._lr_origin.items()}
+             for l, rdict in lr.items()}
         )
         lr_graph.freeze()
         return lr_graph
 
     def to_EojeolCounter(self, reset_lrgraph=False):
-        lr = self._lr_origin if reset_lrgraph else self._lr
+        lr = self._lr_origin if reset_lrgraph and self._lr_origin is not None else self._lr
         counter = {}
         for l, rdict in lr.items():
             for r, count in rdict.items():
@@ -465,8 +466,10 @@ class LRGraph:
         dirname = os.path.dirname(path)
         if dirname and not os.path.exists(dirname):
             os.makedirs(dirname)
+        # a frozen graph has no origin
+        lr = self._lr if self._lr_origin is None else self._lr_origin
         with open(path, 'w', encoding='utf-8') as f:
-            for l, rdict in sorted(self._lr_origin.items()):
+            for l, rdict in sorted(lr.items()):
                 for r, c in sorted(rdict.items()):
                     f.write('{} {} {}\n'.format(l, r, c))
 
-- 
2.43.0


From a291d920bfc6a462ee7d0acb1e9c3e3d96bf5bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 31/65] fix: extract_domain_pos_features compared the frequency
 with the minimum score and vice versa

---
 soynlp/noun/_josa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_josa.py b/soynlp/noun/_josa.py
index 62ac3cb..3f25640 100644
--- a/soynlp/noun/_josa.py
+++ b/soynlp/noun/_josa.py
@@ -8,8 +8,8 @@ def extract_domain_pos_features(prediction_scores, lrgraph,
     min_noun_entropy=1.5):
 
     nouns = {noun for noun, score in prediction_scores.items()
-             if ((score[0] >= min_noun_score) 
-                 and (score[1] >= min_noun_frequency))}
+             if ((score[1] >= min_noun_score) 
+                 and (score[0] >= min_noun_frequency))}
 
     if ignore_features is None:
         ignore_features = {}
-- 
2.43.0


From efc4e9908c72c6fb40777bb8ed5ae3e0f3d00343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 32/65] fix: LRNounExtractor_v2 returned compounds with
 frequency and score swapped

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 3a90b8e..83ad671 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -516,7 +516,7 @@ class LRNounExtractor_v2:
             print('\r[Noun Extractor] checked compounds. discovered {} compounds'.format(
                 len(compounds_scores)))
 
-        compounds = {noun:(score, compounds_counts.get(noun,0))
+        compounds = {noun:(compounds_counts.get(noun,0), score)
              for noun, score in compounds_scores.items()}
 
         self._compounds_components = compounds_components
-- 
2.43.0


From b046f2eafedf606eadd6c47c68a5a4eba6af6f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 33/65] fix: header of the noun prediction log named its
 columns in the wrong order

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 83ad671..f2e04cc 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -259,7 +259,7 @@ class LRNounExtractor_v2:
 
         if self.logpath:
             with open(self.logpath+'_prediction_score.log', 'w', encoding='utf-8') as f:
-                f.write('noun score frequency\n')
+                f.write('noun frequency score\n')
 
                 for word, score in sorted(prediction_scores.items(), key=lambda x:-x[1][1]):
                     f.write('{} {} {}\n'.format(word, score[0], score[1]))
-- 
2.43.0


From b22fe0fd40b11832565a9dac82bcb664d8f1ded4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 34/65] fix: nouns exactly at min_noun_score were not used to
 decompose compounds

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index f2e04cc..10553f5 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -468,7 +468,7 @@ class LRNounExtractor_v2:
     def extract_compounds(self, candidates, prediction_scores, min_noun_score=0.3):
 
         noun_scores = {noun:len(noun) for noun, score in prediction_scores.items()
-                       if score[1] > min_noun_score and len(noun) > 1}
+                       if score[1] >= min_noun_score and len(noun) > 1}
 
         self._compound_decomposer = MaxScoreTokenizer(scores=noun_scores)
 
-- 
2.43.0


From 320f0dce3abcfa9c347ce9e3e3d4faf334502283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 35/65] fix: BaseVectorizer counted the documents of a term as
 its term frequency

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 4e04d54..daa4631 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -43,7 +43,7 @@ class BaseVectorizer:
             counter = Counter((token for token in self.tokenizer(doc)))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
-                tf[term] = tf.get(term, 0) + 1
+                tf[term] = tf.get(term, 0) + freq
 
         if self.verbose:
             print('\rscanning was done{}'.format(' '*40), flush=True)
-- 
2.43.0


From 17d2dfa161a0e0e6622ebf7a43f2d38e0e12c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 36/65] fix: BaseVectorizer failed with an unbound variable on
 an empty corpus

---
 soynlp/vectorizer/_vectorizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index daa4631..e196ddb 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -36,6 +36,7 @@ class BaseVectorizer:
         df = {}
         tf = {}
 
+        i_doc = -1
         for i_doc, doc in enumerate(docs):
             if self.verbose and i_doc % self._check_points == 0:
                 print('\rscanned {} docs'.format(i_doc), flush=True, end='')
@@ -72,6 +73,7 @@ class BaseVectorizer:
         rows = []
         cols = []
         data = []
+        i_doc = -1
         for i_doc, doc in enumerate(docs):
             if self.verbose and i_doc % self._check_points == 0:
                 print('\rtransformed {} docs'.format(i_doc), flush=True, end='')
@@ -95,6 +97,7 @@ class BaseVectorizer:
         file_path = os.path.abspath(file_path)
         # check n_elements
         n_elements = 0
+        i = -1
         for i, doc in enumerate(docs):
             if self.verbose and i % self._check_points == 0:
                 print('\rscanning number of elements from {} docs'.format(
-- 
2.43.0


From 39241842d4141c43ef09dc1e1425d838bde4eb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 37/65] fix: BaseVectorizer ignored its stopwords

---
 soynlp/vectorizer/_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index e196ddb..0e8c272 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -41,7 +41,7 @@ class BaseVectorizer:
             if self.verbose and i_doc % self._check_points == 0:
                 print('\rscanned {} docs'.format(i_doc), flush=True, end='')
 
-            counter = Counter((token for token in self.tokenizer(doc)))
+            counter = Counter((token for token in self.tokenizer(doc) if token not in self.stopwords))
             for term, freq in counter.items():
                 df[term] = df.get(term, 0) + 1
                 tf[term] = tf.get(term, 0) + freq
-- 
2.43.0


From 2817821eb1ed644a608c61f7edfcb9144f35c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 38/65] fix: Bigram counted each distinct bigram of a unigram
 once instead of its occurrences

---
 soynlp/word/_phrase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 9617ca3..f539f7f 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -64,7 +64,7 @@ class Bigram:
         self._unigram = {}
         for bigram, freq in self._counter.items():
             for unigram in bigram:
-                self._unigram[unigram] = self._unigram.get(unigram, 0) + 1
+                self._unigram[unigram] = self._unigram.get(unigram, 0) + freq
 
         if self.verbose:
             print('\r[Bigram Extractor] scanning {} unigrams, {} bigrams from {} sents'.format(
-- 
2.43.0


From 9b30f5a433171454bb85fc0b5b1990a87aa50943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 39/65] fix: Bigram.extract ignored topk

---
 soynlp/word/_phrase.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index f539f7f..9e36b85 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -94,12 +94,12 @@ class Bigram:
 
         bigrams = {word:NgramScore(freq, pmis[word]) for word, freq
                    in self._counter.items() if word in pmis}
-        return bigrams
+        return self._select_topk(bigrams, topk)
 
     def _extract_by_frequency(self, topk=-1, threshold=10):
         bigrams = filter(lambda x:x[1] >= threshold, self._counter.items())
         if topk > 0:
-            bigrams = sorted(bigrams, key=lambda x:-x[1])
+            bigrams = sorted(bigrams, key=lambda x:-x[1])[:topk]
         bigrams = {word:NgramScore(freq, freq) for word, freq in bigrams}
         return bigrams
 
@@ -118,4 +118,9 @@ class Bigram:
 
         bigrams = {word:NgramScore(freq, scores[word]) for word, freq
                    in self._counter.items() if word in scores}
-        return bigrams
\ No newline at end of file
+        return self._select_topk(bigrams, topk)
+
+    def _select_topk(self, bigrams, topk):
+        if topk <= 0:
+            return bigrams
+        return dict(sorted(bigrams.items(), key=lambda x:-x[1].score)[:topk])
-- 
2.43.0


From 8c019964d3deab6f1df9e8cbb36c8be44a965754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 40/65] fix: Bigram ignored the sentences given to its
 constructor

---
 soynlp/word/_phrase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/word/_phrase.py b/soynlp/word/_phrase.py
index 9e36b85..0195c33 100644
--- a/soynlp/word/_phrase.py
+++ b/soynlp/word/_phrase.py
@@ -27,6 +27,8 @@ class Bigram:
         self.tokenizer = tokenizer
         self.ngram_selector = ngram_selector
         self._counter = None
+        if sentences is not None:
+            self.train(sentences)
 
     @property
     def is_trained(self):
-- 
2.43.0


From 36c6abd7450f79b438b1f18153ceacf6702c25a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 41/65] fix: pmi_memory_friendly dropped values exactly at
 min_pmi

---
 soynlp/word/_pmi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index 5529404..cc45729 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -147,7 +147,7 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     min_exp_pmi = 1 if min_pmi == 0 else np.exp(min_pmi)
 
     # because exp_pmi is sparse matrix and type of exp_pmi.data is numpy.ndarray
-    indices = np.where(exp_pmi.data > min_exp_pmi)[0]
+    indices = np.where(exp_pmi.data >= min_exp_pmi)[0]
 
     pmi_dok = dok_matrix(exp_pmi.shape)
 
-- 
2.43.0


From f15d636ea9f85949e370a5aefbb1cdcf2829a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 42/65] fix: emoticon_normalize dropped syllables next to a
 consonant that does not repeat

---
 soynlp/normalizer/_normalizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 770cee5..6c839a3 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -77,11 +77,17 @@ def emoticon_normalize(sent, num_repeats=2):
             if (jong == sent[i+1]):
                 sent_.append(compose(cho, jung, ' '))
                 sent_.append(jong)
+            else:
+                sent_.append(c)
         elif (i > 0) and (idx == 2 and idxs[i-1] == 0):
             cho, jung, jong = decompose(c)
             if (cho == sent[i-1]):
                 sent_.append(cho)
                 sent_.append(jung)
+                if jong != ' ':
+                    sent_.append(jong)
+            else:
+                sent_.append(c)
         else:
             sent_.append(c)
     return repeat_normalize(''.join(sent_), num_repeats)
-- 
2.43.0


From 778431144210fc3e7cc79e45c4468f0cfa06d712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 43/65] fix: repeat_normalize lengthened runs shorter than
 num_repeats

---
 soynlp/normalizer/_normalizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 6c839a3..2a82b9a 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -32,7 +32,7 @@ def normalize(doc, alphabet=False, number=False,
     if not symbol:
         doc = symbol_pattern.sub(' ', doc)
     if remove_repeat > 0:
-        doc = repeatchars_pattern.sub('\\1' * remove_repeat, doc)
+        doc = repeatchars_pattern.sub(lambda m: m.group()[:remove_repeat], doc)
 
     return doublespace_pattern.sub(' ', doc).strip()
 
@@ -41,7 +41,7 @@ def remove_doublespace(sent):
 
 def repeat_normalize(sent, num_repeats=2):
     if num_repeats > 0:
-        sent = repeatchars_pattern.sub('\\1' * num_repeats, sent)
+        sent = repeatchars_pattern.sub(lambda m: m.group()[:num_repeats], sent)
     sent = doublespace_pattern.sub(' ', sent)
     return sent.strip()
 
-- 
2.43.0


From ec1ee6c07318cdcb7447728be11eb0b586d94743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 44/65] fix: LREvaluator ordered the words of an eojeol by
 their R part

---
 soynlp/postagger/_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/postagger/_evaluator.py b/soynlp/postagger/_evaluator.py
index d84a9f6..df3ef29 100644
--- a/soynlp/postagger/_evaluator.py
+++ b/soynlp/postagger/_evaluator.py
@@ -76,7 +76,7 @@ class LREvaluator(BaseEvaluator):
     def select_best(self, candidates):
         scored_candidates = [(c, self.evaluate(c)) for c in candidates]
         best = self._remove_overlapped(scored_candidates)
-        return sorted(best, key=lambda x:x[2])
+        return sorted(best, key=lambda x:x.b)
     
     def evaluate(self, candidate):
         is_noun_phrase = candidate.l_tag == 'Noun'
@@ -120,4 +120,4 @@ class LREvaluator(BaseEvaluator):
             for idx in reversed(removals):
                 del sorted_[idx]
                 
-        return sorted(best, key=lambda x:x[2])
\ No newline at end of file
+        return sorted(best, key=lambda x:x.b)
\ No newline at end of file
-- 
2.43.0


From 6a7d8c25d41d654f5e9c114072e9e31de9a5c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 45/65] fix: the tagger dropped eojeols without any known word

---
 soynlp/postagger/_tagger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/postagger/_tagger.py b/soynlp/postagger/_tagger.py
index 17dde72..8f5e839 100644
--- a/soynlp/postagger/_tagger.py
+++ b/soynlp/postagger/_tagger.py
@@ -58,6 +58,8 @@ class BasePostprocessor:
 class UnknowLRPostprocessor(BasePostprocessor):
     def postprocess(self, token, words):
         n = len(token)
+        if not words:
+            return [LR(token, None, '', None, 0, n, n)]
         adds = []
         if words and words[0].b > 0:
             adds.append(self._add_first_subword(token, words))
-- 
2.43.0


From 21d5da20317e2b2228a2657d81ccbf2db038e0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 46/65] fix: pmi_memory_friendly works on any matrix, with the
 same scores as pmi

---
 soynlp/word/_pmi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soynlp/word/_pmi.py b/soynlp/word/_pmi.py
index cc45729..bdc874f 100644
--- a/soynlp/word/_pmi.py
+++ b/soynlp/word/_pmi.py
@@ -121,12 +121,12 @@ def pmi_memory_friendly(X, py=None, min_pmi=0, alpha=0.0, beta=1.0, verbose=Fals
     assert 0 < beta <= 1
 
     # convert x to probability matrix & marginal probability 
-    px = (X.sum(axis=1) / X.sum()).reshape(-1)
+    px = np.asarray((X.sum(axis=1) / X.sum()).reshape(-1))
     if py is None:
-        py = (X.sum(axis=0) / X.sum()).reshape(-1)
+        py = np.asarray((X.sum(axis=0) / X.sum()).reshape(-1))
     pxy = X / X.sum()
 
-    assert py.shape[0] == pxy.shape[1]
+    assert py.shape[1] == pxy.shape[1]
 
     if beta < 1:
         py = py ** beta
-- 
2.43.0


From d706853d92324c2025163a985c1100f5c32233be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 47/65] fix: LRNounExtractor.extract enforces
 min_noun_frequency

---
 soynlp/noun/_noun_ver1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index 9fc7ad6..a233b81 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -161,6 +161,8 @@ class LRNounExtractor:
 
         # summary information as NounScore
         nouns_ = self._to_NounScore(nouns)
+        nouns_ = {noun:score for noun, score in nouns_.items()
+                  if score.frequency >= min_noun_frequency}
 
         if self.verbose:
             print('[Noun Extractor] {} nouns are extracted'.format(len(nouns_)))
-- 
2.43.0


From f1a0fe159bf56404c17d993684e66a2049502c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 48/65] fix: keep the dictionary order of the tags of a left
 word (it was the order of a set)

---
 soynlp/postagger/_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/postagger/_template.py b/soynlp/postagger/_template.py
index 18d0add..7eb9e2e 100644
--- a/soynlp/postagger/_template.py
+++ b/soynlp/postagger/_template.py
@@ -84,7 +84,7 @@ class LRTemplateMatcher(BaseTemplateMatcher):
     
     def _pos_L(self, word):
         poses = self.dictionary.get_pos(word)
-        poses = {pos for pos in poses if pos in self.ltags}
+        poses = [pos for pos in poses if pos in self.ltags]
         return poses
 
     def _initialize_L(self, t):
-- 
2.43.0


From c8a7d23e91412f1fadd3f34c91de1d2ddc4701b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 49/65] fix: words of equal frequency get their index in corpus
 order (it was the order of a set)

---
 soynlp/vectorizer/_word_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index f959516..3e4d594 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -43,7 +43,7 @@ def _scanning_vocabulary(sents, min_tf, tokenizer, verbose):
         _print_status('  - counting word frequency', i_sent, new_line=True)
 
     # filtering with min_tf    
-    vocab2idx = {word for word, count in word_counter.items() if count >= min_tf}
+    vocab2idx = [word for word, count in word_counter.items() if count >= min_tf]
     vocab2idx = {word:idx for idx, word in enumerate(
         sorted(vocab2idx, key=lambda w:-word_counter[w]))}
     idx2vocab = [word for word, _ in sorted(vocab2idx.items(), key=lambda w:w[1])]
-- 
2.43.0


From 3754b69a3a34b7f172028a7afff9eca93cfd8a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 50/65] fix: noun prediction log lists equal scores in a fixed
 order

---
 soynlp/noun/_noun_ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver2.py b/soynlp/noun/_noun_ver2.py
index 10553f5..fe4ff5a 100644
--- a/soynlp/noun/_noun_ver2.py
+++ b/soynlp/noun/_noun_ver2.py
@@ -261,7 +261,7 @@ class LRNounExtractor_v2:
             with open(self.logpath+'_prediction_score.log', 'w', encoding='utf-8') as f:
                 f.write('noun frequency score\n')
 
-                for word, score in sorted(prediction_scores.items(), key=lambda x:-x[1][1]):
+                for word, score in sorted(prediction_scores.items(), key=lambda x:(-x[1][1], x[0])):
                     f.write('{} {} {}\n'.format(word, score[0], score[1]))
 
         # E = N*J+ or N*Posi+
-- 
2.43.0


From 608977f77e619809f87ef5a0c06bdeb388e22718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 51/65] fix: eomi prediction log lists equal scores in a fixed
 order

---
 soynlp/predicator/_eomi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/predicator/_eomi.py b/soynlp/predicator/_eomi.py
index fa33548..5071764 100644
--- a/soynlp/predicator/_eomi.py
+++ b/soynlp/predicator/_eomi.py
@@ -65,7 +65,7 @@ class EomiExtractor:
             with open(self.logpath+'_eomi_prediction_score.log', 'w', encoding='utf-8') as f:
                 f.write('eomi frequency score\n')
 
-                for word, score in sorted(prediction_scores.items(), key=lambda x:-x[1][1]):
+                for word, score in sorted(prediction_scores.items(), key=lambda x:(-x[1][1], x[0])):
                     f.write('{} {} {}\n'.format(word, score[0], score[1]))
 
         if self.verbose:
-- 
2.43.0


From 46165e3f19f1bf534fe81b8f5098a40eafd3cd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:23 +0000
Subject: [PATCH 52/65] fix: lemmas of a predicator come in a fixed order in
 the news tagger extractor

---
 soynlp/pos/_news_pos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/pos/_news_pos.py b/soynlp/pos/_news_pos.py
index b6b95ee..715f328 100644
--- a/soynlp/pos/_news_pos.py
+++ b/soynlp/pos/_news_pos.py
@@ -204,7 +204,7 @@ class NewsPOSExtractor:
 
     def _lemmatize(self, word, stems, eomis):
         def only_knowns(lemmas):
-            return [lemma for lemma in lemmas if
+            return [lemma for lemma in sorted(lemmas) if
                     (lemma[0] in stems) and (lemma[1] in eomis)]
 
         for i in range(len(word) + 1, 0, -1):
-- 
2.43.0


From d39c92fa118dac630aac381df1971cbcd873179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 53/65] fix: context matrix has a row and a column for every
 word

---
 soynlp/vectorizer/_word_context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soynlp/vectorizer/_word_context.py b/soynlp/vectorizer/_word_context.py
index 3e4d594..b116861 100644
--- a/soynlp/vectorizer/_word_context.py
+++ b/soynlp/vectorizer/_word_context.py
@@ -113,7 +113,9 @@ def _encode_as_matrix(word2contexts, vocab2idx, verbose):
             rows.append(word_idx)
             cols.append(context_idx)
             data.append(cooccurrence)
-    x = csr_matrix((data, (rows, cols)))
+    # words without any context also have a row and a column
+    n_vocabs = len(vocab2idx)
+    x = csr_matrix((data, (rows, cols)), shape=(n_vocabs, n_vocabs))
 
     if verbose:
         print('  - (word, context) matrix was constructed. shape = {}{}'.format(
-- 
2.43.0


From 3dc575b8dc97af4635ce7656c0b837bd82931eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 54/65] fix: a document limit also ends sentence iteration when
 its documents are blank

---
 soynlp/utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/soynlp/utils/utils.py b/soynlp/utils/utils.py
index f7b291e..d6fe8c6 100644
--- a/soynlp/utils/utils.py
+++ b/soynlp/utils/utils.py
@@ -168,6 +168,8 @@ class DoublespaceLineCorpus:
             for doc_idx, doc in enumerate(f):
                 if stop:
                     break
+                if (self.num_doc > 0) and (doc_idx >= self.num_doc):
+                    break
 
                 # yield doc
                 if not self.iter_sent:
-- 
2.43.0


From 753a2c27256979dac4a51c6717883a6ec4cea847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:10 +0000
Subject: [PATCH 55/65] fix: NewsNounExtractor dropped nouns exactly at the
 minimum score or proportion

---
 soynlp/noun/_noun_news.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_noun_news.py b/soynlp/noun/_noun_news.py
index ba7d174..673e8d7 100644
--- a/soynlp/noun/_noun_news.py
+++ b/soynlp/noun/_noun_news.py
@@ -232,8 +232,8 @@ class NewsNounExtractor:
 
         self._noun_scores_ = dict(
             filter(
-                lambda x:((x[1][0] > min_noun_score) and
-                          (x[1][2] > min_feature_proportion) and
+                lambda x:((x[1][0] >= min_noun_score) and
+                          (x[1][2] >= min_feature_proportion) and
                           (len(x[0]) > 1)),
                        noun_scores.items()
             )
-- 
2.43.0


From ba89d3ea24374268240269858914cfe630b8f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:37 +0000
Subject: [PATCH 56/65] fix: LRNounExtractor gave no score to a word whose
 ending is exactly at min_noun_score

---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index a233b81..ee080b8 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -185,7 +185,7 @@ class LRNounExtractor:
                 score1 = nouns[subword]
                 score2 = nouns[suffix]
                 subword_scores[subword] = max(score1, score2)
-            elif (subword in nouns) and (self.coefficient.get(suffix,0.0) > min_noun_score):
+            elif (subword in nouns) and (self.coefficient.get(suffix,0.0) >= min_noun_score):
                 subword_scores[subword] = (self.coefficient.get(suffix,0.0), 0)
         if not subword_scores:
             return (0.0, 0)
-- 
2.43.0


From e59cd5ad249ace53556ab8d356283d7a46533ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:48 +0000
Subject: [PATCH 57/65] fix: BaseVectorizer kept terms below min_df and dropped
 terms exactly at max_df

---
 soynlp/vectorizer/_vectorizer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/soynlp/vectorizer/_vectorizer.py b/soynlp/vectorizer/_vectorizer.py
index 0e8c272..3bebfef 100644
--- a/soynlp/vectorizer/_vectorizer.py
+++ b/soynlp/vectorizer/_vectorizer.py
@@ -51,9 +51,7 @@ class BaseVectorizer:
 
         # filtering
         n_docs = i_doc + 1
-        min_df = int(n_docs * self.min_df)
-        max_df = int(n_docs * self.max_df)
-        df = {term:df_t for term, df_t in df.items() if min_df <= df_t <= max_df}
+        df = {term:df_t for term, df_t in df.items() if self.min_df <= df_t / n_docs <= self.max_df}
         tf = {term:tf_t for term, tf_t in tf.items() if self.min_tf <= tf_t <= self.max_tf}
 
         # build vocabulary_
-- 
2.43.0


From 4dce2f56047ceefd22a10369f114f06b06a4e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 58/65] fix: verbs and adjectives were told apart by the
 identity of a string

---
 soynlp/predicator/_predicator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/predicator/_predicator.py b/soynlp/predicator/_predicator.py
index 265fe37..360aef6 100644
--- a/soynlp/predicator/_predicator.py
+++ b/soynlp/predicator/_predicator.py
@@ -488,10 +488,10 @@ class PredicatorExtractor:
                 # others are extracted stems
                 # rule based classifier, verb preference
                 answer = rule_classify(lemma[0])
-                if answer is 'Verb':
+                if answer == 'Verb':
                     v.add(lemma)
                     continue
-                if answer is 'Adjective':
+                if answer == 'Adjective':
                     adj.add(lemma)
                     continue
 
-- 
2.43.0


From 887b09a4882df289bd8c07d8e78054e33e2c3ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 59/65] fix: importing soynlp printed SyntaxWarnings for
 escapes in regular expressions

---
 soynlp/hangle/_hangle.py         |  4 ++--
 soynlp/normalizer/_normalizer.py | 10 +++++-----
 soynlp/tokenizer/_normalizer.py  |  8 ++++----
 soynlp/tokenizer/_tokenizer.py   |  4 ++--
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/soynlp/hangle/_hangle.py b/soynlp/hangle/_hangle.py
index 0f8c879..08580b3 100644
--- a/soynlp/hangle/_hangle.py
+++ b/soynlp/hangle/_hangle.py
@@ -38,8 +38,8 @@ jaum_list = ['ㄱ', 'ㄲ', 'ㄳ', 'ㄴ', 'ㄵ', 'ㄶ', 'ㄷ', 'ㄸ', 'ㄹ',
 moum_list = ['ㅏ', 'ㅐ', 'ㅑ', 'ㅒ', 'ㅓ', 'ㅔ', 'ㅕ', 'ㅖ', 'ㅗ', 'ㅘ', 
               'ㅙ', 'ㅚ', 'ㅛ', 'ㅜ', 'ㅝ', 'ㅞ', 'ㅟ', 'ㅠ', 'ㅡ', 'ㅢ', 'ㅣ']
 
-doublespace_pattern = re.compile('\s+')
-repeatchars_pattern = re.compile('(\w)\\1{3,}')
+doublespace_pattern = re.compile(r'\s+')
+repeatchars_pattern = re.compile(r'(\w)\1{3,}')
 
 def normalize(doc, english=False, number=False, punctuation=False, remove_repeat = 0, remains={}):
     message = 'normalize func will be moved soynlp.normalizer at ver 0.1\nargument remains will be removed at ver 0.1'
diff --git a/soynlp/normalizer/_normalizer.py b/soynlp/normalizer/_normalizer.py
index 2a82b9a..ad1678a 100644
--- a/soynlp/normalizer/_normalizer.py
+++ b/soynlp/normalizer/_normalizer.py
@@ -7,17 +7,17 @@ if sys.version_info <= (2,7):
 import re
 from soynlp.hangle import compose, decompose
 
-doublespace_pattern = re.compile('\s+')
-repeatchars_pattern = re.compile('(\w)\\1{2,}')
+doublespace_pattern = re.compile(r'\s+')
+repeatchars_pattern = re.compile(r'(\w)\1{2,}')
 number_pattern = re.compile('[0-9]')
-punctuation_pattern = re.compile('[,\.\?\!]')
-symbol_pattern = re.compile('[()\[\]\{\}`]')
+punctuation_pattern = re.compile(r'[,\.\?\!]')
+symbol_pattern = re.compile(r'[()\[\]\{\}`]')
 hangle_pattern = re.compile('[ㄱ-ㅎㅏ-ㅣ가-힣]')
 alphabet_pattern = re.compile('[a-zA-Z]')
 
 hangle_filter = re.compile('[^ㄱ-ㅎㅏ-ㅣ가-힣]')
 hangle_number_filter = re.compile('[^ㄱ-ㅎㅏ-ㅣ가-힣0-9]')
-text_filter = re.compile('[^ㄱ-ㅎㅏ-ㅣ가-힣a-zA-Z0-9,\.\?\!\"\'-()\[\]\{\}]')
+text_filter = re.compile(r'[^ㄱ-ㅎㅏ-ㅣ가-힣a-zA-Z0-9,\.\?\!\"\'-()\[\]\{\}]')
 
 def normalize(doc, alphabet=False, number=False,
     punctuation=False, symbol=False, remove_repeat=0):
diff --git a/soynlp/tokenizer/_normalizer.py b/soynlp/tokenizer/_normalizer.py
index ca7c0e4..d17724b 100644
--- a/soynlp/tokenizer/_normalizer.py
+++ b/soynlp/tokenizer/_normalizer.py
@@ -4,10 +4,10 @@ import re
 from soynlp.hangle import decompose, compose
 
 repeatchars_patterns = [
-    re.compile('(\w\w\w\w)\\1{3,}'),
-    re.compile('(\w\w\w)\\1{3,}'),
-    re.compile('(\w\w)\\1{3,}'),
-    re.compile('(\w)\\1{3,}')
+    re.compile(r'(\w\w\w\w)\1{3,}'),
+    re.compile(r'(\w\w\w)\1{3,}'),
+    re.compile(r'(\w\w)\1{3,}'),
+    re.compile(r'(\w)\1{3,}')
 ]
 
 def normalize(sentence, num_repeat=2):
diff --git a/soynlp/tokenizer/_tokenizer.py b/soynlp/tokenizer/_tokenizer.py
index 94110da..a4571c8 100644
--- a/soynlp/tokenizer/_tokenizer.py
+++ b/soynlp/tokenizer/_tokenizer.py
@@ -12,14 +12,14 @@ class RegexTokenizer:
     
     def __init__(self):
         self._patterns = [
-            ('number', re.compile(u'[-+]?\d*[\.]?[\d]+|[-+]?\d+', re.UNICODE)),
+            ('number', re.compile(r'[-+]?\d*[\.]?[\d]+|[-+]?\d+', re.UNICODE)),
             ('korean', re.compile(u'[가-힣]+', re.UNICODE)),
             ('jaum', re.compile(u'[ㄱ-ㅎ]+', re.UNICODE)),
             ('moum', re.compile(u'[ㅏ-ㅣ]+', re.UNICODE)),
             ('english & latin', re.compile(u"[a-zA-ZÀ-ÿ]+[[`']?s]*|[a-zA-ZÀ-ÿ]+", re.UNICODE))
         ]
         
-        self.doublewhite_pattern = re.compile('\s+')
+        self.doublewhite_pattern = re.compile(r'\s+')
 
     def __call__(self, s, debug=False, flatten=True):
         return self.tokenize(s, debug, flatten)
-- 
2.43.0


From facdc7a372951ea6bde07fd314ad748112747e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:33 +0000
Subject: [PATCH 60/65] fix: LRNounExtractor counts the substrings of all
 eojeols, whatever space is between them

---
 soynlp/noun/_noun_ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index ee080b8..fad24ea 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -90,7 +90,7 @@ class LRNounExtractor:
         for i, sent in enumerate(sents):
             if not self.ensure_normalized:
                 sent = normalize_sent_for_lrgraph(sent)
-            for token in sent.split(' '):
+            for token in sent.split():
                 if not token:
                     continue
                 token_len = len(token)
-- 
2.43.0


From 05a4d6d34c45cd40f628c3e7a05f775db956876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:33 +0000
Subject: [PATCH 61/65] fix: EojeolPatternTrainer counts the substrings of all
 eojeols, whatever space is between them

---
 soynlp/tokenizer/_tokenizer_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 016f0b6..11e721f 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -39,7 +39,7 @@ class EojeolPatternTrainer:
         wordset_r = defaultdict(lambda: 0)
         
         for i, sent in enumerate(sents):
-            for token in sent.split(' '):
+            for token in sent.split():
                 if not token:
                     continue
                 token_len = len(token)
-- 
2.43.0


From cdb4a3a7cff15c181de99099b766b4d171a6f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:31 +0000
Subject: [PATCH 62/65] fix: levenshtein keeps the substitution costs when the
 first text is the shorter one

---
 soynlp/hangle/_distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/hangle/_distance.py b/soynlp/hangle/_distance.py
index b0d354a..c7103a9 100644
--- a/soynlp/hangle/_distance.py
+++ b/soynlp/hangle/_distance.py
@@ -7,7 +7,7 @@ from ._hangle import decompose
 def levenshtein(s1, s2, cost={}):
     # based on Wikipedia/Levenshtein_distance#Python
     if len(s1) < len(s2):
-        return levenshtein(s2, s1)
+        return levenshtein(s2, s1, {(c2, c1): value for (c1, c2), value in cost.items()})
 
     if len(s2) == 0:
         return len(s1)
-- 
2.43.0


From 04fa37403df075509d3e0303586bf61f7ff2b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:05 +0000
Subject: [PATCH 63/65] fix: word_scores has the branching entropy and accessor
 variety of the longest words

---
 soynlp/word/_word.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index e53682b..95ac26f 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -209,8 +209,10 @@ class WordExtractor:
                 be[word] = (0, v)
             return be
 
-        be_l = get_entropy_table(parse_right, sort_by_length(self.R), sort_by_length(self._aR), self.max_right_length+1, self.R, self._aR)
-        be_r = get_entropy_table(parse_left, sort_by_length(self.L), sort_by_length(self._aL), self.max_left_length+1, self.L, self._aL)
+        # an extension is one character longer than the word
+        max_length = max(self.max_left_length, self.max_right_length) + 2
+        be_l = get_entropy_table(parse_right, sort_by_length(self.R), sort_by_length(self._aR), max_length, self.R, self._aR)
+        be_r = get_entropy_table(parse_left, sort_by_length(self.L), sort_by_length(self._aL), max_length, self.L, self._aL)
         be = merge(be_l, be_r)
         if self.verbose > 0:
             print_head = 'branching entropies' if get_score == _entropy else 'accessor variety'
-- 
2.43.0


From 470c94a567099c250ffcc6afa05ba8a5b0ac69ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:18 +0000
Subject: [PATCH 64/65] fix: LRNounExtractor and EojeolPatternTrainer count
 right parts of max_right_length characters

---
 soynlp/noun/_noun_ver1.py              | 2 +-
 soynlp/tokenizer/_tokenizer_builder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soynlp/noun/_noun_ver1.py b/soynlp/noun/_noun_ver1.py
index fad24ea..04b89b5 100644
--- a/soynlp/noun/_noun_ver1.py
+++ b/soynlp/noun/_noun_ver1.py
@@ -96,7 +96,7 @@ class LRNounExtractor:
                 token_len = len(token)
                 for i in range(1, min(self.max_left_length, token_len)+1):
                     wordset_l[token[:i]] += 1
-                for i in range(1, min(self.max_right_length, token_len)):
+                for i in range(1, min(self.max_right_length + 1, token_len)):
                     wordset_r[token[-i:]] += 1
             if self.verbose and (i % 1000 == 999):
                 message = 'scanning {} / {} sents'.format(i+1, len(sents))
diff --git a/soynlp/tokenizer/_tokenizer_builder.py b/soynlp/tokenizer/_tokenizer_builder.py
index 11e721f..e2929d3 100644
--- a/soynlp/tokenizer/_tokenizer_builder.py
+++ b/soynlp/tokenizer/_tokenizer_builder.py
@@ -45,7 +45,7 @@ class EojeolPatternTrainer:
                 token_len = len(token)
                 for i in range(1, min(self.max_left_length, token_len)+1):
                     wordset_l[token[:i]] += 1
-                for i in range(1, min(self.max_right_length, token_len)):
+                for i in range(1, min(self.max_right_length + 1, token_len)):
                     wordset_r[token[-i:]] += 1
             if self.verbose and (i % _ckpt == 0):
                 args = ('#' * int(i/_ckpt), '-' * (40 - int(i/_ckpt)), 100.0 * i / len(sent), '%', get_process_memory())
-- 
2.43.0


From bc49e995c4e5400c43919ea51aac724e7a7a8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:07 +0000
Subject: [PATCH 65/65] fix: WordExtractor.train no longer prunes after the
 first sentence, whatever the interval

---
 soynlp/word/_word.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soynlp/word/_word.py b/soynlp/word/_word.py
index 95ac26f..3274cb9 100644
--- a/soynlp/word/_word.py
+++ b/soynlp/word/_word.py
@@ -101,7 +101,7 @@ class WordExtractor:
                 for i in range(1, min(self.max_left_length + 1, word_len)):
                     self._aR['%s %s' % (left_word[-1], word[:i])] += 1
 
-            if (num_for_pruning > 0) and ( num_sent % num_for_pruning == 0):
+            if (num_for_pruning > 0) and (num_sent > 0) and ( num_sent % num_for_pruning == 0):
                 prune_extreme_case()
             if (self.verbose > 0) and ( num_sent % self.verbose == 0):
                 sys.stdout.write('\rtraining ... (%d in %d sents) use memory %.3f Gb' % (num_sent, len(sents), get_process_memory()))
-- 
2.43.0

