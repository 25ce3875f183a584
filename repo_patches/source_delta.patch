From a2a03df06aae62a6311db4ced0e47e0dacbb85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 01/35] fix: compare sentence-relative heads in token equality

Tokens whose head is known only by sentence position compared equal
whatever that head was (the index was compared with itself).
---
 babylondigger/datamodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 75a6554..f917d02 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -179,7 +179,8 @@ class Token(object):
             return self.__start == other.__start and self.__end == other.__end and \
                    self.pos == other.pos and self.lemma == other.lemma and \
                    self._head_document_index == other._head_document_index and \
-                   self._head_sentence_index == self._head_sentence_index and self.deprel == other.deprel and \
+                   (self._head_document_index is not None or
+                    self._head_sentence_index == other._head_sentence_index) and self.deprel == other.deprel and \
                    self.sub_index == other.sub_index and self.text_replacement == other.text_replacement and \
                    self.extras == other.extras
         return NotImplemented
-- 
2.43.0


From f3eca45dd29c7174ffa069528f24471dc334b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 02/35] fix: reject heads that precede the token's sentence

A document-relative head on the last token of the previous sentence was
converted to the sentence-relative index -1, i.e. silently became a root.
---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index f917d02..0d55200 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -241,6 +241,9 @@ class Token(object):
         elif head_document_index != head_sentence_index + sentence_start:
             raise ValueError('Broken token {}. Mismatch syntactic head (document view: {}, sentence view: {}, sentence start: {})'
                              .format(token, head_document_index, head_sentence_index, sentence_start))
+        if head_sentence_index < 0:
+            raise ValueError('Broken token {}. Syntactic head precedes the sentence (document view: {}, sentence start: {})'
+                             .format(token, head_document_index, sentence_start))
         return token.with_syntax(token, token.__deprel, head_document_index=head_document_index, head_sentence_index=head_sentence_index)
 
 
-- 
2.43.0


From 2c74f642704f15219441985bd8f1ab2d89d1ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 03/35] fix: reject tokens with an empty sentence list with
 ValueError

Document(text, tokens, []) failed with IndexError instead of reporting
that the tokens lie outside of any sentence.
---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 0d55200..5f3adca 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -443,6 +443,9 @@ class Document(_WordList):
             self.__sentences = []
             return
 
+        if not sentences:
+            raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(self._tokens))
+
         if sentences[-1].end > len(tokens):
             raise ValueError('sentence refers to nonexistent token (sentence: {}, tokens count: {})'
                              .format(sentences[-1], len(tokens)))
-- 
2.43.0


From 0a70a191306dadb9d6d698ec8dd941db6590a7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 04/35] fix: reject a document whose first multiword token
 lacks its first word

Skipped words of a multiword token were detected everywhere except at
the very start of the document.
---
 babylondigger/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 5f3adca..ec81269 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -443,6 +443,9 @@ class Document(_WordList):
             self.__sentences = []
             return
 
+        if self._tokens and self._tokens[0].sub_index != 0:
+            raise ValueError('multiword token is skipped (before {})'.format(self._tokens[0]))
+
         if not sentences:
             raise ValueError('there are some tokens outside of the sentence (tokens: {})'.format(self._tokens))
 
-- 
2.43.0


From 930d80b0fce9a91a5fd979a118684e1c15353f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 05/35] fix: TokenExtras equality with other types

NotImplemented was raised, not returned, so comparing extras with any
other object failed with TypeError.
---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index ec81269..f4ea9ca 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -69,7 +69,7 @@ class TokenExtras(object):
     def __eq__(self, other):
         if isinstance(other, TokenExtras):
             return self.__extras == other.__extras
-        raise NotImplemented
+        return NotImplemented
 
     def as_dict(self):
         return deepcopy(self.__extras)
-- 
2.43.0


From bc2407cc5fe065e9054905e22e02093790b9f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 06/35] fix: head of a token without syntax is None

Asking for the head of a token that has none failed with TypeError.
---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index f4ea9ca..74ee372 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -410,7 +410,7 @@ class NavigableToken(DocumentToken, _NavigableItem['NavigableToken']):
 
     @property
     def head(self) -> Optional['NavigableToken']:
-        if self.is_root:
+        if self.is_root or not self.has_head:
             return None
         return self.__token_getter(self.head_index)
 
-- 
2.43.0


From 84b711758166a33598dd6e212c78a9c1fe07d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 07/35] fix: re-annotation must not drop all tokens

from_document accepted an empty token list for a non-empty document.
---
 babylondigger/datamodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 74ee372..bf1c8be 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -571,7 +571,8 @@ class Document(_WordList):
     @classmethod
     def from_document(cls, document: 'Document', tokens: List[Token]):
         sorted_tokens = sorted(tokens, key=attrgetter('start', 'end', 'sub_index'))
-        if any(not old.coincides(new) for (old, new) in zip(document._tokens, sorted_tokens)):
+        if len(sorted_tokens) != document.tokens_count or \
+                any(not old.coincides(new) for (old, new) in zip(document._tokens, sorted_tokens)):
             raise ValueError("new tokens should coincide old ones")
         return cls(document.document_text, sorted_tokens, document.__sentences)
 
-- 
2.43.0


From 519b7472f04cc3423a244f0dba49f73459f9965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 08/35] fix: sentence boundaries of an empty document are
 immutable

The list handed out was the document's own state.
---
 babylondigger/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index bf1c8be..6e0dbab 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -440,7 +440,7 @@ class Document(_WordList):
         _WordList.__init__(self, text, tokens, lambda token: token._head_document_index, sorted_sentences=sentences)
 
         if len(tokens) == 0:
-            self.__sentences = []
+            self.__sentences = ()
             return
 
         if self._tokens and self._tokens[0].sub_index != 0:
-- 
2.43.0


From 7a06cf2ddd857533804ce8e1e90e4212a299b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 09/35] fix: order part-of-speech values with missing tags

Comparing Pos values failed with TypeError when only one of them had
XPOS (or UPOS).
---
 babylondigger/datamodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 6e0dbab..50db733 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -47,7 +47,8 @@ class Pos(object):
         return hash(self.__tuple_view())
 
     def __tuple_view(self):
-        return self.__upos, self.__xpos, tuple(sorted(self.__feats.items()))
+        return self.__upos is not None, self.__upos or '', self.__xpos is not None, self.__xpos or '', \
+               tuple(sorted(self.__feats.items()))
 
 
 class TokenExtras(object):
-- 
2.43.0


From d6d9ffc807e4a0a44fd1c491589d8f3d32dc5120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:22 +0000
Subject: [PATCH 10/35] fix: reject a token that is a root in only one head
 view

Contradicting document and sentence heads are reported, except when one
of them marked a root: then the other one was silently dropped.
---
 babylondigger/datamodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/datamodel.py b/babylondigger/datamodel.py
index 50db733..943c5d0 100644
--- a/babylondigger/datamodel.py
+++ b/babylondigger/datamodel.py
@@ -232,6 +232,8 @@ class Token(object):
         if token.__head_sentence_index is None and token.__head_document_index is None:
             return token
         if token.__head_sentence_index == -1 or token.__head_document_index == -1:
+            if token.__head_sentence_index not in (None, -1) or token.__head_document_index not in (None, -1):
+                raise ValueError('Broken token {}. Mismatch syntactic head (root in one view only)'.format(token))
             return token.with_syntax(token, token.__deprel, head_document_index=-1, head_sentence_index=-1)
         head_document_index = token.__head_document_index
         head_sentence_index = token.__head_sentence_index
-- 
2.43.0


From 912eae7f760ed99410ce6554c843801addfb5db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 11/35] fix: do not repeat a sentence-final multiword token in
 the next sentence

The writer kept its multiword state across the sentence end, so the
multiword token was written again at the start of the next sentence.
---
 babylondigger/evaluation/conllu_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index fd99f75..ba3d7b1 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -196,7 +196,7 @@ class _AbstractWriterState(object):
     def write_token(self, token: NavigableToken) -> '_AbstractWriterState':
         pass
 
-    def write_end_of_sentence(self):
+    def write_end_of_sentence(self) -> '_AbstractWriterState':
         pass
 
 
@@ -222,6 +222,7 @@ class _RegularTokenWriterState(_AbstractWriterState):
         super().write_end_of_sentence()
         self.__file.write("\n")
         self.__index = 0
+        return self
 
     def write_to_file(self, line):
         self.__file.write(line)
@@ -304,7 +305,7 @@ class CoNLLUWriter(object):
         for sentence in doc.sentences:
             for token in sentence:
                 state = state.write_token(token)
-            state.write_end_of_sentence()
+            state = state.write_end_of_sentence()
 
 
 def to_conll(column_extractors, index: int, token: NavigableToken, write_space_after: bool = True, fake_heads: bool = True) -> List[str]:
-- 
2.43.0


From 09375347e7ccc6baa82e3b9a8cf411474ef28c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 12/35] fix: write tokens with part of speech when FEATS is not
 among the columns

The writer failed with TypeError for every column set without FEATS.
---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index ba3d7b1..b4868d6 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -313,7 +313,7 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
         return s if s is not None else "_"
 
     def __feats_to_string(feats: Dict) -> str:
-        if len(feats) == 0:
+        if not feats:
             return "_"
         return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
 
-- 
2.43.0


From c96a4365167c8fbbd939dd379c9e76d203c965d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 13/35] fix: skip empty nodes inside multiword tokens

An empty node between the words of a multiword token was read as one of
those words.
---
 babylondigger/evaluation/conllu_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index b4868d6..df2a46c 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -86,6 +86,8 @@ class _MultiWordReaderState(_AbstractReaderState):
         self._token_end = token_end
 
     def _process_token(self, parsed_token: 'InternalToken') -> _AbstractReaderState:
+        if '.' in parsed_token.id:  # empty token
+            return self
         self._tokens.append(Token(start=self._token_start, end=self._token_end,
                                   pos=parsed_token.pos, lemma=parsed_token.lemma,
                                   head_sentence_index=self._compute_head(parsed_token.head), deprel=parsed_token.deprel,
-- 
2.43.0


From 92acd1b17507079add820d1dbbe53a84148bcf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 14/35] fix: accept MISC entries without a value

MISC is free-form; an entry without '=' made the reader fail with
IndexError.
---
 babylondigger/evaluation/conllu_io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index df2a46c..00f2480 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -173,7 +173,7 @@ def _line_parser(columns: Set[int]):
             lemma=lemma_extractor(token_repr),
             head=head_extractor(token_repr),
             deprel=deprel_extractor(token_repr),
-            space_after=_parse_to_dict(token_repr[MISC]).get("SpaceAfter") is None)
+            space_after=_parse_space_after(token_repr[MISC]))
     return _parse_line
 
 
@@ -184,6 +184,10 @@ def _parse_pos(upos: Optional[str], xpos: Optional[str], feats: Optional[str]) -
     return Pos(upos, xpos, _parse_to_dict(feats))
 
 
+def _parse_space_after(misc: Optional[str]) -> bool:
+    return misc is None or all(entry.split("=")[0] != "SpaceAfter" for entry in misc.split("|"))
+
+
 def _parse_to_dict(feats: Optional[str]) -> Dict[str, str]:
     if feats is None:
         return {}
-- 
2.43.0


From b36876f68cebcc4ab9e6e2ec93053ed4cd602e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:26 +0000
Subject: [PATCH 15/35] fix: write features in the order CoNLL-U prescribes

Features are ordered by name ignoring case (Number before NumForm).
Written in code point order they differed from the gold files, which the
evaluation script compares literally.
---
 babylondigger/evaluation/conllu_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conllu_io.py b/babylondigger/evaluation/conllu_io.py
index 00f2480..8570509 100644
--- a/babylondigger/evaluation/conllu_io.py
+++ b/babylondigger/evaluation/conllu_io.py
@@ -321,7 +321,7 @@ def to_conll(column_extractors, index: int, token: NavigableToken, write_space_a
     def __feats_to_string(feats: Dict) -> str:
         if not feats:
             return "_"
-        return "|".join(sorted("{}={}".format(*item) for item in feats.items()))
+        return "|".join("{}={}".format(*item) for item in sorted(feats.items(), key=lambda item: (item[0].lower(), item)))
 
     def __normalize_index(index: int):
         if index == -1:
-- 
2.43.0


From 71c9a02b32370e29c87687c1be4e4a14c040e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:05 +0000
Subject: [PATCH 16/35] fix: average metrics that have no aligned accuracy

Tokens, Sentences and Words have no aligned accuracy, so averaging them over
several seeds failed with a TypeError (missing argument).
---
 babylondigger/evaluation/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 72346a5..7df5c4b 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -230,6 +230,7 @@ def get_metrics_printer(metrics: List[str]):
 
 def get_metrics_averager(metrics: List[str]):
     _Scores = namedtuple('Scores', ['precision', 'recall', 'f1', 'aligned_accuracy'])
+    _Scores.__new__.__defaults__ = (None,)  # metrics without aligned accuracy
 
     def calculate_average_scores(scores):
         sums = {metric: defaultdict(int) for metric in metrics}
-- 
2.43.0


From c22631ce72a0c2eb9cf482003641f705bc5d5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:05 +0000
Subject: [PATCH 17/35] fix: average the compared metrics too

With several seeds only the printed metrics were averaged, so comparing two
parameter sets by a metric that is not printed failed with an AttributeError.
---
 babylondigger/evaluation/evaluation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/evaluation.py b/babylondigger/evaluation/evaluation.py
index 7df5c4b..e6cd931 100644
--- a/babylondigger/evaluation/evaluation.py
+++ b/babylondigger/evaluation/evaluation.py
@@ -260,7 +260,8 @@ def main(args):
 
     trainer = get_trainer(args.method)
 
-    metrics_averager = get_metrics_averager(args.settings["metric_printer"]["fields"])
+    metrics_averager = get_metrics_averager(
+        sorted(set(args.settings["metric_printer"]["fields"] + args.settings["cmp_metric"]["fields"])))
     estimator = __build_estimator(args, metrics_printer, metrics_averager)
     hyperparams = args.hyperparams
     if not isinstance(hyperparams, list):
-- 
2.43.0


From c382530d378aef213d8691b5a06e7cc4708b3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:00 +0000
Subject: [PATCH 18/35] fix: whole-word lemma rules apply to whole words only

---
 babylondigger/lemmas/transformation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/babylondigger/lemmas/transformation_rules.py b/babylondigger/lemmas/transformation_rules.py
index 0b2a905..738fa84 100644
--- a/babylondigger/lemmas/transformation_rules.py
+++ b/babylondigger/lemmas/transformation_rules.py
@@ -128,8 +128,8 @@ class LemmaTransformationTrie(object):
             if child is None:
                 break
             current = child
-
-        _extend(result, current.__exceptions)
+        else:
+            _extend(result, current.__exceptions)
         return result
 
     @classmethod
-- 
2.43.0


From 3bc04fca6b5a83327238daa168901ee26169c077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:00 +0000
Subject: [PATCH 19/35] fix: order labels that contain absent tags

---
 babylondigger/features/extractors.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 873af00..511a322 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -615,11 +615,17 @@ def _id2obj(labels_counts: Dict[__T, int], threshold=0) -> List[__T]:
         objects = filter(lambda item: item[1] > threshold, objects)
     objects = map(lambda item: item[0], objects)
     objects = filter(lambda obj: obj != most_common, objects)
-    id2obj = sorted(objects, key=lambda x: (x is not None, x))
+    id2obj = sorted(objects, key=_sort_key)
     id2obj.insert(0, most_common)
     return id2obj
 
 
+def _sort_key(obj):
+    if isinstance(obj, tuple):
+        return True, tuple(map(_sort_key, obj))
+    return obj is not None, obj
+
+
 def _obj2id(id2obj: List[__T]) -> Dict[__T, int]:
     return {obj: i for i, obj in enumerate(id2obj)}
 
-- 
2.43.0


From 9cefd8e4725994e9347f46c00f635c0085e4c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:00 +0000
Subject: [PATCH 20/35] fix: count whole words, lowercased if they are looked
 up so

---
 babylondigger/features/extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/features/extractors.py b/babylondigger/features/extractors.py
index 511a322..bd2419e 100644
--- a/babylondigger/features/extractors.py
+++ b/babylondigger/features/extractors.py
@@ -122,7 +122,7 @@ class TrainableEmbeddingsExtractorBuilder(builder.FeatureExtractorBuilder[Naviga
         self.__lowercase = lowercase
 
     def build(self, dataset: Iterable[Document]):
-        tokens = chain.from_iterable(_tokens(dataset, lambda token: token.text))
+        tokens = _tokens(dataset, lambda token: token.text.lower() if self.__lowercase else token.text)
         counter = Counter(tokens)
         filtered = map(lambda item: item[0], filter(lambda item: item[1] >= self.__threshold, counter.most_common()))
         word2id = {wr: index for index, wr in enumerate(sorted(filtered), 2)}
-- 
2.43.0


From 9a40a5bc9eb7f08b49efa197877112469c390437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:15 +0000
Subject: [PATCH 21/35] fix: a task builder without initializers of its own
 (lemma_binary) made building the network fail

---
 babylondigger/neural/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/network.py b/babylondigger/neural/network.py
index 96fe062..eb4462e 100644
--- a/babylondigger/neural/network.py
+++ b/babylondigger/neural/network.py
@@ -96,7 +96,7 @@ class AbstractTaskNetworkBuilder(object):
         pass
 
     def initializers(self) -> List['NeuralNetworkInitializer']:
-        pass
+        return []
 
 
 class AbstractSharedNetworkBuilder(object):
-- 
2.43.0


From 03994e7af03da7e61490bd3c31cb7019b7b3a1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:15 +0000
Subject: [PATCH 22/35] fix: lr_decrease_factor was required although its
 documented default is 2

---
 babylondigger/neural/tagger/neural_tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/neural_tagger.py b/babylondigger/neural/tagger/neural_tagger.py
index 2dfb8af..5eb4fc5 100644
--- a/babylondigger/neural/tagger/neural_tagger.py
+++ b/babylondigger/neural/tagger/neural_tagger.py
@@ -126,7 +126,7 @@ class NeuralTaggerTrainer(TaggerTrainerInterface):
                     scores = dev_tester(tagger)
                     acc = sum(score.aligned_accuracy for score in scores.values() if score.aligned_accuracy is not None)
                     if acc <= _previous_accs[-1] and acc <= sum(_previous_accs) / len(_previous_accs):
-                        lr /= optimizer['lr_decrease_factor']
+                        lr /= optimizer.get('lr_decrease_factor', 2)
 
                     _previous_accs.append(acc)
                     _previous_accs.pop(0)
-- 
2.43.0


From 7488d531050baeb0613fc8f526e75e09d29beb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:43 +0000
Subject: [PATCH 23/35] fix: processors entered before one that fails to enter
 were never exited

---
 babylondigger/processor.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/babylondigger/processor.py b/babylondigger/processor.py
index 71e34dd..92208cd 100644
--- a/babylondigger/processor.py
+++ b/babylondigger/processor.py
@@ -1,3 +1,4 @@
+import sys
 from typing import Iterator, Iterable
 
 from babylondigger.datamodel import Document
@@ -25,8 +26,15 @@ class DocumentComplexProcessor(DocumentProcessorInteface):
         return result
 
     def __enter__(self):
-        for processor in self.__processors:
-            processor.__enter__()
+        entered = []
+        try:
+            for processor in self.__processors:
+                processor.__enter__()
+                entered.append(processor)
+        except BaseException:
+            for processor in entered:
+                processor.__exit__(*sys.exc_info())
+            raise
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From 43d8a024c5a97b455181b8ea300c97acb00baa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 24/35] fix: a dense task without the optional loss_weights
 could not be built

---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 45a2533..1a3c9c7 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -52,7 +52,7 @@ class DenseTaskNetworkBuilder(AbstractTaskNetworkBuilder):
 
     def _sum_losses(self, losses):
         if self.__loss_weights is None:
-            return tf.reduce_sum(tf.stack(losses), name='loss')
+            return tf.reduce_sum(tf.stack(list(losses.values())), name='loss')
 
         weighted_losses = []
         for loss in losses:
-- 
2.43.0


From 6d0e71db36c96d5ede3c837142eaac6b363b724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 25/35] fix: lemma_combo required loss_weights and did not know
 its 'default' entry

---
 babylondigger/neural/tagger/task_builders.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 1a3c9c7..2261e1b 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -123,7 +123,7 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         self.__max_word_length = features_config["output_subwords"]["max_word_length"]
         self.__output_subwords_config = features_config["output_subwords"]
         self.__input_subwords_config = features_config["input_subwords"]
-        self.__loss_weight = config.get("loss_weights")["LEMMA"]
+        self.__loss_weight = _lemma_loss_weight(config)
         self.__initializers = []
 
     def gold(self, shapes):
@@ -213,6 +213,13 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         return tf.cond(tf.shape(ce)[2] > self.__max_word_length, slice_to_max_len, pad_to_max_len)
 
 
+def _lemma_loss_weight(config):
+    loss_weights = config.get("loss_weights", None)
+    if loss_weights is None:
+        return 1.0
+    return loss_weights["LEMMA"] if "LEMMA" in loss_weights else loss_weights["default"]
+
+
 class LemmaSuffixBinaryTaskNetworkBuilder(AbstractTaskNetworkBuilder):
     def __init__(self, config, features_config):
         self.__labels_name = 'lemma_rule_labels'
-- 
2.43.0


From e7a673c1a38f9de698bb60d4f03ce566eb9a88b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 26/35] fix: lemma_binary ignored loss_weights

---
 babylondigger/neural/tagger/task_builders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 2261e1b..ce03555 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -225,6 +225,7 @@ class LemmaSuffixBinaryTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         self.__labels_name = 'lemma_rule_labels'
         self.__shared_name = config['shared_name']
         self.__dense_size = config['dense_size']
+        self.__loss_weight = _lemma_loss_weight(config)
         self.__lemma_rules_config = features_config['lemma_suffix_transformation']
 
     def gold(self, shapes):
@@ -271,7 +272,8 @@ class LemmaSuffixBinaryTaskNetworkBuilder(AbstractTaskNetworkBuilder):
 
     def _loss(self, logits, labels, sentence_mask, sentence_norm):
         raw_loss = tf.nn.sigmoid_cross_entropy_with_logits(labels=labels, logits=logits)
-        return tf.reduce_sum(raw_loss * tf.expand_dims(sentence_mask, axis=-1)) / sentence_norm
+        normed_loss = tf.reduce_sum(raw_loss * tf.expand_dims(sentence_mask, axis=-1)) / sentence_norm
+        return tf.math.multiply(normed_loss, tf.convert_to_tensor(self.__loss_weight, tf.float32))
 
     def _output(self, inputs, logits, name):
         return tf.cast(tf.argmax(logits, axis=-1), tf.int32, name=name)
-- 
2.43.0


From 16f625dcc3bfb474609f1de49488893ac72cf6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 27/35] fix: lemma_combo clashed with BiLSTM_CNN when their
 kernels had the same configuration

---
 babylondigger/neural/tagger/task_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index ce03555..7453637 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -176,7 +176,7 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         # apply dilated convolutions to concatenated char embeddings and shared's output
         cnn_input = tf.reshape(tf.concat([broadcast, ce], axis=-1),
                                [-1, 1, self.__max_word_length, self.__cnn_char_embed_size + self.__cnn_bilstm_dense_size])
-        cnn_output = utils.apply_conv_layer(cnn_input, self.__cnn_kernels, 'cnn_kernel')
+        cnn_output = utils.apply_conv_layer(cnn_input, self.__cnn_kernels, 'lemma_cnn_kernel')
 
         if self.__input_subwords_config.get("highway_layer", False):
             # apply highway layer
-- 
2.43.0


From e86a7a6440b91a7e44a23f714b5e066554296bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 28/35] fix: the average of subword embeddings was divided by
 the padded length of the batch

---
 babylondigger/neural/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/neural/utils.py b/babylondigger/neural/utils.py
index 8629a0d..4e911c0 100644
--- a/babylondigger/neural/utils.py
+++ b/babylondigger/neural/utils.py
@@ -64,7 +64,8 @@ def subword_average(ids, input_: tf.Tensor, config, feature_name):
     broadcast_mask = tf.broadcast_to(mask, [mask_shape[0], mask_shape[1], mask_shape[2], input_shape[-1]])
     nonzero_input_ = tf.ragged.boolean_mask(input_, broadcast_mask).to_tensor()
     nonzero_input_reshaped = tf.reshape(nonzero_input_, [input_shape[0], input_shape[1], input_shape[2], input_.get_shape().as_list()[-1]])
-    return tf.reduce_mean(nonzero_input_reshaped, axis=-2)
+    count = tf.reduce_sum(tf.cast(mask, tf.float32), axis=-2)
+    return tf.math.divide_no_nan(tf.reduce_sum(nonzero_input_reshaped, axis=-2), count)
 
 
 def subword_self_attention(ids, input_: tf.Tensor, config, feature_name):
-- 
2.43.0


From 590e5e236ec1b40d8e00dbfc6c02d10ca52c2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:53 +0000
Subject: [PATCH 29/35] fix: asking a network builder for its feature providers
 twice duplicated them

---
 babylondigger/neural/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/network.py b/babylondigger/neural/network.py
index eb4462e..3163534 100644
--- a/babylondigger/neural/network.py
+++ b/babylondigger/neural/network.py
@@ -120,7 +120,7 @@ class MultitaskNetworkBuilder(NeuralNetworkBuilder):
         self._optimizer_dict = config['optimizer']
 
     def feature_providers(self):
-        result = self.__shared_builder.feature_providers()
+        result = list(self.__shared_builder.feature_providers())
         for task_builder in self.__task_builders:
             result.extend(task_builder.feature_providers())
         return result
-- 
2.43.0


From 333028cb9a278a05400581e10368ffae5f821dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:50 +0000
Subject: [PATCH 30/35] fix: trainable was ignored for subword embeddings
 without a file

---
 babylondigger/neural/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/neural/utils.py b/babylondigger/neural/utils.py
index 4e911c0..1bbbd44 100644
--- a/babylondigger/neural/utils.py
+++ b/babylondigger/neural/utils.py
@@ -101,7 +101,7 @@ def subwords_features_builder(feature_name, config):
         sid = inputs[feature_name]
         if 'embedding_path' not in config:
             se_shape = [shapes[feature_name][0], config['embed_size']]
-            se, _ = embedding_layer(feature_name, sid, se_shape, trainable=True)
+            se, _ = embedding_layer(feature_name, sid, se_shape, config.get('trainable', True))
         else:
             # with pre-trained embeddings
             se, se_matrix = embedding_layer(feature_name, sid, shapes[feature_name], config['trainable'])
-- 
2.43.0


From 9d2e3d58466c69339482aacfadc7f3244ecd927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:50 +0000
Subject: [PATCH 31/35] fix: lemma_combo ignored trainable for its character
 embeddings

---
 babylondigger/neural/tagger/task_builders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/babylondigger/neural/tagger/task_builders.py b/babylondigger/neural/tagger/task_builders.py
index 7453637..908799f 100644
--- a/babylondigger/neural/tagger/task_builders.py
+++ b/babylondigger/neural/tagger/task_builders.py
@@ -199,7 +199,8 @@ class LemmaCOMBOTaskNetworkBuilder(AbstractTaskNetworkBuilder):
         return tf.cast(tf.argmax(logits, axis=-1), tf.int32, name=name)
 
     def _get_char_embeddings(self, input_, shape):
-        ce, ce_matrix = utils.embedding_layer('input_subwords_e', input_, shape, trainable=True)
+        ce, ce_matrix = utils.embedding_layer('input_subwords_e', input_, shape,
+                                              self.__input_subwords_config.get('trainable', True))
         if "embedding_path" in self.__features_config["input_subwords"]:
             self.__initializers.append(utils.matrix_initializer('input_subwords', ce_matrix))
 
-- 
2.43.0


From 1c4dfaf7302d03dd1913cd98b16bb752de4c50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 32/35] fix: using a TDozat processor outside of its context
 raised AttributeError

---
 babylondigger/wrappers/tdozat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index 9de721e..b50fdfb 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -58,7 +58,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
 
     def process(self, documents: Iterator[Document]) -> Iterator[Document]:
         if self._sess is None:
-            raise RuntimeError(f'Use {self.__name__} as context manager')
+            raise RuntimeError(f'Use {type(self).__name__} as context manager')
         documents_list = list(documents)
         return iter(self.__parse_documents(documents_list))
 
-- 
2.43.0


From dd931c00143eef0025d1607a9d07701713a23ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 33/35] fix: predictions left by a failed run mixed into the
 next one

---
 babylondigger/wrappers/tdozat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index b50fdfb..bb3cc01 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -90,6 +90,7 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
         for vocab in self.__network.vocabs:
             vocab.reset()
 
+        self.parse_outputs.predictions = {'indices': []}  # a failed run may have left some
         dataset = _DocumentDataset(documents, self.__network.vocabs, config=self.__config)
         # following code is copy-pasted from tdozat_parser.parser.base_network.BaseNetwork#parse_file
         probability_tensors = self.parse_outputs.probabilities
-- 
2.43.0


From 64ff277b457038498d70af950b25164eeb3589f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:12 +0000
Subject: [PATCH 34/35] fix: a TDozat processor whose model cannot be restored
 left its session open

---
 babylondigger/wrappers/tdozat.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/babylondigger/wrappers/tdozat.py b/babylondigger/wrappers/tdozat.py
index bb3cc01..0b86f34 100644
--- a/babylondigger/wrappers/tdozat.py
+++ b/babylondigger/wrappers/tdozat.py
@@ -77,9 +77,14 @@ class TDozatDocumentProcessor(DocumentProcessorInteface):
         config.gpu_options.allow_growth = True
         config.allow_soft_placement = True
 
-        self._sess = tf.Session(graph=self.__g, config=config)
-        self._sess.run(tf.variables_initializer(list(non_save_variables)))
-        saver.restore(self._sess, tf.train.latest_checkpoint(self.__network.save_dir))
+        sess = tf.Session(graph=self.__g, config=config)
+        try:
+            sess.run(tf.variables_initializer(list(non_save_variables)))
+            saver.restore(sess, tf.train.latest_checkpoint(self.__network.save_dir))
+        except BaseException:
+            sess.close()
+            raise
+        self._sess = sess
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From 64cf1c089ac580a1a33dedb2e476c92391c6fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:11 +0000
Subject: [PATCH 35/35] fix: the scorer crashed on or accepted bad heads inside
 multiword tokens

---
 babylondigger/evaluation/conll17_ud_eval.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/babylondigger/evaluation/conll17_ud_eval.py b/babylondigger/evaluation/conll17_ud_eval.py
index 3f16d69..8b5623a 100644
--- a/babylondigger/evaluation/conll17_ud_eval.py
+++ b/babylondigger/evaluation/conll17_ud_eval.py
@@ -163,7 +163,12 @@ def load_conllu(file):
                 if word.parent == "remapping":
                     raise UDError("There is a cycle in a sentence")
                 if word.parent is None:
-                    head = int(word.columns[HEAD])
+                    try:
+                        head = int(word.columns[HEAD])
+                    except ValueError:
+                        raise UDError("Cannot parse HEAD '{}'".format(word.columns[HEAD]))
+                    if head < 0:
+                        raise UDError("HEAD cannot be negative")
                     if head > len(ud.words) - sentence_start:
                         raise UDError("HEAD '{}' points outside of the sentence".format(word.columns[HEAD]))
                     if head:
-- 
2.43.0

