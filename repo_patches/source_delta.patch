From 163220922a2531ad6d10f069fd1a1e8887f7563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 01/65] fix: needleman_wunsch: sum the gap costs of all skipped
 leading elements

---
 lib/daeso/string/needleman_wunsch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/needleman_wunsch.py b/lib/daeso/string/needleman_wunsch.py
index 2cac879..081022c 100644
--- a/lib/daeso/string/needleman_wunsch.py
+++ b/lib/daeso/string/needleman_wunsch.py
@@ -78,10 +78,10 @@ def needleman_wunsch(seq1, seq2, sim_score, gap_cost):
     scores = {(0,0): (0, "T")}
     
     for i in range(1, len(seq1) + 1):
-        scores[i, 0] = (gap_cost(seq1[i-1]) * i, "U")
+        scores[i, 0] = (scores[i-1, 0][0] + gap_cost(seq1[i-1]), "U")
     
     for j in range(1, len(seq2) + 1):
-        scores[0, j] = (gap_cost(seq2[j-1]) * j, "L")
+        scores[0, j] = (scores[0, j-1][0] + gap_cost(seq2[j-1]), "L")
     
     for i in range(1, len(seq1) + 1):
         for j in range(1, len(seq2) + 1):
-- 
2.43.0


From caaea022d17f100cff13656b5ecaa0b21b31f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 02/65] fix: smith_waterman: empty alignment instead of
 IndexError without a positive score

---
 lib/daeso/string/smith_waterman.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/daeso/string/smith_waterman.py b/lib/daeso/string/smith_waterman.py
index f26ce9e..3002dcd 100644
--- a/lib/daeso/string/smith_waterman.py
+++ b/lib/daeso/string/smith_waterman.py
@@ -100,6 +100,11 @@ def smith_waterman(seq1, seq2, sim_score, gap_cost):
             
     # find highest score
     positives = [(score, pair) for (pair, score) in scores.items() if score[0] > 0]
+    
+    if not positives:
+        # nothing to align
+        return scores, []
+    
     positives.sort()
     i,j = positives[-1][1]
     
-- 
2.43.0


From 9693e044b5c48d584e19eb51d56d41484d147855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 03/65] fix: rouge_l and rouge_s: score 0 instead of
 ZeroDivisionError for empty texts

---
 lib/daeso/string/rouge.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 287b656..b8606d2 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -95,10 +95,11 @@ def rouge_l(candidate_tokens, reference_tokens, beta=1):
     beta determines the relative importance of recall in the F-measure
     """
     lcs = len(longest_common_subsequence(candidate_tokens, reference_tokens))
-    recall = lcs / float(len(reference_tokens))
-    precision = lcs / float(len(candidate_tokens))
 
     try:
+        recall = lcs / float(len(reference_tokens))
+        precision = lcs / float(len(candidate_tokens))
+        
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
@@ -135,10 +136,10 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     # In the current implementation, X and Y are effectively considered sets (i.e. no duplicates). 
     matches_count = float(len(matches))
     
-    recall = matches_count / len(skip_bigrams1)
-    precision = matches_count / len(skip_bigrams2)
-    
     try:
+        recall = matches_count / len(skip_bigrams1)
+        precision = matches_count / len(skip_bigrams2)
+        
         return ( ((1 + beta ** 2) * precision * recall )  /
                  (beta ** 2 * precision + recall) )
     except ZeroDivisionError:
-- 
2.43.0


From 670f4e21e6a38ba407c80449e326600435767645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 04/65] fix: rouge_n: match every reference n-gram at most
 once, so the score never exceeds 1

---
 lib/daeso/string/rouge.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index b8606d2..7eceb79 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -79,7 +79,16 @@ def count_match(candidate_ngrams, reference_ngrams):
     """
     # this implements Count_match(gram_n) from Lin04, section 2
     # implementation might be slow for long lists
-    return len([cng for cng in candidate_ngrams if cng in reference_ngrams])   
+    # every reference ngram can be matched only once
+    remaining = list(reference_ngrams)
+    count = 0
+    
+    for cng in candidate_ngrams:
+        if cng in remaining:
+            remaining.remove(cng)
+            count += 1
+            
+    return count
     
 
 # ==============================================================================
-- 
2.43.0


From 831255f59616fc7dd5ae7d29aaa9b12265c45965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 05/65] fix: idf, tf_idf: normalized weights of fewer than two
 documents are 0, no ZeroDivisionError

---
 lib/daeso/string/tf_idf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/tf_idf.py b/lib/daeso/string/tf_idf.py
index 40cd63d..8e435d3 100644
--- a/lib/daeso/string/tf_idf.py
+++ b/lib/daeso/string/tf_idf.py
@@ -84,7 +84,7 @@ TODO
     docs_count = float(len(terms_per_doc))
     weights_per_doc = []
     
-    if normalized:
+    if normalized and docs_count > 1:
         # note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count),
         # so we can normalize idf by simply dividing by logs(docs_count) 
@@ -151,7 +151,7 @@ def tf_idf(terms_per_doc, normalized=False, indicator=False):
     docs_count = float(len(terms_per_doc))
     weights_per_doc = []
     
-    if normalized:
+    if normalized and docs_count > 1:
         # Note that the minimal value of idf is zero (term occurs in all docs)
         # and its maximum value is log(docs_count/1) = log(docs_count).
         # so we can normalize idf by simply dividing by logs(docs_count) 
-- 
2.43.0


From 78d4ccdcb7a4385e481cdba69ddb1a55fcb3362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:05 +0000
Subject: [PATCH 06/65] fix: spell_out_number: leave zero triples unexpressed
 (1000 is not 'duizend nul')

---
 lib/daeso/string/number.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/string/number.py b/lib/daeso/string/number.py
index 269dabd..17d3381 100644
--- a/lib/daeso/string/number.py
+++ b/lib/daeso/string/number.py
@@ -50,8 +50,10 @@ def spell_out_number(n, prefer_hundreds=True):
     while s:
         triple = s[-3:].rjust(3, "0")
         
-        if i == 0 and triple == "000":
-            words = "nul"
+        if triple == "000":
+            # zero triples remain unexpressed, except in "nul"
+            if n == 0:
+                words = "nul"
         elif i == 1 and triple == "001":
             # 1000 ==> *eenduizend
             words = ( _triple_modifiers[i] + 
-- 
2.43.0


From 19f1afad7260aa4e00734971430a08f762c8ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 07/65] fix: Pair: define __ne__ consistently with __eq__
 (equal pairs compared as different)

---
 lib/daeso/pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/daeso/pair.py b/lib/daeso/pair.py
index 3003ce0..e0909c0 100644
--- a/lib/daeso/pair.py
+++ b/lib/daeso/pair.py
@@ -44,6 +44,10 @@ class Pair(object):
                      self.target == other.target )
         
         
+    def __ne__(self, other):
+        return not self == other
+        
+        
     def __repr__(self):
         return 'Pair(source={pair.source!r}, target={pair.target!r})'.format(
             pair=self) 
-- 
2.43.0


From af3743261bd49521166d7f94cef7b12c44bdf402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 08/65] fix: graph pairs: define __ne__ consistently with
 __eq__ (equal pairs compared as different)

---
 lib/daeso/pgc/graphpair.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index db5ccab..fa47d12 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -106,6 +106,13 @@ class GraphPairBase(object):
                          self._meta_data_equal(other) )
         
         
+    def __ne__(self, other):
+        """
+        self.__ne__(self, other) <==> self != other
+        """
+        return not self == other
+        
+        
     def __deepcopy__(self, memo_dict):
         """
         Implements the copy protocol for copy.deepcopy(graph_pair), which only
-- 
2.43.0


From b6e460d41edb35b64b47ededac9cd5a90826310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 09/65] fix: roots_aligned: look at the root of the target
 graph

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index fa47d12..165dfbf 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -328,7 +328,7 @@ class GraphMapping(GraphPairBase, DiGraph):
         """
         return self.has_edge(
             self._graphs.source.root ,
-            self._graphs.source.root)
+            self._graphs.target.root)
     
     
     def dump_alignments(self):
-- 
2.43.0


From e909e1cd586b864c1453323f16b4a9db00063801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 10/65] fix: graph pairs: keep meta-data that has text or
 attributes but no child elements

---
 lib/daeso/pgc/graphpair.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 165dfbf..84b18a6 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -75,7 +75,9 @@ class GraphPairBase(object):
         # references to them. Therefore graphs are automatically destroyed if
         # they are no longer part of any graph pair.
         self._graphs = graphs
-        self._meta_data = meta_data or et.Element("graph_meta_data")
+        if meta_data is None:
+            meta_data = et.Element("graph_meta_data")
+        self._meta_data = meta_data
         
         
     def __eq__(self, other):
-- 
2.43.0


From 233152ab1203edca1a81cc0d1c09abab9a11daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 11/65] fix: GraphBank: comparing banks whose files do not
 exist is no OSError

---
 lib/daeso/gb/graphbank.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index 90dbf96..b445093 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -88,8 +88,14 @@ class GraphBank(object):
         reasons of simplicity and efficiency no attempt is made to analyse
         their contents.)
         """
-        return ( self._file_path == other._file_path or
-                 os.path.samefile(self._file_path, other._file_path))
+        if self._file_path == other._file_path:
+            return True
+        
+        try:
+            return os.path.samefile(self._file_path, other._file_path)
+        except OSError:
+            # at least one of the files does not exist
+            return False
     
     
     def __ne__(self, other):
-- 
2.43.0


From b22fe5e9fd9a8e6df0be4044f6dc249fa222da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 12/65] fix: ParallelGraphCorpus: != always raised a TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index b7a9896..1136663 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -350,7 +350,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__ne__(other) <==> corpsu != other
         """
-        return not self.__eq__(self, other)
+        return not self.__eq__(other)
     
       
     def __repr__(self):
-- 
2.43.0


From 1e043445f4b994a203102bf4794227762aec486d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 13/65] fix: ParallelGraphCorpus: n * corpus always raised a
 TypeError

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 1136663..4707876 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -374,7 +374,7 @@ class ParallelGraphCorpus(list):
         """
         corpus.__rmul__(n) <==> n * corpus
         """
-        return self.__mul__()
+        return self.__mul__(n)
          
     
     def __setitem__(self, index, value):
-- 
2.43.0


From 403f9f4e03f4f788464d3b8b526fbac522852c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 14/65] fix: ParallelGraphCorpus.insert: accept the index it
 documents

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4707876..724c5ba 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -498,7 +498,7 @@ class ParallelGraphCorpus(list):
         return list.index(self, graph_pair)
     
           
-    def insert(self, graph_pair):
+    def insert(self, index, graph_pair):
         """
         corpus.insert(index, graph_pair) -- insert graph_pair before index
         
@@ -509,7 +509,7 @@ class ParallelGraphCorpus(list):
         if not isinstance(graph_pair, GraphPair):
             raise TypeError("only GraphPair instances are allowed")
         
-        list.insert(self, i, graph_pair)
+        list.insert(self, index, graph_pair)
     
     
     def read(self, inf, graph_loading=LOAD_SPARSE, relax_gb_paths=False):
-- 
2.43.0


From ad679653f48bcc7420ef38ff122734994e53084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 15/65] fix: ParallelGraphCorpus.pop: pop the last pair by
 default and return the pair popped

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 724c5ba..69e3f7a 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -542,7 +542,7 @@ class ParallelGraphCorpus(list):
                      relax_gb_paths=relax_gb_paths)
 
           
-    def pop(self, index=None):
+    def pop(self, index=-1):
         """
         corpus.pop([index]) -> GraphPair -- 
         remove and return graph pair at index (default last)
@@ -550,7 +550,7 @@ class ParallelGraphCorpus(list):
         Raises IndexError if corpus is empty or index is out of range.
         """
         # redundant graphbanks are automatically garbage collected
-        list.pop(self, index)
+        return list.pop(self, index)
     
     
     def purge(self, graph_pair=None):
-- 
2.43.0


From 310de71d5a43a9e732b9e856aedaca171d9781aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 16/65] fix: set_relations: do not sort the caller's list, nor
 share it

---
 lib/daeso/pgc/corpus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 69e3f7a..776c0e1 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -429,8 +429,8 @@ class ParallelGraphCorpus(list):
 
         
     def set_relations(self, relations=None):
-        self._relations = relations or []
-        self._relations.sort()
+        # a copy, because sorting must not affect the caller's list
+        self._relations = sorted(relations or [])
 
     
     def append(self, graph_pair):
-- 
2.43.0


From 6928c18bc5f2aa0b4b3d7c55a597d5e114ff9be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 17/65] fix: ParallelGraphCorpus: comparing with a corpus
 without meta-data is no AttributeError

---
 lib/daeso/pgc/corpus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 776c0e1..387e6ed 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -679,6 +679,8 @@ class ParallelGraphCorpus(list):
         if self._meta_data is other._meta_data:
             # both None or same object 
             return True
+        elif self._meta_data is None or other._meta_data is None:
+            return False
         else: 
             return equals(self._meta_data, other._meta_data)
 
-- 
2.43.0


From b777ce5d952f496c0913f245dc0ff4264d5b0463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 18/65] fix: writing a corpus: keep meta-data that has text or
 attributes but no child elements

---
 lib/daeso/pgc/corpus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 387e6ed..4067c19 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -1118,7 +1118,7 @@ class PGCGenerator(object):
     def _gen_pg_corpus(self, pg_corpus, out_dir, abs_path):
         root_elem = et.Element("parallel_graph_corpus")
         
-        if pg_corpus._meta_data:
+        if pg_corpus._meta_data is not None:
             root_elem.append(pg_corpus._meta_data)
         
         graphbanks_elem = et.SubElement(root_elem, "graphbanks")
@@ -1159,7 +1159,9 @@ class PGCGenerator(object):
                 from_graph_id=graph_pair._graphs.source.id,
                 to_graph_id=graph_pair._graphs.target.id)
             
-            if graph_pair._meta_data:
+            meta_data = graph_pair._meta_data
+            if ( meta_data is not None and
+                 (len(meta_data) or meta_data.text or meta_data.attrib) ):
                 graph_pair_elem.append(graph_pair._meta_data)
             
             self._gen_node_pairs(graph_pair_elem, graph_pair)
-- 
2.43.0


From 9bab60e682515384e7f27b04b974fe42c1f4a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 19/65] fix: non_terminals: always raised an AttributeError for
 graphs with nodes

---
 lib/daeso/graph/daesograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index b1d9ea5..1867316 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -99,7 +99,7 @@ class DaesoGraph(ODiGraph):
     
     def non_terminals_iter(self):
         return ( node for node in self
-                 if self.is_non_terminal(node) )
+                 if self.node_is_non_terminal(node) )
     
     
     def non_terminals(self):
-- 
2.43.0


From 7f37564c14ddc3b12265cb59160137e2316001a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 20/65] fix: terminal_yield: node 0 is not the same as no node

---
 lib/daeso/graph/daesograph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 1867316..9fcac39 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -147,7 +147,9 @@ class DaesoGraph(ODiGraph):
         terminal nodes dominated by non-terminal node n (in pre-order)
         """
         # should work for both trees and graphs
-        queue = [n or self.root] # LIFO queue
+        if n is None:
+            n = self.root
+        queue = [n] # LIFO queue
         seen = {} # nodes seen      
         terminals = []  # list of terminal nodes in a DFS preorder
         
-- 
2.43.0


From c62625285de8a640fce8673d7fcbf345a9cf8d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 21/65] fix: add_nodes_from: every node gets its own attributes

---
 lib/daeso/graph/ograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 8a60bd9..2a9603d 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -218,7 +218,7 @@ class ODiGraph(networkx.DiGraph):
             if n not in self.succ:
                 self.succ[n] = OrderedDict()
                 self.pred[n] = OrderedDict()
-                self.node[n] = attr
+                self.node[n] = attr.copy()
             else: # update attr even if node already exists            
                 self.node[n].update(attr)
 
-- 
2.43.0


From 4aac18d82380c8d6b4097449a93265f396dbc6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 22/65] fix: GraphML parser: set the root of a graph from its
 'root' attribute

---
 lib/daeso/gb/graphml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 792d3c5..0cb3730 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -161,7 +161,7 @@ class GraphmlParser(XmlGraphbankParser):
             
             # set the root node, defined as a graph attribute like 
             # <data key="root">n0</data>
-            self._graph.root = self._graph.graph.get("graph")
+            self._graph.root = self._graph.graph.get("root")
             
             self._graph = None
             self._comp_attrs = None
-- 
2.43.0


From b24138748ab249838b7f7d0fed54fa13314b81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 23/65] fix: GraphML parser: data of a graph that follows a
 node or edge belongs to the graph

---
 lib/daeso/gb/graphml.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index 0cb3730..cc1e586 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -144,8 +144,10 @@ class GraphmlParser(XmlGraphbankParser):
         if tag == "graph":
             self._end_graph()
         elif self._graph_wanted():
-            if tag in "node":
+            if tag == "node":
                 self._end_node()
+            elif tag == "edge":
+                self._end_edge()
             elif tag == "data":
                 self._end_data()
             elif tag == "default":
@@ -175,11 +177,12 @@ class GraphmlParser(XmlGraphbankParser):
             raise DaesoError("node must have a 'tokens' attribute")
         
         self._node = None
-        self._comp_attrs = None
+        # any data that follows belongs to the graph again
+        self._comp_attrs = self._graph.graph
         
         
-    def end_edge(self):
-        self._comp_attrs = None
+    def _end_edge(self):
+        self._comp_attrs = self._graph.graph
     
      
     def _end_data(self):
-- 
2.43.0


From 6ad070bbe2286da9ac9b4eaffeb228af04228ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 24/65] fix: GraphML parser: apply the defaults of keys (they
 were never read)

---
 lib/daeso/gb/graphml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/gb/graphml.py b/lib/daeso/gb/graphml.py
index cc1e586..a1ac9d1 100644
--- a/lib/daeso/gb/graphml.py
+++ b/lib/daeso/gb/graphml.py
@@ -119,8 +119,8 @@ class GraphmlParser(XmlGraphbankParser):
         # temporarily assign None to required arg label
         self._graph.add_node(n, label=None)
         self._comp_attrs = self._graph.node[n]
-        self._set_defaults()
         self._node = n 
+        self._set_defaults()
         
             
     def _start_edge(self, attrs):
@@ -150,8 +150,8 @@ class GraphmlParser(XmlGraphbankParser):
                 self._end_edge()
             elif tag == "data":
                 self._end_data()
-            elif tag == "default":
-                self._end_default()
+        elif tag == "default":
+            self._end_default()
                 
         self._context.pop()
         
@@ -209,7 +209,8 @@ class GraphmlParser(XmlGraphbankParser):
         
  
     def _char_data(self, data):
-        if self._graph_wanted():
+        # outside of graphs only the default of a key is of interest
+        if self._graph_wanted() or self._context[-1] == "default":
             self._char_data_buf += data   
             
             
-- 
2.43.0


From 297b6198c297661562d2cda56efbec856ee6b143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 25/65] fix: graphbank parsers: id2graph may be omitted for
 files, and an empty one is filled for strings

---
 lib/daeso/gb/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index 657f920..ec69c7e 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -55,7 +55,7 @@ class XmlGraphbankParser(object):
         
     def parse_string(self, data, id2graph=None, sparse=False):
         # supports incremental parsing
-        self._id2graph = id2graph or {}
+        self._id2graph = {} if id2graph is None else id2graph
         self._sparse = sparse
 
         self._parser.Parse(data, 0)
@@ -75,7 +75,7 @@ class XmlGraphbankParser(object):
         if not hasattr(inf, "read"):
             inf = open(inf)
             
-        self._id2graph = id2graph
+        self._id2graph = {} if id2graph is None else id2graph
         self._sparse = sparse
         
         self._parser.ParseFile(inf)
-- 
2.43.0


From 9bffc12e0c8f7915525f545b4767a29a2f143da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 26/65] fix: graphs: NetworkXError was not imported

---
 lib/daeso/graph/daesograph.py | 2 ++
 lib/daeso/graph/ograph.py     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/lib/daeso/graph/daesograph.py b/lib/daeso/graph/daesograph.py
index 9fcac39..c9324e0 100644
--- a/lib/daeso/graph/daesograph.py
+++ b/lib/daeso/graph/daesograph.py
@@ -26,6 +26,8 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 import string
 
+from networkx import NetworkXError
+
 from daeso.graph.ograph import ODiGraph
 
 # TODO:
diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index 2a9603d..ae2ff50 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -52,6 +52,7 @@ __authors__ = "Erwin Marsi <e.marsi@gmail.com>"
 
 from distutils.version import LooseVersion
 import networkx
+from networkx import NetworkXError
 
 if LooseVersion(networkx.__version__) < LooseVersion('1.0'):
     raise ImportError("networkx version 1.0 or later required" +
-- 
2.43.0


From ed0cea0449bb30ff0b7ea17ff2db30be87675d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 27/65] fix: ODiGraph: creating a graph from data always raised
 a NameError

---
 lib/daeso/graph/ograph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/graph/ograph.py b/lib/daeso/graph/ograph.py
index ae2ff50..e174432 100644
--- a/lib/daeso/graph/ograph.py
+++ b/lib/daeso/graph/ograph.py
@@ -119,7 +119,7 @@ class ODiGraph(networkx.DiGraph):
 
         # attempt to load graph with data
         if data is not None:
-            convert.from_whatever(data,create_using=self)
+            networkx.convert.to_networkx_graph(data, create_using=self)
         # load graph attributes (must be after convert)
         self.graph.update(attr)
 
-- 
2.43.0


From 279ca8afcc459527566ba1d6266da8515feb28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:11 +0000
Subject: [PATCH 28/65] fix: reading a corpus: elements inside meta-data are
 not part of the corpus itself

---
 lib/daeso/pgc/corpus.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 4067c19..6247604 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -752,6 +752,7 @@ class PGCParser(object):
     
     def __init__(self):
         self.in_meta_data=False
+        self.meta_data_elem = None
         self.graph_pair = None
         self.default_format = None
         self.relations = []
@@ -805,15 +806,19 @@ class PGCParser(object):
         # use ElementTree's iterparse rather than expat, because we want to
         # store the meta-data as an Element
         for event, elem in et.iterparse(inf, ("start", "end")):
+            # the content of meta-data is arbitrary, so it is not handled
+            if ( self.in_meta_data and 
+                 (event == "start" or elem is not self.meta_data_elem) ):
+                continue
+            
             if event == "start":
                 try:
                     # search handler only
                     handler = self.start_handlers[elem.tag]
                 except KeyError:
-                    if not self.in_meta_data:
-                        warnings.warn(
-                            "Encountered illegal element <{0}>".format(elem.tag),
-                            DaesoWarning)
+                    warnings.warn(
+                        "Encountered illegal element <{0}>".format(elem.tag),
+                        DaesoWarning)
                     continue
             else:
                 try:
@@ -851,6 +856,7 @@ class PGCParser(object):
 
     def handle_meta_data_elem_start(self, elem):
         self.in_meta_data = True
+        self.meta_data_elem = elem
 
         
     def handle_graphbanks_elem_start(self, elem):
-- 
2.43.0


From fcd917acc0c0569f8fe664bbac9dfdcac006aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:58 +0000
Subject: [PATCH 29/65] fix: ParallelGraphCorpus.purge: a graph pair without
 alignments is a graph pair too

---
 lib/daeso/pgc/corpus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 6247604..ca5e5af 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -568,7 +568,7 @@ class ParallelGraphCorpus(list):
         # (difference between source and target banks is irelevant)
         old2new = {}
         
-        if graph_pair:
+        if graph_pair is not None:
             to_purge = [graph_pair]
         else:
             to_purge = self
-- 
2.43.0


From 7f9aca8fcf49735b85f5bad75457307d51b1b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 30/65] fix: writing an element tree to a named file: close the
 file

---
 lib/daeso/utils/etree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index 4248e84..d25e503 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -32,7 +32,9 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     write element tree with xml header
     even when encoding is the default utf-8
     """
-    if not hasattr(file, "write"):
+    opened = not hasattr(file, "write")
+    
+    if opened:
         file = open(file, "wb")
         
     if pprint:
@@ -41,6 +43,9 @@ def write(etree, file=sys.stdout, encoding="utf-8", pprint=False):
     file.write('<?xml version="1.0" encoding="utf-8"?>\n')
     etree.write(file, "utf-8")
     
+    if opened:
+        file.close()
+    
  
 def equals(elem1, elem2):
     """
-- 
2.43.0


From 642a50ea20d3fb370021cc0b404791318e0f2ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:38 +0000
Subject: [PATCH 31/65] fix: reading a corpus from a file-like object:
 graphbank paths are relative to the same directory as when writing

---
 lib/daeso/pgc/corpus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index ca5e5af..7e0abc3 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -793,6 +793,9 @@ class PGCParser(object):
         elif isinstance(inf, file):
             # if input is a tty, dir becomes ""
             self.dir = os.path.dirname(inf.name)
+        else:
+            # same as when writing
+            self.dir = os.getcwd()
             
         if pg_corpus is not None:
             assert isinstance(pg_corpus, ParallelGraphCorpus)
-- 
2.43.0


From 89e2dea7c5d4d1c4851993ae2f7c4a3e28f9a261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 32/65] fix: comparing elements: non-ASCII text is no error, no
 text is not the text 'None'

---
 lib/daeso/utils/etree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/utils/etree.py b/lib/daeso/utils/etree.py
index d25e503..76eab82 100644
--- a/lib/daeso/utils/etree.py
+++ b/lib/daeso/utils/etree.py
@@ -55,8 +55,8 @@ def equals(elem1, elem2):
     """
     # as far as I can see, _ElementInterface lacks a __eq__ method
     return ( elem1.tag == elem2.tag and
-             str(elem1.text).strip() == str(elem2.text).strip() and
-             str(elem1.tail).strip() == str(elem2.tail).strip() and
+             (elem1.text or "").strip() == (elem2.text or "").strip() and
+             (elem1.tail or "").strip() == (elem2.tail or "").strip() and
              elem1.attrib == elem2.attrib and
              len(elem1) == len(elem2) and
              all([ equals(child1, child2)
-- 
2.43.0


From ef781ada0a82c63f5bbc3aa64b225915f5979244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:48 +0000
Subject: [PATCH 33/65] fix: graphbank parsers: sparse parsing of strings
 always raised a TypeError; missing graphs are reported for file-like objects
 without name too

---
 lib/daeso/gb/parser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/daeso/gb/parser.py b/lib/daeso/gb/parser.py
index ec69c7e..bc66f70 100644
--- a/lib/daeso/gb/parser.py
+++ b/lib/daeso/gb/parser.py
@@ -58,10 +58,9 @@ class XmlGraphbankParser(object):
         self._id2graph = {} if id2graph is None else id2graph
         self._sparse = sparse
 
+        # whether all wanted graphs were found is known after the last part
+        # only, see close()
         self._parser.Parse(data, 0)
-        
-        if self._sparse:
-            self._check_for_unresolved_graphs()
             
         return self._id2graph
 
@@ -70,6 +69,9 @@ class XmlGraphbankParser(object):
         self._parser.Parse("", 1) # end of data
         del self._parser # get rid of circular references
         
+        if self._sparse:
+            self._check_for_unresolved_graphs()
+        
         
     def parse_file(self, inf, id2graph=None, sparse=False):
         if not hasattr(inf, "read"):
@@ -87,7 +89,7 @@ class XmlGraphbankParser(object):
         return self._id2graph
     
             
-    def _check_for_unresolved_graphs(self, inf):
+    def _check_for_unresolved_graphs(self, inf=None):
         unresolved = [ '"{0}"'.format(id) 
                        for (id, graph) in self._id2graph.items() 
                        if graph is None ]
@@ -95,7 +97,7 @@ class XmlGraphbankParser(object):
         if unresolved:
             msg = ( "graphs with the following id's were not found"
                     ' in graphbank file "{0}": {1}'.format(
-                        inf.name, 
+                        getattr(inf, "name", inf), 
                         ", ".join(unresolved) ))
             raise DaesoError(msg)
         
-- 
2.43.0


From ef04fca9580950527857604d48edce65fa6958e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 34/65] fix: pgc_diff: headings of the report and of every
 graph pair were never printed

---
 lib/daeso/pgc/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index cf2d5b5..6fa8061 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -59,7 +59,7 @@ def pgc_diff(corpus1, corpus2,
     pair_count = 0
     
     header("%s corpus: %s\n%s corpus: %s" % (annot1, corpus_name1, annot2,
-                                             corpus_name2), width=120, char="#")
+                                             corpus_name2), out, width=120, char="#")
     
     for graph_pair1, graph_pair2 in zip(corpus1, corpus2):
         # assume that the corpora have the same graph pairs in the same order,
@@ -103,7 +103,7 @@ def pgc_diff(corpus1, corpus2,
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
         #    continue
             
-        header("Graph pair %d" % pair_count, width=120, char="=")
+        header("Graph pair %d" % pair_count, out, width=120, char="=")
         
         print >>out, graphs.source.get_graph_token_string().encode("utf-8"), "\n"
         print >>out, graphs.target.get_graph_token_string().encode("utf-8"), "\n"
-- 
2.43.0


From 5c22157b21b107b108eea3d0f2cef7f855d7c7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 35/65] fix: pgc_diff: words_only raised an AttributeError, and
 its test on the second corpus was inverted

---
 lib/daeso/pgc/diff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 6fa8061..a8e32e8 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -77,7 +77,7 @@ def pgc_diff(corpus1, corpus2,
         
         for nodes, rel1 in graph_pair1.alignments_iter(relations=relations):
             if ( words_only and
-                 graphs.source.node_node_is_non_terminal(nodes.source) and
+                 graphs.source.node_is_non_terminal(nodes.source) and
                  graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
@@ -92,8 +92,8 @@ def pgc_diff(corpus1, corpus2,
             
         for nodes, rel2 in graph_pair2.alignments_iter(relations=relations):
             if ( words_only and
-                 ( graphs.source.node_is_terminal(nodes.source) or
-                   graphs.target.node_is_terminal(nodes.target) )):
+                 graphs.source.node_is_non_terminal(nodes.source) and
+                 graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
             if not graph_pair1.get_align(nodes):
-- 
2.43.0


From ad841138d550edbc8410f1c3473f428778d1f552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 36/65] fix: pgc_diff: an empty comment raised an
 AttributeError

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index a8e32e8..6454be0 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -173,6 +173,6 @@ def print_comments(graph_pair, annot, out, encoding="utf-8"):
     except AttributeError:
         return
     
-    if comment.strip():
+    if comment and comment.strip():
         header("Comments by " + annot, out, char="-")
         print >>out, comment.encode(encoding), "\n"
-- 
2.43.0


From b7ff3f761b80bda012b8e8f5c59e3cb6ae520178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 37/65] fix: pgc_diff: a non-ASCII label of a source node
 raised a UnicodeError

---
 lib/daeso/pgc/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index 6454be0..b09df74 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -149,7 +149,7 @@ def print_alignments(align_count, title, graph_pair1, graph_pair2, graphs,
             print >>out, "#%d:" % align_count 
             s = '(%s) %s [%s:%s]: "%s"' % (                
                 nodes.source,
-                graphs.source.node[nodes.source]["label"].encode("utf-8"),
+                graphs.source.node[nodes.source]["label"],
                 graphs.source.node[nodes.source]["begin"],
                 graphs.source.node[nodes.source]["end"],
                 graphs.source.get_node_token_string(nodes.source))
-- 
2.43.0


From 386034be5a84f9a667b002a1261ec44094a9fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 38/65] fix: graph bank statistics: graphs that are left out
 are no failed parses either (PGFP exceeded 100%)

---
 lib/daeso/gb/gbstats.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lib/daeso/gb/gbstats.py b/lib/daeso/gb/gbstats.py
index 10b0109..24fb4cc 100644
--- a/lib/daeso/gb/gbstats.py
+++ b/lib/daeso/gb/gbstats.py
@@ -134,17 +134,17 @@ def graph_stats(gb,
     gb_table["BANK"][i] = name
 
     for graph in gb:                                   
-        if graph.is_failed_parse():
-            if with_failed_parses:
-                gb_table["CGFP"][i] += 1
-            else:
-                continue
+        # postpone counting failed parses and unaligned roots, because the
+        # graph might be discarded for other reasons
+        failed_parse = graph.is_failed_parse()
         
-        if not root_aligned(graph):
-            if with_unaligned_roots:
-                gb_table["CGUR"][i] +=1
-            else:
-                continue
+        if failed_parse and not with_failed_parses:
+            continue
+        
+        unaligned_root = not root_aligned(graph)
+        
+        if unaligned_root and not with_unaligned_roots:
+            continue
             
         if threshold:
             # FIXME
@@ -163,6 +163,12 @@ def graph_stats(gb,
             else:
                 gb_table["CGMA"][i] += 1
         
+        if failed_parse:
+            gb_table["CGFP"][i] += 1
+            
+        if unaligned_root:
+            gb_table["CGUR"][i] += 1
+        
         gb_table["CG"][i] += 1
         gb_table["CT"][i] += count_tokens(graph, with_punc)
         
-- 
2.43.0


From 6c04bdd084c3fc6e95eb070fde1ab9e5f7a7d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:31 +0000
Subject: [PATCH 39/65] fix: pgc_stats.py: every call ended in a ValueError
 (type="int" is no type of argparse)

---
 bin/pgc_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/pgc_stats.py b/bin/pgc_stats.py
index 9f58b45..02c200c 100755
--- a/bin/pgc_stats.py
+++ b/bin/pgc_stats.py
@@ -91,7 +91,7 @@ parser.add_argument(
 
 parser.add_argument(
     "-t", "--token_diff_threshold", 
-    type="int", 
+    type=int, 
     metavar="THRESHOLD",
     default=0, dest="threshold", 
     help="exclude graph pairs with a token difference below the threshold")
-- 
2.43.0


From 7a4643cf82a0f1b0c30d290d733f5d5ab137f744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:54 +0000
Subject: [PATCH 40/65] fix: corpus segment statistics: close a table that is
 written before it is read back

---
 lib/daeso/stats/corpus.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/stats/corpus.py b/lib/daeso/stats/corpus.py
index 141cde1..fc40a37 100644
--- a/lib/daeso/stats/corpus.py
+++ b/lib/daeso/stats/corpus.py
@@ -170,4 +170,6 @@ def write_table(table, fn, verbose=True):
     """
     if not table.is_empty():
         if verbose: print "Writing table", fn
-        table.write(out=file(fn, "w"))
\ No newline at end of file
+        out = file(fn, "w")
+        table.write(out=out)
+        out.close()
\ No newline at end of file
-- 
2.43.0


From 3de3d560859146e39466dcf45f1528d92bbf57dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 41/65] fix: indexing documents: ignored elements without
 children were not marked as ignored, and marks of a previous indexing stayed

---
 lib/daeso/ptc/ielemtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/ielemtree.py b/lib/daeso/ptc/ielemtree.py
index 47fee79..5e6ff20 100644
--- a/lib/daeso/ptc/ielemtree.py
+++ b/lib/daeso/ptc/ielemtree.py
@@ -97,9 +97,14 @@ class IndexElemTree(ElementTree):
         # it may be better to create this attribute on the fly
         elem.set("_alignments", [])
         
+        # attributes may be left over from indexing with other ignore tags
+        for attr in "_ignore", "_start", "_end":
+            elem.attrib.pop(attr, None)
+        
         if ignore or elem.tag in self.ignoreTags: 
+            elem.set("_ignore", "true")
+            
             for child in elem.getchildren():
-                elem.set("_ignore", "true")
                 self.index_elem(child, ignore=True)
                 
             text = ""
-- 
2.43.0


From 0f37732a9fd1a99aebf26cfceb3996bdf2f05552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:46 +0000
Subject: [PATCH 42/65] fix: HitaextDoc.get_filename: search for the file in
 the directory of the document, instead of returning the document itself

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 3296cdb..c7f9e88 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -95,7 +95,7 @@ class HitaextDoc(ElementTree):
                 # relative path
                 join(dirname(self.filename), fn),
                 # ignore path, just search in same dir as hitaext document
-                join(dirname(self.filename), basename(self.filename)) 
+                join(dirname(self.filename), basename(fn)) 
             ):
                 if exists(p):
                     return p
-- 
2.43.0


From aee4b59f95005ce5d95f96b1662f591db32a918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 43/65] fix: writing a parallel text corpus to a named file:
 close the file

---
 lib/daeso/ptc/document.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index c7f9e88..774bef9 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -175,9 +175,13 @@ class HitaextDoc(ElementTree):
         # ElementTree.write does not write the XML header
         # if the encoding is utf-8
         if not hasattr(file, "write"):
-            file = open(file, "w")
-        print >>file, '<?xml version="1.0" encoding="utf-8"?>'
-        ElementTree.write(self, file, "utf-8")
+            outf = open(file, "w")
+        else:
+            outf = file
+        print >>outf, '<?xml version="1.0" encoding="utf-8"?>'
+        ElementTree.write(self, outf, "utf-8")
+        if outf is not file:
+            outf.close()
     
     #===============================================================================
     # document tree methods
-- 
2.43.0


From 987c47da3bc17f4d73c67feae5461bdb84860268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 44/65] fix: evaluation of text alignment: links by element
 number all counted as one and the same alignment

---
 lib/daeso/ptc/evaluate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/evaluate.py b/lib/daeso/ptc/evaluate.py
index 0e5c4f2..b4c378d 100644
--- a/lib/daeso/ptc/evaluate.py
+++ b/lib/daeso/ptc/evaluate.py
@@ -91,9 +91,10 @@ def get_alignment(corpus, tag):
     for link_elem in corpus.get_alignments():
         if ( link_elem.get('from_tag') == tag and 
              link_elem.get('to_tag') == tag ):
+            # depending on the alignment method, links are by id or by number
             alignments.add((
-                link_elem.get('from_id'),
-                link_elem.get('to_id')))
+                link_elem.get('from_id', link_elem.get('from_n')),
+                link_elem.get('to_id', link_elem.get('to_n'))))
             
     return alignments
 
-- 
2.43.0


From 99edbe296e69d6072402cff362d3a662a7b8bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 45/65] fix: ptc_diff: differences between alignments of
 elements without id, or with the same id but another tag, were not reported

---
 lib/daeso/ptc/diff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/ptc/diff.py b/lib/daeso/ptc/diff.py
index d668866..f264fa0 100644
--- a/lib/daeso/ptc/diff.py
+++ b/lib/daeso/ptc/diff.py
@@ -56,7 +56,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for true_to_elem in true_from_elem.get("_alignments"):
 
             for pred_to_elem in pred_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if is_same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -72,7 +72,7 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
         for pred_to_elem in pred_from_elem.get("_alignments"):
 
             for true_to_elem in true_from_elem.get("_alignments"):
-                if true_to_elem.get("id") == pred_to_elem.get("id"):
+                if is_same_elem(true_to_elem, pred_to_elem):
                     # same alignment
                     break
             else:
@@ -87,6 +87,12 @@ def print_diff(true_corpus, pred_corpus, tag, encoding="utf-8"):
                 
     
     
+def is_same_elem(elem1, elem2):
+    # both are from the same document, but need not have an id
+    return ( elem1.tag == elem2.tag and 
+             elem1.get("_n") == elem2.get("_n") )
+
+
 def read_corpus(corpus): 
     if not isinstance(corpus, HitaextDoc):
         corpus = HitaextDoc(file=corpus)
-- 
2.43.0


From c446885bb24da9e39c4545a60e4d84a55da16af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 46/65] fix: text alignment: clear existing alignments when
 document trees are reused too

---
 lib/daeso/ptc/textalign.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index a53e686..3e0f2a9 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -98,6 +98,9 @@ class TextAlignerBase(object):
         if clear:
             clear_alignments(corpus, self.focus_tags)
             
+            if doc_trees:
+                clear_tree_alignments(doc_trees, self.focus_tags)
+            
         if not doc_trees:
             doc_trees = Pair(
                 get_doc_tree(corpus, "from", self.ignore_tags.source),
@@ -294,6 +297,17 @@ def clear_alignments(corpus, focus_tags):
                             if ( link.get("from_tag") != focus_tags.source and 
                                  link.get("to_tag") != focus_tags.target) ]
     
+    
+def clear_tree_alignments(doc_trees, focus_tags):
+    for tree, tag, other_tag in (
+        (doc_trees.source, focus_tags.source, focus_tags.target),
+        (doc_trees.target, focus_tags.target, focus_tags.source)):
+        for elem in tree.getiterator():
+            elem.set("_alignments", 
+                     [ other_elem
+                       for other_elem in elem.get("_alignments", [])
+                       if elem.tag != tag and other_elem.tag != other_tag ])
+    
 #-------------------------------------------------------------------------------
 # term extraction functions
 #-------------------------------------------------------------------------------
-- 
2.43.0


From b7bc25724b6c019d5ddf5134951461d6d89d64a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 47/65] fix: text alignment: preprocessed word n-grams
 contained punctuation

---
 lib/daeso/ptc/textalign.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 3e0f2a9..8b10509 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -336,7 +336,7 @@ def preproc_word_n_gram_factory(n):
         # but does not return the tokens lower cased!!!
         text = [ token.lower()
                  for token in text.split()
-                 if text not in string.punctuation ]
+                 if token not in string.punctuation ]
         return n_gram_strings(text, n)
     
     func.__name__ = "preproc_word_%d_gram" % n
-- 
2.43.0


From 9af0f0efb24b980071f9cbb1f98110c2c0821da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 48/65] fix: ptc_n_to_id.py: the list of files was taken for a
 file, so every call failed

---
 bin/ptc_n_to_id.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/bin/ptc_n_to_id.py b/bin/ptc_n_to_id.py
index ef44119..e33683b 100644
--- a/bin/ptc_n_to_id.py
+++ b/bin/ptc_n_to_id.py
@@ -53,25 +53,26 @@ parser.add_argument(
 
 args = parser.parse_args()
 
-if args.verbose:
-    print >>stderr, "Reading corpus from", args.corpus
+for fn in args.corpus:
+    if args.verbose:
+        print >>stderr, "Reading corpus from", fn
+        
+    corpus = HitaextDoc(file=fn)
     
-corpus = HitaextDoc(file=args.corpus)
-
-from_tree = corpus.get_doc_tree("from")
-to_tree = corpus.get_doc_tree("to")
-
-from_tree.update()
-to_tree.update()
-
-corpus.inject_alignments(from_tree, to_tree)
-
-corpus.alignment.set("method", "id")
-
-corpus.extract_alignments(from_tree, to_tree)
-
-if args.verbose:
-    print >>stderr, "Writing corpus to", args.corpus
+    from_tree = corpus.get_doc_tree("from")
+    to_tree = corpus.get_doc_tree("to")
+    
+    from_tree.update()
+    to_tree.update()
+    
+    corpus.inject_alignments(from_tree, to_tree)
+    
+    corpus.alignment.set("method", "id")
+    
+    corpus.extract_alignments(from_tree, to_tree)
     
-corpus.write(args.corpus)
+    if args.verbose:
+        print >>stderr, "Writing corpus to", fn
+        
+    corpus.write(fn)
 
-- 
2.43.0


From 2c27f1067b78ea92585eb2b145634eedfcc2bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 49/65] fix: Munkres.pad_matrix: the value to pad with was
 ignored

---
 lib/daeso/thirdparty/munkres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/thirdparty/munkres.py b/lib/daeso/thirdparty/munkres.py
index a130aff..610564d 100644
--- a/lib/daeso/thirdparty/munkres.py
+++ b/lib/daeso/thirdparty/munkres.py
@@ -372,11 +372,11 @@ class Munkres:
             new_row = row[:]
             if total_rows > row_len:
                 # Row too short. Pad it.
-                new_row += [0] * (total_rows - row_len)
+                new_row += [pad_value] * (total_rows - row_len)
             new_matrix += [new_row]
 
         while len(new_matrix) < total_rows:
-            new_matrix += [[0] * total_rows]
+            new_matrix += [[pad_value] * total_rows]
 
         return new_matrix
 
-- 
2.43.0


From 2bbe4c32ba9fb3bf42c0a0fc81e0dea88492ece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 50/65] fix: pgc_split.py: made more parts than asked for when
 the number of graph pairs is a multiple of the number of parts

---
 bin/pgc_split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/pgc_split.py b/bin/pgc_split.py
index fc5eaa9..2680339 100755
--- a/bin/pgc_split.py
+++ b/bin/pgc_split.py
@@ -78,7 +78,8 @@ corpus = ParallelGraphCorpus(inf=args.filename)
 root, ext = os.path.splitext(args.filename)
 
 if not args.size:
-    args.size = int(round(len(corpus) / args.parts + 0.5))
+    # round up, so there are never more parts than asked for
+    args.size = max(1, (len(corpus) + args.parts - 1) // args.parts)
 
 for i in range(0, len(corpus), args.size): 
     j = min(i + args.size, len(corpus))
-- 
2.43.0


From f5fdf366035cbdfb4ab98e43217ce8d9b467cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 51/65] fix: GenericCache: inserting a key again left a second
 entry in the list of recently used ones, and shrinking never ended

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index d991323..89bb9a1 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -154,7 +154,7 @@ class GenericCache(dict):
         
         node.__cache_timestamp = time.time()
         self.values[node] = node
-        self.lru.add(node)
+        self.lru.update(node)
 
     @synchronized
     def clear(self):
-- 
2.43.0


From 807a699af29b873bbc870278e7167be549cae2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 52/65] fix: GenericCache: keys that are no strings were never
 found to be present

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 89bb9a1..6c17dee 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -199,6 +199,6 @@ class GenericCache(dict):
         """
         Do we have such key ?
         """
-        return self.values.has_key(key)
+        return self.values.has_key(str(key))
     __contains__ = has_key
 
-- 
2.43.0


From 08d7a56980b114874802f267ae3419a421b098b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:59 +0000
Subject: [PATCH 53/65] fix: GenericCache: a cache that fails by default could
 not generate missing values

---
 lib/daeso/thirdparty/GenericCache/GenericCache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/thirdparty/GenericCache/GenericCache.py b/lib/daeso/thirdparty/GenericCache/GenericCache.py
index 6c17dee..8878222 100644
--- a/lib/daeso/thirdparty/GenericCache/GenericCache.py
+++ b/lib/daeso/thirdparty/GenericCache/GenericCache.py
@@ -107,7 +107,7 @@ class GenericCache(dict):
         """
         Fetch key, calling generator to build if it doesn't exist
         """
-        res = self.fetch(key, onmissing = _marker)
+        res = self.fetch(key, fail = False, onmissing = _marker)
         if res is _marker:
             res = generator(*args, **kwargs)
             self[key] = res
-- 
2.43.0


From ebd5fa253c432b96ba12811c44e313ff4fe08536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:31 +0000
Subject: [PATCH 54/65] fix: makedirs: every error was ignored, not just that
 the directory exists already

---
 lib/daeso/utils/opsys.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/daeso/utils/opsys.py b/lib/daeso/utils/opsys.py
index 0e70905..e2b58bc 100644
--- a/lib/daeso/utils/opsys.py
+++ b/lib/daeso/utils/opsys.py
@@ -35,10 +35,10 @@ def makedirs(path, mode=0777):
     """
     try:
         os.makedirs(path, mode)
-    except OSError, inst:
-        if inst.errno == 17:
-            # dir already exists
-            pass
+    except OSError:
+        if not os.path.isdir(path):
+            # not because the dir already exists
+            raise
         
         
 def glob(pattern):
-- 
2.43.0


From ce3a32a925857f7e38ca8e6d1062d1dadc397d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 55/65] fix: lcs of two unicode strings was a list, not a
 string

---
 lib/daeso/string/lcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/daeso/string/lcs.py b/lib/daeso/string/lcs.py
index 475f7c0..3399d5d 100644
--- a/lib/daeso/string/lcs.py
+++ b/lib/daeso/string/lcs.py
@@ -77,6 +77,8 @@ def longest_common_subsequence(seq1, seq2):
     # output same type as input seq
     if type(seq1) == type(seq2) == type(""):
         return "".join(LCS)
+    elif type(seq1) == type(seq2) == type(u""):
+        return u"".join(LCS)
     elif type(seq1) == type(seq2) == type(()):
         return tuple(LCS)
     else:
-- 
2.43.0


From 9cb89735da0ff9ff1b29874b70c07c85cf658128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 56/65] fix: unicode strings could not be padded for n-grams

---
 lib/daeso/string/ngram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/string/ngram.py b/lib/daeso/string/ngram.py
index 9bc5970..654d715 100644
--- a/lib/daeso/string/ngram.py
+++ b/lib/daeso/string/ngram.py
@@ -82,7 +82,7 @@ def pad(tokens, pad_size, pad_string="_"):
     """
     if type(tokens) == type(tuple()):
         return pad_size * (pad_string,) + tokens + pad_size * (pad_string,)
-    elif type(tokens) == type(""):
+    elif isinstance(tokens, basestring):
         return pad_size * pad_string + tokens + pad_size * pad_string
     else:
         return pad_size * [pad_string] + tokens + pad_size * [pad_string]
-- 
2.43.0


From 058572cbc11bac517670037ced51fcbbbe559721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 57/65] fix: a file to which an evaluation was written was
 never closed, so might remain empty

---
 lib/daeso/pgc/evaluate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/evaluate.py b/lib/daeso/pgc/evaluate.py
index 7b3c519..9cda4bd 100644
--- a/lib/daeso/pgc/evaluate.py
+++ b/lib/daeso/pgc/evaluate.py
@@ -304,13 +304,18 @@ class AlignEval(dict):
         """
         write full evaluation 
 	"""
-        if isinstance(out, basestring):
+        opened = isinstance(out, basestring)
+        
+        if opened:
             out = open(out, "w")
             
         self.write_alignment_only(out)
         self.write_alignment_per_relation(out)
         self.write_alignment_overall(out)
         
+        if opened:
+            out.close()
+        
         
     def write_alignment_only(self, out=stdout):
         """
-- 
2.43.0


From 93f41cecdb44b017e0ddb5dc0d6aaedc18e9e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 58/65] fix: validation of a text corpus without filename
 failed on the missing text

---
 lib/daeso/ptc/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/document.py b/lib/daeso/ptc/document.py
index 774bef9..a858aff 100644
--- a/lib/daeso/ptc/document.py
+++ b/lib/daeso/ptc/document.py
@@ -86,7 +86,7 @@ class HitaextDoc(ElementTree):
         
         
     def get_filename(self, side, search=False):
-        fn = self.find('/%s/filename' % side).text.strip()
+        fn = (self.find('/%s/filename' % side).text or "").strip()
         
         # this still won't work with a windows path
         if search:
-- 
2.43.0


From 339742c3d175f7fb59b7f6773326810e1b8a6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 59/65] fix: an unknown graph bank format was not reported as
 such

---
 lib/daeso/gb/graphbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/daeso/gb/graphbank.py b/lib/daeso/gb/graphbank.py
index b445093..c0e88d3 100644
--- a/lib/daeso/gb/graphbank.py
+++ b/lib/daeso/gb/graphbank.py
@@ -168,9 +168,9 @@ class GraphBank(object):
         try:
             parser_module_name, parser_class_name = getattr(daeso.gb.register, 
                                                             format.lower())
-        except KeyError:
+        except AttributeError:
             # TODO: use own error class
-            AssertionError("no parser available for graphbank in '%s' format" % format)
+            raise AssertionError("no parser available for graphbank in '%s' format" % format)
             
         try:
             parser_module = __import__(parser_module_name, 
-- 
2.43.0


From 09f53e78708887a0cf9a483609775e5d6fe4b29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 60/65] fix: malformed format string in error message of
 replace_stub

---
 lib/daeso/gb/graphstub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/gb/graphstub.py b/lib/daeso/gb/graphstub.py
index f3a1da5..6acb177 100644
--- a/lib/daeso/gb/graphstub.py
+++ b/lib/daeso/gb/graphstub.py
@@ -92,7 +92,7 @@ class GraphStub(object):
             elif graph_pair._graphs.target is self:
                 graph_pair._graphs.target = graph
             else:
-                raise ValueError( "{0} is no client of {}".format(
+                raise ValueError( "{0} is no client of {1}".format(
                     graph_pair, self))
         
         # If any of the graph pairs is deleted while for some reason the graph
-- 
2.43.0


From b4d455a688650b1f8410088af8d8ab2efafae630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 61/65] fix: a graph mapping could not be printed, as it is no
 list

---
 lib/daeso/pgc/graphpair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/graphpair.py b/lib/daeso/pgc/graphpair.py
index 84b18a6..e161620 100644
--- a/lib/daeso/pgc/graphpair.py
+++ b/lib/daeso/pgc/graphpair.py
@@ -278,7 +278,7 @@ class GraphMapping(GraphPairBase, DiGraph):
             self.__class__.__name__,
             self._banks,
             self._graphs,
-            list.__str__(self),
+            self.edges(data=True),
             self._meta_data)
 
     
-- 
2.43.0


From 5aa89b1b410a1179bf24cfd7816377c767ad809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:25 +0000
Subject: [PATCH 62/65] fix: the annotator of a corpus without meta-data could
 not be set

---
 lib/daeso/pgc/corpus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/daeso/pgc/corpus.py b/lib/daeso/pgc/corpus.py
index 7e0abc3..1769e0d 100644
--- a/lib/daeso/pgc/corpus.py
+++ b/lib/daeso/pgc/corpus.py
@@ -657,6 +657,9 @@ class ParallelGraphCorpus(list):
             pass
         
     def set_annotator(self, annot, append=True):
+        if self._meta_data is None:
+            self._meta_data = et.Element("corpus_meta_data")
+            
         annot_el = self._meta_data.find("annotator")
         
         if annot_el is None:
-- 
2.43.0


From ed8451d2a3dc07477c34ea0e370b42d01cf0cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:35 +0000
Subject: [PATCH 63/65] fix: pgc_diff: a relation different from one outside
 the relations reported on was missed

---
 lib/daeso/pgc/diff.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/pgc/diff.py b/lib/daeso/pgc/diff.py
index b09df74..bf30e43 100644
--- a/lib/daeso/pgc/diff.py
+++ b/lib/daeso/pgc/diff.py
@@ -96,8 +96,13 @@ def pgc_diff(corpus1, corpus2,
                  graphs.target.node_is_non_terminal(nodes.target) ):
                 continue
             
-            if not graph_pair1.get_align(nodes):
+            rel1 = graph_pair1.get_align(nodes)
+            
+            if not rel1:
                 uniq2.append(nodes)
+            elif relations and rel1 not in relations:
+                # skipped in the first loop, but rel2 is one of the relations
+                rel_diff.append(nodes)
                     
         
         #if not ( ident and rel_diff and uniq1 and uniq2 and show_comments ):
-- 
2.43.0


From c499bf4aa8e010c3d86a561f3f884b6a6b72316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:52 +0000
Subject: [PATCH 64/65] fix: ROUGE-S: equal texts with repeated skip bigrams
 scored less than 1, as only matches were counted as sets

---
 lib/daeso/string/rouge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/string/rouge.py b/lib/daeso/string/rouge.py
index 7eceb79..d256e3e 100644
--- a/lib/daeso/string/rouge.py
+++ b/lib/daeso/string/rouge.py
@@ -137,7 +137,9 @@ def rouge_skip_bigram(skip_bigrams1, skip_bigrams2, beta=1):
     Return the ROUGE-S score for two lists of skip bigrams, where
     beta determines the relative importance of recall in the F-measure
     """
-    matches = set(skip_bigrams1).intersection(set(skip_bigrams2))
+    skip_bigrams1 = set(skip_bigrams1)
+    skip_bigrams2 = set(skip_bigrams2)
+    matches = skip_bigrams1.intersection(skip_bigrams2)
     # matches_count corresponds to SKIP2(X,Y) in Lin04
     # It is defined as "the number of skip bigram matches between X and Y"-
     # However, it is not clear what to do with multiple occurrences of the same bigram.
-- 
2.43.0


From a7887236844befcaec595225582336fb638d3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:56 +0000
Subject: [PATCH 65/65] fix: aligning text without scope tags removed the other
 alignments of the source root

---
 lib/daeso/ptc/textalign.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/daeso/ptc/textalign.py b/lib/daeso/ptc/textalign.py
index 8b10509..b9809f0 100644
--- a/lib/daeso/ptc/textalign.py
+++ b/lib/daeso/ptc/textalign.py
@@ -119,7 +119,10 @@ class TextAlignerBase(object):
             source_root = doc_trees.source.getroot()
             target_root = doc_trees.target.getroot()
             scope_tags = Pair([source_root.tag], [target_root.tag])
-            source_root.set("_alignments", [target_root])
+            root_alignments = source_root.get("_alignments")
+            
+            if target_root not in root_alignments:
+                root_alignments.append(target_root)
             
         # TODO: semantics not entirely clear. 
         # - what happens if scope tags are embedded?
-- 
2.43.0

