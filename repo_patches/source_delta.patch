From 5494b9ea87561e0503178f1e028d697850f60dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:06 +0000
Subject: [PATCH 01/22] fix: check_random_state accepts a numpy RandomState

RandomState has no 'rand_int' method, so every documented use of a
RandomState as random_state raised AttributeError.
---
 implicit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/utils.py b/implicit/utils.py
index 4e86ee7..bdf8468 100644
--- a/implicit/utils.py
+++ b/implicit/utils.py
@@ -76,7 +76,7 @@ def check_random_state(random_state):
     """
     # backwards compatibility
     if isinstance(random_state, np.random.RandomState):
-        return np.random.default_rng(random_state.rand_int(2**31))
+        return np.random.default_rng(random_state.randint(2**31))
 
     # otherwise try to initialize a new one, and let it fail through
     # on the numpy side if it doesn't work
-- 
2.43.0


From b39ee2f39878493689aaff2c407de6b08531f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:06 +0000
Subject: [PATCH 02/22] fix: don't pad the results of recommend/similar_items
 with item 0

Asking for more results than there are items returned extra entries with
id 0 and score 0, which were also counted as hits by the ranking metrics.
---
 implicit/cpu/topk.pyx   | 3 +++
 implicit/evaluation.pyx | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/topk.pyx b/implicit/cpu/topk.pyx
index 05dca11..880881d 100644
--- a/implicit/cpu/topk.pyx
+++ b/implicit/cpu/topk.pyx
@@ -16,6 +16,9 @@ def topk(items, query, int k, item_norms=None, filter_query_items=None, filter_i
     if len(query.shape) == 1:
         query = query.reshape((1, len(query)))
 
+    # there can't be more results than there are items to choose from
+    k = min(k, items.shape[0])
+
     cdef int query_rows = query.shape[0]
     indices = np.zeros((query_rows, k), dtype="int32")
     distances = np.zeros((query_rows, k), dtype=query.dtype)
diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index bd59040..212d33c 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -450,7 +450,7 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_pos_items = likes.size()
                 num_neg_items = items - num_pos_items
 
-                for i in range(K):
+                for i in range(min(K, ids.shape[1])):
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From 1d3a1d2edd4e3109e4510d533de488a0573270f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:06 +0000
Subject: [PATCH 03/22] fix: don't count the padding of short result lists as
 ranked items

Models that return fewer than K items pad their batch results with -1.
Each of these counted as a ranked negative, which could make the AUC negative.
---
 implicit/evaluation.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 212d33c..c68f726 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -451,6 +451,9 @@ def ranking_metrics_at_k(model, train_user_items, test_user_items, int K=10,
                 num_neg_items = items - num_pos_items
 
                 for i in range(min(K, ids.shape[1])):
+                    # short result lists are padded out with -1, which isn't an item
+                    if ids[batch_idx, i] < 0:
+                        break
                     if likes.find(ids[batch_idx, i]) != likes.end():
                         relevant += 1
                         hit += 1
-- 
2.43.0


From 6d1e30ab9511638770f180e2a58ac9e8df4e6e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:06 +0000
Subject: [PATCH 04/22] fix: ItemItemRecommender.recommend returns at most N
 items with filter_items

N was increased by the number of filtered items before being used to cut
off the results.
---
 implicit/nearest_neighbours.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index d33717d..46672f7 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -71,20 +71,21 @@ class ItemItemRecommender(RecommenderBase):
         if filter_items is not None and items is not None:
             raise ValueError("Can't specify both filter_items and items")
 
+        count = N
         if filter_items is not None:
-            N += len(filter_items)
+            count += len(filter_items)
         elif items is not None:
             items = np.array(items)
-            N = self.similarity.shape[0]
+            count = self.similarity.shape[0]
             # check if items contains itemids that are not in the model(user_items)
-            if items.max() >= N or items.min() < 0:
+            if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
             user_items.data,
-            K=N,
+            K=count,
             remove_own_likes=filter_already_liked_items,
         )
 
-- 
2.43.0


From 65ea52d19fab11805209b01967e2c5297efb1fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:06 +0000
Subject: [PATCH 05/22] fix: ItemItemRecommender.recommend doesn't return
 already liked items

With filter_already_liked_items the liked items had their score set to 0,
but were still returned (and ahead of items with a negative score).
---
 implicit/nearest_neighbours.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 46672f7..aa4018b 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -81,6 +81,10 @@ class ItemItemRecommender(RecommenderBase):
             if items.max() >= count or items.min() < 0:
                 raise IndexError("Some of selected itemids are not in the model")
 
+        if filter_already_liked_items:
+            liked = user_items.indices[user_items.indptr[0] : user_items.indptr[1]]
+            count += len(liked)
+
         ids, scores = self.scorer.recommend(
             user_items.indptr,
             user_items.indices,
@@ -89,6 +93,10 @@ class ItemItemRecommender(RecommenderBase):
             remove_own_likes=filter_already_liked_items,
         )
 
+        if filter_already_liked_items:
+            mask = np.in1d(ids, liked, invert=True)
+            ids, scores = ids[mask], scores[mask]
+
         if filter_items is not None:
             mask = np.in1d(ids, filter_items, invert=True)
             ids, scores = ids[mask][:N], scores[mask][:N]
@@ -103,6 +111,9 @@ class ItemItemRecommender(RecommenderBase):
                 ids = np.append(ids, missing)
                 scores = np.append(scores, np.full(missing.size, -np.finfo(scores.dtype).max))
 
+        else:
+            ids, scores = ids[:N], scores[:N]
+
         return ids, scores
 
     def similar_users(self, userid, N=10, filter_users=None, users=None):
-- 
2.43.0


From 1b1d6c8a1679c68940dd8b0786f836cc3c04142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:06 +0000
Subject: [PATCH 06/22] fix: ItemItemRecommender.similar_items accepts a list
 for items

---
 implicit/nearest_neighbours.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index aa4018b..3e9170e 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -144,6 +144,7 @@ class ItemItemRecommender(RecommenderBase):
             ids, scores = ids[mask], scores[mask]
 
         elif items is not None:
+            items = np.array(items)
             mask = np.in1d(ids, items)
             ids, scores = ids[mask], scores[mask]
 
-- 
2.43.0


From 94b5bdaf5cc48a611bb647452b1ab8f270c12509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:06 +0000
Subject: [PATCH 07/22] fix: save all parameters of the item-item recommenders

Saving and loading lost num_threads and the K1 and B parameters of
BM25Recommender, and turned K into an array.
---
 implicit/nearest_neighbours.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 3e9170e..953ecc6 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -171,7 +171,7 @@ class ItemItemRecommender(RecommenderBase):
             self.scorer = None
 
     def save(self, fileobj_or_path):
-        args = {"K": self.K}
+        args = {k: v for k, v in self.__dict__.items() if k not in ("similarity", "scorer")}
         m = self.similarity
         if m is not None:
             args.update(
@@ -193,7 +193,9 @@ class ItemItemRecommender(RecommenderBase):
                 )
                 ret.similarity = similarity
                 ret.scorer = NearestNeighboursScorer(similarity)
-            ret.K = data["K"]
+            for k, v in data.items():
+                if k not in ("shape", "data", "indptr", "indices"):
+                    setattr(ret, k, v.item())
             return ret
 
 
-- 
2.43.0


From 80957b1a103b82761d3b9fa5332a98323d44c281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 08/22] fix: leave_k_out_split holds out each rating at most
 once

When some users aren't candidates for the test set their ids are missing
from the array passed to _take_tails, which then returned the tails of other
users repeatedly: these ratings were summed up in the test matrix.
---
 implicit/evaluation.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index c68f726..06fc99a 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -203,8 +203,10 @@ cpdef leave_k_out_split(
     candidate_items = items[full_candidate_mask]
     candidate_data = data[full_candidate_mask]
 
+    # _take_tails needs consecutive integers, but not every user is a candidate
+    _, candidate_ranks = np.unique(candidate_users, return_inverse=True)
     test_idx, train_idx = _take_tails(
-        candidate_users, K, shuffled=True, return_complement=True
+        candidate_ranks, K, shuffled=True, return_complement=True
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 2e32c676f2f0e2a2d36ce2f0d401a29baf049323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 09/22] fix: leave_k_out_split picks the test ratings with the
 given random_state

The shuffle used the global numpy RNG, so that splits weren't reproducible.
---
 implicit/evaluation.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 06fc99a..890bd60 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -74,7 +74,7 @@ cdef _choose(rng, int n, float frac):
     return arr
 
 
-cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
+cdef _take_tails(arr, int n, return_complement=False, shuffled=False, rng=np.random):
     """
     Given an array of (optionally shuffled) integers in the range 0->n, take the indices
     of the last 'n' occurrences of each integer (tail) -- subject to shuffling.
@@ -108,6 +108,8 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     shuffled: bool
         Optionally indicate whether you wish the dataset to be shuffled. This will act
         to randomise the 'tails' selected.
+    rng: np.random.Generator
+        The random number generator to shuffle with
 
     Returns
     -------
@@ -125,7 +127,7 @@ cdef _take_tails(arr, int n, return_complement=False, shuffled=False):
     ranges = np.linspace(start, end, num=n + 1, dtype=int)[1:]
 
     if shuffled:
-        shuffled_idx = (sorted_arr + np.random.random(arr.shape)).argsort()
+        shuffled_idx = (sorted_arr + rng.random(arr.shape)).argsort()
         tails = shuffled_idx[np.ravel(ranges, order="f")]
     else:
         tails = np.ravel(ranges, order="f")
@@ -206,7 +208,7 @@ cpdef leave_k_out_split(
     # _take_tails needs consecutive integers, but not every user is a candidate
     _, candidate_ranks = np.unique(candidate_users, return_inverse=True)
     test_idx, train_idx = _take_tails(
-        candidate_ranks, K, shuffled=True, return_complement=True
+        candidate_ranks, K, shuffled=True, return_complement=True, rng=random_state
     )
 
     # get all remaining remaining candidate user-item pairs, and prepare to append to
-- 
2.43.0


From 22b0d8f87921c2c27e16dfd57590fff5f9336b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 10/22] fix: leave_k_out_split reserves the requested fraction
 of users for training

_choose returns positions in the array of unique users, which differ from the
user ids when some users have no ratings.
---
 implicit/evaluation.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/evaluation.pyx b/implicit/evaluation.pyx
index 890bd60..9695685 100644
--- a/implicit/evaluation.pyx
+++ b/implicit/evaluation.pyx
@@ -190,9 +190,10 @@ cpdef leave_k_out_split(
 
     # keep a given subset of users _only_ in the training set.
     if train_only_size > 0.0:
-        train_only_mask = ~np.isin(
-            unique_users, _choose(random_state, len(unique_users), train_only_size)
-        )
+        train_only_users = unique_users[
+            _choose(random_state, len(unique_users), train_only_size)
+        ]
+        train_only_mask = ~np.isin(unique_users, train_only_users)
         candidate_mask = train_only_mask & candidate_mask
 
     # get unique users who appear in the test set
-- 
2.43.0


From 96aac10aad922c3e1c7351f04082fe488d725a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 11/22] fix: FaissModel.similar_items doesn't modify the item
 factors

For a single itemid the factor is a view on the factors of the underlying
model, which was normalized in place.
---
 implicit/ann/faiss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 8fcb356..e2fcdbb 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -162,10 +162,10 @@ class FaissModel(RecommenderBase):
                 factors = factors.to_numpy()
 
         if np.isscalar(itemid):
-            factors /= np.linalg.norm(factors)
+            factors = factors / np.linalg.norm(factors)
             factors = factors.reshape(1, -1)
         else:
-            factors /= np.linalg.norm(factors, axis=1)[:, None]
+            factors = factors / np.linalg.norm(factors, axis=1)[:, None]
 
         scores, ids = self.similar_items_index.search(factors.astype("float32"), count)
 
-- 
2.43.0


From b5f659756c7a3929fc63b26a2ad3bffd86111cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 12/22] fix: FaissModel.recommend works with
 approximate_recommend=False

---
 implicit/ann/faiss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index e2fcdbb..30ee98f 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -210,7 +210,7 @@ class FaissModel(RecommenderBase):
             )
 
         if not self.approximate_recommend:
-            warnings.warning("Calling recommend on a FaissModel with approximate_recommend=False")
+            warnings.warn("Calling recommend on a FaissModel with approximate_recommend=False")
             return self.model.recommend(
                 userid,
                 user_items,
-- 
2.43.0


From 84d667feadbeaba69102d1615e37c28f80ad428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 13/22] fix: ANN models accept an array for filter_items in
 recommend

---
 implicit/ann/annoy.py  | 2 +-
 implicit/ann/faiss.py  | 2 +-
 implicit/ann/nmslib.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index 87d1c44..d5a5112 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -205,7 +205,7 @@ class AnnoyModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/faiss.py b/implicit/ann/faiss.py
index 30ee98f..2708a0a 100644
--- a/implicit/ann/faiss.py
+++ b/implicit/ann/faiss.py
@@ -236,7 +236,7 @@ class FaissModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
diff --git a/implicit/ann/nmslib.py b/implicit/ann/nmslib.py
index 320e9fd..26b2a21 100644
--- a/implicit/ann/nmslib.py
+++ b/implicit/ann/nmslib.py
@@ -213,7 +213,7 @@ class NMSLibModel(RecommenderBase):
         # calculate the top N items, removing the users own liked items from
         # the results
         count = N
-        if filter_items:
+        if filter_items is not None:
             count += len(filter_items)
             filter_items = np.array(filter_items)
 
-- 
2.43.0


From 1f2d3110db0ae82980d0c4da91464a2356a10ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 14/22] fix: AnnoyModel.similar_items returns N items with
 filter_items

---
 implicit/ann/annoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/implicit/ann/annoy.py b/implicit/ann/annoy.py
index d5a5112..dae3011 100644
--- a/implicit/ann/annoy.py
+++ b/implicit/ann/annoy.py
@@ -139,7 +139,7 @@ class AnnoyModel(RecommenderBase):
             factor = factor.squeeze()
 
         ids, scores = self.similar_items_index.get_nns_by_vector(
-            factor, N, search_k=self.search_k, include_distances=True
+            factor, count, search_k=self.search_k, include_distances=True
         )
         ids, scores = np.array(ids), np.array(scores)
 
-- 
2.43.0


From 7e1bb738d12f9c02b19880cb1cd86c754a336187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 15/22] fix: reject an array filter together with an explicit
 list of items/users

The truth value of an array filter is False for the single id 0, in which
case the filter was applied to the positions in the list instead.
---
 implicit/cpu/matrix_factorization_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index dcd37fa..50b216a 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -56,7 +56,7 @@ class MatrixFactorizationBase(RecommenderBase):
         # and filter_query_items
         if items is not None:
             N = min(N, len(items))
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in recommend call")
 
             items = np.array(items)
@@ -152,7 +152,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an user list to restrict down to, we need to filter the user_factors
         if users is not None:
-            if filter_users:
+            if filter_users is not None and len(filter_users):
                 raise ValueError("Can't set both users and filter_users in similar_users call")
 
             users = np.array(users)
@@ -193,7 +193,7 @@ class MatrixFactorizationBase(RecommenderBase):
 
         # if we have an item list to restrict down to, we need to filter the item_factors
         if items is not None:
-            if filter_items:
+            if filter_items is not None and len(filter_items):
                 raise ValueError("Can't set both items and filter_items in similar_items call")
 
             items = np.array(items)
-- 
2.43.0


From 48bbd1547a02fd74b4384efa5258cbcc05da4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 16/22] fix: recommend_all works with users_items_offset

recommend expects one row in user_items for each userid.
---
 implicit/cpu/matrix_factorization_base.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/implicit/cpu/matrix_factorization_base.py b/implicit/cpu/matrix_factorization_base.py
index 50b216a..0bef2a3 100644
--- a/implicit/cpu/matrix_factorization_base.py
+++ b/implicit/cpu/matrix_factorization_base.py
@@ -2,7 +2,7 @@
 import warnings
 
 import numpy as np
-from scipy.sparse import csr_matrix, lil_matrix
+from scipy.sparse import csr_matrix
 
 from ..recommender_base import ModelFitError, RecommenderBase
 from .topk import topk
@@ -109,13 +109,6 @@ class MatrixFactorizationBase(RecommenderBase):
         )
 
         userids = np.arange(user_items.shape[0]) + users_items_offset
-        if users_items_offset:
-            adjusted = lil_matrix(
-                (user_items.shape[0] + users_items_offset, user_items.shape[1]),
-                dtype=user_items.dtype,
-            )
-            adjusted[users_items_offset:] = user_items
-            user_items = adjusted.tocsr()
 
         ids, _ = self.recommend(
             userids,
-- 
2.43.0


From e11bc9ac4a2e6ceeec49baa6b9956b4990faea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:13 +0000
Subject: [PATCH 17/22] fix: raise when refitting a model on a matrix of
 another shape

The native training code doesn't check bounds, and read and wrote outside of
the factors of the first fit.
---
 implicit/cpu/als.py  | 3 +++
 implicit/cpu/bpr.pyx | 3 +++
 implicit/cpu/lmf.pyx | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index 1ec7a91..d72c4b3 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -145,6 +145,9 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         if self.item_factors is None:
             self.item_factors = random_state.random((items, self.factors), dtype=self.dtype) * 0.01
 
+        if self.user_factors.shape[0] != users or self.item_factors.shape[0] != items:
+            raise ValueError("user_items doesn't have the shape of the already fitted factors")
+
         log.debug("Initialized factors in %s", time.time() - s)
 
         # invalidate cached norms and squared factors
diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 16dd2a6..0a1635a 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -172,6 +172,9 @@ class BayesianPersonalizedRanking(MatrixFactorizationBase):
 
             self.user_factors[:, self.factors] = 1.0
 
+        if self.user_factors.shape[0] != users or self.item_factors.shape[0] != items:
+            raise ValueError("user_items doesn't have the shape of the already fitted factors")
+
         # invalidate cached norms
         self._user_norms = self._item_norms = None
 
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 7349470..8a77e3d 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -164,6 +164,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
             # set factors to all zeros for users without any ratings
             self.user_factors[user_counts == 0] = np.zeros(self.factors + 2)
 
+        if self.user_factors.shape[0] != users or self.item_factors.shape[0] != items:
+            raise ValueError("user_items doesn't have the shape of the already fitted factors")
+
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
-- 
2.43.0


From d19b8c4dd9112b035b01a080318b7ba435a17e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:13 +0000
Subject: [PATCH 18/22] fix: reject interactions with ids that are not in the
 model

The native code behind recalculate_user, recalculate_item and
ItemItemRecommender.recommend doesn't check bounds, and read outside of the
model's arrays.
---
 implicit/cpu/als.py            | 10 +++++++++-
 implicit/nearest_neighbours.py |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/implicit/cpu/als.py b/implicit/cpu/als.py
index d72c4b3..eab8bd9 100644
--- a/implicit/cpu/als.py
+++ b/implicit/cpu/als.py
@@ -225,6 +225,8 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
 
         if user_items.shape[0] != users:
             raise ValueError("user_items should have one row for every item in user")
+        if user_items.shape[1] > self.item_factors.shape[0]:
+            raise ValueError("user_items contains items that are not in the model")
 
         if self.alpha != 1.0:
             user_items = self.alpha * user_items
@@ -258,10 +260,16 @@ class AlternatingLeastSquares(MatrixFactorizationBase):
         """
         item_users = check_csr(item_users)
 
+        items = 1 if np.isscalar(itemid) else len(itemid)
+
+        if item_users.shape[0] != items:
+            raise ValueError("item_users should have one row for every item in itemid")
+        if item_users.shape[1] > self.user_factors.shape[0]:
+            raise ValueError("item_users contains users that are not in the model")
+
         if self.alpha != 1.0:
             item_users = self.alpha * item_users
 
-        items = 1 if np.isscalar(itemid) else len(itemid)
         item_factors = np.zeros((items, self.factors), dtype=self.dtype)
         _als._least_squares(
             self.XtX,
diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 953ecc6..660047f 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -52,6 +52,8 @@ class ItemItemRecommender(RecommenderBase):
     ):
         if not isinstance(user_items, csr_matrix):
             raise ValueError("user_items needs to be a CSR sparse matrix")
+        if user_items.shape[1] > self.similarity.shape[0]:
+            raise ValueError("user_items contains items that are not in the model")
 
         if not np.isscalar(userid):
             if user_items.shape[0] != len(userid):
-- 
2.43.0


From e3f4bbe3133d547acd0633c6be68433e445faca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:44 +0000
Subject: [PATCH 19/22] fix: LogisticMatrixFactorization.fit invalidates the
 cached norms

---
 implicit/cpu/lmf.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 8a77e3d..87dbc55 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -167,6 +167,9 @@ class LogisticMatrixFactorization(MatrixFactorizationBase):
         if self.user_factors.shape[0] != users or self.item_factors.shape[0] != items:
             raise ValueError("user_items doesn't have the shape of the already fitted factors")
 
+        # invalidate cached norms
+        self._user_norms = self._item_norms = None
+
         # For Adagrad update
         user_vec_deriv_sum = np.zeros((users, self.factors + 2)).astype(np.float32)
         item_vec_deriv_sum = np.zeros((items, self.factors + 2)).astype(np.float32)
-- 
2.43.0


From 7be009df7281363d4f48a8d12cf68cb51e1f9ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:07 +0000
Subject: [PATCH 20/22] fix: the ALS loss of disliked items has no constant
 term

---
 implicit/cpu/_als.pyx | 2 +-
 implicit/gpu/als.cu   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/_als.pyx b/implicit/cpu/_als.pyx
index 630e3f1..ffeae98 100644
--- a/implicit/cpu/_als.pyx
+++ b/implicit/cpu/_als.pyx
@@ -285,6 +285,7 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
 
                     if confidence > 0:
                         temp = -2 * confidence
+                        loss += confidence
                     else:
                         temp = 0
                         confidence = -1 * confidence
@@ -293,7 +294,6 @@ def _calculate_loss(Cui, integral[:] indptr, integral[:] indices, float[:] data,
                     axpy(&N, &temp, &Y[i, 0], &one, r, &one)
 
                     total_confidence += confidence
-                    loss += confidence
 
                 loss += dot(&N, r, &one, &X[u, 0], &one)
                 user_norm += dot(&N, &X[u, 0], &one, &X[u, 0], &one)
diff --git a/implicit/gpu/als.cu b/implicit/gpu/als.cu
index 58ad047..ef52239 100644
--- a/implicit/gpu/als.cu
+++ b/implicit/gpu/als.cu
@@ -226,11 +226,11 @@ __global__ void calculate_loss_kernel(int factors, size_t user_count,
       if (confidence > 0) {
         r +=
             ((confidence - 1) * dot(Yi, x_value, shared) - 2 * confidence) * Yi;
+        loss += confidence;
       } else {
         confidence *= -1;
         r += ((confidence - 1) * dot(Yi, x_value, shared)) * Yi;
       }
-      loss += confidence;
       total_confidence += confidence;
     }
     loss += dot(x_value, r, shared);
-- 
2.43.0


From 95523b6a8cf4bd651aac1592ce0524caa0077a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:21 +0000
Subject: [PATCH 21/22] fix: ItemItemRecommender.recommend for one user reads
 one row of user_items: reject other row counts

---
 implicit/nearest_neighbours.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/implicit/nearest_neighbours.py b/implicit/nearest_neighbours.py
index 660047f..14299a5 100644
--- a/implicit/nearest_neighbours.py
+++ b/implicit/nearest_neighbours.py
@@ -55,10 +55,11 @@ class ItemItemRecommender(RecommenderBase):
         if user_items.shape[1] > self.similarity.shape[0]:
             raise ValueError("user_items contains items that are not in the model")
 
-        if not np.isscalar(userid):
-            if user_items.shape[0] != len(userid):
-                raise ValueError("user_items must contain 1 row for every user in userids")
+        user_count = 1 if np.isscalar(userid) else len(userid)
+        if user_items.shape[0] != user_count:
+            raise ValueError("user_items must contain 1 row for every user in userids")
 
+        if not np.isscalar(userid):
             return _batch_call(
                 self.recommend,
                 userid,
-- 
2.43.0


From 0e8079b4dd8b1400e9596def55bd4bb78d4f0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:40 +0000
Subject: [PATCH 22/22] fix: keep the sampling range of BPR and LMF valid
 without interactions

uniform_int_distribution(0, -1) is undefined (and aborts with libstdc++
assertions) when the matrix passed to fit has no entries.
---
 implicit/cpu/bpr.pyx | 2 +-
 implicit/cpu/lmf.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/implicit/cpu/bpr.pyx b/implicit/cpu/bpr.pyx
index 0a1635a..e5402e6 100644
--- a/implicit/cpu/bpr.pyx
+++ b/implicit/cpu/bpr.pyx
@@ -53,7 +53,7 @@ cdef class RNGVector(object):
         cdef int i
         for i in range(num_threads):
             self.rng.push_back(mt19937(rng_seeds[i]))
-            self.dist.push_back(uniform_int_distribution[long](0, rows))
+            self.dist.push_back(uniform_int_distribution[long](0, max(rows, 0)))
 
     cdef inline long generate(self, int thread_id) noexcept nogil:
         return self.dist[thread_id](self.rng[thread_id])
diff --git a/implicit/cpu/lmf.pyx b/implicit/cpu/lmf.pyx
index 87dbc55..ea6c9ec 100644
--- a/implicit/cpu/lmf.pyx
+++ b/implicit/cpu/lmf.pyx
@@ -50,7 +50,7 @@ cdef class RNGVector(object):
         cdef int i
         for i in range(num_threads):
             self.rng.push_back(mt19937(rng_seeds[i]))
-            self.dist.push_back(uniform_int_distribution[long](0, rows))
+            self.dist.push_back(uniform_int_distribution[long](0, max(rows, 0)))
 
     cdef inline long generate(self, int thread_id) noexcept nogil:
         return self.dist[thread_id](self.rng[thread_id])
-- 
2.43.0

