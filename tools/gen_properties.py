#!/usr/bin/env python3
"""Source of properties.jsonl (run once; the output is committed)."""
import json, os

def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    }

MFB = "implicit/cpu/matrix_factorization_base.py"
NN = "implicit/nearest_neighbours.py"
props = [
P("C01", "Factor-model recommendations are the exact top N",
  "For every fitted factor model, any user or array of users and any N >= 1, recommend returns for each user exactly min(N, number of candidate items) distinct item ids, in non-increasing score order, where each score is the inner product of that user's and that item's factors and no candidate that was left out scores higher than one that was returned. With no filters the candidates are all items; with an explicit list of (distinct) items the candidates are exactly that list, and the returned ids are ids of the model, not positions in the list. This holds whatever N, the number of users queried, the factor precision, ties, or the number of threads.",
  ["inputs", "configurations", "schedules"], "every factor matrix pair, user id (scalar or array of any length), N >= 1, items list, dtype, thread count",
  "tests query a few users of one 100x100 dataset; ties, N above the number of items, more than one internal batch, and all matrix shapes are not reached",
  [MFB, "implicit/cpu/topk.pyx", "implicit/cpu/select.h"],
  [("heap selection per row", "implicit/cpu/select.h:select"), ("batched dot product + selection", "implicit/cpu/topk.pyx:topk,_topk_batch"), ("query assembly and id remapping", MFB + ":recommend")],
  ["return value of recommend on ALS/BPR/LMF models"]),
P("C02", "Filtered items are never recommended and bad selections are rejected",
  "No recommend or similar_items/similar_users call of any factor or item-item model ranks an excluded id: an item the user already liked (unless that filter is turned off), an id listed in the filter list, or an id outside an explicit list of allowed ids, whether the list is given as a list or an array. For factor models an excluded id may only appear as filler after every eligible id, with the lowest representable score; item-item models never return it, and never return more than N ids, except that recommend for a single user returns an explicit list of allowed items completely (those without a score, or already liked, last with the lowest score). Allowed-list ids that are not in the model raise IndexError in recommend (and in similar_items/similar_users of factor models), and giving both kinds of list raises ValueError.",
  ["inputs", "configurations"], "every model, query, like history, filter list and allowed list (including empty results, everything filtered, and N larger than what remains)",
  "tests filter one or two items for a few users; they never let the number of filtered and liked items interact with N, list sizes or batch position",
  [MFB, NN, "implicit/utils.py", "implicit/cpu/topk.pyx"],
  [("liked/filter masking of scores", "implicit/cpu/topk.pyx:_topk_batch"), ("allowed-list remapping", MFB + ":_filter_items_from_sparse_matrix"), ("candidate over-fetch then mask", NN + ":ItemItemRecommender.recommend")],
  ["ids/scores returned by recommend, similar_items, similar_users; exception types"]),
P("C03", "similar_items and similar_users return the exact cosine neighbours",
  "For every fitted factor model, similar_items (similar_users) returns for each queried id the min(N, number of candidates) candidates with the highest cosine similarity between the stored item (user) factors, in non-increasing order, each with its cosine as the score; a factor of all zeros has similarity 0 to everything and never produces NaN or infinity. With recalculate_item the query factor is the freshly recalculated one and the same statement holds for it. Results do not depend on the query being scalar or in an array, nor on earlier calls.",
  ["inputs", "histories"], "every factor matrix (including zero rows), query, N, allowed list, and any history of calls that changes the factors",
  "tests check that an item is its own nearest neighbour on one small model; zero rows, several batches, recalculated queries and score values are not covered",
  [MFB, "implicit/cpu/topk.pyx"],
  [("norm caches with zero replaced", MFB + ":item_norms,user_norms"), ("score = dot / norm / norm", MFB + ":_get_similarity_score")],
  ["return value of similar_items/similar_users"]),
P("C04", "A batch query answers each row exactly like a single query",
  "For every model and every array of ids (any length, any order, with repeats), row i of a batch recommend/similar_items/similar_users/recalculate call equals what the scalar call for the i-th id (with the i-th row of the interaction matrix) returns, up to float rounding and the order among equal scores. Where a scalar answer is shorter than N the batch row is padded with id -1 and the lowest float32 score, and longer ones are cut to N. The number of rows in the batch returned equals the number of ids.",
  ["inputs", "configurations", "schedules"], "every id array (length 1 to many internal batches, repeated and unordered ids), every filter argument, every thread count",
  "tests use batches of a handful of users, never crossing the internal batch size and never with short rows next to long ones",
  [MFB, NN, "implicit/utils.py", "implicit/cpu/topk.pyx", "implicit/cpu/als.py"],
  [("generic batch loop and padding", "implicit/utils.py:_batch_call"), ("row offset of every batch", "implicit/cpu/topk.pyx:topk"), ("per-row filters indexed by query position", "implicit/cpu/topk.pyx:_topk_batch")],
  ["batch vs scalar return values"]),
P("C05", "Calls never change the caller's data, and queries never change the model",
  "recommend, similar_items, similar_users, explain, recalculate_user, recalculate_item, save, the ranking metrics, the train/test splits and the weighting functions leave every matrix, array and list passed in, and the model's learned parameters and settings, exactly as they were (lazily cached norms and Gram matrices aside). Fitting a model leaves the interaction matrix passed in with the same value. Results returned by one call are not altered by later calls.",
  ["inputs", "histories"], "every argument combination and every sequence of calls",
  "tests never compare arguments before and after a call",
  [MFB, NN, "implicit/utils.py", "implicit/cpu/als.py", "implicit/evaluation.pyx", "implicit/cpu/topk.pyx", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx"],
  [("copies before sorting/masking", MFB + ":recommend,_filter_items_from_sparse_matrix"), ("fresh result buffers", "implicit/cpu/topk.pyx:topk"), ("weighting rebinds data", NN + ":tfidf_weight,normalize,bm25_weight")],
  ["arguments and model attributes before/after a call"]),
P("C06", "The exact ALS row update solves the weighted least squares equations",
  "With the direct (non conjugate gradient) solver, after an update every row with interactions holds the solution x of (Y'Y + reg*I + sum (|c_i|-1) y_i y_i') x = sum over c_i > 0 of c_i*y_i, over exactly that row's stored interactions (a negative c_i means disliked with confidence |c_i|), and every row without interactions is zero in the native solver; the native and the Python solver agree. recalculate_user/recalculate_item return the same solution for the interactions passed in (scaled by alpha), with the current other-side factors, without storing it. Rows are independent of each other and of the number of threads, and a system that cannot be solved raises instead of storing a result.",
  ["inputs", "configurations", "schedules"], "every sparse matrix (empty rows, duplicates, negative confidences), factor matrix, regularization, alpha, precision and thread count",
  "tests run the solvers on one 7x8 matrix and check that the product reconstructs it; wrong weights of negatives, empty rows, alpha, or rows past a chunk boundary are not reached",
  ["implicit/cpu/_als.pyx", "implicit/cpu/als.py", "implicit/utils.py"],
  [("normal equations accumulated per row", "implicit/cpu/_als.pyx:_least_squares"), ("python reference", "implicit/cpu/als.py:user_linear_equation,user_factor,least_squares"), ("recalculation", "implicit/cpu/als.py:recalculate_user,recalculate_item")],
  ["factor rows after least_squares / recalculate_*"]),
P("C07", "The conjugate gradient ALS update performs CG on the same equations",
  "With the conjugate gradient solver, each row with interactions is advanced from its previous value by exactly cg_steps steps of the conjugate gradient method (fewer only when the squared residual falls below 1e-20) applied to the same linear system as the direct solver, so that with at least as many steps as factors it reaches the direct solution; native and Python solver perform the same steps. Rows without interactions become zero in the native solver. Rows are independent of each other and of the number of threads.",
  ["inputs", "configurations", "schedules"], "every sparse matrix, starting factors, regularization, number of steps, precision and thread count",
  "tests only check reconstruction quality of a tiny matrix after many sweeps, where a wrong step or residual is compensated by later sweeps",
  ["implicit/cpu/_als.pyx", "implicit/cpu/als.py"],
  [("native CG", "implicit/cpu/_als.pyx:_least_squares_cg"), ("python CG", "implicit/cpu/als.py:least_squares_cg")],
  ["factor rows after least_squares_cg"]),
P("C08", "The reported ALS training loss equals its definition",
  "The loss calculated for an ALS model equals [sum over all user/item pairs of c_ui (p_ui - x_u.y_i)^2 + reg*(sum |x_u|^2 + sum |y_i|^2)] / (sum of c_ui over all pairs), where c_ui is the absolute stored confidence (1 where nothing is stored) and p_ui is 1 exactly for positive stored entries. It does not depend on the number of threads, and computing it changes nothing.",
  ["inputs", "configurations", "schedules"], "every sparse matrix with distinct entries (including negative confidences and empty rows), factors, regularization, precision and thread count",
  "the existing test compares one random matrix, single configuration",
  ["implicit/cpu/_als.pyx"],
  [("loss accumulation", "implicit/cpu/_als.pyx:_calculate_loss")],
  ["return value of calculate_loss; loss passed to the fit callback"]),
P("C09", "Incremental updates touch exactly the given rows and caches stay coherent",
  "partial_fit_users (partial_fit_items) replaces exactly the factor rows of the given ids with the recalculated ones, leaves every other row and the other side's factors unchanged, and for ids beyond the current size grows the factors with zero rows for ids not given. After any sequence of fit, partial_fit and query calls, every answer (recommend, similar_items, similar_users, recalculations, explain) is the one that a model holding the current factors and no cached state would give.",
  ["inputs", "histories"], "every sequence of fit / partial_fit_* / query calls, id arrays in any order, new ids with gaps, every model with cached state",
  "tests do one partial_fit and look at one answer; stale norms or Gram matrices need a query before and after an update",
  ["implicit/cpu/als.py", MFB, "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx"],
  [("growth and row assignment", "implicit/cpu/als.py:partial_fit_users,partial_fit_items"), ("cache invalidation", "implicit/cpu/als.py:fit,partial_fit_*; implicit/cpu/bpr.pyx:fit; implicit/cpu/lmf.pyx:fit")],
  ["factors and answers after a history"],
  [{"name": "_user_norms/_item_norms", "meaning": "cached row norms of the factors", "where": MFB}, {"name": "_YtY/_XtX", "meaning": "cached Gram matrices", "where": "implicit/cpu/als.py"}]),
P("C10", "Saving and loading (or pickling) a model loses nothing",
  "For every CPU model (ALS, BPR, LMF, item-item, cosine, TF-IDF, BM25), fitted or not, loading what save wrote (to a path with or without the .npz suffix, or to a file object), or unpickling a pickle, gives a model whose learned factors or similarities, hyper-parameters and settings are equal in value and type to the original's and which answers every query identically. Training continued on the loaded model gives the same result as training continued on the original. Hyper-parameters that were None stay None.",
  ["inputs", "configurations", "histories"], "every model class, every hyper-parameter value (including None and non-default), fitted and unfitted",
  "tests save one model per class with mostly default parameters and compare a few attributes",
  ["implicit/recommender_base.py", "implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", NN],
  [("per-class save", "implicit/cpu/als.py:save; implicit/cpu/bpr.pyx:save; implicit/cpu/lmf.pyx:save; " + NN + ":save"), ("generic load", "implicit/recommender_base.py:load; " + NN + ":load,__getstate__,__setstate__")],
  ["attributes and answers of the loaded model"]),
P("C11", "The item-item similarity matrix is the exact top K of the item products",
  "For every weighted user/item matrix and K >= 1, fitting an item-item model stores for each item exactly its min(K, number of items sharing at least one user with it) most similar items (itself included), each with weight sum over common users of the product of the two weights, and no other item sharing a user has a larger weight; all other stored weights are zero. The result does not depend on the number of threads or on which rows a thread processed before. The cosine, TF-IDF and BM25 models store the same for their weighting of the input.",
  ["inputs", "configurations", "schedules"], "every sparse matrix (empty rows and columns, ties, negative weights), K, number of threads",
  "tests compare the similarity matrix of one tiny random matrix; state left from one row to the next, K boundaries and ties are not reached",
  ["implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.h", NN],
  [("bounded heap", "implicit/nearest_neighbours.h:TopK"), ("sparse accumulator with linked list reset", "implicit/nearest_neighbours.h:SparseMatrixMultiplier"), ("pairing loop", "implicit/_nearest_neighbours.pyx:all_pairs_knn")],
  ["similarity attribute after fit / all_pairs_knn"]),
P("C12", "Item-item recommendations rank by user-weighted similarity",
  "For every item-item model, recommend for a user returns the N eligible items sharing similarity with the user's items (all of them if fewer) with the highest score, in non-increasing order, where the score of an item is the sum over the user's items of user weight times stored similarity to that item; similar_items returns the N stored neighbours with the highest similarity, in non-increasing order, with the stored similarity as score. Any number of earlier calls, by any user, has no influence on a later answer. With an explicit list of allowed items, allowed items without any similarity follow at the end with the lowest score.",
  ["inputs", "histories"], "every similarity matrix, user row (duplicates, negative weights, empty), N, filters, history of calls",
  "tests call recommend on a few users of a structured matrix; accumulator state leaking between calls and score values are not checked",
  ["implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.h", NN],
  [("scorer", "implicit/_nearest_neighbours.pyx:NearestNeighboursScorer.recommend"), ("filtering and truncation", NN + ":recommend,similar_items")],
  ["return values of recommend / similar_items"]),
P("C13", "The TF-IDF, BM25 and normalization weightings equal their formulas",
  "For every sparse matrix X with N rows, tfidf_weight replaces each stored value x in column j by sqrt(x)*(log N - log(1+df_j)), bm25_weight by x*(K1+1)/(K1*(1-B+B*len_i/avg_len)+x)*(log N - log(1+df_j)), and normalize by x/sqrt(sum of squares of its row), where df_j is the number of stored entries of column j, len_i the row sum and avg_len the mean row sum over all rows. Shape and sparsity structure are unchanged, and the result does not depend on the sparse format or on the order of the entries. The cosine, TF-IDF and BM25 models use these weightings with each item as a row.",
  ["inputs"], "every sparse matrix in any format, every K1 and B",
  "tests check the shape of the result or a single fixed value; empty rows, the mean over all rows and parameter values are not pinned",
  [NN],
  [("formulas", NN + ":tfidf_weight,bm25_weight,normalize")],
  ["values of the returned matrix; similarity of fitted models"]),
P("C14", "Ranking metrics equal their definitions",
  "precision, MAP, NDCG and AUC at K equal their definitions computed from the model's top K recommendations for exactly the users with at least one test item, counting a recommended item as a hit exactly when it is in that user's test items: total hits / total min(K, number of test items); mean of (sum over hits of precision at the hit)/min(K, tests); mean of DCG/ideal DCG; mean of the limited AUC in which unranked positives and negatives are split evenly. All values lie in [0, 1], do not depend on batching, the number of users, or earlier calls, and users without test items have no influence.",
  ["inputs", "configurations"], "every model, train and test matrix in which each user has some untested item, K >= 1, any number of users (more than one internal batch), result lists shorter than K",
  "tests check a few hand-made matrices with K <= 10 and fewer users than one internal batch",
  ["implicit/evaluation.pyx"],
  [("accumulation loop", "implicit/evaluation.pyx:ranking_metrics_at_k"), ("single-metric accessors", "implicit/evaluation.pyx:precision_at_k,mean_average_precision_at_k,ndcg_at_k,AUC_at_k")],
  ["returned metric values"]),
P("C15", "Train/test splits partition the ratings",
  "For every ratings matrix without duplicate entries, every rating appears unchanged in exactly one of train and test (train_test_split drops negative ratings from test and nothing else), both have the shape and type of the input, and nothing appears that was not in the input. train_test_split puts each rating into train independently with probability train_percentage. leave_k_out_split puts exactly K ratings of every eligible user (more than K+1 ratings and not reserved for training) and none of any other user into test, and reserves max(1, floor(fraction*users)) of the users with ratings for training when a positive fraction is given. K < 1 or a fraction outside [0, 1) raises ValueError.",
  ["inputs"], "every sparse matrix (users without ratings, users with few ratings, unsorted entries), K, fraction, random state",
  "tests use one random matrix with dense user ids; gaps in the user ids and small users are not reached",
  ["implicit/evaluation.pyx"],
  [("random mask", "implicit/evaluation.pyx:train_test_split"), ("tail selection", "implicit/evaluation.pyx:leave_k_out_split,_take_tails,_choose")],
  ["returned matrices"]),
P("C16", "BPR training applies the BPR update to sampled likes only",
  "Each training step of BPR draws a stored like (u, i) (every stored like can be drawn) and another stored item j and either skips it (exactly when verification of negatives is on and u likes j) or moves u, i and j by learning_rate times the gradient of log sigmoid(x_u.(y_i - y_j)) minus regularization, using the values from before the step, with the item bias in the last column and the users' last column staying exactly 1. Factors of users and items that have no interactions are never changed and start at zero (except the users' constant column), and an epoch performs as many steps as there are stored likes, of which the reported number is skipped, and the reported number of correct ones are those performed with a positive score x_u.(y_i - y_j). Factors of items and users not drawn in a step are unchanged by it.",
  ["inputs", "schedules", "configurations"], "every interaction matrix (sorted or not), seed, learning rate, regularization, verification on or off, precision; single thread for exact values",
  "tests check that training on a tiny matrix ranks well; gradient, bias or sampling errors still learn",
  ["implicit/cpu/bpr.pyx"],
  [("SGD step", "implicit/cpu/bpr.pyx:bpr_update"), ("negative verification", "implicit/cpu/bpr.pyx:has_non_zero"), ("initialization", "implicit/cpu/bpr.pyx:BayesianPersonalizedRanking.fit")],
  ["factors after fit / one update; callback arguments"]),
P("C17", "LMF training applies the logistic gradient with its bias columns fixed",
  "Each LMF half-epoch updates every row that has interactions, independently, by AdaGrad (learning rate divided by the root of 1e-6 plus the accumulated squared gradient) along the gradient sum_i c_i*y_i - sum_i c_i*sigmoid(x.y_i)*y_i - sum over sampled j of sigmoid(x.y_j)*y_j - reg*x, where the samples are items of stored interactions and their number is the row's number of interactions times neg_prop, at most the number of rows on the other side. Rows without interactions keep their learned columns unchanged, and after every epoch the reserved columns are 1: the second to last of every user and the last of every item. Training starts from zero rows for users and items without interactions, apart from those reserved columns.",
  ["inputs", "configurations"], "every interaction matrix, seed, learning rate, regularization, neg_prop; single thread for exact values",
  "tests check that training ranks a tiny matrix; gradient or bias-column errors still learn",
  ["implicit/cpu/lmf.pyx"],
  [("half-epoch", "implicit/cpu/lmf.pyx:lmf_update"), ("bias columns and initialization", "implicit/cpu/lmf.pyx:LogisticMatrixFactorization.fit")],
  ["factors after fit / one update"]),
P("C18", "A seed determines the result, and only through the given random state",
  "For every model and split, the same integer seed (or generator in the same state) with the same data, settings and one thread gives bit-identical results, independent of the global random state of the process, of earlier calls and of whether progress is shown; ALS does so for every number of threads up to float rounding. Different seeds give different random draws. An integer, a Generator, a legacy RandomState and None are all accepted as random state, and no call disturbs numpy's global random state.",
  ["inputs", "histories", "configurations"], "every seed, kind of random state, data set, and state of the global generators",
  "tests fix one seed and compare two runs of one model in the same process state",
  ["implicit/utils.py", "implicit/evaluation.pyx", "implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx"],
  [("random state normalization", "implicit/utils.py:check_random_state"), ("all draws from it", "fit methods and splits")],
  ["factors and splits of repeated runs"]),
P("C19", "explain decomposes the predicted score into item contributions",
  "For every fitted ALS model, user row and item, explain returns a total score equal to y_item . x, where x is the exact least squares solution for that user's interactions, and a list of (item, contribution) pairs of the min(N, number of positively weighted items) largest contributions in non-increasing order, where each contribution is confidence times y_item' W y_other and all contributions together sum to the total. Passing the returned weights back in gives the same answer. The alpha scaling is applied as in training.",
  ["inputs"], "every factor matrix, user row (negative confidences included), item, N, alpha, with and without precomputed weights",
  "the tests check three items of one model with N at least the number of likes",
  ["implicit/cpu/als.py"],
  [("contributions and heap", "implicit/cpu/als.py:explain"), ("normal equations", "implicit/cpu/als.py:user_linear_equation")],
  ["return value of explain"]),
P("C20", "No call reads or writes outside its arrays; mismatched shapes are rejected",
  "For every well-formed input, every access the native code makes to factors, sparse matrix arrays, scratch buffers and result arrays is inside the array, so no call crashes or uses unrelated memory. Interactions that do not match the model (ids beyond the model's items or users, a row count different from the number of ids, refitting on another shape) and unknown user or item ids raise ValueError or IndexError instead of touching memory outside (an item-item model answers similar_items for an item beyond the model with empty arrays). Factors of an unsupported type are rejected.",
  ["inputs", "configurations"], "every matrix, id, N, K, thread count and precision accepted by the public API",
  "an out-of-bounds access usually passes silently in a test; tests pass only matching shapes",
  ["implicit/cpu/_als.pyx", "implicit/cpu/topk.pyx", "implicit/cpu/select.h", "implicit/_nearest_neighbours.pyx", "implicit/nearest_neighbours.h", "implicit/evaluation.pyx", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/cpu/als.py", NN],
  [("shape guards", "implicit/cpu/als.py:recalculate_user,recalculate_item,fit; " + NN + ":recommend"), ("index arithmetic of native loops", "all .pyx/.h")],
  ["exceptions; memory accesses of native code"]),
P("C21", "Approximate-search wrappers honour filters and report true scores",
  "For every approximate model (Annoy, NMSLib, Faiss) wrapping a factor model, recommend and similar_items never return a filtered or already-liked item, return at most N items, report for each returned item the true inner product (cosine for similar_items) with the query up to float32 accuracy, in non-increasing order, and give the wrapped model's exact answer when the approximate index is disabled. The transformation used to turn inner products into angles gives every item the same norm and preserves inner products with queries extended by a zero.",
  ["inputs", "configurations"], "every factor matrix, query, N, filter list (list or array), scalar or batch, every backend",
  "tests only compare overlap with the exact model on one dataset without checking scores",
  ["implicit/ann/annoy.py", "implicit/ann/faiss.py", "implicit/ann/nmslib.py", "implicit/utils.py"],
  [("augmentation", "implicit/utils.py:augment_inner_product_matrix"), ("filtering", "implicit/utils.py:_filter_items_from_results"), ("score conversion", "implicit/ann/*.py")],
  ["ids and scores returned"]),
P("C22", "ALS training alternates full sweeps with alpha-scaled confidences",
  "ALS fit performs exactly the configured number of iterations, each first updating all users from the current item factors and then all items from the just updated user factors, with confidences equal to alpha times the input values, starting from already present factors when there are any and from small random factors otherwise. The callback is called once per iteration, in order, with the iteration number and the training loss (None unless loss calculation is on), and integer, boolean, float32 and float64 or non-CSR input give the same factors. Training that produces NaN raises a fit error instead of returning silently.",
  ["inputs", "configurations"], "every matrix, alpha, iteration count, solver choice, input type",
  "tests look at reconstruction quality after 15 sweeps, where a skipped or reordered sweep or an unscaled side converges to the same place",
  ["implicit/cpu/als.py", "implicit/als.py", MFB],
  [("alternation", "implicit/cpu/als.py:AlternatingLeastSquares.fit"), ("NaN check", MFB + ":_check_fit_errors")],
  ["factors after fit; callback arguments; exceptions"]),
P("C23", "GPU and CPU implementations agree",
  "Every model offered for both devices gives the same recommendations, similarities and training updates on GPU and CPU up to float rounding.",
  ["inputs", "configurations"], "every model with a GPU implementation",
  "the GPU tests are skipped without a CUDA device",
  ["implicit/gpu/als.py", "implicit/gpu/bpr.py", "implicit/gpu/matrix_factorization_base.py", "implicit/gpu/knn.cu", "implicit/gpu/als.cu"],
  [("CUDA kernels", "implicit/gpu/*.cu")],
  ["GPU model outputs"]),
P("C24", "Constructors and factories keep every setting under its own name",
  "Every model built through a class (implicit.cpu.*, implicit.nearest_neighbours) or a factory (implicit.als, implicit.bpr, implicit.lmf, implicit.approximate_als) has exactly the settings given, each under its own name, whether passed by position or by keyword, and the documented default for every other one; a new model has no factors. The approximate models pass the settings of the wrapped ALS model through unchanged and use their own index settings.",
  ["inputs", "configurations"], "every subset of settings and every value",
  "tests construct models with one or two settings and never compare the attributes",
  ["implicit/als.py", "implicit/bpr.py", "implicit/lmf.py", "implicit/approximate_als.py", "implicit/cpu/als.py", "implicit/cpu/bpr.pyx", "implicit/cpu/lmf.pyx", "implicit/nearest_neighbours.py"],
  [("factories", "implicit/als.py, implicit/bpr.py, implicit/lmf.py, implicit/approximate_als.py"), ("constructors", "__init__ of the models")],
  ["attributes of a new model"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(props))
