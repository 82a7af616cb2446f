"""writes levels.json: proof where no function is left to bounded stand-ins, exploration otherwise"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "contracts"))
from coverage_table import RESIDUE
NOTE = {
 "C01": "recommend, topk, the batch search, select.h and the list filters are under contract for all shapes, ids, N and lists",
 "C02": "recommend and similar_* of factor models, recommend of item-item models and the list filters are under contract",
 "C03": "similar_items, similar_users, the norm caches, topk and select.h are under contract",
 "C04": "scalar and array forms of every factor-model query satisfy the same contract; _batch_call is under contract for any scalar query",
 "C05": "every contract has frame obligations on its arguments and on the model",
 "C06": "the native kernel, the Python solver, user_factor and recalculate_* are under contract against the equations of the property",
 "C07": "the native kernel and the Python solver are proved equal to the same CG recurrence on the system of the direct solver",
 "C08": "calculate_loss is proved equal to the definition of the property",
 "C09": "partial_fit_*, recalculate_*, the cached norms and Gram matrices and fit are under contract (class invariant of the caches)",
 "C10": "save, load and the pickling methods of all classes are under contract with a model of the npz format",
 "C11": "all_pairs_knn, TopK and SparseMatrixMultiplier are under contract (loop invariants)",
 "C12": "the scorer, recommend and similar_items of item-item models are under contract; the state between calls is an invariant of the class",
 "C13": "the weighting functions and normalize are under contract against the formulas, and fit of each model against its weighting",
 "C14": "bounded run-time contracts against an independent implementation of the metrics",
 "C15": "train_test_split is under contract",
 "C16": "bpr_update is under contract: one step, its skips and counts",
 "C17": "lmf_update is under contract; one known finding",
 "C18": "check_random_state and every draw of the functions under contract: which generator is used",
 "C19": "explain and user_linear_equation are under contract: the weighted item, the total, the heap (loop invariant), the order and the weights returned, for rows in CSR form without duplicate or zero entries and alpha > 0; that y.(A^-1 b) = b.(A^-1 y) for the symmetric A is assumed",
 "C20": "every index of every function under contract is an obligation; shape and id checks are obligations",
 "C21": "augment_inner_product_matrix, _batch_call, constructors and factories are under contract",
 "C22": "fit is under contract: order of sweeps, alpha, loss, callback, input conversion",
 "C24": "constructors and factories are under contract for every subset and value of settings",
}
out = {}
for k, n in NOTE.items():
    r = RESIDUE.get(k) or []
    out[k] = ["exploration" if r else "proof",
              "%s%s. Arithmetic is exact in the proof; library models are assumed contracts (trusted_base in the evidence)."
              % (n, "; " + "; ".join(r) if r else "")]
json.dump(out, open(os.path.join(V, "tools", "levels.json"), "w"), indent=1)
