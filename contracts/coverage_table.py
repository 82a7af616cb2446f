"""What is assumed everywhere, and which functions a property depends on that no contract covers (per property)."""
GENERAL = [
    "floating point and fixed-width integer arithmetic are treated as exact real and integer arithmetic",
    "the interpreter of pyvc (front ends for Python, Cython and C++, library models, normaliser) is trusted; its models of numpy, "
    "scipy, BLAS, LAPACK and the C++ standard library are the assumed contracts listed in trusted_base",
    "a prange body is race free where its race obligations are discharged; OpenMP's scheduling is then irrelevant",
    "BPR's parallel updates of shared factor rows (Hogwild) are verified as a sequence of steps: one thread",
]
BOUNDED = "bounded stand-in only: "
RESIDUE = {
    "C02": [BOUNDED + "ItemItemRecommender.similar_items with a list of items"],
    "C04": [BOUNDED + "recommend_all and the deprecated rank_items; queries of the approximate models"],
    "C05": [BOUNDED + "the ranking metrics, leave_k_out_split, BPR.fit, LMF.fit"],
    "C09": [BOUNDED + "BPR.fit and LMF.fit (they reset the norms)"],
    "C11": [BOUNDED + "ItemItemRecommender.fit and its subclasses (tocsr of the result of all_pairs_knn)"],
    "C12": [BOUNDED + "ItemItemRecommender.similar_items with a list of items"],
    "C14": [BOUNDED + "ranking_metrics_at_K and the metrics built on it (implicit/evaluation.pyx)"],
    "C15": [BOUNDED + "leave_k_out_split, _take_tails, _choose"],
    "C16": [BOUNDED + "BPR.fit (initialisation, epochs) and the drawing of samples by RNGVector (a stored like, a stored item)"],
    "C17": [BOUNDED + "LMF.fit (initialisation, epochs, reserved columns)"],
    "C18": [BOUNDED + "equality of two runs of fit (a relation between two executions); the contracts cover which generator is drawn from"],
    "C19": [],
    "C20": [BOUNDED + "bounds inside the ranking metrics and the random generators (address sanitizer runs)"],
    "C21": [BOUNDED + "recommend and similar_items of the Annoy, NMSLib and Faiss models (the libraries are not installed: stand-in indexes)"],
    "C24": [],
}
