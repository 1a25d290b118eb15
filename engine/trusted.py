"""What the proofs rest on (reported in every evidence file)."""

BASE = [
    "CPython executes the real functions of /repo on symbolic operands; the verification conditions are the values they compute (no extraction, no rewriting of the source)",
    "the symbolic array module engine/facade.py + engine/sym.py states the contracts of the numpy / jax.numpy / scipy.special functions the code calls (elementwise arithmetic, IEEE special values, where/select, reductions, trapezoid, linspace, meshgrid, indexing)",
    "the normaliser engine/terms.py and prover engine/solver.py (sums of rational functions over exp/log/power atoms; z3 for sign questions)",
    "z3",
]
ASSUMPTIONS = [
    "machine arithmetic is treated as real arithmetic extended with NaN and infinities (no rounding, overflow, underflow or signed zero); decimal constants denote their decimal value",
    "numpy, scipy.special and jax.numpy implement the mathematical functions they document",
    "special functions are uninterpreted apart from: positivity and monotonicity of the normal distribution function, its reflection formula, parity of cos/i0e, positivity of i0e",
    "run-time (bounded) checks use a relative tolerance of 1e-6 unless the contract states another",
]
LOOPS = "loops over any number of events: the generic-iteration rule of engine/loops.py (body executed once for an arbitrary index with havocked loop variables; closed forms for sums, minima, array writes, appends and labelled dictionary entries)"
PER_PROPERTY = {
    "C09": [LOOPS],
    "C11": [LOOPS, "a sum over hyper-samples of weights normalised over the samples of an event is positive (assumed lemma)"],
    "C16": [LOOPS],
    "C17": [LOOPS],
}
LEVELS = {"C15": "fault_enumeration"}
TECHNIQUE = {"C15": "contracts on the real functions, an invariant over histories, checked by exhaustive enumeration of states, requests and failures (bounded in the registry)"}
