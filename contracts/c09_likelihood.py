"""C09, C10, C11: population likelihoods."""
import numpy as np

from engine.contract import contract, Raised
from engine import specs as SP, deps, solver, sym
from engine.sym import Unsupported

H = "gwpopulation.hyperpe."
CTOR = [H + "HyperparameterLikelihood.__init__", H + "HyperparameterLikelihood.resample_posteriors"]
LIKE = [H + "HyperparameterLikelihood.ln_likelihood_and_variance", H + "HyperparameterLikelihood._compute_per_event_ln_bayes_factors",
        H + "HyperparameterLikelihood._get_selection_factor", H + "HyperparameterLikelihood._selection_function_with_uncertainty"]
RATE = [H + "RateLikelihood._get_selection_factor"]
BIG = float(np.finfo(float).max)

KINDS = ("HyperparameterLikelihood", "RateLikelihood", "NullHyperparameterLikelihood")
SEL = ("default", "value", "pair")

solver.FN_RANGE["pop"] = (0, None, False, False)


def pop(S, data, lam):
    """an arbitrary non-negative population model"""
    if S.symbolic:
        return S.app("pop", data["a"], data["b"], lam)
    xp = S.bxp
    a, b = data["a"], data["b"]
    return xp.where(a > 2.5, 0.0, xp.exp(-a * lam) * (1 + xp.cos(b)) + 1e-3)


def pop_spec(S, data, lam):
    if S.symbolic:
        return S.app("pop", data["a"], data["b"], lam)
    a, b = np.asarray(data["a"], dtype=float), np.asarray(data["b"], dtype=float)
    lam = float(lam)
    return np.where(a > 2.5, 0.0, np.exp(-a * lam) * (1 + np.cos(b)) + 1e-3)


def hyper_prior(S, how="function"):
    def model(dataset, lam):
        r = pop(S, dataset, lam)
        if how == "nan":  # undefined everywhere (proof), for one sample of one event (run time)
            r = r * float("nan") if S.symbolic else r + np.where(np.arange(r.size).reshape(r.shape) == S.nan_at % r.size, np.nan, 0.0)
        return r
    if how in ("function", "nan"):
        return model
    if how == "Model":
        from bilby.hyper.model import Model
        return Model([model])

    class Own:
        parameters = {}

        @staticmethod
        def prob(data, lam, **unused):
            return pop(S, data, lam)
    return Own()


def convert(S, kind):
    """a user's conversion function: the model's parameter is a function of the sampled one"""
    if kind == "default":
        return {}, lambda p: p["lam"]

    def conv(p):
        q = p if kind == "inplace" else dict(p)
        q["lam"] = S.app("user_conv", p["lam0"]) if S.symbolic else 2 * p["lam0"] + 0.5
        return q, ["lam"]
    return dict(conversion_function=conv), lambda p: (S.app("user_conv", p["lam0"]) if S.symbolic else 2 * float(p["lam0"]) + 0.5)


solver.FN_RANGE["user_pdet"] = (0, None, True, False)
solver.FN_RANGE["user_var"] = (0, None, False, False)


def selection(S, kind, lam_of):
    """-> keyword arguments, (P_det, var) as the contract sees them; the user's function sees the converted parameters"""
    if kind == "default":
        return {}, lambda p: (1.0, 0.0)
    sel = S.par("pdet", S.logreal(0.01, 2), sign={1})
    var = S.par("pdet_var", S.logreal(1e-6, 1e-2, 0.0), sign={0, 1}) if kind == "pair" else 0.0

    def both(lam):
        if S.symbolic:
            return S.app("user_pdet", sel, lam), (S.app("user_var", var, lam) if kind == "pair" else 0.0)
        return sel * (1 + 0.1 * lam ** 2), var * (1 + lam ** 2)

    def fn(p):
        r = both(p["lam"])
        return r if kind == "pair" else r[0]
    return dict(selection_function=fn), lambda p: both(lam_of(p))


def make(S, kind, posteriors, prior_model, **kw):
    return getattr(S.mod("hyperpe"), kind)(posteriors, prior_model, **kw)


def posteriors(S, n, prior, unequal=False):
    """n tables of event samples"""
    out = []
    for i in range(n):
        size = "L%d" % (i if unequal else 0)
        if S.symbolic:
            S.size(size)
            S.assume(S.size(size) >= 1)
            S.assume(S.size(size) < 10 ** 9)
        cols = {}
        for k, dom in (("a", S.real(0, 3)), ("b", S.real(-3, 3))):
            cols[k] = S.arr("%s%d" % (k, i), (size,), dom)
        if prior:
            cols["prior"] = S.arr("prior%d" % i, (size,), S.logreal(0.1, 5), sign={1})
        out.append(deps.frame(S, cols, size, i))
    return out


def weights(S, posts, lam, prior):
    """the weights of the samples the likelihood holds, one array per event"""
    out = []
    for d in posts:
        w = pop_spec(S, d, lam)
        out.append(w / SP.A(S, d["prior"]) if prior else w)
    return out


def event_terms(S, ws):
    xp = S.xp
    lnz, var = [], []
    for w in ws:
        k = w.shape[-1]
        m = xp.mean(w, axis=-1)
        m2 = xp.mean(w ** 2, axis=-1)
        lnz.append(xp.log(m))
        var.append((m2 - m ** 2) / (k * m ** 2))
    return lnz, var


def selection_terms(S, kind, n, sel, var, rate):
    xp = S.xp
    sel, var = SP.A(S, sel), SP.A(S, var)
    if kind == "RateLikelihood":
        r = SP.A(S, rate)
        return n * xp.log(r) - r * sel, r * sel * var / sel ** 2
    return -n * xp.log(sel), n ** 2 * var / sel ** 2


def pars_of(S, conv, kind, rate=None):
    p = dict(lam0=S.par("lam0", S.real(0.1, 2))) if conv != "default" else dict(lam=S.par("lam", S.real(0.1, 2)))
    if kind == "RateLikelihood":
        p["rate"] = S.par("rate", S.logreal(0.1, 100), sign={1})
    return p


NBOUND = "number of events N in {1,2,3} (the number of samples per event is arbitrary); likelihood_any_number_of_events covers every N"

CASES = [dict(n=n, kind=k, sel=s, prior=p, conv=c, how=h) for (n, k, s, p, c, h) in [
    (1, KINDS[0], "default", True, "default", "function"), (2, KINDS[0], "value", False, "user", "Model"), (3, KINDS[0], "pair", True, "user", "own"),
    (1, KINDS[1], "pair", False, "default", "Model"), (2, KINDS[1], "pair", True, "user", "function"), (3, KINDS[1], "value", True, "default", "own"),
    (2, KINDS[2], "pair", True, "default", "function"), (2, KINDS[0], "pair", True, "default", "own")]]


@contract(["C09", "C10"], CTOR + LIKE + RATE + [H + "NullHyperparameterLikelihood.ln_likelihood_and_variance"], cases=CASES, bounded=NBOUND)
def likelihood_from_posteriors(S, n, kind, sel, prior, conv, how):
    """from the tables of samples to the estimate and its variance"""
    unequal = S.choice("sizes", [False, True]) if n > 1 else False
    if S.symbolic and n > 2 and unequal:
        S.assume(False)
    posts = posteriors(S, n, prior, unequal)
    kw = {}
    if S.choice("max_samples", [False, True]):
        M = kw["max_samples"] = S.size("M", 1, 6)
        if S.symbolic:
            S.assume(M >= 1)
    ckw, lam_of = convert(S, conv)
    skw, sel_of = selection(S, sel, lam_of)
    p = pars_of(S, conv, kind)
    S.frame(p, *posts)
    like = S.call(lambda: make(S, kind, posts, hyper_prior(S, how), **kw, **ckw, **skw))
    if isinstance(like, Raised):
        S.ensure(like, 0.0, "construction")
    drawn = deps.drawn(S, posts, like)
    k = min_size(S, posts, kw.get("max_samples"))
    for d in drawn:
        S.ensure(d["a"].shape[0] * 1.0, k * 1.0, "every event contributes the same number of samples: the smallest available")
    lam = lam_of(p)
    ws = weights(S, drawn, lam, prior)
    for w in ws:
        S.assume(S.xp.mean(w, axis=-1) > 0)
    lnz, var = event_terms(S, ws)
    ts, tv = selection_terms(S, kind, n, *sel_of(p), p.get("rate"))
    ln_l = sum(lnz) + ts
    if kind.startswith("Null"):
        ln_l = SP.A(S, 0.0)
    if not S.symbolic:
        S.atol = 1e-10
    S.ensure(S.call(lambda: like.ln_likelihood_and_variance(p)), (ln_l, sum(var) + tv), "estimate and variance", shape=False)
    S.ensure(S.call(lambda: like.log_likelihood_ratio(p)), ln_l, "log-likelihood ratio without a cut", shape=False)


def min_size(S, posts, m):
    k = None
    for q in posts:
        n = q.__symlen__() if S.symbolic else len(q)
        k = n if k is None or bool(n < k) else k
    if m is not None and bool(m < k):
        k = m
    return k


# ------------------------------------------------------------------ any number of events


def any_posteriors(S, prior):
    """any number of tables of samples, each of any length"""
    doms = [("a", S.real(0, 3), None), ("b", S.real(-3, 3), None)] + ([("prior", S.logreal(0.1, 5), {1})] if prior else [])
    if S.symbolic:
        S.loops()
        S.size("N"), S.size("L")
        S.assume(S.size("N") >= 1)
        return deps.SymTables(S, {k: S.arr(k, ("N", "L"), dom, sign=sg) for k, dom, sg in doms}, "N", "L")
    n = S.choice("N", [1, 2, 4, 7])
    sizes = [S.choice("rows", [1, 2, 3, 5, 8]) for _ in range(n)]
    return [deps.frame(S, {k: S.arr(k + str(i), (sizes[i],), dom, sign=sg) for k, dom, sg in doms}, None, i) for i in range(n)]


def any_drawn(S, posts, like, limit=None):
    """the samples held for every event, (N, K) arrays; their number is the smallest available (at most the limit)"""
    what = "every event contributes the same number of samples: the smallest available"
    if S.symbolic:
        from engine import loops
        d = posts.drawn()
        fold = {("all",) + loops.shape_key(posts.at(posts.len, ("L", "N@*")).node)}
        if limit is not None:
            fold.add(loops.describe(limit.node))
        S.ensure_true(loops.fold_of(posts.samples[0]) == fold, what, "the number of samples is the minimum of %s" % sorted(map(str, loops.fold_of(posts.samples[0]))))
        return d, S.size("N"), S.size(posts.samples[0])
    rows = deps.drawn(S, posts, like)
    k = min(len(q) for q in posts)
    if limit is not None:
        k = min(k, limit)
    for r in rows:
        S.ensure_true(len(r["a"]) == k, what)
    return {q: np.array([r[q] for r in rows]) for q in rows[0]}, len(posts), k


FULL = [dict(kind=k, sel=s, prior=p, conv=c, how=h) for k in KINDS for (s, p, c, h) in (("pair", True, "user", "own"), ("value", False, "default", "Model"), ("default", True, "inplace", "function"))]


@contract(["C09", "C10"], CTOR + LIKE + RATE + [H + "NullHyperparameterLikelihood.ln_likelihood_and_variance", H + "HyperparameterLikelihood.log_likelihood_ratio"], cases=FULL, num_scale=0.5)
def likelihood_from_any_posteriors(S, kind, sel, prior, conv, how):
    """from any number of tables of any lengths to the estimate and its variance"""
    posts = any_posteriors(S, prior)
    kw = {}
    if S.choice("max_samples", [False, True]):
        M = kw["max_samples"] = S.size("M", 1, 6)
        if S.symbolic:
            S.assume(M >= 1)
            S.assume(M < 10 ** 9)
    ckw, lam_of = convert(S, conv)
    skw, sel_of = selection(S, sel, lam_of)
    p = pars_of(S, conv, kind)
    lam, (pd, pv), rate = lam_of(p), sel_of(p), p.get("rate")
    S.frame(*([] if conv == "inplace" else [p]), *([] if S.symbolic else posts))
    like = S.call(lambda: make(S, kind, posts, hyper_prior(S, how), **kw, **ckw, **skw))
    if isinstance(like, Raised):
        S.ensure(like, 0.0, "construction")
    d, N, K = any_drawn(S, posts, like, kw.get("max_samples"))
    w, m, lnz, var = any_terms(S, d, lam, prior)
    S.assume(m > 0)
    ts, tv = selection_terms(S, kind, N, pd, pv, rate)
    ln_l = S.xp.sum(lnz) + ts
    if kind.startswith("Null"):
        ln_l = SP.A(S, 0.0)
    if not S.symbolic:
        S.atol = 1e-9
    S.ensure(S.call(lambda: like.ln_likelihood_and_variance(p)), (ln_l, S.xp.sum(var) + tv), "estimate and variance", shape=False)
    S.ensure(S.call(lambda: like.log_likelihood_ratio(p)), ln_l, "log-likelihood ratio without a cut", shape=False)

STATE = ("data", "sampling_prior", "n_posteriors", "samples_per_posterior")
KNOWN = set(STATE) | {"hyper_prior", "total_noise_evidence", "conversion_function", "selection_function", "_maximum_uncertainty", "_max_variance", "_inf", "_parameters", "parameters", "_meta_data", "meta_data", "_Likelihood__marginalized_parameters", "_marginalized_parameters"}


def any_state(S, kind, prior, how="function", **kw):
    """a likelihood in an arbitrary state satisfying the class invariant established by the constructor

    data: arrays of shape (N, K), sampling_prior of the same shape (or 1), n_posteriors = N, samples_per_posterior = K
    """
    if S.symbolic:
        N, K = S.size("N"), S.size("K")
        S.assume(N >= 1)
        S.assume(K >= 1)
        data = {k: S.arr(k, ("N", "K")) for k in ("a", "b")}
        pr = S.arr("prior", ("N", "K"), sign={1}) if prior else 1
        seed = deps.frame(S, {k: S.arr(k + "_seed", ("K",)) for k in ("a", "b")}, "K", 0)
        S.assume(K < 10 ** 9)
        like = make(S, kind, [seed], hyper_prior(S, how), **kw)
        extra = set(vars(like)) - KNOWN
        if extra or any(x not in vars(like) for x in STATE):
            raise Unsupported("the representation of the likelihood is not the one the class invariant describes: %s" % sorted(extra))
        like.data, like.sampling_prior, like.n_posteriors, like.samples_per_posterior = data, pr, N, K
        d = dict(data)
        if prior:
            d["prior"] = pr
        return like, d, N, K
    n, k = S.choice("N", [1, 2, 4, 7]), S.size("K", 1, 6)
    import pandas as pd

    posts = []
    cols = {q: S.arr(q, (n, k), dom, sign=sg) for q, dom, sg in (("a", S.real(0, 3), None), ("b", S.real(-3, 3), None)) + ((("prior", S.logreal(0.1, 5), {1}),) if prior else ())}
    posts = [deps.frame(S, {q: np.asarray(v[i]) for q, v in cols.items()}, None, i) for i in range(n)]
    like = make(S, kind, posts, hyper_prior(S, how), **kw)
    dr = deps.drawn(S, posts, like)
    d = {q: np.array([x[q] for x in dr]) for q in cols}
    return like, d, n, k


def any_terms(S, d, lam, prior):
    xp = S.xp
    w = pop_spec(S, d, lam)
    if prior:
        w = w / SP.A(S, d["prior"])
    m, m2 = xp.mean(w, axis=-1), xp.mean(w ** 2, axis=-1)
    k = w.shape[-1]
    return w, m, xp.log(m), (m2 - m ** 2) / (k * m ** 2)


ANY = [dict(kind=k, sel=s, prior=p, conv=c) for k in KINDS for (s, p, c) in (("pair", True, "user"), ("value", False, "default"), ("default", True, "default"))]


@contract(["C09", "C10"], LIKE + RATE + [H + "NullHyperparameterLikelihood.ln_likelihood_and_variance", H + "HyperparameterLikelihood.log_likelihood_ratio"], cases=ANY)
def likelihood_any_number_of_events(S, kind, sel, prior, conv):
    """any number of events and of samples per event"""
    ckw, lam_of = convert(S, conv)
    skw, sel_of = selection(S, sel, lam_of)
    like, d, N, K = any_state(S, kind, prior, **ckw, **skw)
    p = pars_of(S, conv, kind)
    S.frame(p, getattr(like, "data", None))
    w, m, lnz, var = any_terms(S, d, lam_of(p), prior)
    S.assume(m > 0)
    ts, tv = selection_terms(S, kind, N, *sel_of(p), p.get("rate"))
    ln_l = S.xp.sum(lnz) + ts
    if kind.startswith("Null"):
        ln_l = SP.A(S, 0.0)
    if not S.symbolic:
        S.atol = 1e-9
    S.ensure(S.call(lambda: like.ln_likelihood_and_variance(p)), (ln_l, S.xp.sum(var) + tv), "estimate and variance", shape=False)
    S.ensure(S.call(lambda: like.log_likelihood_ratio(p)), ln_l, "log-likelihood ratio without a cut", shape=False)
    S.ensure(S.call(lambda: like._compute_per_event_ln_bayes_factors(lam_p(like, p)) if hasattr(like, "_compute_per_event_ln_bayes_factors") else (lnz, var)), (lnz, var), "per-event terms")


def lam_p(like, p):
    return like.conversion_function(p)[0]


# ------------------------------------------------------------------ C09: evidences


@contract("C09", [H + "HyperparameterLikelihood.noise_log_likelihood", H + "HyperparameterLikelihood.log_likelihood", H + "HyperparameterLikelihood.__init__"], cases=[dict(kind=k, form=f) for k in KINDS for f in ("list", "array")], num_scale=0.5)
def evidences(S, kind, form):
    """log_likelihood = sum of the single-event log-evidences + ratio"""
    lnz = S.arr("lnZ", ("E",), S.real(-50, 50)) if form == "array" else [S.par("lnZ%d" % i, S.real(-50, 50)) for i in range(2)]
    tot = S.xp.sum(SP.A(S, lnz)) if form == "array" else SP.A(S, lnz[0]) + SP.A(S, lnz[1])
    posts = posteriors(S, 2, True)
    p = pars_of(S, "default", kind)
    like = S.call(lambda: make(S, kind, posts, hyper_prior(S), ln_evidences=lnz))
    S.frame(p)
    S.ensure(S.call(lambda: like.noise_log_likelihood()), tot, "noise evidence", shape=False)
    if S.symbolic:
        for w in weights(S, deps.drawn(S, posts, like), p["lam"], True):
            S.assume(S.xp.mean(w, axis=-1) > 0)
    ratio = S.call(lambda: like.log_likelihood_ratio(p))
    S.ensure(S.call(lambda: like.log_likelihood(p)), tot + SP.A(S, ratio), "full log-likelihood", shape=False)


# ------------------------------------------------------------------ C10: the cut


def special(S, name, what, dom, sign=None):
    """a value that is an arbitrary number or one of the IEEE specials"""
    if what == "number":
        v = S.par(name, dom, sign=sign)
        return v
    return dict(nan=float("nan"), inf=float("inf"), ninf=-float("inf"))[what]


def as0(S, v):
    """as a 0-d array of the backend"""
    return S.xp.asarray(v) if S.symbolic else S.bxp.asarray(v)


def cut_spec(S, est, var, est_kind, var_kind, limit):
    """the value the contract prescribes for the log-likelihood ratio"""
    if est_kind == "nan":
        return -BIG
    over = False
    if limit is not None:
        if var_kind == "number":
            # uncertainty = sqrt(variance) exceeds the limit
            over = S.decide(SP.A(S, var) > SP.A(S, limit) * SP.A(S, limit))
        elif var_kind == "inf":
            over = True
    if over or est_kind == "ninf":
        return -BIG
    return BIG if est_kind == "inf" else est


CUTS = [dict(est=e, var=v, limited=l) for e in ("number", "nan", "inf", "ninf") for v in ("number", "nan", "inf") for l in ("default", "constructor", "attribute")]


@contract("C10", [H + "HyperparameterLikelihood.log_likelihood_ratio", H + "HyperparameterLikelihood.maximum_uncertainty"], cases=CUTS, num_scale=0.5)
def uncertainty_cut(S, est, var, limited):
    """the ratio as a function of whatever estimate and variance are reported"""
    e = special(S, "estimate", est, S.real(-1e3, 1e3))
    v = special(S, "variance", var, S.logreal(1e-3, 1e2), sign={0, 1})
    lim = None
    kw = {}
    if limited != "default":
        lim = S.par("maximum_uncertainty", S.logreal(0.05, 5), sign={0, 1})
        if limited == "constructor":
            kw["maximum_uncertainty"] = lim
        if not S.symbolic and var == "number" and S.rng.random() < 0.3:
            # exactly at the limit: the uncertainty does not exceed it
            lim = S.inputs["maximum_uncertainty"] = 2.0 ** S.rng.randint(-3, 3)
            v = S.inputs["variance"] = lim ** 2
            kw.update({k: lim for k in kw})

    class Fixed(S.mod("hyperpe").HyperparameterLikelihood):
        def ln_likelihood_and_variance(self, parameters):
            return as0(S, e), (v if S.mode == "numpy" else as0(S, v))
    like = S.call(lambda: Fixed(posteriors(S, 1, False), hyper_prior(S), **kw))
    if limited == "attribute":
        like.maximum_uncertainty = lim
    if limited != "default":
        S.ensure(S.call(lambda: like.maximum_uncertainty), SP.A(S, lim), "configured maximum", shape=False)
    got = S.call(lambda: like.log_likelihood_ratio(dict(lam=1.0)))
    S.ensure(got, cut_spec(S, e, v, est, var, lim), "log-likelihood ratio", shape=False)
    S.finite(got)


SPECIAL_SEL = ("number", "zero", "inf", "nan")


@contract("C10", [H + "HyperparameterLikelihood.log_likelihood_ratio"] + LIKE + RATE, cases=[dict(kind=k, sel=s, var=v, events=e) for k in KINDS for s in SPECIAL_SEL for v in ("number", "none", "inf") for e in ("some", "empty")] + [dict(kind=k, sel="number", var=v, events="nan") for k in KINDS for v in ("number", "none")], num_scale=0.25)
def ratio_always_finite(S, kind, sel, var, events):
    """vanishing, infinite or undefined selection values and events without support: the ratio is a finite number, and the documented cut decides it"""
    xp = S.xp
    limited = S.choice("limited", [False, True])
    lim = S.par("maximum_uncertainty", S.logreal(0.05, 5), sign={1}) if limited else None
    p0 = S.par("pdet", S.logreal(0.01, 2), sign={1}) if sel == "number" else dict(zero=0.0, inf=float("inf"), nan=float("nan"))[sel]
    v0 = None if var == "none" else (S.par("pdet_var", S.logreal(1e-6, 1e-1), sign={0, 1}) if var == "number" else float("inf"))

    def fn(p):
        return p0 if v0 is None else (as0(S, p0), as0(S, v0))
    kw = dict(selection_function=fn)
    if limited:
        kw["maximum_uncertainty"] = lim
    if events == "nan" and not S.symbolic:
        S.nan_at = S.rng.randrange(1000)
    like, d, N, K = any_state(S, kind, True, "nan" if events == "nan" else "function", **kw)
    p = pars_of(S, "default", kind)
    w = pop_spec(S, d, p["lam"]) / SP.A(S, d["prior"])
    m = xp.mean(w, axis=-1)
    if events == "some":
        S.assume(m > 0)
    got = S.call(lambda: like.log_likelihood_ratio(p))
    S.finite(got)
    if events == "nan" and not kind.startswith("Null"):
        S.ensure(got, -BIG, "an undefined estimate is rejected", shape=False)
    if events == "some" and sel == "number" and var != "inf":
        lnz = xp.log(m)
        m2 = xp.mean(w ** 2, axis=-1)
        vs = (m2 - m ** 2) / (w.shape[-1] * m ** 2)
        ts, tv = selection_terms(S, kind, N, p0, 0.0 if v0 is None else v0, p.get("rate"))
        est = xp.sum(lnz) + ts if not kind.startswith("Null") else SP.A(S, 0.0)
        tot = xp.sum(vs) + tv
        if limited:
            if not S.symbolic and abs(float(tot) - lim ** 2) < 1e-9:
                S.assume(False)
            est = xp.where(tot > SP.A(S, lim) ** 2, -BIG, est)
        if not S.symbolic:
            S.atol = 1e-9
        S.ensure(got, est, "estimate or rejection", shape=False)
