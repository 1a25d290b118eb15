"""C16: evaluation is pure.

Relational contracts.  An instance that has been evaluated on an arbitrary earlier history (any datasets, any shapes,
any parameters, failing evaluations included) returns for the current dataset and parameters what a fresh instance
returns, and none of the caller's objects is modified.  Two results of the real code are the same if they are the same
operations on the same inputs (else their values are compared).  Histories of up to two earlier evaluations are executed;
where the instance afterwards holds the same state as a fresh instance evaluated once (checked), every longer history
reduces to these by induction; where it does not, the check says so in its evidence."""
import copy
import inspect

import numpy as np

from engine.contract import contract, Raised, looks_like_tool_limit
from engine import specs as SP, deps
from engine.sym import Unsupported, SymArr, Node, lift
from contracts import c04_smoothed as c4, c06_splines as c6, c07_redshift as c7, c08_cosmology as c8, c09_likelihood as c9, c12_selection as c12, c13_grid as c13

M = "gwpopulation.models.mass."


def run(S, thunk):
    r = S.call(thunk)
    if S.symbolic and isinstance(r, Raised) and looks_like_tool_limit(r.exc):
        raise Unsupported("%r" % r)
    return r


def history(S, make, calls, finals, longest=2, what="value"):
    """calls, finals: name -> function of the instance"""
    m, fresh = make(), make()
    for _ in range(2):  # the names of the hyperparameters may be asked for at any time (bilby does)
        S.call(lambda: list(getattr(m, "variable_names", ())))
    names = list(calls)
    done = []
    for i in range(longest):
        k = S.choice("earlier %d" % i, ["none"] + names)
        if k == "none":
            break
        done.append(k)
        run(S, lambda: calls[k](m))
    k = S.choice("now", list(finals))
    got = run(S, lambda: finals[k](m))
    ref = run(S, lambda: finals[k](fresh))
    S.same(got, ref, "%s after an earlier history" % what)
    d = S.state_difference(vars(m), vars(fresh)) if hasattr(m, "__dict__") else None
    if d:
        S.note("%s%s depends on earlier evaluations: histories of more than %d evaluations are executed only up to that length" % (type(m).__name__, d, longest + 1))
    S.check_frame()


# ------------------------------------------------------------------ mass models with a cache


def pars_smoothed(S, model, lo, hi, tag):
    names = c4.MODELS[model][0]
    h = {}
    for n in names + ["beta", "delta_m"]:
        dom = dict(alpha=S.real(-2, 4), alpha_1=S.real(-2, 4), alpha_2=S.real(-2, 4), beta=S.real(-2, 4), delta_m=S.real(0.5, 10), mmin=S.real(3, 9), mmax=S.real(40, 79), lam=S.real(0, 1), lam_1=S.real(0, 1), break_fraction=S.real(0.2, 0.8), mpp=S.real(20, 40), mpp_1=S.real(20, 40), mpp_2=S.real(40, 60), sigpp=S.real(1, 6), sigpp_1=S.real(1, 6), sigpp_2=S.real(1, 6))[n]
        h[n] = S.par(n + tag, dom, sign={1} if n in ("mmin", "mmax", "delta_m") or n.startswith(("sigpp", "mpp")) else None)
    S.assume(h["mmin"] >= lo)
    S.assume(h["mmax"] <= hi)
    S.assume(h["mmin"] < h["mmax"])
    for n in ("lam", "lam_1", "break_fraction"):
        if n in h and S.symbolic:
            S.assume(h[n] > 0)
            S.assume(h[n] < 1)
    return h


def two_datasets(S, keys, doms, signs=None):
    """three datasets, the second of another shape, the third of the shape of the first; by choice passed in the same dictionary"""
    out = []
    for tag, dims in (("", ("N",)), ("'", ("K", "J")), ("''", ("N",))):
        for d in dims:
            S.size(d, 2, 4)
        out.append({k: S.arr(k + tag, dims, doms[k], sign=(signs or {}).get(k)) for k in keys})
    return out


def container(S):
    """the function through which a dataset is passed: as it is, or as the new contents of a dictionary used before"""
    if S.choice("dictionary", ["own", "reused"]) == "own":
        return lambda d: d
    box = {}

    def fill(d):
        box.clear()
        box.update(d)
        return box
    return fill


@contract("C16", [c4.B + f for f in ("__call__", "p_m1", "norm_p_m1", "p_q", "norm_p_q", "_cache_q_norms")], cases=[dict(model=m, cache=c) for m in c4.MODELS for c in (True, False)], num_scale=0.7, modular=True)
def smoothed_history(S, model, cache):
    """earlier evaluations on either dataset with either parameters, or rejected ones"""
    S.use(*c4.KEYS)
    if S.symbolic:
        S.path.degenerate = "nan"
    deps.install_interp(S)
    kw, lo, hi = c4.grid(S)
    p, p2 = pars_smoothed(S, model, lo, hi, ""), pars_smoothed(S, model, lo, hi, "'")
    p3 = dict(p, mmin=lo / 2)
    dA, dB, dC = two_datasets(S, ("mass_1", "mass_ratio"), dict(mass_1=S.real(2, 90), mass_ratio=S.real(0.05, 1)), dict(mass_1={1}, mass_ratio={1}))
    dQ = dict(dA, mass_ratio=dC["mass_ratio"])
    u = container(S)
    S.frame(dA, dB, dC, dQ, p, p2, p3)
    history(S, lambda: getattr(S.mod("mass"), model)(cache=cache, **kw),
            {"same data, other parameters": lambda m: m(u(dA), **p2), "other data, same parameters": lambda m: m(u(dB), **p), "other data, other parameters": lambda m: m(u(dB), **p2), "data of the same shape": lambda m: m(u(dC), **p), "other mass ratios": lambda m: m(u(dQ), **p2), "rejected": lambda m: m(u(dB), **p3)},
            {"evaluation": lambda m: m(u(dA), **p)}, what="density")


def nodes(S, base, n, lo, hi, log, tag):
    if S.symbolic:
        x = {"%s%d" % (base, i): S.par("x%d%s" % (i, tag), None, sign={1} if log else None) for i in range(n)}
    else:
        a = S.par("first" + tag, S.real(lo, lo + 0.2 * (hi - lo), lo))
        b = S.par("last" + tag, S.real(lo + 0.7 * (hi - lo), hi, hi))
        v = np.exp(np.linspace(np.log(a), np.log(b), n)) if log else np.linspace(a, b, n)
        x = {"%s%d" % (base, i): float(v[i]) for i in range(n)}
    f = {"f%s%d" % (base, i): S.par("f%d%s" % (i, tag), S.real(-1, 1)) for i in range(n)}
    S.assume(sum(SP.A(S, v) ** 2 for v in f.values()) > (0 if S.symbolic else 1e-6))
    return dict(x, **f, **{"rms" + base: S.par("rms" + tag, S.real(0.1, 2), sign={1})})


@contract("C16", [c6.I + "InterpolatedNoBaseModelIdentical." + f for f in ("__call__", "p_x_identical", "p_x_unnormed", "norm_p_x", "infer_n_nodes", "setup_interpolant", "_interpolant_is_current", "extract_spline_points")], cases=[dict(model=m, kind=k, regularize=r) for m in ("SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "InterpolatedNoBaseModelIdentical") for k, r in (("cubic", False), ("linear", True))], num_scale=0.7)
def spline_history(S, model, kind, regularize):
    """earlier evaluations on other data, with other node values, other node positions or another number of nodes"""
    deps.install_interp(S)
    if model == "InterpolatedNoBaseModelIdentical":
        base, keys, lo, hi, log = "mass", ["mass_1"], 2.0, 100.0, True
        make = lambda: S.mod("interped").InterpolatedNoBaseModelIdentical(parameters=list(keys), minimum=lo, maximum=hi, nodes=4, kind=kind, log_nodes=True, regularize=regularize)
    else:
        base, keys, lo, hi = c6.BASES[model]
        log = False
        make = lambda: getattr(S.mod("spin"), model)(nodes=4, kind=kind, regularize=regularize)
    p = nodes(S, base, 4, lo, hi, log, "")
    pv = dict(p, **{k: v for k, v in nodes(S, base, 4, lo, hi, log, "v").items() if k.startswith(("f", "rms"))})
    px = nodes(S, base, 4, lo, hi, log, "'")
    pn = nodes(S, base, 6, lo, hi, log, '"')
    dom = S.real(max(lo - 0.1, 0.5) if log else lo - 0.1, hi + 0.1)
    dA, dB, dC = two_datasets(S, keys, {k: dom for k in keys}, {k: {1} for k in keys} if log else None)
    mixed = dict(dA, **{keys[-1]: dC[keys[-1]]})
    u = container(S)
    S.frame(dA, dB, mixed, p, pv, px, pn)
    history(S, make, {"other node values": lambda m: m(u(dA), **pv), "other node positions": lambda m: m(u(dA), **px), "more nodes": lambda m: m(u(dA), **pn), "other data": lambda m: m(u(dB), **p), "partly other data": lambda m: m(u(mixed), **p), "all different": lambda m: m(u(dB), **px)},
            {"evaluation": lambda m: m(u(dA), **p), "more nodes": lambda m: m(u(dA), **pn)}, what="density")


@contract("C16", [M + "InterpolatedPowerlaw." + f for f in ("p_m1", "norm_p_m1")] + [c4.B + "__call__"], cases=[dict(kind=k, regularize=r) for k, r in (("cubic", False), ("linear", True))], num_scale=0.7, modular=True)
def interpolated_power_law_history(S, kind, regularize):
    S.use("powerlaw", "smoothing")
    if S.symbolic:
        S.path.degenerate = "nan"
    deps.install_interp(S)
    kw, lo, hi = c4.grid(S)

    def pars(tag):
        h = dict(alpha=S.par("alpha" + tag, S.real(-2, 4)), beta=S.par("beta" + tag, S.real(-2, 4)), mmin=S.par("mmin" + tag, S.real(3, 9), sign={1}), mmax=S.par("mmax" + tag, S.real(40, 79), sign={1}), delta_m=S.par("delta_m" + tag, S.real(0.5, 10), sign={1}))
        S.assume(h["mmin"] >= lo)
        S.assume(h["mmax"] <= hi)
        S.assume(h["mmin"] < h["mmax"])
        return h
    p, p2 = pars(""), pars("'")
    n, n2 = nodes(S, "mass", 4, 2.0, 100.0, True, ""), nodes(S, "mass", 4, 2.0, 100.0, True, "'")
    nv = dict(n, **{k: v for k, v in n2.items() if k.startswith(("f", "rms"))})
    if not regularize:
        for x in (n, n2, nv):
            x.pop("rmsmass")
    dA, dB, dC = two_datasets(S, ("mass_1", "mass_ratio"), dict(mass_1=S.real(2, 90), mass_ratio=S.real(0.05, 1)), dict(mass_1={1}, mass_ratio={1}))
    u = container(S)
    S.frame(dA, dB, dC, p, p2, n, n2, nv)
    history(S, lambda: S.mod("mass").InterpolatedPowerlaw(nodes=4, kind=kind, regularize=regularize, **kw),
            {"other node values": lambda m: m(u(dA), **p2, **nv), "other node positions": lambda m: m(u(dA), **p, **n2), "other data": lambda m: m(u(dB), **p, **n), "data of the same shape": lambda m: m(u(dC), **p, **n), "all different": lambda m: m(u(dB), **p2, **n2)},
            {"evaluation": lambda m: m(u(dA), **p, **n)}, what="density")


# ------------------------------------------------------------------ models without a cache


class Tagged:
    """a scenario whose inputs carry another name"""

    def __init__(self, S, tag):
        self._S, self._tag = S, tag

    def __getattr__(self, name):
        return getattr(self._S, name)

    def par(self, name, *a, **k):
        return self._S.par(name + self._tag, *a, **k)

    def arr(self, name, *a, **k):
        return self._S.arr(name + self._tag, *a, **k)


@contract("C16", [c7.R + "_Redshift." + f for f in ("__call__", "probability", "normalisation", "differential_spacetime_volume", "dvc_dz", "total_spacetime_volume")], cases=c7.CASES, num_scale=0.2)
def redshift_history(S, model, cosmo):
    deps.install_cosmo(S)
    T = Tagged(S, "'")
    p, p2 = dict(c7.rate(S, model), **c7.cosmology(S, cosmo)), dict(c7.rate(T, model), **c7.cosmology(T, cosmo))
    pc = dict(p2, **{k: p[k] for k in p if k not in ("H0", "Om0", "w0")})
    kw, zm = c7.zmax_of(S)
    dA, dB, dC = two_datasets(S, ("redshift",), dict(redshift=S.real(0, 3)), dict(redshift={0, 1}))
    u = container(S)
    S.frame(dA, dB, dC, p, p2, pc)
    history(S, lambda: c7.build(S, model, cosmo_model=cosmo, **kw),
            {"other parameters": lambda m: m(u(dA), **p2), "other cosmology": lambda m: m.probability(u(dA), **pc), "other data": lambda m: m(u(dB), **p), "data of the same shape": lambda m: m.differential_spacetime_volume(u(dC), **p), "all different": lambda m: m(u(dB), **p2), "other normalisation": lambda m: m.normalisation(p2)},
            {"density": lambda m: m(u(dA), **p), "probability": lambda m: m.probability(u(dA), **p), "volume": lambda m: m.differential_spacetime_volume(u(dA), **p), "normalisation": lambda m: m.normalisation(p)}, what="redshift model")


@contract("C16", [c8.C + "CosmoMixin.detector_frame_to_source_frame", c8.C + "CosmoMixin.cosmology"], cases=[dict(source=s, cosmo=c) for s in ("distance", "redshift") for c in c7.COSMO], num_scale=0.2)
def conversion_history(S, source, cosmo):
    deps.install_cosmo(S)
    T = Tagged(S, "'")
    c, c2 = c7.cosmology(S, cosmo), c7.cosmology(T, cosmo)
    first = "luminosity_distance" if source == "distance" else "redshift"
    dA, dB, dC = two_datasets(S, (first, "mass_1_detector", "mass_ratio"), {first: S.logreal(10, 2e4) if source == "distance" else S.real(0.01, 3), "mass_1_detector": S.real(2, 90), "mass_ratio": S.real(0.05, 1)}, {first: {1}})
    u = container(S)
    S.frame(dA, dB, dC, c, c2)
    history(S, lambda: S.mod("cosmo").CosmoMixin(cosmo_model=cosmo),
            {"other cosmology": lambda m: m.detector_frame_to_source_frame(u(dA), **c2), "other data": lambda m: m.detector_frame_to_source_frame(u(dB), **c), "data of the same shape": lambda m: m.detector_frame_to_source_frame(u(dC), **c)},
            {"conversion": lambda m: m.detector_frame_to_source_frame(u(dA), **c)}, what="source frame")


@contract("C16", [c8.C + "CosmoModel.prob", c8.C + "CosmoMixin.detector_frame_to_source_frame"], cases=[dict(source=s, cosmo=c, comps=n) for s in ("distance", "redshift") for c in ("Planck15", "FlatwCDM") for n in (1, 2)], num_scale=0.2)
def cosmology_model_history(S, source, cosmo, comps):
    """the user's components neither modify their inputs nor depend on earlier ones"""
    deps.install_cosmo(S)
    T = Tagged(S, "'")
    first = "luminosity_distance" if source == "distance" else "redshift"
    dA, dB, dC = two_datasets(S, (first, "mass_1_detector", "mass_ratio"), {first: S.logreal(10, 2e4) if source == "distance" else S.real(0.01, 3), "mass_1_detector": S.real(2, 90), "mass_ratio": S.real(0.05, 1)}, {first: {1}})
    own = lambda S: dict(lam=S.par("lam", S.real(0.1, 2)), nu=S.par("nu", S.real(0, 2)))
    p, p2 = dict(c7.cosmology(S, cosmo), **own(S)), dict(c7.cosmology(T, cosmo), **own(T))
    pc, pl = dict(p, **c7.cosmology(T, cosmo)), dict(p, **own(T))

    def one(dataset, lam):
        return c8.comp1(S, dataset, lam)

    class Two:
        variable_names = ["nu"]

        def __call__(self, dataset, **kwargs):
            return c8.comp2(S, dataset, kwargs["nu"])
    u = container(S)
    S.frame(dA, dB, dC, p, p2, pc, pl)
    history(S, lambda: S.mod("cosmo").CosmoModel(model_functions=[one, Two()][:comps], cosmo_model=cosmo),
            {"other cosmology": lambda m: m.prob(u(dA), **pc), "other model parameters": lambda m: m.prob(u(dA), **pl), "other parameters": lambda m: m.prob(u(dA), **p2), "other data": lambda m: m.prob(u(dB), **p), "data of the same shape": lambda m: m.prob(u(dC), **p)},
            {"probability": lambda m: m.prob(u(dA), **p)}, what="probability")


@contract("C16", ["gwpopulation.models.spin.GaussianChiEffChiP." + f for f in ("__call__", "_normalization")], num_scale=0.3)
def effective_spin_history(S):
    keys = ("chi_eff", "chi_p")
    dA, dB, dC = two_datasets(S, keys, dict(chi_eff=S.real(-1, 1), chi_p=S.real(0, 1)))

    def pars(S):
        h = dict(mu_chi_eff=S.par("mu_chi_eff", S.real(-1, 1)), mu_chi_p=S.par("mu_chi_p", S.real(0, 1)), sigma_chi_eff=S.par("sigma_chi_eff", S.real(0.1, 1), sign={1}), sigma_chi_p=S.par("sigma_chi_p", S.real(0.1, 1), sign={1}), spin_covariance=S.par("spin_covariance", S.real(-0.9, 0.9)))
        S.assume(h["spin_covariance"] > -1)
        S.assume(h["spin_covariance"] < 1)
        return h
    p, p2 = pars(S), pars(Tagged(S, "'"))
    u = container(S)
    S.frame(dA, dB, dC, p, p2)
    history(S, lambda: S.mod("spin").GaussianChiEffChiP(), {"other parameters": lambda m: m(u(dA), **p2), "other data": lambda m: m(u(dB), **p), "data of the same shape": lambda m: m(u(dC), **p), "all different": lambda m: m(u(dB), **p2)},
            {"density": lambda m: m(u(dA), **p)}, what="density")


# ------------------------------------------------------------------ selection functions


@contract("C16", [c12.V + "ResamplingVT." + f for f in ("__call__", "detection_efficiency", "vt_factor", "check_convergence", "surveyed_hypervolume")], cases=[dict(how=h, marg=m, enforce=e) for h in ("function", "list", "Model") for m, e in ((False, True), (True, True), (False, False))], num_scale=0.3)
def injections_history(S, how, marg, enforce):
    deps.install_cosmo(S)
    d, n = c12.injections(S, True)
    T = Tagged(S, "'")
    p, p2 = c12.hyper(S), c12.hyper(T)
    pl = dict(p, lam=p2["lam"])
    S.frame(d, p, p2, pl)
    nev = S.par("n_events", S.real(0.01, 3), sign={1})

    def make():
        arg, both = c12.models(S, how)
        return S.mod("vt").ResamplingVT(arg, d, marginalize_uncertainty=marg, enforce_convergence=enforce, n_events=nev)
    history(S, make, {"other parameters": lambda m: m(p2), "one other parameter": lambda m: m(pl), "efficiency": lambda m: m.detection_efficiency(p2), "factor": lambda m: m.vt_factor(p2)},
            {"selection": lambda m: m(p), "efficiency": lambda m: m.detection_efficiency(p)} if not marg else {"selection": lambda m: m(p), "factor": lambda m: m.vt_factor(p), "efficiency": lambda m: m.detection_efficiency(p)}, longest=2 if not S.symbolic else 1, what="selection value")


@contract("C16", [c12.V + "ResamplingVT.surveyed_hypervolume"], cases=[dict(model=m, cosmo=c) for m, c in (("none", "Planck15"), ("PowerLawRedshift", "FlatwCDM"), ("MadauDickinsonRedshift", "Planck15"))], num_scale=0.3)
def hypervolume_history(S, model, cosmo):
    deps.install_cosmo(S)
    d, n = c12.injections(S, True)
    d["redshift"] = S.arr("z", (S.size("M", 1, 8),), S.real(0, 2), sign={1})
    T = Tagged(S, "'")
    p, p2 = c12.hyper(S), c12.hyper(T)

    def one(dataset, lam):
        return c12.density(S, dataset, lam)
    if model != "none":
        for q, X in ((p, S), (p2, T)):
            q.update(c7.rate(X, model), **c7.cosmology(X, cosmo))
    S.frame(d, p, p2)

    def make():
        return S.mod("vt").ResamplingVT([one] if model == "none" else [one, c7.build(S, model, cosmo_model=cosmo)], d)
    history(S, make, {"other parameters": lambda m: m.surveyed_hypervolume(p2), "efficiency": lambda m: m.detection_efficiency(p2)}, {"hypervolume": lambda m: m.surveyed_hypervolume(p)}, what="hypervolume")


@contract("C16", [c12.V + "GridVT.__init__", c12.V + "GridVT.__call__"], cases=[dict(d=d) for d in (1, 2)])
def grid_history(S, d):
    """the grid and the parameters are unchanged, and an instance can be evaluated again"""
    names = c13.NAMES[:d]
    axes = [S.axis("x_" + n, "A%d" % j, S.real(0.1, 5)) for j, n in enumerate(names)]
    mesh = (S.xp if S.symbolic else S.bxp).meshgrid(*axes, indexing="ij")
    vt = S.arr("vt", tuple("A%d" % j for j in range(d)) if S.symbolic else tuple(a.shape[0] for a in axes), S.logreal(0.1, 5), sign={0, 1})
    data = dict(zip(names, mesh), vt=vt)
    p, p2 = dict(lam=S.par("lam", S.real(0.1, 2))), dict(lam=S.par("lam'", S.real(0.1, 2)))
    S.frame(data, p, p2)
    f = c13.model_of(S, names)
    history(S, lambda: S.mod("vt").GridVT(f, data), {"other parameters": lambda m: m(p2), "same parameters": lambda m: m(p)}, {"integral": lambda m: m(p)}, what="integral")


# ------------------------------------------------------------------ likelihoods


def clone(S, like):
    """another likelihood holding the same samples"""
    if not S.symbolic:
        return copy.deepcopy(like)
    out = copy.copy(like)
    for k, v in vars(like).items():
        if isinstance(v, dict):
            out.__dict__[k] = {q: copy.copy(x) if isinstance(x, SymArr) else x for q, x in v.items()}
        elif isinstance(v, SymArr):
            out.__dict__[k] = copy.copy(v)
    return out


@contract("C16", c9.LIKE + c9.RATE + [c9.H + "HyperparameterLikelihood.log_likelihood_ratio", c9.H + "HyperparameterLikelihood.log_likelihood"], cases=[dict(kind=k, sel=s, prior=p, conv=c, how=h) for k in c9.KINDS for (s, p, c, h) in (("pair", True, "user", "function"), ("value", False, "default", "Model"), ("default", True, "default", "own"))], num_scale=0.5)
def likelihood_history(S, kind, sel, prior, conv, how):
    """any number of events and samples; earlier evaluations at other parameters"""
    if S.symbolic:
        S.loops()
    ckw, lam_of = c9.convert(S, conv)
    skw, sel_of = c9.selection(S, sel, lam_of)
    if S.choice("cut", [False, True]):
        skw["maximum_uncertainty"] = S.par("maximum_uncertainty", S.logreal(0.05, 5), sign={1})
    like, d, N, K = c9.any_state(S, kind, prior, how, **ckw, **skw)
    T = Tagged(S, "'")
    p, p2 = c9.pars_of(S, conv, kind), c9.pars_of(T, conv, kind)
    for q in (p, p2):
        m = c9.any_terms(S, d, lam_of(q), prior)[1]
        S.assume(m > 0)
    S.frame(p, p2, like.data)
    made = []

    def make_one():
        made.append(clone(S, like))
        return made[-1]
    history(S, make_one, {"ratio": lambda m: m.log_likelihood_ratio(p2), "estimate": lambda m: m.ln_likelihood_and_variance(p2), "statistics": lambda m: m.generate_extra_statistics(dict(p2))},
            {"ratio": lambda m: m.log_likelihood_ratio(p), "estimate": lambda m: m.ln_likelihood_and_variance(p)}, what="likelihood", longest=2 if not S.symbolic else 1)
    if S.symbolic:
        for m in made:
            for k in like.data:
                S.same(m.data[k], like.data[k], "samples held by the likelihood")


@contract("C16", c9.CTOR, cases=[dict(kind=k, prior=p) for k in c9.KINDS for p in (True, False)], num_scale=0.3)
def construction_frame(S, kind, prior):
    """building a likelihood leaves the posteriors (any number, of any lengths) and the given lists as they were"""
    posts = c9.any_posteriors(S, prior)
    lnz = S.arr("lnZ", ("N",), S.real(-5, 5)) if S.symbolic else [S.par("lnZ%d" % i, S.real(-5, 5)) for i in range(len(posts))]
    kw = {}
    if S.choice("max_samples", [False, True]):
        kw["max_samples"] = S.size("M", 1, 6)
        if S.symbolic:
            S.assume(kw["max_samples"] >= 1)
            S.assume(kw["max_samples"] < 10 ** 9)
    S.frame(posts.cols if S.symbolic else posts, lnz)
    k = None if S.symbolic else len(posts)
    r = run(S, lambda: c9.make(S, kind, posts, c9.hyper_prior(S), ln_evidences=lnz, **kw))
    S.ensure_true(not isinstance(r, Raised) and (S.symbolic or len(posts) == k), "the list of posteriors is as given", repr(r)[:100])
    S.check_frame()


@contract("C16", ["gwpopulation.experimental.jax.JittedLikelihood.log_likelihood_ratio"], modes=("jax",), num_scale=0.3)
def jitted_history(S):
    from bilby.core.likelihood import Likelihood

    if S.symbolic:
        import jax

        S.patch.set(jax, "jit", lambda f, **k: f)

    class Base(Likelihood):
        def log_likelihood_ratio(self, parameters):
            a, b = parameters["a"], parameters["b"]
            return S.app("user_ratio", a, b) if S.symbolic else a * a - 3 * b
    p, p2 = [dict(a=S.par("a" + t, S.real(-3, 3)), b=S.par("b" + t, S.real(-3, 3))) for t in ("", "'")]
    pb = dict(p, b=p2["b"])
    S.frame(p, p2, pb)
    history(S, lambda: S.mod("xjax").JittedLikelihood(Base()), {"other parameters": lambda m: m.log_likelihood_ratio(p2), "one other parameter": lambda m: m.log_likelihood_ratio(pb)}, {"ratio": lambda m: m.log_likelihood_ratio(p)}, what="ratio")


# ------------------------------------------------------------------ functions

UTILS = {"beta_dist": 1, "powerlaw": 1, "truncnorm": 1, "unnormalized_2d_gaussian": 2, "von_mises": 1}
MASS = ["double_power_law_primary_mass", "double_power_law_peak_primary_mass", "double_power_law_primary_power_law_mass_ratio", "power_law_primary_mass_ratio", "power_law_primary_secondary_independent", "power_law_primary_secondary_identical", "power_law_mass", "two_component_single", "three_component_single", "two_component_primary_mass_ratio", "two_component_primary_secondary_independent", "two_component_primary_secondary_identical"]
SPIN = ["iid_spin", "iid_spin_magnitude_beta", "independent_spin_magnitude_beta", "iid_spin_orientation_gaussian_isotropic", "independent_spin_orientation_gaussian_isotropic", "gaussian_chi_eff", "gaussian_chi_p"]
DATA = dict(mass_1=(5, 80), mass_2=(3, 60), mass_ratio=(0.1, 1), a_1=(0.05, 0.9), a_2=(0.05, 0.9), cos_tilt_1=(-1, 1), cos_tilt_2=(-1, 1), chi_eff=(-1, 1), chi_p=(0, 1))
DOM = dict(alpha=(1.1, 4), beta=(1.1, 4), high=(5, 9), low=(0.5, 3), mmin=(2, 5), mmax=(40, 90), amax=(0.9, 1), scale=(1, 9), break_fraction=(0.2, 0.8), lam=(0.1, 0.9), lam_1=(0.1, 0.9), lam_chi_peak=(0.1, 0.9), xi_spin=(0, 1), gaussian_mass_maximum=(90, 100), covariance=(-0.8, 0.8), spin_covariance=(-0.8, 0.8), kappa=(0.1, 5))


def domain(name):
    if name in DOM:
        return DOM[name]
    for pre, d in (("sig", (0.2, 4)), ("mpp", (20, 40)), ("alpha", (1.1, 4)), ("beta", (1.1, 4)), ("mu", (-1, 1)), ("lam", (0.1, 0.9)), ("amax", (0.9, 1))):
        if name.startswith(pre):
            return d
    return (0.1, 1)


def variables(node, seen, out):
    if node.id in seen:
        return out
    seen.add(node.id)
    if node.op == "var":
        out.add(node.x)
    for a in node.args:
        if isinstance(a, Node):
            variables(a, seen, out)
    return out


@contract("C16", ["gwpopulation.utils." + f for f in UTILS] + [M + f for f in MASS] + ["gwpopulation.models.spin." + f for f in SPIN], cases=[dict(module="utils", function=f) for f in UTILS] + [dict(module="mass", function=f) for f in MASS] + [dict(module="spin", function=f) for f in SPIN], num_scale=0.3)
def functions(S, module, function):
    """a call leaves its arguments as they were, depends on nothing but them, and gives the same when repeated"""
    fn = getattr(S.mod(module), function)
    names = list(inspect.signature(fn).parameters)
    n = UTILS.get(function, 1)

    def args(S, dims):
        kw = {}
        for i, k in enumerate(names):
            if k == "dataset":
                kw[k] = {q: S.arr(q, dims, S.real(*DATA[q]), sign={1} if DATA[q][0] > 0 else None) for q in DATA}
            elif i < n:
                kw[k] = S.arr(k, dims, S.real(1, 8) if module == "utils" else S.real(5, 80), sign={1})
            else:
                lo, hi = domain(k)
                kw[k] = S.par(k, S.real(lo, hi), sign={1} if lo > 0 else None)
                if S.symbolic and hi <= 1 and lo > 0:
                    S.assume(kw[k] < 1)
        for a, b in (("low", "high"), ("mmin", "mmax")):
            if a in kw and b in kw:
                S.assume(kw[a] < kw[b])
        for a in kw:
            if S.symbolic and ("covariance" in a):
                S.assume(kw[a] < 1)
                S.assume(kw[a] > -1)
        return kw
    S.size("N", 2, 4)
    T = Tagged(S, "'")
    a, b = args(S, ("N",)), args(T, ("N",) if S.choice("shape", ["same", "other"]) == "same" else ("K",))
    S.frame(a, b)
    first = run(S, lambda: fn(**a))
    other = run(S, lambda: fn(**b))
    again = run(S, lambda: fn(**a))
    S.same(again, first, "repeated evaluation")
    if S.symbolic and not isinstance(other, Raised):
        S.count("depends on its arguments only")
        stale = {v for v in variables(lift(other).node, set(), set()) if not str(v).rstrip("@").endswith("'")}
        if stale:
            S.fail("depends on its arguments only", "the value for the arguments of this call depends on %s of an earlier call" % sorted(map(str, stale)))
    S.check_frame()
