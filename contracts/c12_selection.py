"""C12: injection-based selection function."""
import numpy as np

from engine.contract import contract, Raised
from engine import specs as SP, deps, solver
from contracts.c07_redshift import rate, cosmology, norm_of, build

V = "gwpopulation.vt."
INF = float("inf")
solver.FN_RANGE["pop"] = (0, None, False, False)
solver.FN_RANGE["pop2"] = (0, None, False, False)


def density(S, data, lam):
    if S.symbolic:
        return S.app("pop", data["a"], data["b"], lam)
    a, b = data["a"], data["b"]
    xp = S.bxp if not isinstance(a, np.ndarray) else np
    return xp.where(a > 2.5, 0.0, xp.exp(-a * lam) * (1 + xp.cos(b)) + 1e-3)


def second(S, data, nu):
    if S.symbolic:
        return S.app("pop2", data["b"], nu)
    xp = S.bxp if not isinstance(data["b"], np.ndarray) else np
    return 1 + nu * xp.sin(data["b"]) ** 2


def models(S, how):
    """(model argument, density as the contract sees it)"""
    def one(dataset, lam):
        return density(S, dataset, lam)

    def two(dataset, nu):
        return second(S, dataset, nu)
    from bilby.hyper.model import Model

    if how == "function":
        return one, False
    if how == "list":
        return [one, two], True
    return Model([two, one]), True


def injections(S, total, time=None):
    m = S.size("M", 1, 8)
    d = dict(a=S.arr("a", (m,), S.real(0, 3)), b=S.arr("b", (m,), S.real(-3, 3)), prior=S.arr("prior", (m,), S.logreal(0.1, 5), sign={1}))
    if S.symbolic:
        S.assume(m >= 1)
    n = m
    if total:
        n = S.par("total_generated", S.real(1, 100), sign={1})
        if not S.symbolic:
            n = float(int(n) + m)
        S.assume(n >= m)
        d["total_generated"] = n
    if time is not None:
        d["analysis_time"] = time
    return d, n


def npd(S, d):
    """dataset for the specification"""
    return d if S.symbolic else {k: np.asarray(v, dtype=float) for k, v in d.items()}


def efficiency(S, d, n, pars, both):
    q = npd(S, d)
    w = density(S, q, pars["lam"])
    if both:
        w = w * second(S, q, pars["nu"])
    w = w / SP.A(S, q["prior"])
    n = SP.A(S, n)
    s, s2 = S.xp.sum(w), S.xp.sum(w ** 2)
    mu = s / n
    return mu, s2 / n ** 2 - mu ** 2 / n


def hyper(S):
    return dict(lam=S.par("lam", S.real(0.1, 2)), nu=S.par("nu", S.real(0, 1), sign={0, 1}))


CASES = [dict(how=h, total=t) for h in ("function", "list", "Model") for t in (True, False)]


@contract("C12", [V + "_BaseVT.__init__", V + "ResamplingVT.__init__", V + "ResamplingVT.detection_efficiency"], cases=CASES)
def detection_efficiency(S, how, total):
    deps.install_cosmo(S)
    d, n = injections(S, total)
    arg, both = models(S, how)
    p = hyper(S)
    S.frame(d, p)
    vt = S.call(lambda: S.mod("vt").ResamplingVT(arg, d))
    got = S.call(lambda: vt.detection_efficiency(p))
    mu, var = efficiency(S, d, n, p, both)
    if not S.symbolic:
        S.atol = 1e-15
    S.ensure(got, (mu, var), "efficiency and variance", shape=False)
    if not isinstance(got, Raised):
        if S.symbolic:
            S.ensure_true(SP.A(S, got[1]) >= 0, "the variance is not negative")
        else:
            S.ensure_true(got[1] >= -1e-12 * max(1.0, float(mu) ** 2), "the variance is not negative")


SEL = [dict(how=h, marg=m, enforce=e, events=v) for h in ("function", "list") for m in (False, True) for e in (True, False) for v in ("number", "default")]
SEL = [c for c in SEL if not (c["marg"] and c["events"] == "default")]


@contract("C12", [V + "ResamplingVT.__call__", V + "ResamplingVT.check_convergence", V + "ResamplingVT.vt_factor"], cases=SEL)
def selection_function(S, how, marg, enforce, events):
    """precondition: the number of events is finite when the uncertainty is marginalised"""
    deps.install_cosmo(S)
    d, n = injections(S, True)
    arg, both = models(S, how)
    p = hyper(S)
    S.frame(d, p)
    kw = {}
    nev = INF
    if events == "number":
        nev = kw["n_events"] = S.par("n_events", S.real(0.01, 3), sign={1})
    vt = S.call(lambda: S.mod("vt").ResamplingVT(arg, d, marginalize_uncertainty=marg, enforce_convergence=enforce, **kw))
    got = S.call(lambda: vt(p))
    mu, var = efficiency(S, d, n, p, both)
    xp = S.xp
    if S.symbolic:
        conv = bool(mu ** 2 > 4 * nev * var) if events == "number" else False
    else:
        lhs, rhs = float(mu) ** 2, 4 * nev * float(var) if events == "number" else INF
        S.assume(abs(lhs - rhs) > 1e-9 * max(lhs, 1e-3))
        S.assume(events != "number" or abs(float(var)) > 1e-14 or float(mu) > 0)
        conv = lhs > rhs
        S.atol = 1e-14
    if marg:
        want = mu * xp.exp(-(3 + nev) / 2 * var / mu ** 2) if conv else INF
        S.ensure(got, want, "marginalised selection value", shape=False, special=True)
    else:
        want = mu if conv or not enforce else INF
        S.ensure(got, (want, var), "selection value and variance", shape=False, special=True)


@contract("C12", [V + "ResamplingVT.surveyed_hypervolume", V + "ResamplingVT.__init__"], cases=[dict(model=m, cosmo=c, time=t) for (m, c) in (("none", "Planck15"), ("PowerLawRedshift", "Planck15"), ("MadauDickinsonRedshift", "FlatwCDM"), ("user", "FlatLambdaCDM")) for t in (True, False)], num_scale=0.3)
def surveyed_hypervolume(S, model, cosmo, time):
    deps.install_cosmo(S)
    T = S.par("analysis_time", S.logreal(0.1, 10), sign={1}) if time else None
    d, n = injections(S, True, T)
    d["redshift"] = S.arr("z", (S.size("M", 1, 8),), S.real(0, 2), sign={1})
    t = SP.A(S, T) if time else 1.0
    def one(dataset, lam):
        return density(S, dataset, lam)
    p = hyper(S)
    xp = S.xp
    if model == "none":
        arg = [one]
        zs = xp.linspace(0, 2.3, 2500)
        want = t * xp.trapezoid((1 + zs) ** -1 * 4 * xp.pi * deps.dvdz(S, zs, deps.cosmo_pars(S, "Planck15")), x=zs) / 1e9
    else:
        z = build(S, model, cosmo_model=cosmo)
        arg = [one, z] if S.choice("order", [0, 1]) else [z, one]
        h = rate(S, model)
        c = cosmology(S, cosmo)
        p.update(h, **c)
        want = t * norm_of(S, model, 2.3, h, deps.cosmo_pars(S, cosmo, c), z) / 1e9
    S.frame(d, p)
    vt = S.call(lambda: S.mod("vt").ResamplingVT(arg, d))
    S.ensure(S.call(lambda: vt.surveyed_hypervolume(p)), want, "hypervolume", shape=False)
