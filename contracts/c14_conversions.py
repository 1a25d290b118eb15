"""C14: beta-parameter conversions."""
import itertools

import numpy as np

from engine.contract import contract
from engine import specs as SP

MODE = ("numpy",)  # conversions use no array module; numpy semantics include in-place updates


def inputs(S, kind, names, doms):
    out = []
    for n, d in zip(names, doms):
        out.append(S.par(n, d, sign={1}) if kind == "scalar" else S.arr(n, ("N",), d, sign={1}))
    return out


KINDS = [dict(kind="scalar"), dict(kind="array")]


@contract("C14", "gwpopulation.conversions.alpha_beta_max_to_mu_var_max", modes=("numpy", "jax"), cases=KINDS)
def beta_moments(S, kind):
    a, b, m = inputs(S, kind, ["alpha", "beta", "amax"], [S.logreal(0.1, 20, 1.0), S.logreal(0.1, 20, 1.0), S.logreal(0.1, 5, 1.0)])
    S.frame(a, b, m)
    got = S.call(lambda: S.mod("conversions").alpha_beta_max_to_mu_var_max(a, b, m))
    A = lambda v: SP.A(S, v)
    al, be, mx = A(a), A(b), A(m)
    mu = mx * al / (al + be)
    # variance of a beta variable scaled by amax: E[x^2] - E[x]^2
    var = mx ** 2 * (al * (al + 1) / ((al + be) * (al + be + 1))) - mu ** 2
    S.ensure(got, (mu, var, mx), "moments", tol=1e-9)


@contract("C14", "gwpopulation.conversions.mu_var_max_to_alpha_beta_max", modes=("numpy", "jax"), cases=KINDS)
def beta_from_moments(S, kind):
    mu, var, m = inputs(S, kind, ["mu", "var", "amax"], [S.logreal(0.01, 4, 1.0), S.logreal(0.001, 1, 1.0), S.logreal(0.1, 5, 1.0)])
    S.assume(mu < m)
    S.frame(mu, var, m)
    got = S.call(lambda: S.mod("conversions").mu_var_max_to_alpha_beta_max(mu, var, m))
    A = lambda v: SP.A(S, v)
    f, v = A(mu) / A(m), A(var) / A(m) ** 2
    nu = f * (1 - f) / v - 1
    if not S.symbolic:
        S.atol = 1e-9
    S.ensure(got, (f * nu, (1 - f) * nu, A(m)), "shape parameters", tol=1e-7)


@contract("C14", ["gwpopulation.conversions.alpha_beta_max_to_mu_var_max", "gwpopulation.conversions.mu_var_max_to_alpha_beta_max"], modes=("numpy", "jax"), cases=KINDS)
def beta_round_trip(S, kind):
    C = S.mod("conversions")
    a, b, m = inputs(S, kind, ["alpha", "beta", "amax"], [S.logreal(0.1, 20, 1.0), S.logreal(0.1, 20, 1.0), S.logreal(0.1, 5, 1.0)])
    S.frame(a, b, m)
    got = S.call(lambda: C.mu_var_max_to_alpha_beta_max(*C.alpha_beta_max_to_mu_var_max(a, b, m)))
    S.ensure(got, (SP.A(S, a), SP.A(S, b), SP.A(S, m)), "there and back", tol=1e-7)


@contract("C14", ["gwpopulation.conversions.alpha_beta_max_to_mu_var_max", "gwpopulation.conversions.mu_var_max_to_alpha_beta_max"], modes=("numpy", "jax"), cases=KINDS)
def beta_round_trip_moments(S, kind):
    C = S.mod("conversions")
    mu, var, m = inputs(S, kind, ["mu", "var", "amax"], [S.logreal(0.01, 4, 1.0), S.logreal(0.001, 1, 1.0), S.logreal(0.1, 5, 1.0)])
    S.assume(mu < m)
    S.assume(SP.A(S, var) < SP.A(S, mu) * (SP.A(S, m) - SP.A(S, mu)))
    S.frame(mu, var, m)
    got = S.call(lambda: C.alpha_beta_max_to_mu_var_max(*C.mu_var_max_to_alpha_beta_max(mu, var, m)))
    S.ensure(got, (SP.A(S, mu), SP.A(S, var), SP.A(S, m)), "back and there", tol=1e-6)


AB = ["absent", "none", "given"]
STATES = list(itertools.product(AB, AB, [0, 1], [0, 1]))
NO_SUFFIX = [("absent", "absent", 0, 0), ("absent", "absent", 1, 1), ("none", "none", 1, 1), ("given", "given", 1, 1), ("given", "absent", 1, 1), ("absent", "none", 1, 0), ("absent", "given", 1, 1), ("given", "none", 1, 1)]


@contract("C14", ["gwpopulation.conversions.convert_to_beta_parameters", "gwpopulation.conversions.mu_var_max_to_alpha_beta_max"], modes=MODE, cases=[dict(first=a + "/" + b) for a in AB for b in AB], max_paths=20000)
def dictionary_conversion(S, first):
    """every combination of absent / None / given entries"""
    f = first.split("/")
    ms = S.choice("m1,s1", [(i, j) for i in (0, 1) for j in (0, 1)])
    st = {"_1": (f[0], f[1]) + ms, "_2": S.choice("_2", STATES), "": S.choice("none", NO_SUFFIX)}
    remove = S.choice("remove", [True, False, "default"])
    par = {"other": S.par("other")}
    val = {}
    for suf, (a, b, m, s) in st.items():
        for key, stt in (("alpha_chi", a), ("beta_chi", b)):
            if stt == "given":
                par[key + suf] = S.par(key + suf, S.logreal(0.5, 5), sign={1})
            elif stt == "none":
                par[key + suf] = None
        if m:
            par["mu_chi" + suf] = S.par("mu_chi" + suf, S.real(0.1, 0.4), sign={1})
        if s:
            par["sigma_chi" + suf] = S.par("sigma_chi" + suf, S.real(0.01, 0.1), sign={1})
        par["amax" + suf] = S.par("amax" + suf, S.real(0.5, 1.0), sign={1})
    S.frame(par)
    want = dict(par)
    added = []

    def fill(suf):
        need = any(par.get(k + suf) is None for k in ("alpha_chi", "beta_chi"))
        have = "mu_chi" + suf in par and "sigma_chi" + suf in par
        if need and have:
            f, v = par["mu_chi" + suf] / par["amax" + suf], par["sigma_chi" + suf] / par["amax" + suf] ** 2
            nu = f * (1 - f) / v - 1
            want["alpha_chi" + suf], want["beta_chi" + suf] = f * nu, (1 - f) * nu
            added.extend(["alpha_chi" + suf, "beta_chi" + suf])
        return have or not need

    d1, d2 = fill("_1"), fill("_2")
    if not (d1 or d2):
        fill("")
    C = S.mod("conversions")
    got = S.call(lambda: C.convert_to_beta_parameters(par) if remove == "default" else C.convert_to_beta_parameters(par, remove=remove))
    if hasattr(got, "exc"):
        S.ensure_true(False, "conversion raises", repr(got))
    S.ensure_true(isinstance(got, tuple) and len(got) == 2, "returns (parameters, added keys)", repr(got)[:200])
    S.ensure(got[0], want, "converted", shape=False, tol=1e-9)
    S.ensure_true(sorted(got[1]) == sorted(added if remove else []), "added keys", "got %r want %r" % (got[1], added if remove else []))
    S.ensure_true(got[0] is not par, "a new dictionary is returned")
