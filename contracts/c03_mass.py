"""C03: analytic (un-smoothed) mass models."""
import numpy as np

from engine.contract import contract
from engine import specs as SP

KEY = ["powerlaw", "truncnorm"]


def hyper(S, *names, peak_max=100):
    dom = dict(
        alpha=S.real(-4, 6, 1.0, 0.0, 2.0), beta=S.real(-3, 6, -1.0, 0.0, 1.0), alpha_1=S.real(-4, 6, 1.0, 0.0), alpha_2=S.real(-4, 6, 1.0, 0.0),
        mmin=S.logreal(1.0, 10, 5.0), mmax=S.real(30, 90, 50.0), lam=S.real(0, 1, 0.0, 1.0), lam_1=S.real(0, 1, 0.0, 1.0),
        mpp=S.real(10, 60, 35.0), mpp_1=S.real(10, 60), mpp_2=S.real(10, 60), sigpp=S.real(1, 10), sigpp_1=S.real(1, 10), sigpp_2=S.real(1, 10),
        gaussian_mass_maximum=S.real(60, 120, 100.0), break_fraction=S.real(0.05, 0.95, 0.5),
    )
    pos = {"mmin", "mmax", "sigpp", "sigpp_1", "sigpp_2", "gaussian_mass_maximum"}
    out = {}
    for n in names:
        if n == "break_fraction" and S.symbolic:
            # every fraction in (0,1) is (m_break - mmin) / (mmax - mmin) for exactly one m_break in (mmin, mmax)
            mb = S.par("m_break", None, sign={1})
            S.assume(out["mmin"] < mb)
            S.assume(mb < out["mmax"])
            S.assume(out["mmin"] < out["mmax"])
            out[n] = (mb - out["mmin"]) / (out["mmax"] - out["mmin"])
            continue
        sg = {1} if n in pos else ({0, 1} if n in ("lam", "lam_1") else None)
        out[n] = S.par(n, dom[n], sign=sg)
    if "mmax" in out:
        S.assume(out["mmin"] < out["mmax"])
    if "gaussian_mass_maximum" in out:
        S.assume(out["mmin"] < out["gaussian_mass_maximum"])
    elif "sigpp" in out or "sigpp_1" in out:
        S.assume(out["mmin"] < peak_max)
    for l in ("lam", "lam_1"):
        if l in out:
            S.assume(out[l] <= 1)
    if "break_fraction" in out and not S.symbolic:
        S.assume(out["break_fraction"] > 0)
        S.assume(out["break_fraction"] < 1)
    return out


def masses(S, name, h, scalar=False, extra=()):
    anchors = [h[k] for k in ("mmin", "mmax") if k in h] if not S.symbolic else []
    d = S.near(*anchors, *extra, lo=1.0, hi=110.0)
    return S.par(name, d, sign={1}) if scalar else S.arr(name, ("N",), d, sign={1})


# ------------------------------------------------------------------ documented formulae


def s_pow(S, m, h, al="alpha"):
    return SP.powerlaw(S, m, -SP.A(S, h[al]), h["mmax"], h["mmin"])


def s_gauss(S, m, h, suf=""):
    return SP.truncnorm(S, m, h["mpp" + suf], h["sigpp" + suf], h.get("gaussian_mass_maximum", 100), h["mmin"])


def s_two(S, m, h, al="alpha"):
    lam = SP.A(S, h["lam"])
    return (1 - lam) * s_pow(S, m, h, al) + lam * s_gauss(S, m, h)


def s_three(S, m, h):
    lam, l1 = SP.A(S, h["lam"]), SP.A(S, h["lam_1"])
    return (1 - lam) * s_pow(S, m, h) + lam * (l1 * s_gauss(S, m, h, "_1") + (1 - l1) * s_gauss(S, m, h, "_2"))


def integral_pow(S, a, lo, hi):
    """integral of m^-a over [lo, hi]"""
    xp = S.xp
    one = 1 - a
    return xp.where(one == 0, xp.log(hi / lo), (hi ** one - lo ** one) / one)


def s_broken(S, m, h):
    """continuous at the break, integrates to one: C (m/mb)^-alpha_i"""
    if "double_power_law_primary_mass" in S.modular:
        return S.app("BPL", m, *[h[k] for k in ("alpha_1", "alpha_2", "mmin", "mmax", "break_fraction")])
    xp = S.xp
    m = SP.A(S, m)
    a1, a2, lo, hi, f = [SP.A(S, h[k]) for k in ("alpha_1", "alpha_2", "mmin", "mmax", "break_fraction")]
    mb = lo + f * (hi - lo)  # documented break mass
    tot = mb ** a1 * integral_pow(S, a1, lo, mb) + mb ** a2 * integral_pow(S, a2, mb, hi)
    inside = SP.within(S, m, lo, hi)
    safe = xp.where(inside, m, mb)
    shape = xp.where(safe < mb, (safe / mb) ** (-a1), (safe / mb) ** (-a2))
    return xp.where(inside, shape / tot, 0.0)


def s_q(S, q, m1, h):
    lo = SP.A(S, h["mmin"]) / SP.A(S, m1)
    return SP.powerlaw(S, q, h["beta"], 1.0, lo)


def away(S, val, m1, h):
    """mass-ratio densities are unspecified where their support is a single point (m1 == mmin)"""
    return S.partial(val, SP.A(S, m1) != SP.A(S, h["mmin"]))


# ------------------------------------------------------------------ one-dimensional models

ONE = {
    "power_law_mass": (["alpha", "mmin", "mmax"], s_pow),
    "two_component_single": (["alpha", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum"], s_two),
    "three_component_single": (["alpha", "mmin", "mmax", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2", "gaussian_mass_maximum"], s_three),
}
ONE_CASES = [dict(model=m, default=d) for m in ONE for d in ((False, True) if "gaussian_mass_maximum" in ONE[m][0] else (False,))]


@contract("C03", ["gwpopulation.models.mass." + m for m in ONE], cases=ONE_CASES, modular=True)
def primary_mass_models(S, model, default):
    S.use(*KEY)
    names, spec = ONE[model]
    names = [n for n in names if not (default and n == "gaussian_mass_maximum")]
    h = hyper(S, *names)
    m = masses(S, "mass", h)
    S.frame(m)
    got = S.call(lambda: getattr(S.mod("mass"), model)(m, **h))
    S.ensure(got, spec(S, m, h), "density")
    S.nonneg(got)


@contract("C03", ["gwpopulation.models.mass.double_power_law_primary_mass", "gwpopulation.utils.powerlaw"])
def broken_power_law(S):
    h = hyper(S, "alpha_1", "alpha_2", "mmin", "mmax", "break_fraction")
    mb = [] if S.symbolic else [h["mmin"] + h["break_fraction"] * (h["mmax"] - h["mmin"])]
    m = masses(S, "mass", h, extra=mb)
    S.frame(m)
    got = S.call(lambda: S.mod("mass").double_power_law_primary_mass(m, **h))
    S.ensure(got, s_broken(S, m, h), "density")
    S.nonneg(got)


@contract("C03", ["gwpopulation.models.mass.double_power_law_peak_primary_mass", "gwpopulation.models.mass.double_power_law_primary_mass"], cases=[dict(default=False), dict(default=True)], modular=True)
def broken_power_law_peak(S, default):
    S.use("truncnorm", "double_power_law_primary_mass")
    names = ["alpha_1", "alpha_2", "mmin", "mmax", "break_fraction", "lam", "mpp", "sigpp"] + ([] if default else ["gaussian_mass_maximum"])
    h = hyper(S, *names)
    m = masses(S, "mass", h)
    S.frame(m)
    got = S.call(lambda: S.mod("mass").double_power_law_peak_primary_mass(m, **h))
    lam = SP.A(S, h["lam"])
    S.ensure(got, (1 - lam) * s_broken(S, m, h) + lam * s_gauss(S, m, h), "density")
    S.nonneg(got)


# ------------------------------------------------------------------ two-dimensional models

TWO = {
    "double_power_law_primary_power_law_mass_ratio": (["alpha_1", "alpha_2", "beta", "mmin", "mmax", "break_fraction"], "q", s_broken),
    "power_law_primary_mass_ratio": (["alpha", "beta", "mmin", "mmax"], "q", s_pow),
    "two_component_primary_mass_ratio": (["alpha", "beta", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum"], "q", s_two),
    "power_law_primary_secondary_independent": (["alpha", "beta", "mmin", "mmax"], "m2", s_pow),
    "power_law_primary_secondary_identical": (["alpha", "mmin", "mmax"], "m2", s_pow),
    "two_component_primary_secondary_independent": (["alpha", "beta", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum"], "m2", s_two),
    "two_component_primary_secondary_identical": (["alpha", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum"], "m2", s_two),
}
TWO_CASES = [dict(model=m, default=d) for m in TWO for d in ((False, True) if "gaussian_mass_maximum" in TWO[m][0] else (False,))]


@contract("C03", ["gwpopulation.models.mass." + m for m in TWO] + ["gwpopulation.models.mass._primary_secondary_general"], cases=TWO_CASES, modular=True)
def joint_mass_models(S, model, default):
    names, kind, spec = TWO[model]
    if spec is s_broken:
        S.use("powerlaw", "truncnorm", "double_power_law_primary_mass")
    else:
        S.use(*KEY)
    names = [n for n in names if not (default and n == "gaussian_mass_maximum")]
    h = hyper(S, *names)
    if model == "power_law_primary_mass_ratio":
        S.assume(h["mmin"] < 100)  # the (weightless) peak of the two-component model it is built on needs mmin < 100
    m1 = masses(S, "m1", h)
    data = dict(mass_1=m1)
    if kind == "q":
        data["mass_ratio"] = S.arr("q", ("N",), S.near(1.0, lo=0.01, hi=1.2), sign={1})
        want = away(S, spec(S, m1, h) * s_q(S, data["mass_ratio"], m1, h), m1, h)
    else:
        data["mass_2"] = masses(S, "m2", h)
        second = "beta" if "beta" in h else "alpha"
        p2 = s_two(S, data["mass_2"], h, second) if spec is s_two else s_pow(S, data["mass_2"], h, second)
        want = S.xp.where(SP.A(S, m1) >= SP.A(S, data["mass_2"]), 2 * spec(S, m1, h) * p2, 0.0)
    S.frame(data)
    got = S.call(lambda: getattr(S.mod("mass"), model)(data, **h))
    S.ensure(got, want, "density")
