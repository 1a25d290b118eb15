"""C04 (and the range check of C02): smoothed mass models."""
import numpy as np

from engine.contract import contract, Raised
from engine import specs as SP, deps
from contracts.c03_mass import hyper, s_pow, s_two, s_three, s_broken, s_q

M = "gwpopulation.models.mass."
B = M + "BaseSmoothedMassDistribution."


@contract("C04", B + "smoothing", cases=[dict(delta=d, edge=e) for d in ("positive", "zero") for e in ("number", "array")])
def smoothing_window(S, delta, edge):
    """delta_m >= 0; for delta_m = 0 the window is one above mmin (what it is at or outside its edges is immaterial: the densities vanish there)"""
    lo = S.par("mmin", S.real(1, 10), sign={1})
    de = S.par("delta_m", S.real(0.01, 20), sign={1}) if delta == "positive" else S.choice("zero", [0, 0.0])
    hi = S.par("mmax", S.real(5, 100), sign={1}) if edge == "number" else S.arr("mmax", ("N",), S.real(5, 100), sign={1})
    anchors = [] if S.symbolic else [lo, lo + de, lo + de / 2, lo + 1e-6 * de, lo + de - 1e-6 * de] + np.ravel(hi).tolist()[:1]
    m = S.arr("m", ("N",), S.near(*anchors, lo=0.5, hi=60), sign={1})
    S.frame(m, hi)
    got = S.call(lambda: S.mod("mass").BaseSmoothedMassDistribution.smoothing(m, mmin=lo, mmax=hi, delta_m=de))
    mm, l, h = SP.A(S, m), SP.A(S, lo), SP.A(S, hi)
    if delta == "positive":
        S.ensure(got, SP.window(S, m, lo, hi, de), "window")
    else:
        S.ensure(got, S.partial(1.0 + 0 * mm, (mm > l) & (mm <= h)), "window")
    g = got if isinstance(got, Raised) else SP.A(S, got)
    S.nonneg(got)
    S.ensure_true(g <= 1 if not isinstance(g, Raised) else g, "at most one")


def s_broken_peak(S, m, h):
    lam = SP.A(S, h["lam"])
    return (1 - lam) * s_broken(S, m, h) + lam * SP.truncnorm(S, m, h["mpp"], h["sigpp"], h["gaussian_mass_maximum"], h["mmin"])


MODELS = {
    "SinglePeakSmoothedMassDistribution": (["alpha", "mmin", "mmax", "lam", "mpp", "sigpp"], s_two),
    "MultiPeakSmoothedMassDistribution": (["alpha", "mmin", "mmax", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2"], s_three),
    "BrokenPowerLawSmoothedMassDistribution": (["alpha_1", "alpha_2", "mmin", "mmax", "break_fraction"], s_broken),
    "BrokenPowerLawPeakSmoothedMassDistribution": (["alpha_1", "alpha_2", "mmin", "mmax", "break_fraction", "lam", "mpp", "sigpp"], s_broken_peak),
}
KEYS = ["powerlaw", "truncnorm", "smoothing", "double_power_law_primary_mass"]


def grid(S):
    """the model's own normalisation grid: any range, any resolution"""
    if S.symbolic:
        lo, hi = S.par("grid_min", None, sign={1}), S.par("grid_max", None, sign={1})
        S.assume(lo < hi)
        m, q = S.size("M"), S.size("Q")
        S.assume(m >= 2)
        S.assume(q >= 2)
        return dict(mmin=lo, mmax=hi, normalization_shape=(m, q)), lo, hi
    lo, hi = S.par("grid_min", S.real(1.0, 3.0, 2.0)), S.par("grid_max", S.real(80, 120, 100.0))
    return dict(mmin=lo, mmax=hi, normalization_shape=(S.choice("M", [200, 60]), S.choice("Q", [100, 40]))), lo, hi


def build(S, model, kw):
    return S.call(lambda: getattr(S.mod("mass"), model)(**kw))


def mass_hyper(S, names, lo, hi, edge=False):
    h = hyper(S, *names, peak_max=hi)
    if not S.symbolic and edge and S.choice("mmin at the edge of the grid", [False, True]):
        h["mmin"] = lo
        S.assume(h["mmin"] < h["mmax"])
    S.assume(lo <= h["mmin"])
    S.assume(h["mmax"] <= hi)
    return h


def delta_of(S, delta):
    if delta == "positive":
        return dict(delta_m=S.par("delta_m", S.real(0.5, 15), sign={1}))
    if delta == "zero":
        return dict(delta_m=S.choice("zero", [0, 0.0]))
    return {}


def data_masses(S, h, hi, name="mass_1", dims=("N",)):
    an = [] if S.symbolic else [h["mmin"], h.get("mmax", 50.0), hi]
    return S.arr(name, dims, S.near(*an, lo=1.5, hi=110), sign={1})


def spec_m1(S, f, m, h, d, lo, hi, kw):
    """documented density of the primary mass"""
    xp = S.xp
    full = dict(h, gaussian_mass_maximum=hi)
    p = f(S, m, full)
    if d is None:
        return p, None
    g = xp.linspace(lo, hi, kw["normalization_shape"][0])
    norm = xp.trapezoid(f(S, g, full) * SP.window(S, g, h["mmin"], hi, d), x=g)
    return p * SP.window(S, m, h["mmin"], hi, d), norm


@contract("C04", [B + "__init__", B + "p_m1", B + "norm_p_m1"] + [M + k + ".kwargs" for k in MODELS if k != "BrokenPowerLawSmoothedMassDistribution"], cases=[dict(model=m, delta=d) for m in MODELS for d in ("positive", "zero", "absent")], num_scale=0.5, modular=True)
def primary_mass(S, model, delta):
    """hyperparameters within the grid; positive normalisation"""
    S.use(*KEYS)
    names, f = MODELS[model]
    kw, lo, hi = grid(S)
    h = mass_hyper(S, names, lo, hi)
    d = delta_of(S, delta)
    data = dict(mass_1=data_masses(S, h, hi))
    S.frame(data, h)
    m = build(S, model, kw)
    p, norm = spec_m1(S, f, data["mass_1"], h, d["delta_m"] if delta == "positive" else None, lo, hi, kw)
    if norm is not None:
        S.assume(norm > 1e-12 if not S.symbolic else norm > 0)
        p = p / norm
    got = S.call(lambda: m.p_m1(data, **h, **d, **m.kwargs))
    if delta != "positive":
        p = S.partial(p, SP.A(S, data["mass_1"]) != SP.A(S, h["mmin"]))
    S.ensure(got, p, "primary-mass density")
    if delta == "positive":
        S.nonneg(got)
        S.ensure(S.call(lambda: m.norm_p_m1(**h, **d, **m.kwargs)), norm, "normalisation", shape=False)


def spec_q(S, q, m1, beta, lo, delta, grid_lo, grid_hi, shape):
    """documented conditional density of the mass ratio (delta_m > 0) and the interpolated normalisation"""
    xp = S.xp
    q, m1 = SP.A(S, q), SP.A(S, m1)
    s1 = xp.where(m1 > lo, m1, 2 * lo)
    num = xp.where(m1 > lo, SP.powerlaw(S, q, beta, 1.0, lo / s1) * SP.window(S, s1 * q, lo, s1, delta), 0.0)
    gm, gq = xp.linspace(grid_lo, grid_hi, shape[0]), xp.linspace(0.001, 1, shape[1])
    mm, qq = xp.meshgrid(gm, gq)
    above = gm > lo
    safe = xp.where(mm > lo, mm, 2 * lo)
    dens = SP.powerlaw(S, qq, beta, 1.0, lo / safe) * SP.window(S, safe * qq, lo, safe, delta)
    norms = xp.where(above, xp.trapezoid(dens, x=gq, axis=0), 0.0)
    return num, deps.interp(S, "linear", gm, norms, m1)


def q_data(S, h, hi, dims=("N",), tag=""):
    m1 = data_masses(S, h, hi, "mass_1" + tag, dims=dims)
    q = S.arr("mass_ratio" + tag, dims, S.near(1.0, 0.5, lo=0.02, hi=1.1), sign={1})
    return dict(mass_1=m1, mass_ratio=q)


def ratio(S, num, norm):
    """num / norm, zero where the numerator vanishes"""
    zero = num == 0
    return S.xp.where(zero, 0.0, num / S.xp.where(zero, 1.0, norm))


@contract("C04", "gwpopulation.utils.powerlaw")
def powerlaw_degenerate(S):
    """low == high > 0 is outside the domain of the power law; the mass-ratio normalisation at m1 = mmin relies on the value being zero or not a finite number"""
    low = S.par("low", S.logreal(1e-3, 20, 1.0, 2.0), sign={1})
    alpha = S.par("alpha", S.real(-6, 6, -1.0, 0.0, 1.0))
    x = S.arr("x", ("N",), S.near(low, lo=0.001, hi=3), sign={1})
    got = S.call(lambda: S.mod("utils").powerlaw(x, alpha, low, low))
    if isinstance(got, Raised):
        return S.ensure(got, 0.0)
    g = SP.A(S, got)
    S.ensure_true((g == 0) | ~S.xp.isfinite(g), "zero or not finite")


@contract("C04", [B + "p_q", B + "norm_p_q", B + "_cache_q_norms", "gwpopulation.models.interped._setup_interpolant"], cases=[dict(delta=d, cache=c, edge=e) for d in ("positive", "zero") for c in (True, False) for e in ("nan", "zero")], num_scale=0.5, modular=True)
def mass_ratio(S, delta, cache, edge):
    """mmin within the grid, positive interpolated normalisation wherever the numerator is positive"""
    S.use("smoothing", "powerlaw")
    if S.symbolic:
        S.path.degenerate = edge
    deps.install_interp(S)
    kw, lo, hi = grid(S)
    h = hyper(S, "beta", "mmin")
    S.assume(lo <= h["mmin"])
    S.assume(h["mmin"] < hi)
    d = delta_of(S, delta)
    data = q_data(S, h, hi)
    S.frame(data)
    m = S.call(lambda: S.mod("mass").SinglePeakSmoothedMassDistribution(cache=cache, **kw))
    m1 = SP.A(S, data["mass_1"])
    if delta == "positive":
        num, norm = spec_q(S, data["mass_ratio"], data["mass_1"], h["beta"], h["mmin"], d["delta_m"], lo, hi, kw["normalization_shape"])
        S.assume((num == 0) | (norm > (0 if S.symbolic else 1e-9)))
        p = ratio(S, num, norm)
    else:
        S.assume(m1 != SP.A(S, h["mmin"]))
        p = SP.powerlaw(S, data["mass_ratio"], h["beta"], 1.0, h["mmin"] / m1)
        S.assume(m1 * SP.A(S, data["mass_ratio"]) != SP.A(S, h["mmin"]))
    got = S.call(lambda: m.p_q(data, beta=h["beta"], mmin=h["mmin"], **d))
    S.ensure(got, p, "mass-ratio density", tol=1e-5)
    S.nonneg(got)
    got = S.call(lambda: m.p_q(data, beta=h["beta"], mmin=h["mmin"], **d))
    S.ensure(got, p, "mass-ratio density (again)", tol=1e-5)


def joint_spec(S, model, h, beta, d, data, kw, lo, hi):
    """documented joint density (None for d: no smoothing), with the preconditions it needs"""
    names, f = MODELS[model]
    m1, q = SP.A(S, data["mass_1"]), SP.A(S, data["mass_ratio"])
    p, norm = spec_m1(S, f, data["mass_1"], h, d, lo, hi, kw)
    if d is not None:
        num, qn = spec_q(S, data["mass_ratio"], data["mass_1"], beta, h["mmin"], d, lo, hi, kw["normalization_shape"])
        S.assume(norm > (0 if S.symbolic else 1e-9))
        S.assume((num == 0) | (qn > (0 if S.symbolic else 1e-9)))
        return p / norm * ratio(S, num, qn)
    S.assume(m1 != SP.A(S, h["mmin"]))
    S.assume(m1 * q != SP.A(S, h["mmin"]))
    return p * SP.powerlaw(S, data["mass_ratio"], beta, 1.0, h["mmin"] / m1)


@contract("C04", [B + "__call__"], cases=[dict(model=m, delta=d) for m in MODELS for d in ("positive", "zero", "absent")], num_scale=0.5, max_paths=2000, deadline=150, modular=True)
def smoothed_density(S, model, delta):
    """the complete density; hyperparameters within the grid, positive normalisations; for delta_m = 0 away from m1 = mmin and m2 = mmin"""
    S.use(*KEYS)
    if S.symbolic:
        S.path.degenerate = "nan"
    deps.install_interp(S)
    kw, lo, hi = grid(S)
    h = mass_hyper(S, MODELS[model][0], lo, hi, edge=True)
    beta = S.par("beta", S.real(-3, 6, -1.0, 0.0, 1.0))
    d = delta_of(S, delta)
    m = build(S, model, kw)
    data = q_data(S, h, hi)
    pars = dict(h, beta=beta, **d)
    S.frame(data, pars)
    p = joint_spec(S, model, h, beta, d["delta_m"] if delta == "positive" else None, data, kw, lo, hi)
    got = S.call(lambda: m(data, **pars))
    S.ensure(got, p, "density", tol=1e-5)
    S.nonneg(got)


@contract("C02", [B + "__call__"], modes=("numpy",), cases=[dict(model=m, delta=d) for m in MODELS for d in ("positive", "absent")], modular=True)
def smoothed_model_range(S, model, delta):
    """a mass range that leaves the normalisation grid is rejected and no other is (the values are the business of C04)"""
    S.use(*KEYS)
    if S.symbolic:
        S.path.degenerate = "nan"
    deps.install_interp(S)
    kw, lo, hi = grid(S)
    h = hyper(S, *MODELS[model][0], peak_max=hi)
    if not S.symbolic:
        S.assume(h["mmin"] < h["mmax"])
        if S.choice("mmin at the edge of the grid", [False, False, True]):
            h["mmin"] = lo
        if S.choice("mmax at the edge of the grid", [False, False, True]):
            h["mmax"] = hi
    h["beta"] = S.par("beta", S.real(-3, 6, -1.0, 0.0, 1.0))
    h.update(delta_of(S, delta))
    m = build(S, model, kw)
    data = q_data(S, dict(h), hi)
    S.frame(data, h)
    got = S.call(lambda: m(data, **h))
    bad = S.decide(h["mmin"] < lo) or S.decide(h["mmax"] > hi)
    if bad:
        S.ensure_raises(got, ValueError, "rejected")
    else:
        S.ensure_true(not isinstance(got, Raised), "accepted", repr(got)[:300])
