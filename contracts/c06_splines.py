"""C06: spline models.

The interpolant itself (cached_interpolate) is an uninterpreted function of
(kind, node positions, node values, point); the number of nodes is a case
parameter, everything else is universally quantified."""
import numpy as np

from engine.contract import contract, Raised
from engine import specs as SP, deps
from contracts.c03_mass import hyper, s_pow
from contracts.c04_smoothed import grid, delta_of, mass_hyper, q_data, spec_q, ratio

I = "gwpopulation.models.interped."
SPIN = "gwpopulation.models.spin."
M = "gwpopulation.models.mass."


def nodes_of(S, base, n, lo, hi, log=False):
    """node positions and values, as hyperparameters; the interpolant needs (log-)regularly spaced nodes"""
    xs, fs = {}, {}
    if S.symbolic:
        for i in range(n):
            xs["%s%d" % (base, i)] = S.par("x%d" % i, None, sign={1} if log else None)
    else:
        a = S.par("first node", S.near(lo, lo=lo, hi=lo + 0.3 * (hi - lo)))
        b = S.par("last node", S.near(hi, lo=lo + 0.6 * (hi - lo), hi=hi))
        S.assume(lo <= a)
        S.assume(b <= hi)
        v = np.exp(np.linspace(np.log(a), np.log(b), n)) if log else np.linspace(a, b, n)
        v[0], v[-1] = a, b
        for i in range(n):
            xs["%s%d" % (base, i)] = float(v[i])
    for i in range(n):
        fs["f%s%d" % (base, i)] = S.par("f%d" % i, S.real(-2, 2, 0.0))
    return xs, fs


def stack(S, vals):
    return S.xp.stack([SP.A(S, v) for v in vals])


def spline(S, kind, xs, fs, rms, log):
    """x -> exp(interpolant) inside the node range, zero outside"""
    xp = S.xp
    x, f = stack(S, xs.values()), stack(S, fs.values())
    if rms is not None:
        f = f * SP.A(S, rms) / xp.sqrt(sum(SP.A(S, v) ** 2 for v in fs.values()) / len(fs))
    g = xp.log if log else (lambda v: v)
    first, last = SP.A(S, list(xs.values())[0]), SP.A(S, list(xs.values())[-1])

    def p(v):
        v = SP.A(S, v)
        return xp.where((v >= first) & (v <= last), xp.exp(deps.interp(S, kind, g(x), f, g(v))), 0.0)
    return p


CASES = [
    dict(model="SplineSpinMagnitudeIdentical", configured=4, given=4, kind="cubic", regularize=False, dims=1),
    dict(model="SplineSpinMagnitudeIdentical", configured=3, given=5, kind="linear", regularize=True, dims=2),
    dict(model="SplineSpinTiltIdentical", configured=5, given=5, kind="cubic", regularize=True, dims=1),
    dict(model="SplineSpinTiltIdentical", configured=4, given=6, kind="cubic", regularize=False, dims=2),
    dict(model="InterpolatedNoBaseModelIdentical", configured=4, given=4, kind="cubic", regularize=True, dims=2),
    dict(model="InterpolatedNoBaseModelIdentical", configured=3, given=4, kind="linear", regularize=False, dims=1),
    dict(model="InterpolatedNoBaseModelIdentical", configured=4, given=4, kind="nearest", regularize=False, dims=1, log=True),
    dict(model="InterpolatedNoBaseModelIdentical", configured=3, given=5, kind="cubic", regularize=True, dims=1, log=True),
    dict(model="SplineSpinMagnitudeIdentical", configured=10, given=10, kind="cubic", regularize=False, dims=1),
]
BASES = dict(SplineSpinMagnitudeIdentical=("a", ["a_1", "a_2"], 0.0, 1.0), SplineSpinTiltIdentical=("cos_tilt", ["cos_tilt_1", "cos_tilt_2"], -1.0, 1.0))


def build(S, model, configured, kind, regularize, log):
    if model in BASES:
        base, params, lo, hi = BASES[model]
        lo, hi = S.par("minimum", S.choice("minimum", [S.real(lo, lo)])), S.par("maximum", S.real(hi, hi))
        S.assume(lo < hi)
        m = S.call(lambda: getattr(S.mod("spin"), model)(minimum=lo, maximum=hi, nodes=configured, kind=kind, regularize=regularize))
        return m, base, params, lo, hi
    lo = S.par("minimum", S.real(2.0, 5.0), sign={1})
    hi = S.par("maximum", S.real(50.0, 100.0), sign={1})
    S.assume(lo < hi)
    params = ["mass_1"] if log else ["x_1", "x_2", "x_3"]
    m = S.call(lambda: S.mod("interped").InterpolatedNoBaseModelIdentical(parameters=list(params), minimum=lo, maximum=hi, nodes=configured, kind=kind, log_nodes=log, regularize=regularize))
    return m, params[0][:-2], params, lo, hi


def spline_data(S, params, dims, xs, lo, hi, log, tag=""):
    names = ("N", "K")[:dims]
    for d in names:
        S.size(d + tag, 2, 4)
    an = [] if S.symbolic else [list(xs.values())[0], list(xs.values())[-1], lo, hi]
    w = None if S.symbolic else hi - lo
    dom = None if S.symbolic else S.near(*an, lo=max(lo - 0.1 * w, 0.5 if log else -9), hi=hi + 0.1 * w)
    return {p: S.arr(p + tag, tuple(d + tag for d in names), dom, sign={1} if log else None) for p in params}


def want_of(S, m, p, data, params, lo, hi, n):
    xp = S.xp
    g = xp.linspace(lo, hi, SP.grid_size(S, m, "_xs", 10 * n))
    norm = xp.trapezoid(p(g), x=g)
    S.assume(norm > (0 if S.symbolic else 1e-9))
    out = 1.0
    for k in params:
        out = out * p(data[k])
    return out / norm ** len(params), norm


@contract("C06", [I + "InterpolatedNoBaseModelIdentical." + f for f in ("__init__", "__call__", "p_x_identical", "p_x_unnormed", "norm_p_x", "extract_spline_points", "infer_n_nodes", "setup_interpolant", "_interpolant_is_current")] + [I + "_setup_interpolant", SPIN + "SplineSpinMagnitudeIdentical.__init__", SPIN + "SplineSpinTiltIdentical.__init__"], cases=CASES, num_scale=0.7)
def spline_density(S, model, configured, given, kind, regularize, dims, log=False):
    """regularly (log-) spaced nodes, positive normalisation; with regularisation at least one non-zero node value; more than one data point"""
    deps.install_interp(S)
    m, base, params, lo, hi = build(S, model, configured, kind, regularize, log)
    xs, fs = nodes_of(S, base, given, lo, hi, log)
    rms = S.par("rms", S.real(0.1, 2), sign={1}) if regularize else None
    if regularize:
        S.assume(sum(SP.A(S, v) ** 2 for v in fs.values()) > (0 if S.symbolic else 1e-6))
    data = spline_data(S, params, dims, xs, lo, hi, log)
    h = dict(fs, **xs, **({"rms" + base: rms} if regularize else {}))
    S.frame(data, h)
    got = S.call(lambda: m(data, **h))
    want, _ = want_of(S, m, spline(S, kind, xs, fs, rms, log), data, params, lo, hi, given)
    S.ensure(got, want, "density")
    S.nonneg(got)


@contract("C06", [I + "InterpolatedNoBaseModelIdentical.extract_spline_points", I + "InterpolatedNoBaseModelIdentical.variable_names"], cases=[dict(n=k, regularize=r) for k in (2, 3, 5, 8) for r in (True, False)])
def node_values(S, n, regularize):
    """the regularised node values have the given root mean square and are proportional to the given ones; at least one is non-zero"""
    deps.install_interp(S)
    xp = S.xp
    m = S.call(lambda: S.mod("interped").InterpolatedNoBaseModelIdentical(parameters=["a_1", "a_2"], minimum=0.0, maximum=1.0, nodes=n, regularize=regularize))
    xs, fs = nodes_of(S, "a", n, 0.0, 1.0)
    S.assume(sum(SP.A(S, v) ** 2 for v in fs.values()) > (0 if S.symbolic else 1e-6))
    h = dict(fs, **xs)
    if regularize:
        h["rmsa"] = S.par("rms", S.real(0.1, 2), sign={1})
    S.frame(h)
    S.ensure_true(set(m.variable_names) == set(h), "names of the hyperparameters", str(m.variable_names))
    got = S.call(lambda: m.extract_spline_points(h))
    if isinstance(got, Raised):
        return S.ensure(got, 0.0)
    f, x = got
    S.ensure(x, stack(S, xs.values()), "node positions")
    v = stack(S, fs.values())
    if not regularize:
        return S.ensure(f, v, "node values")
    f = SP.A(S, f)
    ms = sum(f[i] ** 2 for i in range(n)) / n
    S.ensure(ms, SP.A(S, h["rmsa"]) ** 2, "mean square of the node values")
    S.ensure(f[0] * v[n - 1], f[n - 1] * v[0], "proportional", tol=1e-9)
    S.nonneg(f[0] * v[0])


@contract("C06", [M + "InterpolatedPowerlaw." + f for f in ("__init__", "p_m1", "norm_p_m1")], cases=[dict(nodes=n, kind=k, regularize=r, delta=d) for n, k, r in ((4, "cubic", False), (6, "cubic", True), (5, "linear", False)) for d in ("positive", "zero", "absent")], num_scale=0.7, modular=True)
def interpolated_power_law(S, nodes, kind, regularize, delta):
    """log-regularly spaced nodes, hyperparameters within the grid, positive normalisation; for delta_m = 0 away from m1 = mmin"""
    S.use("powerlaw", "smoothing")
    deps.install_interp(S)
    xp = S.xp
    kw, lo, hi = grid(S)
    h = mass_hyper(S, ["alpha", "mmin", "mmax"], lo, hi)
    d = delta_of(S, delta)
    m = S.call(lambda: S.mod("mass").InterpolatedPowerlaw(nodes=nodes, kind=kind, regularize=regularize, **kw))
    xs, fs = nodes_of(S, "mass", nodes, lo, hi, True)
    rms = S.par("rms", S.real(0.1, 2), sign={1}) if regularize else None
    if regularize:
        S.assume(sum(SP.A(S, v) ** 2 for v in fs.values()) > (0 if S.symbolic else 1e-6))
    data = spline_data(S, ["mass_1"], 1, xs, lo, hi, True)
    pars = dict(h, **d, **fs, **xs, **({"rmsmass": rms} if regularize else {}))
    S.frame(data, pars)
    sp = spline(S, kind, xs, fs, rms, True)

    def un(v):
        r = s_pow(S, v, h) * sp(v)
        return r * SP.window(S, v, h["mmin"], hi, d["delta_m"]) if delta == "positive" else r
    g = xp.linspace(lo, hi, kw["normalization_shape"][0])
    norm = xp.trapezoid(un(g), x=g)
    S.assume(norm > (0 if S.symbolic else 1e-9))
    # both implied by the positive normalisation
    S.assume(SP.A(S, xs["mass0"]) <= SP.A(S, h["mmax"]))
    S.assume(SP.A(S, xs["mass%d" % (nodes - 1)]) >= SP.A(S, h["mmin"]))
    if delta != "positive":
        S.assume(SP.A(S, data["mass_1"]) != SP.A(S, h["mmin"]))
    got = S.call(lambda: m.p_m1(data, **pars))
    S.ensure(got, un(data["mass_1"]) / norm, "primary-mass density")
    S.nonneg(got)
