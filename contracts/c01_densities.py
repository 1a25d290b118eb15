"""C01: elementary densities; C02: rejection of invalid hyperparameters."""
from operator import ge, gt

import math

import numpy as np

from engine.contract import contract
from engine import specs as SP

SHAPES = [dict(shape="scalar"), dict(shape="vector"), dict(shape="matrix")]
XD = dict(scalar=(), vector=("N",), matrix=("N", "M"))


def xin(S, name, shape, dom):
    if shape == "scalar":
        return S.par(name, dom)
    return S.arr(name, XD[shape], dom)


@contract("C01", "gwpopulation.utils.powerlaw", cases=SHAPES)
def powerlaw_density(S, shape):
    low = S.par("low", S.logreal(1e-3, 20, 0.0, 1.0, 2.0, 5.0), sign={0, 1})
    high = S.par("high", S.logreal(1e-2, 200, 1.0, 100.0), sign={1})
    alpha = S.par("alpha", S.real(-6, 6, -1.0, 0.0, 1.0, 2.0, -2.0, -1.5))
    x = xin(S, "x", shape, S.near(0.0, low, high, -1.0, lo=-3, hi=120))
    S.assume(low < high)
    if S.decide(low == 0):
        S.assume(alpha > -1)
        if not S.decide(alpha >= 0):
            S.assume(x != 0)
    S.frame(x)
    got = S.call(lambda: S.mod("utils").powerlaw(x, alpha, high, low))
    S.ensure(got, SP.powerlaw(S, x, alpha, high, low), "density")
    S.nonneg(got)


@contract("C01", "gwpopulation.utils.powerlaw")
def powerlaw_array_edges(S):
    """array-valued index and edges broadcast elementwise"""
    low = S.arr("low", ("N",), S.logreal(1e-3, 20, 1.0, 2.0), sign={1})
    high = S.arr("high", ("N",), S.logreal(1e-2, 200, 1.0, 100.0), sign={1})
    alpha = S.arr("alpha", ("N",), S.real(-6, 6, -1.0, 0.0, 1.0))
    x = S.arr("x", ("N",), S.real(-1, 50, 1.0, 2.0))
    S.assume(low != high)  # an empty interval (low > high) has density zero everywhere
    S.frame(x, low, high, alpha)
    got = S.call(lambda: S.mod("utils").powerlaw(x, alpha, high, low))
    S.ensure(got, SP.powerlaw(S, x, alpha, high, low), "density")
    S.nonneg(got)


@contract("C01", "gwpopulation.utils.truncnorm", cases=SHAPES)
def truncnorm_density(S, shape):
    mu = S.par("mu", S.real(-4, 6, 0.0, 1.0))
    sigma = S.par("sigma", S.logreal(0.1, 10, 1.0), sign={1})
    low = S.par("low", S.real(-5, 5, 0.0, -1.0))
    high = S.par("high", S.real(-5, 9, 0.0, 1.0))
    x = xin(S, "x", shape, S.near(low, high, mu, lo=-8, hi=10))
    S.assume(low < high)
    if not S.symbolic:
        S.assume(high - low > 1e-3)
    S.frame(x)
    got = S.call(lambda: S.mod("utils").truncnorm(x, mu, sigma, high, low))
    S.ensure(got, SP.truncnorm(S, x, mu, sigma, high, low), "density")
    S.nonneg(got)


@contract("C01", "gwpopulation.utils.truncnorm")
def truncnorm_array_parameters(S):
    mu = S.arr("mu", ("N",), S.real(-4, 6, 0.0))
    sigma = S.arr("sigma", ("N",), S.logreal(0.1, 10, 1.0), sign={1})
    low = S.arr("low", ("N",), S.real(-5, 5, 0.0, -1.0))
    high = S.arr("high", ("N",), S.real(-5, 9, 0.0, 1.0))
    x = S.arr("x", ("N",), S.real(-5, 9, 0.0, 1.0))
    S.assume(low < high)
    if not S.symbolic:
        S.assume(high - low > 1e-3)
    S.frame(x, mu, sigma, low, high)
    got = S.call(lambda: S.mod("utils").truncnorm(x, mu, sigma, high, low))
    S.ensure(got, SP.truncnorm(S, x, mu, sigma, high, low), "density")
    S.nonneg(got)


@contract("C01", "gwpopulation.utils.beta_dist", cases=SHAPES)
def beta_density(S, shape):
    alpha = S.par("alpha", S.logreal(0.2, 12, 1.0, 2.0), sign={1})
    beta = S.par("beta", S.logreal(0.2, 12, 1.0, 2.0), sign={1})
    default = S.choice("scale", ["default", "given"])
    scale = 1 if default == "default" else S.par("scale", S.logreal(0.1, 5, 0.25, 0.5, 1.0, 2.0, 4.0), sign={1})
    x = xin(S, "x", shape, S.near(0.0, 1.0, scale, lo=-0.5, hi=2.0))
    if S.symbolic:
        S.assume((x != 0) | (alpha >= 1))
        S.assume((x != scale) | (beta >= 1))
    else:
        S.assume((np.asarray(x) != 0) | (alpha >= 1))
        S.assume((np.asarray(x) != scale) | (beta >= 1))
        # x / scale need not round to exactly one there: the value at the edge is left to the
        # proof unless the quotient is exact
        S.assume((np.asarray(x) != scale) | (beta == 1) | (math.frexp(float(scale))[0] == 0.5))
    S.frame(x)
    if default == "default":
        got = S.call(lambda: S.mod("utils").beta_dist(x, alpha, beta))
    else:
        got = S.call(lambda: S.mod("utils").beta_dist(x, alpha, beta, scale))
    S.ensure(got, SP.beta_dist(S, x, alpha, beta, scale), "density")
    S.nonneg(got)


@contract("C01", "gwpopulation.utils.von_mises", cases=SHAPES)
def von_mises_density(S, shape):
    mu = S.par("mu", S.real(-4, 4, 0.0))
    kappa = S.par("kappa", S.logreal(1e-3, 3000, 0.0), sign={0, 1})
    x = xin(S, "x", shape, S.real(-4, 4, 0.0))
    S.frame(x)
    got = S.call(lambda: S.mod("utils").von_mises(x, mu, kappa))
    S.ensure(got, SP.von_mises(S, x, mu, kappa), "density")
    S.nonneg(got)


@contract("C01", "gwpopulation.utils.unnormalized_2d_gaussian", cases=SHAPES)
def gaussian_2d_kernel(S, shape):
    mx, my = S.par("mx", S.real(-2, 2)), S.par("my", S.real(-2, 2))
    sx, sy = S.par("sx", S.logreal(0.3, 3), sign={1}), S.par("sy", S.logreal(0.3, 3), sign={1})
    rho = S.par("rho", S.real(-0.95, 0.95, 0.0))
    x = xin(S, "x", shape, S.real(-3, 3))
    y = xin(S, "y", shape, S.real(-3, 3))
    S.assume(rho > -1)
    S.assume(rho < 1)
    S.frame(x, y)
    got = S.call(lambda: S.mod("utils").unnormalized_2d_gaussian(x, y, mx, my, sx, sy, rho))
    S.ensure(got, SP.gauss2d(S, x, y, mx, my, sx, sy, rho), "kernel")
    S.nonneg(got)


# ------------------------------------------------------------------ C02

FUNCS = {
    "beta_dist": (["alpha", "beta", "scale"], dict(alpha=gt, beta=gt, scale=gt)),
    "powerlaw": (["alpha", "high", "low"], dict(low=ge)),
    "truncnorm": (["mu", "sigma", "high", "low"], dict(sigma=gt)),
}
C02_CASES = [dict(func=f, array=a) for f, (ps, conds) in FUNCS.items() for a in [None] + list(conds)]


@contract("C02", ["gwpopulation.utils.apply_conditions", "gwpopulation.utils.beta_dist", "gwpopulation.utils.powerlaw", "gwpopulation.utils.truncnorm"], modes=("numpy",), cases=C02_CASES)
def keyword_domain(S, func, array):
    """raises ValueError iff some parameter given by keyword is outside its domain (array: `array` is array-valued)"""
    names, conds = FUNCS[func]
    x = S.arr("x", ("N",), S.real(0.1, 0.9))
    kw = {}
    for n in names:
        dom = S.near(0.0, 1.0, lo=-2, hi=3)
        kw[n] = S.arr(n, ("N",), dom) if n == array else S.par(n, dom)
    bad = False
    for n, op in conds.items():
        if n == array:
            b = S.any_true(~op(kw[n], 0))
        else:
            b = not S.decide(op(kw[n], 0))
        bad = bad or b
    if func == "powerlaw" and not bad:
        S.assume(kw["low"] > 0)  # python scalars: 1/0 is not the domain check's business
        S.assume(kw["high"] > 0)
        S.assume(kw["high"] > kw["low"])
    if func == "truncnorm" and not bad:
        S.assume(kw["high"] > kw["low"])
    S.frame(x, kw)
    got = S.call(lambda: getattr(S.mod("utils"), func)(x, **kw))
    if bad:
        S.ensure_raises(got, ValueError, "out-of-domain parameter")
    else:
        S.ensure_true(not hasattr(got, "exc"), "valid parameters accepted", repr(got)[:300])


@contract("C02", ["gwpopulation.utils.apply_conditions"], modes=("numpy",))
def positional_parameters_are_accepted(S):
    """parameters inside the domain never raise, however they are passed"""
    al = S.par("alpha", S.logreal(0.2, 5, 1.0), sign={1})
    be = S.par("beta", S.logreal(0.2, 5, 1.0), sign={1})
    sc = S.par("scale", S.logreal(0.2, 5, 1.0), sign={1})
    x = S.arr("x", ("N",), S.real(0.1, 0.9))
    how = S.choice("how", ["pos", "mixed", "kw"])
    U = S.mod("utils")
    got = S.call(lambda: U.beta_dist(x, al, be, sc) if how == "pos" else (U.beta_dist(x, al, be, scale=sc) if how == "mixed" else U.beta_dist(xx=x, alpha=al, beta=be, scale=sc)))
    S.ensure_true(not hasattr(got, "exc"), "valid parameters accepted", repr(got)[:300])
