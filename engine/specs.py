"""Documented formulae, written once; evaluated symbolically (S.xp = symbolic
arrays) or with numpy (S.xp = numpy).  Nothing here is taken from the code:
each function is the closed form given in the documentation / cited paper.
"""
import math

import numpy as np

from . import sym


def pi(S):
    return S.xp.pi


def A(S, x):
    """spec-side array: numpy array in concrete runs"""
    if S.symbolic:
        a = sym.lift(x)
        return sym.SymArr(a.node) if a.py else a
    return np.asarray(x, dtype=float)


def band(S, *cs):
    r = cs[0]
    for c in cs[1:]:
        r = r & c
    return r


def within(S, x, lo, hi):
    return (A(S, x) >= A(S, lo)) & (A(S, x) <= A(S, hi))


# ------------------------------------------------------------------ elementary densities


def powerlaw_norm(S, alpha, high, low):
    xp = S.xp
    al, hi, lo = A(S, alpha), A(S, high), A(S, low)
    one = al + 1
    return xp.where(al == -1, 1 / xp.log(hi / lo), one / (hi ** one - lo ** one))


def powerlaw(S, x, alpha, high, low):
    if "powerlaw" in S.modular:
        return S.app("PL", x, alpha, high, low)
    xp = S.xp
    x = A(S, x)
    inside = within(S, x, low, high)
    safe = xp.where(inside, x, 1.0)
    return xp.where(inside, safe ** A(S, alpha) * powerlaw_norm(S, alpha, high, low), 0.0)


def phi_interval(S, a, b):
    """Phi(b) - Phi(a), accurately"""
    if S.symbolic:
        return S.scs.ndtr(b) - S.scs.ndtr(a)
    import scipy.special as sp

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    flip = (a + b) > 0
    a2, b2 = np.where(flip, -b, a), np.where(flip, -a, b)
    # both in the lower half (by symmetry): differences of small numbers
    r = sp.ndtr(b2) - sp.ndtr(a2)
    # tiny intervals: integrate the density (Gauss-Legendre)
    w = b2 - a2
    t, wt = np.polynomial.legendre.leggauss(40)
    m, h = (a2 + b2) / 2, w / 2
    g = sum(wi * np.exp(-((m + h * ti) ** 2) / 2) for ti, wi in zip(t, wt)) * h / math.sqrt(2 * math.pi)
    return np.where(w < 1.0, g, r)


def truncnorm(S, x, mu, sigma, high, low):
    if "truncnorm" in S.modular:
        return S.app("TN", x, mu, sigma, high, low)
    xp = S.xp
    x, mu, sigma = A(S, x), A(S, mu), A(S, sigma)
    a, b = (A(S, low) - mu) / sigma, (A(S, high) - mu) / sigma
    inside = within(S, x, low, high)
    if S.symbolic:
        dens = xp.exp(-(((x - mu) / sigma) ** 2) / 2) / (sigma * xp.sqrt(2 * pi(S))) / phi_interval(S, a, b)
    else:  # avoid 0/0 underflow of both factors
        import scipy.special as sp

        with np.errstate(all="ignore"):
            ln = -(((x - mu) / sigma) ** 2) / 2 - np.log(sigma * np.sqrt(2 * np.pi)) - log_phi_interval(a, b)
            dens = np.exp(ln)
    return xp.where(inside, dens, 0.0)


def log_phi_interval(a, b):
    import scipy.special as sp

    flip = (a + b) > 0
    a2, b2 = np.where(flip, -b, a), np.where(flip, -a, b)
    lb, la = sp.log_ndtr(b2), sp.log_ndtr(a2)
    r = lb + np.log(-np.expm1(la - lb))
    w = b2 - a2
    t, wt = np.polynomial.legendre.leggauss(40)
    m, h = (a2 + b2) / 2, w / 2
    top = np.maximum(-(a2 ** 2) / 2, -(b2 ** 2) / 2)
    g = np.log(sum(wi * np.exp(-((m + h * ti) ** 2) / 2 - top) for ti, wi in zip(t, wt)) * h / math.sqrt(2 * math.pi)) + top
    return np.where(w < 0.3, g, r)


def beta_dist(S, x, alpha, beta, scale):
    if "beta_dist" in S.modular:
        return S.app("BE", x, alpha, beta, scale)
    xp, scs = S.xp, S.scs
    x, al, be, sc = A(S, x), A(S, alpha), A(S, beta), A(S, scale)
    inside = within(S, x, 0.0, sc)
    one = al * 0 + 1
    safe = xp.where(inside, x, sc / 2)
    lnB = scs.gammaln(al) + scs.gammaln(be) - scs.gammaln(al + be)

    def pw(base, ex):  # base**ex with 0**0 = 1
        return xp.where(ex == 0, 1.0, xp.where(ex == 0, 1.0, base) ** ex)

    if S.symbolic:
        dens = pw(safe, al - 1) * pw(sc - safe, be - 1) / (xp.exp(lnB) * sc ** (al + be - 1))
    else:
        import scipy.special as sp

        with np.errstate(all="ignore"):
            dens = np.exp(sp.xlogy(al - 1, safe) + sp.xlogy(be - 1, sc - safe) - lnB - (al + be - 1) * np.log(sc))
    return xp.where(inside, dens, 0.0)


def von_mises(S, x, mu, kappa):
    xp, scs = S.xp, S.scs
    x, mu, k = A(S, x), A(S, mu), A(S, kappa)
    if S.symbolic:
        return xp.exp(k * xp.cos(x - mu)) / (2 * pi(S) * scs.i0e(k) * xp.exp(xp.abs(k)))
    return np.exp(k * np.cos(x - mu) - np.abs(k)) / (2 * np.pi * scs.i0e(k))


def gauss2d(S, x, y, mx, my, sx, sy, rho):
    xp = S.xp
    x, y, mx, my, sx, sy, rho = [A(S, v) for v in (x, y, mx, my, sx, sy, rho)]
    u, v = (x - mx) / sx, (y - my) / sy
    return xp.exp(-(u ** 2 - 2 * rho * u * v + v ** 2) / (2 * (1 - rho ** 2)))


def grid_size(S, model, attr, default):
    """number of points of a model's own normalisation grid (its resolution is not part of the contract)"""
    g = getattr(model, attr, None)
    try:
        n = g.shape[0]
    except Exception:
        return default
    return n


def window(S, m, lo, hi, delta):
    """low-mass window: Planck taper over [lo, lo + delta], clipped within 1e-6 of its ends (delta > 0)"""
    if "smoothing" in S.modular:
        return S.app("WIN", m, lo, hi, delta)
    xp = S.xp
    m, lo, hi, delta = [A(S, v) for v in (m, lo, hi, delta)]
    u = (m - lo) / delta
    s = xp.clip(u, 1e-6, 1 - 1e-6)
    w = 1 / (1 + xp.exp(1 / s - 1 / (1 - s))) if S.symbolic else S.scs.expit(1 / (1 - s) - 1 / s)
    w = xp.where(u <= 1e-6, 0.0, xp.where(u >= 1 - 1e-6, 1.0, w))
    return xp.where(within(S, m, lo, hi), w, 0.0)
