"""Contracts of callees, used at their call sites in modular proofs.

Each stand-in has the real function's signature and returns a value about
which only the callee's postcondition is known; the contracts named in
PROVED_BY prove those postconditions against the real code.
"""
from . import solver, sym, terms as T
from .sym import A, ANY, NAN, PINF, F, SymArr, ZERO, APP_EVAL, CTX, Unsupported

PROVED_BY = dict(PL="powerlaw_density, powerlaw_array_edges, powerlaw_degenerate", TN="truncnorm_density, truncnorm_array_parameters", BE="beta_density", BPL="broken_power_law", WIN="smoothing_window")


def _inside(x, lo, hi):
    p = CTX.path
    return p.ask(x - lo, [{0, 1}, {-1}]) == 0 and p.ask(hi - x, [{0, 1}, {-1}]) == 0


def _pl(ts):
    """0 outside [low, high]; a positive number inside; unspecified where low < 0; where low == high either 0 or not a
    finite number (callers that rely on this are proved for both: path.degenerate), otherwise unspecified"""
    x, al, hi, lo = ts
    p = CTX.path
    if p.ask(lo, [{0, 1}, {-1}]) == 1:
        return ANY
    if p.is_zero(hi - lo):
        return {"zero": F(ZERO), "nan": NAN, "inf": PINF}.get(getattr(p, "degenerate", None), ANY)
    if not _inside(x, lo, hi):
        return F(ZERO)
    if p.is_zero(lo):
        return ANY  # integrability and x=0 are the caller's business
    return F(A(("fn", "PL", tuple(t.key for t in ts))))


def _tn(ts):
    x, mu, sg, hi, lo = ts
    p = CTX.path
    if p.ask(sg, [{1}, {-1, 0}]) == 1:
        return ANY
    if p.ask(hi - lo, [{1}, {-1, 0}]) == 1:
        return ANY
    if not _inside(x, lo, hi):
        return F(ZERO)
    return F(A(("fn", "TN", tuple(t.key for t in ts))))


def _be(ts):
    x, al, be, sc = ts
    p = CTX.path
    for t in (al, be, sc):
        if p.ask(t, [{1}, {-1, 0}]) == 1:
            return ANY
    if not _inside(x, ZERO, sc):
        return F(ZERO)
    for edge, sh in ((x, al), (x - sc, be)):
        if p.is_zero(edge):
            s = p.sign(sh - T.T1)
            if s < 0:
                return ANY  # infinite
            if s > 0:
                return F(ZERO)
    return F(A(("fn", "BE", tuple(t.key for t in ts))))


def _bpl(ts):
    """broken power law: 0 outside [mmin, mmax]; positive inside; for 0 < mmin < mmax, 0 < fraction < 1"""
    x, a1, a2, lo, hi, f = ts
    p = CTX.path
    if p.ask(lo, [{1}, {-1, 0}]) == 1 or p.ask(hi - lo, [{1}, {-1, 0}]) == 1:
        return ANY
    if p.ask(f, [{1}, {-1, 0}]) == 1 or p.ask(T.T1 - f, [{1}, {-1, 0}]) == 1:
        return ANY
    if not _inside(x, lo, hi):
        return F(ZERO)
    return F(A(("fn", "BPL", tuple(t.key for t in ts))))


def _win(ts):
    """low-mass window (x, mmin, mmax, delta_m >= 0): for delta_m > 0 zero outside [mmin, mmax] and at mmin, one from
    mmin + delta_m on and a number in [0, 1] in between; for delta_m = 0 one on (mmin, mmax] and some number in [0, 1] elsewhere"""
    x, lo, hi, de = ts
    p = CTX.path
    if p.ask(de, [{0, 1}, {-1}]) == 1:
        return ANY
    inside = _inside(x, lo, hi)
    if p.is_zero(de):
        if inside and not p.is_zero(x - lo):
            return F(T.T1)
        return F(A(("fn", "WIN0", tuple(t.key for t in ts))))
    if not inside or p.is_zero(x - lo):
        return F(ZERO)
    if p.ask(x - lo - de, [{0, 1}, {-1}]) == 0:
        return F(T.T1)
    return F(A(("fn", "WIN", (x.key, lo.key, de.key))))


APP_EVAL["WIN"] = _win
solver.FN_RANGE["WIN"] = (0, 1, False, False)
solver.FN_RANGE["WIN0"] = (0, 1, False, False)
APP_EVAL["BPL"] = _bpl
APP_EVAL["PL"], APP_EVAL["TN"], APP_EVAL["BE"] = _pl, _tn, _be
for n in ("PL", "TN", "BE", "BPL"):
    solver.FN_RANGE[n] = (0, None, True, False)


def install(S, name):
    from .contract import mod

    if name == "smoothing":
        cls = mod("models.mass").BaseSmoothedMassDistribution

        def smoothing(masses, mmin, mmax, delta_m):
            return S.app("WIN", masses, mmin, mmax, delta_m)
        S.patch.set(cls, "smoothing", staticmethod(smoothing))
        return
    U = mod("models.mass" if name == "double_power_law_primary_mass" else "utils")
    real = getattr(U, name)
    if name == "powerlaw":
        def stand_in(xx, alpha, high, low):
            return S.app("PL", xx, alpha, high, low)
    elif name == "truncnorm":
        def stand_in(xx, mu, sigma, high, low):
            return S.app("TN", xx, mu, sigma, high, low)
    elif name == "beta_dist":
        def stand_in(xx, alpha, beta, scale=1):
            return S.app("BE", xx, alpha, beta, scale)
    elif name == "double_power_law_primary_mass":
        def stand_in(mass, alpha_1, alpha_2, mmin, mmax, break_fraction):
            return S.app("BPL", mass, alpha_1, alpha_2, mmin, mmax, break_fraction)
    else:
        raise Unsupported("no callee contract for " + name)
    stand_in.__name__ = name
    S.replace(real, stand_in)
