"""C05: spin models."""
from engine.contract import contract
from engine import specs as SP

F = "gwpopulation.models.spin."


def spins(S, keys, lo=-0.2, hi=1.2, anchors=(0.0, 1.0)):
    return {k: S.arr(k, ("N",), S.near(*anchors, lo=lo, hi=hi)) for k in keys}


def shapes(S, *names):
    out = {}
    for n in names:
        d = S.logreal(0.5, 1.0, 1.0) if n.startswith("amax") else S.logreal(0.4, 8, 1.0, 2.0)
        out[n] = S.par(n, d, sign={1})
    return out


def interior(S, x, h, i):
    """the density is infinite at an edge of its support when the shape parameter there is below one"""
    x, a, al, be = [SP.A(S, v) for v in (x, h["amax_" + i], h["alpha_chi_" + i], h["beta_chi_" + i])]
    return ((x != 0) | (al >= 1)) & ((x != a) | (be >= 1))


def beta2(S, data, h):
    r = None
    ok = None
    for i in "12":
        p = SP.beta_dist(S, data["a_" + i], h["alpha_chi_" + i], h["beta_chi_" + i], h["amax_" + i])
        r = p if r is None else r * p
        o = interior(S, data["a_" + i], h, i)
        ok = o if ok is None else ok & o
    return r, ok


def iid(h):
    return {k + i: h[k[:-1]] for k in ("alpha_chi_", "beta_chi_", "amax_") for i in "12"}


MAG = [dict(model="independent", default=False), dict(model="iid", default=False), dict(model="iid", default=True)]


@contract("C05", [F + "independent_spin_magnitude_beta", F + "iid_spin_magnitude_beta"], cases=MAG, modular=True)
def spin_magnitudes(S, model, default):
    S.use("beta_dist")
    data = spins(S, ["a_1", "a_2"])
    if model == "independent":
        h = shapes(S, "alpha_chi_1", "alpha_chi_2", "beta_chi_1", "beta_chi_2", "amax_1", "amax_2")
        full = h
    elif default:
        h = {}
        full = iid(dict(alpha_chi=1, beta_chi=1, amax=1))
    else:
        h = shapes(S, "alpha_chi", "beta_chi", "amax")
        full = iid(h)
    S.frame(data)
    got = S.call(lambda: getattr(S.mod("spin"), model + "_spin_magnitude_beta")(data, **h))
    want, ok = beta2(S, data, full)
    S.ensure(got, S.partial(want, ok), "density")


def tilt(S, data, xi, s1, s2, m1=1, m2=1):
    xi = SP.A(S, xi)
    return (1 - xi) / 4 + xi * SP.truncnorm(S, data["cos_tilt_1"], m1, s1, 1, -1) * SP.truncnorm(S, data["cos_tilt_2"], m2, s2, 1, -1)


def tiltpars(S, *names):
    out = {}
    for n in names:
        if n == "xi_spin":
            out[n] = S.par(n, S.real(0, 1, 0.0, 1.0), sign={0, 1})
            S.assume(out[n] <= 1)
        elif n.startswith("sigma"):
            out[n] = S.par(n, S.logreal(0.1, 4, 1.0), sign={1})
        else:
            out[n] = S.par(n, S.real(-1, 1, 1.0, 0.0))
    return out


TILT = [dict(model="independent", default=False), dict(model="independent", default=True), dict(model="iid", default=False), dict(model="iid", default=True)]


@contract("C05", [F + "independent_spin_orientation_gaussian_isotropic", F + "iid_spin_orientation_gaussian_isotropic"], cases=TILT, modular=True)
def spin_tilts(S, model, default):
    S.use("truncnorm")
    data = spins(S, ["cos_tilt_1", "cos_tilt_2"], -1.2, 1.2, (-1.0, 1.0))
    if model == "independent":
        h = tiltpars(S, *(["xi_spin", "sigma_1", "sigma_2"] + ([] if default else ["mu_1", "mu_2"])))
        want = tilt(S, data, h["xi_spin"], h["sigma_1"], h["sigma_2"], h.get("mu_1", 1), h.get("mu_2", 1))
    else:
        h = tiltpars(S, *(["xi_spin", "sigma_spin"] + ([] if default else ["mu_spin"])))
        mu = h.get("mu_spin", 1)
        want = tilt(S, data, h["xi_spin"], h["sigma_spin"], h["sigma_spin"], mu, mu)
    S.frame(data)
    got = S.call(lambda: getattr(S.mod("spin"), model + "_spin_orientation_gaussian_isotropic")(data, **h))
    S.ensure(got, want, "density")
    S.nonneg(got)


@contract("C05", F + "iid_spin", modular=True, max_paths=8000)
def iid_spins(S):
    S.use("truncnorm", "beta_dist")
    data = spins(S, ["a_1", "a_2"])
    data.update(spins(S, ["cos_tilt_1", "cos_tilt_2"], -1.2, 1.2, (-1.0, 1.0)))
    h = shapes(S, "alpha_chi", "beta_chi", "amax")
    h.update(tiltpars(S, "xi_spin", "sigma_spin"))
    S.frame(data)
    got = S.call(lambda: S.mod("spin").iid_spin(data, **h))
    mag, ok = beta2(S, data, iid(h))
    S.ensure(got, S.partial(mag * tilt(S, data, h["xi_spin"], h["sigma_spin"], h["sigma_spin"]), ok), "density")


@contract("C05", [F + "gaussian_chi_eff", F + "gaussian_chi_p"], cases=[dict(which="chi_eff"), dict(which="chi_p")], modular=True)
def effective_spin(S, which):
    S.use("truncnorm")
    data = spins(S, [which], -1.3, 1.3, (-1.0, 0.0, 1.0))
    mu = S.par("mu", S.real(-1, 1, 0.0))
    sg = S.par("sigma", S.logreal(0.05, 3, 1.0), sign={1})
    S.frame(data)
    got = S.call(lambda: getattr(S.mod("spin"), "gaussian_" + which)(data, **{"mu_" + which: mu, "sigma_" + which: sg}))
    S.ensure(got, SP.truncnorm(S, data[which], mu, sg, 1, -1 if which == "chi_eff" else 0), "density")
    S.nonneg(got)


@contract("C05", [F + "GaussianChiEffChiP.__call__", F + "GaussianChiEffChiP.__init__", "gwpopulation.utils.unnormalized_2d_gaussian", "gwpopulation.utils.trapezoid"], num_scale=0.5)
def correlated_effective_spin(S):
    """the normalisation grid is generalised to any number of points (same end points)"""
    data = spins(S, ["chi_eff", "chi_p"], -1.3, 1.3, (-1.0, 0.0, 1.0))
    h = dict(mu_chi_eff=S.par("mu_chi_eff", S.real(-1, 1, 0.0)), mu_chi_p=S.par("mu_chi_p", S.real(0, 1, 0.0)),
             sigma_chi_eff=S.par("sigma_chi_eff", S.logreal(0.05, 1, 1.0), sign={1}), sigma_chi_p=S.par("sigma_chi_p", S.logreal(0.05, 1, 1.0), sign={1}),
             spin_covariance=S.par("rho", S.real(-0.9, 0.9, 0.0)))
    S.assume(h["spin_covariance"] < 1)
    S.assume(h["spin_covariance"] > -1)
    S.frame(data)
    box = {}

    def run():
        box["m"] = S.mod("spin").GaussianChiEffChiP()
        return box["m"](data, **h)
    got = S.call(run)
    ne = SP.grid_size(S, box.get("m"), "chi_eff", 500)
    np_ = SP.grid_size(S, box.get("m"), "chi_p", 250)
    xp = S.xp
    ge, gp = xp.linspace(-1, 1, ne), xp.linspace(0, 1, np_)
    k = lambda x, y: SP.gauss2d(S, x, y, h["mu_chi_eff"], h["mu_chi_p"], h["sigma_chi_eff"], h["sigma_chi_p"], h["spin_covariance"])
    norm = xp.trapezoid(xp.trapezoid(k(ge[:, None], gp[None, :]), x=gp, axis=1), x=ge, axis=0)
    inside = SP.within(S, data["chi_eff"], -1, 1) & SP.within(S, data["chi_p"], 0, 1)
    S.ensure(got, xp.where(inside, k(data["chi_eff"], data["chi_p"]) / norm, 0.0), "density")
    S.nonneg(got)
