"""C07: redshift models."""
from engine.contract import contract
from engine import specs as SP, deps

R = "gwpopulation.models.redshift."
COSMO = ["Planck15", "FlatwCDM", "FlatLambdaCDM", "Planck18"]


def cosmology(S, name):
    h = {}
    if name in ("FlatwCDM", "FlatLambdaCDM"):
        h["H0"] = S.par("H0", S.real(50, 90), sign={1})
        h["Om0"] = S.par("Om0", S.real(0.2, 0.5), sign={1})
        if not S.symbolic:
            S.assume(h["Om0"] < 1)
    if name == "FlatwCDM":
        h["w0"] = S.par("w0", S.real(-1.4, -0.6, -1.0))
    return h


def rate(S, model):
    if model == "PowerLawRedshift":
        return dict(lamb=S.par("lamb", S.real(-3, 5, 0.0, 1.0)))
    if model == "MadauDickinsonRedshift":
        h = dict(gamma=S.par("gamma", S.real(-2, 5, 0.0)), kappa=S.par("kappa", S.real(-1, 8, 0.0)), z_peak=S.par("z_peak", S.real(-0.5, 4, 0.0)))
        S.assume(h["z_peak"] > -1)
        return h
    return dict(xi=S.par("xi", S.real(0, 2)))


def psi(S, model, z, h):
    z = SP.A(S, z)
    if model == "PowerLawRedshift":
        return (1 + z) ** SP.A(S, h["lamb"])
    if model == "MadauDickinsonRedshift":
        g, k, zp = [SP.A(S, h[n]) for n in ("gamma", "kappa", "z_peak")]
        return (1 + (1 + zp) ** (-k)) * (1 + z) ** g / (1 + ((1 + z) / (1 + zp)) ** k)
    if S.symbolic:
        return S.app("user_psi", z, h["xi"])
    return S.xp.exp(-SP.A(S, h["xi"]) * z)


def build(S, model, **kw):
    M = S.mod("redshift")
    if model != "user":
        return getattr(M, model)(**kw)

    class User(M._Redshift):
        base_variable_names = ["xi"]

        def psi_of_z(self, redshift, **parameters):
            if S.symbolic:
                return S.app("user_psi", redshift, parameters["xi"])
            return S.bxp.exp(-parameters["xi"] * redshift)
    return User(**kw)


from engine import solver
solver.FN_RANGE["user_psi"] = (0, None, True, False)

CASES = [dict(model=m, cosmo=c) for m in ("PowerLawRedshift", "MadauDickinsonRedshift", "user") for c in COSMO]


def zmax_of(S):
    default = S.choice("z_max", ["default", "given"])
    if default == "default":
        return {}, 2.3
    z = S.par("z_max", S.real(0.5, 4), sign={1})
    S.assume(z > 0.001)
    return dict(z_max=z), z


def volume(S, model, z, h, p):
    xp = S.xp
    z = SP.A(S, z)
    return psi(S, model, z, h) / (1 + z) * 4 * xp.pi * deps.dvdz(S, z, p)


def norm_of(S, model, zm, h, p, m):
    zs = S.xp.linspace(1e-6, zm, SP.grid_size(S, m, "zs", 2500))
    return S.xp.trapezoid(volume(S, model, zs, h, p), x=zs)


@contract("C07", [R + "_Redshift.__init__", R + "_Redshift.__call__", R + "_Redshift.probability", R + "_Redshift.normalisation", R + "_Redshift.differential_spacetime_volume", R + "_Redshift.dvc_dz", "gwpopulation.experimental.cosmo_models.CosmoMixin.cosmology", "gwpopulation.experimental.cosmo_models.CosmoMixin.cosmology_variables"], cases=CASES, num_scale=0.4)
def redshift_density(S, model, cosmo):
    """normalisation grid generalised to any number of points between 1e-6 and z_max"""
    deps.install_cosmo(S)
    h = rate(S, model)
    c = cosmology(S, cosmo)
    kw, zm = zmax_of(S)
    z = S.arr("z", ("N",), S.near(0.0, 2.3, *([] if S.symbolic else [zm]), lo=0.0, hi=5.0), sign={0, 1})
    data = dict(redshift=z)
    pars = dict(h, **c)
    S.frame(data, pars)
    box = {}

    def run():
        m = box["m"] = build(S, model, cosmo_model=cosmo, **kw)
        return m(data, **pars)
    got = S.call(run)
    p = deps.cosmo_pars(S, cosmo, c)
    m = box.get("m")
    want = S.xp.where(SP.A(S, z) <= SP.A(S, zm), volume(S, model, z, h, p) / norm_of(S, model, zm, h, p, m), 0.0)
    S.ensure(got, want, "density")
    S.nonneg(got)
    S.ensure(S.call(lambda: m.normalisation(pars)), norm_of(S, model, zm, h, p, m), "normalisation")
    S.ensure(S.call(lambda: m.differential_spacetime_volume(data, **pars)), volume(S, model, z, h, p), "unbounded volume")
    if "H0" in c:
        # the cosmology is the one of the supplied parameters on every evaluation
        c2 = dict(c, H0=S.par("H0b", S.real(50, 90), sign={1}))
        p2 = deps.cosmo_pars(S, cosmo, c2)
        S.ensure(S.call(lambda: m.differential_spacetime_volume(data, **dict(h, **c2))), volume(S, model, z, h, p2), "volume for the current cosmology")
    S.ensure(S.call(lambda: m.dvc_dz(z, **pars)), 4 * S.xp.pi * deps.dvdz(S, SP.A(S, z), p), "dVc/dz")


@contract("C07", [R + "PowerLawRedshift.psi_of_z", R + "MadauDickinsonRedshift.psi_of_z"], cases=[dict(model="PowerLawRedshift"), dict(model="MadauDickinsonRedshift")])
def rate_evolution(S, model):
    deps.install_cosmo(S)
    h = rate(S, model)
    z = S.arr("z", ("N",), S.near(0.0, lo=0.0, hi=5.0), sign={0, 1})
    S.frame(z, h)
    m = build(S, model)
    got = S.call(lambda: m.psi_of_z(redshift=z, **h))
    S.ensure(got, psi(S, model, z, h), "psi")
    S.ensure_true(got > 0, "psi is positive")
    S.ensure(S.call(lambda: m.psi_of_z(redshift=S.xp.zeros(1) if not S.symbolic else S.xp.zeros(3), **h)), S.xp.ones(1 if not S.symbolic else 3), "psi at z=0 is one")


@contract("C07", R + "total_four_volume", cases=[dict(default=True), dict(default=False)])
def four_volume(S, default):
    deps.install_cosmo(S)
    lamb = S.par("lamb", S.real(-3, 5, 0.0, 1.0))
    t = S.par("T", S.logreal(0.1, 10, 1.0), sign={1})
    kw = {}
    zm = 2.3
    if not default:
        zm = S.par("z_max", S.real(0.5, 4), sign={1})
        kw["max_redshift"] = zm
    got = S.call(lambda: S.mod("redshift").total_four_volume(lamb, t, **kw))
    xp = S.xp
    zs = xp.linspace(0, zm, 2500)
    p = deps.cosmo_pars(S, "Planck15")
    want = SP.A(S, t) * xp.trapezoid((1 + zs) ** (SP.A(S, lamb) - 1) * 4 * xp.pi * deps.dvdz(S, zs, p), x=zs) / 1e9
    S.ensure(got, want, "four volume")


@contract("C07", [R + "_Redshift.variable_names", "gwpopulation.experimental.cosmo_models.CosmoMixin.__init__"], cases=[dict(model=m, cosmo=c) for m in ("PowerLawRedshift", "MadauDickinsonRedshift", "user") for c in COSMO], modes=("numpy",), num_scale=0.05)
def redshift_variables(S, model, cosmo):
    """the parameters asked for are the rate-evolution ones and the free cosmological ones; asking does not change the model"""
    deps.install_cosmo(S)
    base = dict(PowerLawRedshift=["lamb"], MadauDickinsonRedshift=["gamma", "kappa", "z_peak"], user=["xi"])[model]
    want = set(base) | set(dict(FlatwCDM=["H0", "Om0", "w0"], FlatLambdaCDM=["H0", "Om0"]).get(cosmo, []))
    m = build(S, model, cosmo_model=cosmo)
    for k in range(3):
        got = S.call(lambda: set(m.variable_names))
        S.ensure_true(got == want, "variable names", "call %d: got %r want %r" % (k, got, want))
