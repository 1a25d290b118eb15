"""C08: detector- to source-frame conversion."""
import itertools

import numpy as np

from engine.contract import contract, Raised
from engine import specs as SP, deps, solver
from contracts.c07_redshift import COSMO, cosmology

C = "gwpopulation.experimental.cosmo_models."
solver.FN_RANGE["comp1"] = (0, None, False, False)
solver.FN_RANGE["comp2"] = (0, None, False, False)

KEYS = {
    "none": ["mass_ratio"],
    "one": ["mass_1_detector", "mass_ratio"],
    "two": ["mass_1_detector", "chirp_mass_detector", "mass_ratio"],
    "three": ["mass_1_detector", "mass_2_detector", "detector_x_detector"],
    "distances": ["comoving_distance", "mass_1_detector", "distance"],
    "names": ["detector_mass", "mass_detectors", "total_detector"],
}
CASES = [dict(keys=k, source=s, cosmo=c) for k in KEYS for s in ("distance", "redshift") for c in (COSMO if k == "two" else COSMO[:2])]


def orders(S, names):
    """the position of the distance/redshift key and the order of the others"""
    if len(names) <= 2:
        return [list(p) for p in itertools.permutations(names)]
    a, rest = names[0], names[1:]
    return [[a] + rest, rest + [a], [rest[0], a] + rest[1:], rest[::-1] + [a], [a] + rest[::-1], rest[::-1][:1] + [a] + rest[::-1][1:]]


def dataset(S, names, source, dims):
    first = "luminosity_distance" if source == "distance" else "redshift"
    keys = S.choice("order", orders(S, [first] + names))
    d = {}
    for k in keys:
        if k == "luminosity_distance":
            d[k] = S.arr(k, dims, S.logreal(10, 2e4), sign={1})
        elif k == "redshift":
            d[k] = S.arr(k, dims, S.real(0.01, 3, 0.0), sign={0, 1})
        else:
            d[k] = S.arr(k, dims, S.real(-2, 50))
    return d


def convert_spec(S, d, source, pc):
    xp = S.xp
    if source == "distance":
        z = deps.z_of_dl(S, d["luminosity_distance"], pc)
        jac = deps.ddldz(S, z, pc)
    else:
        z = SP.A(S, d["redshift"])
        jac = xp.ones(d["redshift"].shape) if not S.symbolic else 1.0 + 0 * z
    out = dict(redshift=z)
    for k, v in d.items():
        if k.endswith("_detector"):
            out[k[:-len("_detector")]] = SP.A(S, v) / (1 + z)
            jac = jac * (1 + z)
        elif k not in ("luminosity_distance", "redshift"):
            out[k] = SP.A(S, v)
    return out, jac


@contract("C08", [C + "CosmoMixin.detector_frame_to_source_frame", C + "CosmoMixin.cosmology", C + "CosmoMixin.cosmology_variables", C + "CosmoMixin.__init__"], cases=CASES, num_scale=0.4)
def source_frame(S, keys, source, cosmo):
    """any key order; two successive conversions with different cosmologies"""
    deps.install_cosmo(S)
    dims = S.choice("shape", [("N",), ("E", "K")])
    d = dataset(S, KEYS[keys], source, dims)
    c = cosmology(S, cosmo)
    c["unrelated"] = S.par("unrelated", S.real(-1, 1))
    S.frame(d, c)
    m = S.call(lambda: S.mod("cosmo").CosmoMixin(cosmo_model=cosmo))
    got = S.call(lambda: m.detector_frame_to_source_frame(d, **c))
    want = convert_spec(S, d, source, deps.cosmo_pars(S, cosmo, c))
    S.ensure(got, want, "samples and Jacobian")
    if c.get("H0") is not None:
        c2 = dict(c, H0=S.par("H0b", S.real(50, 90), sign={1}), Om0=S.par("Om0b", S.real(0.2, 0.5), sign={1}))
        got = S.call(lambda: m.detector_frame_to_source_frame(d, **c2))
        S.ensure(got, convert_spec(S, d, source, deps.cosmo_pars(S, cosmo, c2)), "for the current cosmology")


@contract("C08", [C + "CosmoMixin.detector_frame_to_source_frame"], cases=[dict(keys=k) for k in KEYS], num_scale=0.1)
def no_distance(S, keys):
    deps.install_cosmo(S)
    d = {k: S.arr(k, ("N",), S.real(0, 50)) for k in KEYS[keys]}
    cosmo = S.choice("cosmo", COSMO)
    c = cosmology(S, cosmo)
    S.frame(d, c)
    m = S.mod("cosmo").CosmoMixin(cosmo_model=cosmo)
    S.ensure_raises(S.call(lambda: m.detector_frame_to_source_frame(d, **c)), ValueError)


def comp1(S, d, lam):
    if S.symbolic:
        return S.app("comp1", d["mass_1"], d["redshift"], lam)
    xp = np if isinstance(d["mass_1"], np.ndarray) else S.bxp
    return xp.exp(-d["mass_1"] * lam / 50) / (1 + d["redshift"])


def comp2(S, d, nu):
    if S.symbolic:
        return S.app("comp2", d["mass_ratio"], d["mass_1"], nu)
    xp = np if isinstance(d["mass_ratio"], np.ndarray) else S.bxp
    return 1 + nu * xp.sin(d["mass_ratio"]) ** 2 + 0.01 * d["mass_1"]


PK = {"distance": ["mass_1_detector", "mass_ratio"], "redshift": ["mass_1_detector", "mass_ratio"], "source": ["mass_1", "mass_ratio"]}


@contract("C08", [C + "CosmoModel.__init__", C + "CosmoModel.prob", C + "CosmoMixin.detector_frame_to_source_frame"], cases=[dict(source=s, cosmo=c, comps=n) for s in ("distance", "redshift", "source") for c in COSMO for n in (1, 2) if c != "Planck18" or n == 1], num_scale=0.5)
def cosmology_aware_model(S, source, cosmo, comps):
    deps.install_cosmo(S)
    src = "distance" if source == "distance" else "redshift"
    d = dataset(S, PK[source], src, ("N",))
    c = cosmology(S, cosmo)
    p = dict(c, lam=S.par("lam", S.real(0.1, 2)), nu=S.par("nu", S.real(0, 2)))

    def one(dataset, lam):
        return comp1(S, dataset, lam)

    class Two:
        """a component asking for its parameters by name"""
        variable_names = ["nu"]

        def __call__(self, dataset, **kwargs):
            if set(kwargs) != {"nu"}:
                raise ValueError("unexpected parameters %s" % sorted(kwargs))
            return comp2(S, dataset, kwargs["nu"])
    fs = [one, Two()][:comps]
    S.frame(d, p)
    m = S.call(lambda: S.mod("cosmo").CosmoModel(model_functions=fs, cosmo_model=cosmo))
    got = S.call(lambda: m.prob(d, **p))

    def spec(p):
        q, jac = convert_spec(S, d, src, deps.cosmo_pars(S, cosmo, p))
        v = comp1(S, q, SP.A(S, p["lam"]))
        if comps == 2:
            v = v * comp2(S, q, SP.A(S, p["nu"]))
        return v / jac
    S.ensure(got, spec(p), "probability")
    if "H0" in p:
        # only the cosmology changes: nothing of the previous call may be reused
        p2 = dict(p, H0=S.par("H0b", S.real(50, 90), sign={1}))
        S.ensure(S.call(lambda: m.prob(d, **p2)), spec(p2), "probability for the current cosmology")
