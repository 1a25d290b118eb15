"""C13: grid selection function."""
import itertools

import numpy as np

from engine.contract import contract, Raised
from engine import specs as SP, solver

V = "gwpopulation.vt."
solver.FN_RANGE["grid_model"] = (0, None, False, False)
NAMES = ("p", "q", "r")


def model_of(S, names):
    def model(dataset, lam):
        if S.symbolic:
            return S.app("grid_model", *[dataset[n] for n in names], lam)
        r = lam
        for j, n in enumerate(names):
            r = r * S.bxp.exp(-0.3 * (j + 1) * dataset[n]) + 0.1 * dataset[n] ** 2
        return r
    return model


def spec_model(S, names, mesh, lam):
    if S.symbolic:
        return S.app("grid_model", *mesh, lam)
    r = float(lam)
    for j, m in enumerate(mesh):
        r = r * np.exp(-0.3 * (j + 1) * m) + 0.1 * m ** 2
    return r


CASES = [dict(d=d, order=o, same=s) for d in (1, 2, 3) for o in itertools.permutations(range(d)) for s in (False, True) if not (s and d == 1)]


@contract("C13", [V + "_BaseVT.__init__", V + "GridVT.__init__", V + "GridVT.__call__"], cases=CASES)
def grid_integral(S, d, order, same):
    """one ascending axis (two or more points) per parameter; dictionary in the given order; same: all axes have equal lengths"""
    names = NAMES[:d]
    dims = ["A" if same else "A%d" % j for j in range(d)]
    axes = [S.axis("x_" + n, dims[j], S.real(0.1, 5)) for j, n in enumerate(names)]
    if S.symbolic and same:
        mesh = S.xp.meshgrid(*axes, indexing="ij")
    elif S.symbolic:
        mesh = S.xp.meshgrid(*axes, indexing="ij")
    else:
        mesh = S.bxp.meshgrid(*axes, indexing="ij")
    vt = S.arr("vt", tuple(a.shape[0] for a in axes) if not S.symbolic else tuple(dims), S.logreal(0.1, 5), sign={0, 1})
    keys = [names[j] for j in order]
    pos = S.choice("vt position", [0, len(keys)])
    keys.insert(pos, "vt")
    grid = dict(zip(names, mesh), vt=vt)
    data = {k: grid[k] for k in keys}
    lam = S.par("lam", S.real(0.1, 2))
    pars = dict(lam=lam)
    S.frame(data, pars)
    f = model_of(S, names)
    g = S.call(lambda: S.mod("vt").GridVT(f if S.choice("model", ["function", "list"]) == "function" else [f], data))
    got = S.call(lambda: g(pars))
    xp = S.xp
    A = lambda x: x if S.symbolic else np.asarray(x, dtype=float)
    want = spec_model(S, names, [A(m) for m in mesh], lam) * A(vt)
    for j in reversed(range(d)):
        want = xp.trapezoid(want, x=A(axes[j]), axis=-1)
    S.ensure(got, want, "integral over every parameter")
    S.ensure(S.call(lambda: S.mod("vt").GridVT(f, data)(pars)), want, "the dictionary can be used again")
