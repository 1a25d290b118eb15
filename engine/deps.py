"""Assumed contracts of dependencies (trusted), as symbolic stand-ins.

wcosmo: the cosmology objects are represented by their parameters; the
differential comoving volume, the luminosity distance, its derivative and
inverse are uninterpreted functions of (z, H0, Om0, w0) with only their sign
known.  In concrete runs the real library is used.
"""
import sys

from . import solver, sym, terms as T
from .sym import A, ANY, F, NAN, Node, SymArr, ZERO, APP_EVAL, CTX, Unsupported, lift, elem


def _pos_fn(name, at_zero):
    """uninterpreted, positive for a positive first argument"""
    def f(ts):
        s = CTX.path.sign(ts[0])
        if s < 0:
            return ANY
        if s == 0 and at_zero is not None:
            return F(at_zero)
        return F(A(("fn", name, tuple(t.key for t in ts))))
    APP_EVAL[name] = f
    solver.FN_RANGE[name] = (0, None, True, False)


_pos_fn("dVdz", ZERO)
_pos_fn("dDLdz", None)
_pos_fn("DL", ZERO)
_pos_fn("zDL", ZERO)


def _num(x):
    try:
        return float(x)
    except Exception:
        return float(x.value)


def install_cosmo(S):
    """replace wcosmo by its contract; -> function giving the contract's dVc/dz etc."""
    if not S.symbolic:
        return
    import wcosmo
    import wcosmo.astropy as wa

    class Sym(wa.WCosmoMixin):
        def __init__(self, H0, Om0, w0=-1):
            self.pars = (H0, Om0, w0)

        H0 = property(lambda self: self.pars[0])
        Om0 = property(lambda self: self.pars[1])
        w0 = property(lambda self: self.pars[2])

        def differential_comoving_volume(self, z):
            return S.app("dVdz", z, *self.pars)

        def luminosity_distance(self, z):
            return S.app("DL", z, *self.pars)

        def dDLdz(self, z):
            return S.app("dDLdz", z, *self.pars)

        def __getattribute__(self, name):
            if name.startswith("_") or name in ("pars", "H0", "Om0", "w0", "differential_comoving_volume", "luminosity_distance", "dDLdz"):
                return object.__getattribute__(self, name)
            if hasattr(wa.WCosmoMixin, name):
                raise Unsupported("cosmology." + name)
            return object.__getattribute__(self, name)

    class FlatwCDM(Sym):
        pass

    class FlatLambdaCDM(Sym):
        def __init__(self, H0, Om0):
            Sym.__init__(self, H0, Om0, -1)

    table = {}
    for k in wa.available.keys():
        v = wa.available[k]
        if k == "FlatwCDM":
            table[k] = FlatwCDM
        elif k == "FlatLambdaCDM":
            table[k] = FlatLambdaCDM
        else:
            table[k] = Sym(_num(v.H0), _num(v.Om0), _num(getattr(v, "w0", -1)))
            S.patch.set(wa, k, table[k])
    S.patch.set(wa, "available", table)
    S.patch.set(wa, "FlatwCDM", FlatwCDM)
    S.patch.set(wa, "FlatLambdaCDM", FlatLambdaCDM)

    def z_at_value(func, fval, zmin=1e-4, zmax=100, **kw):
        c = getattr(func, "__self__", None)
        if not isinstance(c, Sym) or func.__name__ != "luminosity_distance" or kw:
            raise Unsupported("z_at_value of %r" % (func,))
        return S.app("zDL", fval, *c.pars, zmin, zmax)
    S.patch.set(wcosmo, "z_at_value", z_at_value)
    for m in list(sys.modules.values()):
        n = getattr(m, "__name__", "")
        if n.startswith("gwpopulation"):
            d = m.__dict__
            if "z_at_value" in d:
                S.patch.set(m, "z_at_value", z_at_value)
            if "available" in d:
                S.patch.set(m, "available", table)
            for k, v in table.items():
                if k in d and not isinstance(d[k], type(sys)):
                    S.patch.set(m, k, v)


def cosmo_pars(S, name, pars=None):
    """(H0, Om0, w0) of a named cosmology with free parameters taken from pars"""
    pars = pars or {}
    if name == "FlatwCDM":
        return pars["H0"], pars["Om0"], pars["w0"]
    if name == "FlatLambdaCDM":
        return pars["H0"], pars["Om0"], -1
    import astropy.cosmology as ac

    c = getattr(ac, name)
    return _num(c.H0), _num(c.Om0), _num(getattr(c, "w0", -1))


def _wc(fn, S, z, p, **k):
    import numpy as np
    import wcosmo.wcosmo as W
    import wcosmo.utils as U

    U.disable_units()
    r = getattr(W, fn)(np.asarray(z, dtype=float), *[np.asarray(float(x)) for x in p], **k)
    return np.asarray(getattr(r, "value", r), dtype=float)


def dvdz(S, z, p):
    """dVc/dz per steradian"""
    return S.app("dVdz", z, *p) if S.symbolic else _wc("differential_comoving_volume", S, z, p)


def ddldz(S, z, p):
    return S.app("dDLdz", z, *p) if S.symbolic else _wc("dDLdz", S, z, p)


def z_of_dl(S, dl, p):
    if S.symbolic:
        return S.app("zDL", dl, *p, 1e-4, 100)
    import numpy as np

    zs = np.logspace(np.log10(1e-4), np.log10(100), 1000)
    return np.interp(np.asarray(dl, dtype=float), _wc("luminosity_distance", S, zs, p), zs, left=1e-4, right=100)


# ------------------------------------------------------------------ pandas


class SymFrame:
    """a table of samples of arbitrary length; contract of pandas.DataFrame as used by the package:
    iteration gives the column names, len the number of rows, [name] a column, and sample(n) n distinct
    rows in an arbitrary order (the same rows for every column)"""

    def __init__(self, S, cols, size, tag):
        self.S, self.cols, self.size, self.tag = S, cols, size, tag
        self.drawn = None
        self.columns = list(cols)

    tables = None

    def __symlen__(self):
        if self.tables is not None:
            return self.tables.at(self.tables.len, self.tag)
        return self.S.size(self.size)

    def __len__(self):
        raise Unsupported("len of a table")

    def __iter__(self):
        return iter(self.cols)

    def __contains__(self, k):
        return k in self.cols

    def keys(self):
        return list(self.cols)

    def __getitem__(self, k):
        if k not in self.cols:
            raise KeyError(k)
        return self.cols[k]

    def copy(self, deep=True):
        return SymFrame(self.S, dict(self.cols), self.size, self.tag)

    def sample(self, n=None, replace=False, **kw):
        if replace is True:
            self.S.ensure_true(False, "distinct samples of each event", "rows are drawn with replacement")
        if replace or any(v is not None and v is not False for v in kw.values()):
            raise Unsupported("DataFrame.sample options")
        from .sym import SymInt
        if not isinstance(n, SymInt):
            if isinstance(n, int) and n == 1:
                raise Unsupported("sample(1)")
            raise Unsupported("sample(%r)" % (n,))
        if self.tables is not None:
            from . import loops
            t = self.tables
            if ("all",) + loops.shape_key(t.at(t.len, ("L", t.N + "@*")).node) not in loops.fold_of(n.dim):
                raise Unsupported("sample(n) with n not shown to be at most the number of rows")
            if not isinstance(self.tag, tuple) or t.samples:
                raise Unsupported("the tables are sampled more than once")
            t.samples.append(n.dim)
            return SymFrame(self.S, t.rows(self.tag, n.dim), n.dim, self.tag)
        if n.dim != self.size and not bool(n <= self.__symlen__()):
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        if self.drawn is not None:
            raise Unsupported("a table was sampled twice")
        perm = sym.var("#perm%s" % (self.tag,), (n.dim,))
        self.drawn = {k: SymArr(Node("gather", (v.node, perm.node), (n.dim,))) for k, v in self.cols.items()}
        return SymFrame(self.S, dict(self.drawn), n.dim, self.tag)


def frame(S, cols, size, tag):
    if S.symbolic:
        return SymFrame(S, cols, size, tag)
    import pandas as pd
    import numpy as np

    class Table(pd.DataFrame):
        _metadata = ["record"]

        @property
        def _constructor(self):
            return pd.DataFrame

        def sample(self, *a, **k):
            r = pd.DataFrame.sample(self, *a, **k)
            self.record.append(r)
            return r
    import random

    np.random.seed(S.rng.randrange(2 ** 31))
    t = Table({k: np.asarray(v, dtype=float) for k, v in cols.items()})
    t.record = []
    return t


class SymTables:
    """any number of tables of samples, each of any length"""

    def __init__(self, S, cols, N, L):
        self.S, self.N = S, N
        S.size(N)
        self.len = sym.var("#rows", (N,), {1})
        self.cols = {k: v for k, v in cols.items()}
        self.samples = []

    def at(self, a, i):
        n = a.node
        return SymArr(Node("view", (n,), n.dims[1:], (("k", i),) + tuple(("o", j) for j in range(len(n.dims) - 1))), py=len(n.dims) == 1)

    def get(self, i):
        t = SymFrame(self.S, {k: self.at(v, i) for k, v in self.cols.items()}, None, i)
        t.tables = self
        return t

    def __genericseq__(self):
        from . import loops
        return loops.GenericSeq(self.N, self.get)

    def __iter__(self):
        return iter(self.__genericseq__())

    def __getitem__(self, i):
        return self.__genericseq__()[i]

    def __symlen__(self):
        return sym.SymInt(self.N)

    def __len__(self):
        raise Unsupported("len of a sequence of symbolic length")

    def drawn(self):
        """the samples the code drew, for every event"""
        from . import loops
        if len(self.samples) != 1:
            raise Unsupported("the tables were not sampled once")
        lane = "%s@t0" % self.N
        return {k: loops.family(c, lane) for k, c in self.rows(("L", lane), self.samples[0]).items()}

    def rows(self, i, dim):
        perm = self.at(sym.var("#perm", (self.N, dim)), i)
        return {k: SymArr(Node("gather", (self.at(v, i).node, perm.node), (dim,))) for k, v in self.cols.items()}


def drawn(S, posts, like):
    """the samples of each event the likelihood drew"""
    out = []
    for i, p in enumerate(posts):
        if S.symbolic:
            if p.drawn is None:
                raise Unsupported("the tables were not sampled with DataFrame.sample")
            out.append(p.drawn)
        else:
            import numpy as np

            if p.record:
                r = p.record[-1]
                if len(set(r.index)) < len(r) or not set(r.index) <= set(p.index):
                    S.fail("event %d holds rows that are not distinct samples of that event" % i)
                out.append({k: np.asarray(r[k], dtype=float) for k in p})
            else:
                d = {k: np.asarray(v[i], dtype=float) for k, v in like.data.items()}
                if "prior" in p:
                    d["prior"] = np.asarray(like.sampling_prior[i], dtype=float)
                rows = {tuple(x) for x in np.asarray(p[list(d)])}
                mine = [tuple(x) for x in np.array(list(d.values())).T]
                if not set(mine) <= rows or (len(set(mine)) < len(mine) and len(rows) == len(p)):
                    S.fail("event %d holds rows that are not distinct samples of that event" % i)
                out.append(d)
    return out


# ------------------------------------------------------------------ random numbers


class Draws:
    """record of the random draws requested by the code; contract of choice(a, size, replace, p):
    each entry of the result is an element of a, entry i of a being chosen with probability p[i]"""

    def __init__(self, S):
        self.S = S
        self.choices = []
        self.gammas = []

    def _choice(self, a, size, replace, p):
        from .sym import SymInt
        from .contract import SymRange

        S = self.S
        if isinstance(a, SymRange):
            n = a.n.dim
        elif isinstance(a, SymInt):
            n = a.dim
        elif isinstance(a, range) and a.start == 0 and a.step == 1:
            n = len(a)
        elif isinstance(a, SymArr) and a.node.op == "arange":
            n = a.node.dims[0]
        elif isinstance(a, int):
            n = a
        else:
            raise Unsupported("choice from %r" % (a,))
        if size is None:
            size = ()
        if not isinstance(size, (tuple, list)):
            size = (size,)
        dims = tuple(sym.dim_of(s) for s in size)
        j = len(self.choices)
        lanes = [l.lane for l in sym.CTX.path.open_loops]
        idx = sym.var("#draw%d" % j, tuple(sym.lane_size(l) for l in lanes) + dims)
        if lanes:
            m = tuple(("k", ("L", l)) for l in lanes) + tuple(("o", q) for q in range(len(dims)))
            idx = SymArr(Node("view", (idx.node,), dims, m))
        self.choices.append(dict(n=n, dims=dims, replace=replace, p=p, idx=idx, lanes=lanes))
        return SymArr(idx.node)

    def choice_np(self, a, size=None, replace=True, p=None):
        return self._choice(a, size, replace, p)

    def choice_jax(self, key, a, shape=(), replace=True, p=None, axis=0):
        return self._choice(a, shape, replace, p)


def install_random(S):
    d = Draws(S)
    if not S.symbolic:
        return d
    import jax
    import scipy.stats
    import tqdm.auto

    class NR:
        choice = staticmethod(d.choice_np)

        @staticmethod
        def randint(*a, **k):
            return 0

        @staticmethod
        def seed(*a):
            return None

        def __getattr__(self, name):
            raise Unsupported("numpy.random." + name)
    S.fnp.__dict__["_table"]["random"] = NR()
    S.patch.set(jax.random, "choice", d.choice_jax)
    S.patch.set(jax.random, "PRNGKey", lambda *a, **k: "key")
    S.patch.set(jax.random, "key", lambda *a, **k: "key")
    S.patch.set(jax.random, "split", lambda k, n=2: ["key"] * n)

    class gamma:
        """frozen scipy.stats.gamma(a, loc, scale): rvs() = loc + scale * G with G a standard Gamma(a) deviate"""

        def __init__(self, a, loc=0, scale=1):
            self.a, self.loc, self.scale = a, loc, scale

        def rvs(self, *a, **k):
            if a or any(v not in (None, ()) for v in k.values()):
                raise Unsupported("gamma.rvs arguments")
            d.gammas.append(self.a)
            g = sym.var("#gamma%d" % (len(d.gammas) - 1), (), {1})
            return g * self.scale + self.loc
    gamma_ns = gamma
    S.patch.set(scipy.stats, "gamma", gamma_ns)
    S.patch.set(tqdm.auto, "tqdm", lambda x, *a, **k: x)
    return d


# ------------------------------------------------------------------ cached_interpolate


def install_interp(S):
    """contract of cached_interpolate.RegularCachingInterpolant(x, y, kind, backend): calling it with (x, y) gives the
    interpolant of the given kind through (nodes, y) at the evaluation points, the evaluation points being those of the
    first call; the interpolant itself is an uninterpreted function of (kind, nodes, y, point)"""
    if not S.symbolic:
        return
    import cached_interpolate

    class Interp:
        def __init__(self, x, y, kind="cubic", backend=None, **kw):
            if kw or kind not in ("nearest", "linear", "cubic"):
                raise ValueError("kind must be in ['nearest', 'linear', 'cubic']")
            self.x, self.y, self.kind = lift(x), lift(y), kind
            self.conversion = 1.0
            self.at = None

        def __call__(self, x, y=None, use_cache=True):
            if y is not None:
                self.y = lift(y)
            if self.at is None or not use_cache:
                self.at = lift(x)
            xn, yn, at = self.x.node, self.y.node, self.at.node
            if len(xn.dims) != 1 or xn.dims != yn.dims:
                raise Unsupported("interpolant with %s nodes and %s values" % (xn.dims, yn.dims))
            return SymArr(Node("interp", (xn, yn, at), at.dims, self.kind))
    S.patch.set(cached_interpolate, "RegularCachingInterpolant", Interp)
    S.patch.set(cached_interpolate, "CachingInterpolant", Interp)


def interp(S, kind, xn, yn, x):
    """the interpolant as the contract sees it"""
    if S.symbolic:
        xn, yn, x = lift(xn), lift(yn), lift(x)
        return SymArr(Node("interp", (xn.node, yn.node, x.node), x.node.dims, kind))
    import numpy as np
    from cached_interpolate import RegularCachingInterpolant as R

    x = np.asarray(x, dtype=float)
    r = np.asarray(R(np.asarray(xn, dtype=float), np.asarray(yn, dtype=float), kind=kind, backend=np)(x), dtype=float)
    return r.reshape(x.shape)
