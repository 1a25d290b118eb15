"""Contracts: one text, evaluated symbolically (proof) and concretely (run-time check).

A contract is a function of a scenario object S:

    @contract("C01", "gwpopulation.utils.powerlaw")
    def powerlaw(S):
        x = S.arr("x", ("N",), S.real(-3, 50))
        ...
        S.assume(low < high)                       # precondition
        got = S.call(lambda: S.mod("utils").powerlaw(x, alpha, high, low))
        S.ensure(got, SP.powerlaw(S, x, alpha, high, low))   # postcondition

Symbolically every S.ensure on every path is one proof obligation.
"""
import importlib
import json
import math
import os
import random
import sys
import time
import traceback
import types

import numpy as np

from . import sym, facade, solver
from .sym import SymArr, SymInt, Unsupported, CTX, ev, lift
from .solver import Infeasible, PathLimit, Undecided, explore
from . import terms as T

PKG = "gwpopulation"
MODULES = ["utils", "conversions", "hyperpe", "vt", "backend", "models.mass", "models.spin", "models.redshift", "models.interped", "experimental.cosmo_models", "experimental.jax", "experimental.numpyro"]

NOTES = set()  # remarks of the contracts, reported with the result
REGISTRY = {}  # name -> Contract


class Contract:
    def __init__(self, name, props, funcs, fn, modes, cases, bounded, opts):
        self.name = name
        self.props = props
        self.funcs = funcs
        self.fn = fn
        self.modes = modes
        self.cases = cases or [dict()]
        self.bounded = bounded
        self.opts = opts


def contract(props, funcs, modes=("numpy", "jax"), cases=None, sym=True, num=True, bounded=None, **opts):
    def deco(fn):
        opts.setdefault("sym", sym)
        opts.setdefault("num", num)
        c = Contract(fn.__name__, [props] if isinstance(props, str) else list(props), [funcs] if isinstance(funcs, str) else list(funcs), fn, modes, cases, bounded, dict(opts))
        assert fn.__name__ not in REGISTRY, fn.__name__
        REGISTRY[fn.__name__] = c
        return fn
    return deco


class Raised:
    """outcome of a call that raised"""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return "raised %s: %s" % (type(self.exc).__name__, str(self.exc)[:200])


class Fail(BaseException):
    """an obligation does not hold"""

    def __init__(self, what, detail=""):
        self.what = what
        self.detail = detail


class Reject(BaseException):
    """concrete inputs outside the precondition"""


class Partial:
    """numeric spec value that is only specified where `defined`"""

    def __init__(self, value, defined):
        self.value = value
        self.defined = defined


def mod(name):
    return importlib.import_module(PKG + "." + name if name else PKG)


SHORT = {"mass": "models.mass", "spin": "models.spin", "redshift": "models.redshift", "interped": "models.interped", "cosmo": "experimental.cosmo_models", "xjax": "experimental.jax", "numpyro": "experimental.numpyro"}


def all_modules():
    out = []
    for m in MODULES:
        try:
            out.append(importlib.import_module(PKG + "." + m))
        except ImportError:
            pass
    for k in list(sys.modules):
        if k.startswith(PKG + ".") and sys.modules[k] is not None and sys.modules[k] not in out:
            out.append(sys.modules[k])
    return out


class Patcher:
    def __init__(self):
        self.saved = []

    def set(self, obj, name, val, create=False):
        d = obj.__dict__ if isinstance(obj, types.ModuleType) else None
        if d is not None:
            missing = name not in d
            self.saved.append((obj, name, None if missing else d[name], missing))
            d[name] = val
        else:
            missing = name not in vars(obj)
            self.saved.append((obj, name, None if missing else vars(obj)[name], missing))
            setattr(obj, name, val)

    def undo(self):
        for obj, name, old, missing in reversed(self.saved):
            if isinstance(obj, types.ModuleType):
                if missing:
                    obj.__dict__.pop(name, None)
                else:
                    obj.__dict__[name] = old
            else:
                if missing:
                    try:
                        delattr(obj, name)
                    except AttributeError:
                        pass
                else:
                    setattr(obj, name, old)
        self.saved = []


# ---------------------------------------------------------------- shadowed builtins for symbolic runs


class SymRange:
    def __init__(self, n):
        self.n = n

    def __iter__(self):
        return iter(self.__genericseq__())

    def __genericseq__(self):
        from . import loops
        return loops.indices(self.n.dim)

    def __len__(self):
        raise Unsupported("len of symbolic range")


def sym_float(x=0.0):
    if isinstance(x, SymArr):
        if any(d != 1 for d in x.node.dims):
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return SymArr(x.node, py=True)
    return float(x)


sym_float.__name__ = "float"


def sym_int(x=0):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymArr):
        raise Unsupported("int() of a symbolic value")
    return int(x)


sym_int.__name__ = "int"


def sym_len(x):
    if isinstance(x, SymArr):
        if not x.node.dims:
            raise TypeError("len() of unsized object")
        d = x.node.dims[0]
        return SymInt(d) if isinstance(d, str) else d
    f = getattr(x, "__symlen__", None)
    if f is not None:
        return f()
    if isinstance(x, list) and CTX.path is not None and CTX.path.generic_loops:
        from . import loops
        return loops.list_len(x)
    return len(x)


def sym_range(*a):
    if len(a) == 1 and isinstance(a[0], SymArr):
        if isinstance(a[0], SymInt):
            return SymRange(a[0])
        raise Unsupported("range of a symbolic value")
    return range(*a)


def sym_sum(it, start=0):
    if isinstance(it, SymArr) and it.node.dims and isinstance(it.node.dims[0], str):
        return facade.f_sum(it, axis=0) + start
    return sum(it, start)


def sym_abs(x):
    return abs(x)


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._t)


def shadow_type(t, f):
    """callable usable both as converter and in isinstance"""

    class X(metaclass=_FloatMeta):
        _t = t

        def __new__(cls, *a):
            return f(*a)
    X.__name__ = t.__name__
    return X


SHADOW = dict(len=sym_len, range=sym_range, sum=sym_sum)
SHADOW["float"] = shadow_type(float, sym_float)
SHADOW["int"] = shadow_type(int, sym_int)


# ---------------------------------------------------------------- scenario, common part


class Scenario:
    symbolic = False

    def __init__(self, case, mode):
        self.case = case
        self.mode = mode
        self.n_ensured = 0
        self.called = 0
        self.frames = []

    def mod(self, name):
        return mod(SHORT.get(name, name))

    # domains: functions rng -> float (concrete only)
    @staticmethod
    def real(lo, hi, *special):
        def d(r):
            if special and r.random() < 0.35:
                return r.choice(special)
            return r.uniform(lo, hi)
        d.key = ("real", lo, hi, special)
        return d

    @staticmethod
    def logreal(lo, hi, *special):
        def d(r):
            if special and r.random() < 0.35:
                return r.choice(special)
            return math.exp(r.uniform(math.log(lo), math.log(hi)))
        d.key = ("logreal", lo, hi, special)
        return d

    @staticmethod
    def near(*anchors, lo=-10.0, hi=10.0, eps=1e-3):
        """values at, next to and away from the anchors"""
        def d(r):
            u = r.random()
            if anchors and u < 0.3:
                return float(r.choice(anchors))
            if anchors and u < 0.45:
                a = float(r.choice(anchors))
                return a + r.choice([-1, 1]) * eps * max(1.0, abs(a)) * r.random()
            return r.uniform(lo, hi)
        return d

    def frame(self, *objs):
        """objects the calls must leave unchanged"""
        for o in objs:
            self.frames.append((o, self.snapshot(o)))

    def check_frame(self):
        for o, snap in self.frames:
            msg = self.changed(o, snap)
            if msg:
                self.fail("frame: an argument was modified", msg)
        if self.frames:
            self.count("frame")

    def note(self, text):
        NOTES.add(text)

    def call(self, thunk, raises=None):
        """run the real code; exceptions become Raised outcomes"""
        self.called += 1
        try:
            return thunk()
        except Exception as e:  # Unsupported etc. are BaseException
            return Raised(e)

    def ensure_raises(self, got, exc, what="raises"):
        self.count(what)
        if not isinstance(got, Raised) or not isinstance(got.exc, exc):
            self.fail("%s: expected %s" % (what, exc.__name__), "got %r" % (got,))


# ---------------------------------------------------------------- symbolic scenario


class SymS(Scenario):
    symbolic = True

    def __init__(self, case, mode, path, inline, log):
        super().__init__(case, mode)
        self.path = path
        self.inline = inline
        self.log = log
        self.patch = Patcher()
        self.xp = facade.make_np(mode, np)
        self.scs = facade.make_scs(mode, sys.modules.get("scipy.special"))
        self.vars = []
        self.modular = set()

    def loops(self):
        """allow loops over sequences of symbolic length (engine/loops.py)"""
        from . import loops

        loops.setup(self)
        for m in all_modules():
            for k, v in loops.SHADOW.items():
                self.patch.set(m, k, v)

    def install(self):
        self.fnp = facade.make_np("numpy", np)
        for m in all_modules():
            d = m.__dict__
            if "xp" in d:
                self.patch.set(m, "xp", self.xp)
            if "np" in d:
                self.patch.set(m, "np", self.fnp)
            if "jnp" in d:
                self.patch.set(m, "jnp", self.xp)
            if "scs" in d:
                self.patch.set(m, "scs", self.scs)
            for k, v in SHADOW.items():
                self.patch.set(m, k, v)

    def count(self, what):
        self.n_ensured += 1
        self.log.append(what)

    def fail(self, what, detail=""):
        raise Fail(what, detail)

    # ---- inputs
    def par(self, name, dom=None, sign=None):
        v = sym.var(name, (), sign, py=self.mode == "numpy")
        self.vars.append((name, ()))
        return v

    def arr(self, name, dims, dom=None, sign=None):
        v = sym.var(name, tuple(d if isinstance(d, (str, int)) else sym.dim_of(d) for d in dims), sign)
        self.vars.append((name, tuple(dims)))
        return v

    def size(self, name, lo=2, hi=9):
        return SymInt(name)

    def axis(self, name, dim, dom=None, sign=None):
        """a strictly ascending 1-d array with at least two entries"""
        self.assume(SymInt(dim) >= 2)
        v = self.arr(name, (dim,), dom, sign)
        self.path.ascending.add(name)
        return v

    def choice(self, name, options):
        """a finite configuration choice: enumerated"""
        i = self.path.choose(len(options), label=("choice", name))
        self.path.choices["choice:" + name] = i
        return options[i]

    def assume(self, cond):
        if isinstance(cond, SymArr):
            sym.assume_all(cond.node)
        elif not cond:
            raise Infeasible()

    def decide(self, cond):
        return bool(cond)

    def any_true(self, cond):
        return not bool(facade.f_all(~lift(cond)))

    def partial(self, value, defined):
        return SymArr(sym.elem("where", lift(defined).node, lift(value).node, sym.Node("const", x=sym.ANY)))

    def snapshot(self, o):
        if isinstance(o, SymArr):
            return (o.node, o.writes)
        if isinstance(o, dict):
            return {k: (v, self.snapshot(v)) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [(v, self.snapshot(v)) for v in o]
        return o

    def changed(self, o, snap):
        if isinstance(o, SymArr):
            if o.node is not snap[0] or o.writes != snap[1]:
                return "array %r was written in place" % (o.name or o)
            return None
        if isinstance(o, dict):
            if list(o.keys()) != list(snap.keys()):
                return "dictionary keys changed from %s to %s" % (list(snap), list(o))
            for k in o:
                if o[k] is not snap[k][0]:
                    return "dictionary entry %r was replaced" % k
                r = self.changed(o[k], snap[k][1])
                if r:
                    return "entry %r: %s" % (k, r)
            return None
        if isinstance(o, (list, tuple)):
            if len(o) != len(snap):
                return "list length changed"
            for a, (b, s) in zip(o, snap):
                if a is not b:
                    return "list entry replaced"
                r = self.changed(a, s)
                if r:
                    return r
        return None

    # ---- relational comparison
    def same(self, got, other, what):
        """two results of the real code are equal: the same operations on the same inputs, or equal values"""
        if isinstance(got, Raised) or isinstance(other, Raised):
            self.count(what)
            for r in (got, other):
                if isinstance(r, Raised) and isinstance(r.exc, (AttributeError, TypeError, NotImplementedError)) and looks_like_tool_limit(r.exc):
                    raise Unsupported("%r" % r)
            if not (isinstance(got, Raised) and isinstance(other, Raised) and type(got.exc) is type(other.exc)):
                self.fail(what, "got %r, otherwise %r" % (got, other))
            return
        if isinstance(other, dict) and isinstance(got, dict) and list(got) == list(other):
            for k in other:
                self.same(got[k], other[k], "%s[%s]" % (what, k))
            return
        if isinstance(other, (tuple, list)) and isinstance(got, (tuple, list)) and len(got) == len(other):
            for i, (g, w) in enumerate(zip(got, other)):
                self.same(g, w, "%s[%d]" % (what, i))
            return
        num = (SymArr, int, float, np.generic, np.ndarray)
        self.count(what)
        if not isinstance(got, num) or not isinstance(other, num):
            if type(got) is not type(other) or got != other:
                self.fail(what, "got %r, otherwise %r" % (got, other))
            return
        g, w = lift(got), lift(other)
        self.settled(g, w)
        if sym.same_dag(g.node, w.node):
            return
        if g.node.dims != w.node.dims:
            self.fail(what + ": shape", "got shape %s, otherwise %s" % (g.node.dims, w.node.dims))
        import itertools

        axes = [[("L", "%s@g%d" % (d, j))] if isinstance(d, str) else list(range(d)) for j, d in enumerate(g.node.dims)]
        for idx in itertools.product(*axes):
            self.enter(idx)
            b, a = sym.evc(g.node, idx), sym.evc(w.node, idx)
            if sym.ANY in (a, b):
                raise Unsupported("comparison of unspecified values")
            if a[0] != "f" or b[0] != "f":
                if a != b:
                    self.fail(what, "got %s, otherwise %s" % (sym.show_val(b), sym.show_val(a)))
                continue
            ok, msg = sym.same_value(self.path, b, a)
            if not ok:
                self.fail(what, msg.replace("contract says", "otherwise"))

    def state_difference(self, a, b, where="", memo=None):
        """None if the two objects hold the same state (arrays: the same operations on the same inputs)"""
        memo = set() if memo is None else memo
        if a is b or (id(a), id(b)) in memo:
            return None
        memo.add((id(a), id(b)))
        if type(a) is not type(b):
            return where
        if isinstance(a, SymArr):
            if sym.same_dag(a.node, b.node):
                return None
            if a.node.dims == b.node.dims and all(not isinstance(d, str) for d in a.node.dims):
                import itertools

                for idx in itertools.product(*[range(d) for d in a.node.dims]):
                    u, v = sym.evc(a.node, idx), sym.evc(b.node, idx)
                    if u != v and not (u[0] == v[0] == "f" and self.path.is_zero(u[1] - v[1])):
                        return where
                return None
            return where
        if isinstance(a, dict):
            if set(a) != set(b) and [type(k) for k in a] != [type(k) for k in b]:
                return where + " keys"
            same = set(a) == set(b)
            for k, l in zip(a, a if same else b):
                r = self.state_difference(a[k], b[l], "%s.%s" % (where, k if isinstance(k, str) else type(k).__name__), memo)
                if r:
                    return r
            return None
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return where
            for i, (x, y) in enumerate(zip(a, b)):
                r = self.state_difference(x, y, "%s[%d]" % (where, i), memo)
                if r:
                    return r
            return None
        if type(a).__name__ == "partial":
            return self.state_difference([a.func, a.args, a.keywords], [b.func, b.args, b.keywords], where, memo)
        if isinstance(a, np.ndarray):
            return None if np.array_equal(a, b, equal_nan=True) else where
        if isinstance(a, (int, float, str, bool, type(None), set, frozenset)):
            return None if a == b or a != a and b != b else where
        if isinstance(a, (types.FunctionType, types.MethodType, types.ModuleType, type)):
            return None if a == b or (isinstance(a, types.FunctionType) and a.__code__ is b.__code__) else where
        if hasattr(a, "__dict__"):
            return self.state_difference(dict(vars(a)), dict(vars(b)), where, memo)
        return None if a == b else where

    # ---- comparison
    def ensure(self, got, want, what="result", shape=True, special=False, tol=None):
        if isinstance(got, Raised):
            self.count(what)
            if isinstance(got.exc, (AttributeError, TypeError, NotImplementedError)) and looks_like_tool_limit(got.exc):
                raise Unsupported("%r" % got)
            self.fail("%s: unexpected exception" % what, repr(got))
        if isinstance(want, dict):
            if not isinstance(got, dict) or set(got) != set(want):
                self.count(what)
                self.fail(what + ": keys", "got %s want %s" % (sorted(got) if isinstance(got, dict) else type(got), sorted(want)))
            for k in want:
                self.ensure(got[k], want[k], "%s[%s]" % (what, k), shape, special)
            return
        if isinstance(want, (tuple, list)):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                self.count(what)
                self.fail(what + ": structure", "got %r" % (got,))
            for i, (g, w) in enumerate(zip(got, want)):
                self.ensure(g, w, "%s[%d]" % (what, i), shape, special)
            return
        if want is None or isinstance(want, str):
            self.count(what)
            if got != want:
                self.fail(what, "got %r want %r" % (got, want))
            return
        if not isinstance(got, (SymArr, int, float, np.generic, np.ndarray)):
            self.count(what)
            self.fail(what, "got %r" % (got,))
        g, w = lift(got), lift(want)
        self.settled(g, w)
        gd, wd = g.node.dims, w.node.dims
        if shape and gd != wd:
            self.count(what)
            self.fail(what + ": shape", "got shape %s, contract says %s" % (gd, wd))
        dims = sym.bdims(gd, wd)
        import itertools

        axes = []
        for j, d in enumerate(dims):
            if isinstance(d, str):
                axes.append([("L", "%s@g%d" % (d, j))])
            else:
                axes.append(list(range(d)))
        for idx in itertools.product(*axes):
            self.count(what)
            self.enter(idx)
            a = sym.evc(w.node, idx)
            if a in (sym.NAN,) or (a in (sym.PINF, sym.NINF) and not special):
                self.fail(what + ": the specified value is not a finite number here", sym.show_val(a))
            b = sym.evc(g.node, idx)
            ok, msg = sym.same_value(self.path, b, a)
            if not ok:
                self.fail(what, msg)

    def nonneg(self, got, what="non-negative"):
        """every element is a finite number >= 0"""
        if isinstance(got, Raised):
            self.count(what)
            self.fail(what, repr(got))
        g = lift(got)
        dims = g.node.dims
        idx = tuple(("L", "%s@g%d" % (d, j)) if isinstance(d, str) else 0 for j, d in enumerate(dims))
        self.count(what)
        self.enter(idx)
        v = sym.ev(g.node, idx)
        if v[0] != "f":
            self.fail(what, "got %s" % sym.show_val(v))
        if self.path.ask(v[1], [{0, 1}, {-1}]) == 1:
            self.fail(what, "cannot show %s >= 0" % sym.show_val(v))

    def settled(self, *arrays):
        """no value of one generic iteration is taken for a result"""
        if self.path.generic_loops:
            from . import loops
            for a in arrays:
                if loops.free_lanes(a.node):
                    raise Unsupported("value of a single iteration of a loop of symbolic length")

    def enter(self, idx):
        """generic elements idx: instantiate the preconditions there"""
        p = self.path
        new = [i[1] for i in idx if isinstance(i, tuple) and i[1] not in p.active]
        p.active.extend(new)
        if p.universal and new:
            p.instantiate(p, new)

    def ensure_true(self, cond, what, detail=""):
        self.count(what)
        if isinstance(cond, Raised):
            self.fail(what, repr(cond))
        if isinstance(cond, SymArr):
            self.settled(cond)
            dims = cond.node.dims
            idx = tuple(("L", "%s@g%d" % (d, j)) if isinstance(d, str) else 0 for j, d in enumerate(dims))
            self.enter(idx)
            v = sym.ev(cond.node, idx)
            if not sym.truth(v):
                self.fail(what, detail)
        elif not cond:
            self.fail(what, detail)

    def finite(self, got, what="finite"):
        if isinstance(got, Raised):
            self.count(what)
            self.fail(what, repr(got))
        g = lift(got)
        dims = g.node.dims
        idx = tuple(("L", "%s@g%d" % (d, j)) if isinstance(d, str) else 0 for j, d in enumerate(dims))
        self.count(what)
        self.enter(idx)
        v = sym.ev(g.node, idx)
        if v[0] != "f":
            self.fail(what, "got %s" % sym.show_val(v))

    # ---- contracted functions
    def app(self, name, *args):
        """opaque application used in modular mode"""
        ns = [lift(a).node for a in args]
        return SymArr(sym.elem("app", *ns, x=(name, None)))

    def stub(self, module, attr, value):
        self.patch.set(self.mod(module), attr, value)

    def replace(self, real, value):
        """replace a function wherever the package refers to it"""
        for m in all_modules():
            for k, v in list(m.__dict__.items()):
                if v is real:
                    self.patch.set(m, k, value)
                elif isinstance(v, type) and v.__module__ == m.__name__:
                    for a, w in list(vars(v).items()):
                        if w is real:
                            self.patch.set(v, a, value)

    def use(self, *names):
        """check callers of these functions against the callee's contract (unless inlining)"""
        from . import callee

        if not self.inline:
            for n in names:
                callee.install(self, n)
                self.modular.add(n)


def looks_like_tool_limit(e):
    s = str(e)
    return "SymArr" in s or "Facade" in s or "SymInt" in s or "SymRange" in s


# ---------------------------------------------------------------- numeric scenario


class NumXP:
    """numpy for specifications in concrete runs"""

    def __getattr__(self, a):
        return getattr(np, a)


def to_np(x):
    if isinstance(x, (int, float, bool, np.generic, np.ndarray)):
        return np.asarray(x)
    return np.asarray(x)


class NumS(Scenario):
    symbolic = False
    inline = True
    modular = frozenset()

    def loops(self):
        pass

    def __init__(self, case, mode, seed, preset=None, tier="quick"):
        super().__init__(case, mode)
        self.rng = random.Random(seed)
        self.preset = preset or {}
        self.inputs = {}
        self.sizes = {}
        self.tier = tier
        self.patch = Patcher()
        self.xp = np
        import scipy.special

        self.scs = scipy.special
        self.tol = 1e-6 if mode == "numpy" else 1e-5  # jax.scipy.special.betaln is accurate to 1.4e-6
        self.atol = 0.0
        self.checked = 0
        self.drawn = {}
        self.repeat = self.rng.choice([0.0, 0.0, 0.1, 0.5])
        self.whole = self.npscalar = False

    def install(self):
        import scipy.special as nsp

        if self.mode == "jax":
            import jax

            jax.config.update("jax_enable_x64", True)
            import jax.numpy as jnp
            import jax.scipy.special as jsp

            self.bxp, self.bscs = jnp, jsp
        else:
            self.bxp, self.bscs = np, nsp
        for m in all_modules():
            if "xp" in m.__dict__:
                self.patch.set(m, "xp", self.bxp)
            if "scs" in m.__dict__:
                self.patch.set(m, "scs", self.bscs)

    def count(self, what):
        self.n_ensured += 1

    def fail(self, what, detail=""):
        raise Fail(what, detail)

    def _dim(self, d):
        if isinstance(d, (int, np.integer)):
            return int(d)
        if d not in self.sizes:
            v = self.preset.get("#size_" + d)
            self.sizes[d] = int(v) if v is not None and 1 <= v <= 6 else self.rng.choice([1, 2, 3, 5])
        return self.sizes[d]

    def draw(self, name, dom):
        if dom is None:
            dom = self.real(-3.0, 3.0)
        # repeated values: inputs from the same domain may coincide
        seen = self.drawn.setdefault(getattr(dom, "key", dom), [])
        if seen and self.rng.random() < self.repeat:
            return self.rng.choice(seen)
        v = float(dom(self.rng))
        if self.whole:
            _, lo, hi, special = getattr(dom, "key", (None, -math.inf, math.inf, ()))
            w = float(round(v))
            if lo <= w <= hi or w in special:
                v = w
        seen.append(v)
        return v

    def par(self, name, dom=None, sign=None):
        for _ in range(50):
            v = self.preset.get(name)
            if v is None:
                v = self.draw(name, dom)
            if sign is None or ((v > 0) - (v < 0)) in sign:
                break
            self.preset.pop(name, None)
        else:
            raise Reject()
        if self.whole and v == int(v):
            v = int(v)
        self.inputs[name] = v
        return np.float64(v) if self.npscalar and isinstance(v, float) else v

    def arr(self, name, dims, dom=None, sign=None):
        shp = tuple(self._dim(d) for d in dims)
        n = int(np.prod(shp)) if shp else 1
        out = []
        pv = self.preset.get(name)
        for i in range(n):
            for _ in range(50):
                v = pv if (pv is not None and i == 0) else self.draw(name, dom)
                if sign is None or ((v > 0) - (v < 0)) in sign:
                    break
                pv = None
            else:
                raise Reject()
            out.append(v)
        whole = self.whole and all(v == int(v) for v in out)
        a = np.array(out, dtype=int if whole else float).reshape(shp)
        self.inputs[name] = a.tolist()
        return self.bxp.asarray(a)

    def axis(self, name, dim, dom=None, sign=None):
        n = self.size(dim, 2, 4)
        a = np.array(sorted({round(float((dom or self.real(-3.0, 3.0))(self.rng)), 3) for _ in range(n)}), dtype=float)
        if len(a) != n:
            raise Reject()
        self.inputs[name] = a.tolist()
        return self.bxp.asarray(a)

    def asbackend(self, a):
        return self.bxp.asarray(np.asarray(a, dtype=float))

    def size(self, name, lo=2, hi=9):
        if name not in self.sizes:
            self.sizes[name] = self.rng.randint(lo, hi)
            self.inputs["#size_" + name] = self.sizes[name]
        return self.sizes[name]

    def choice(self, name, options):
        i = self.preset.get("choice:" + name)
        if not isinstance(i, int) or i >= len(options):
            i = self.rng.randrange(len(options))
        self.inputs["choice:" + name] = repr(options[i])[:100]
        return options[i]

    def assume(self, cond):
        if not bool(np.all(to_np(cond))):
            raise Reject()

    def decide(self, cond):
        return bool(np.all(to_np(cond)))

    def any_true(self, cond):
        return bool(np.any(to_np(cond)))

    def partial(self, value, defined):
        return Partial(value, defined)

    def snapshot(self, o):
        if isinstance(o, dict):
            return {k: (v, self.snapshot(v)) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [(v, self.snapshot(v)) for v in o]
        if isinstance(o, np.ndarray):
            return o.copy()
        if type(o).__module__.startswith("pandas"):
            return o.copy(deep=True)
        return o

    def changed(self, o, snap):
        if isinstance(o, dict):
            if list(o.keys()) != list(snap.keys()):
                return "dictionary keys changed from %s to %s" % (list(snap), list(o))
            for k in o:
                if o[k] is not snap[k][0]:
                    a, b = o[k], snap[k][0]
                    try:
                        same = type(a) is type(b) and np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
                    except Exception:
                        same = False
                    if not same:
                        return "dictionary entry %r was replaced by %r" % (k, o[k])
                r = self.changed(snap[k][0], snap[k][1])
                if r:
                    return "entry %r: %s" % (k, r)
            return None
        if isinstance(o, (list, tuple)):
            if len(o) != len(snap):
                return "list length changed"
            for a, (b, s) in zip(o, snap):
                if a is not b:
                    return "list entry replaced"
                r = self.changed(a, s)
                if r:
                    return r
            return None
        if isinstance(o, np.ndarray):
            if o.shape != snap.shape or not np.array_equal(o, snap, equal_nan=o.dtype.kind == "f"):
                return "array was modified in place: %s -> %s" % (snap.ravel()[:4], o.ravel()[:4])
            return None
        if type(o).__module__.startswith("pandas"):
            if not o.equals(snap):
                return "data frame was modified"
        return None

    def ensure(self, got, want, what="result", shape=True, special=False, tol=None):
        tol = tol or self.tol
        if isinstance(got, Raised):
            self.count(what)
            self.fail("%s: unexpected exception" % what, repr(got))
        if isinstance(want, Partial):
            self.count(what)
            g = np.asarray(to_np(got), dtype=float)
            v = np.asarray(to_np(want.value), dtype=float)
            d = np.broadcast_to(to_np(want.defined).astype(bool), np.broadcast_shapes(v.shape, to_np(want.defined).shape))
            v = np.broadcast_to(v, d.shape)
            if shape and g.shape != d.shape:
                self.fail(what + ": shape", "got %s want %s" % (g.shape, d.shape))
            g = np.broadcast_to(g, d.shape)
            return self._cmp(g[d], v[d], what, tol)
        if isinstance(want, dict):
            if not isinstance(got, dict) or set(got) != set(want):
                self.count(what)
                self.fail(what + ": keys", "got %s want %s" % (sorted(map(str, got)) if isinstance(got, dict) else type(got), sorted(map(str, want))))
            for k in want:
                self.ensure(got[k], want[k], "%s[%s]" % (what, k), shape, special, tol)
            return
        if isinstance(want, (tuple, list)):
            if not isinstance(got, (tuple, list)) or len(got) != len(want):
                self.count(what)
                self.fail(what + ": structure", "got %r" % (got,))
            for i, (g, w) in enumerate(zip(got, want)):
                self.ensure(g, w, "%s[%d]" % (what, i), shape, special, tol)
            return
        self.count(what)
        if want is None or isinstance(want, str):
            if got != want:
                self.fail(what, "got %r want %r" % (got, want))
            return
        try:
            g = np.asarray(to_np(got), dtype=float)
        except Exception as e:
            self.fail(what, "got %r (%s)" % (type(got), e))
        w = np.asarray(to_np(want), dtype=float)
        if shape and g.shape != w.shape:
            self.fail(what + ": shape", "got shape %s, contract says %s" % (g.shape, w.shape))
        s = np.broadcast_shapes(g.shape, w.shape)
        self._cmp(np.broadcast_to(g, s), np.broadcast_to(w, s), what, tol)

    def _cmp(self, g, w, what, tol):
        self.checked += 1
        fin = np.isfinite(w)
        with np.errstate(all="ignore"):
            ok = np.where(fin, np.abs(g - w) <= tol * np.abs(w) + self.atol + 1e-280, (g == w) | (np.isnan(g) & np.isnan(w)))
        if not np.all(ok):
            i = tuple(int(x[0]) for x in np.where(~np.atleast_1d(ok)))
            gg, ww = np.atleast_1d(g)[i], np.atleast_1d(w)[i]
            self.fail(what, "got %r, contract says %r (element %s)" % (float(gg), float(ww), i))

    def same(self, got, other, what):
        self.count(what)
        if isinstance(got, Raised) or isinstance(other, Raised):
            if not (isinstance(got, Raised) and isinstance(other, Raised) and type(got.exc) is type(other.exc)):
                self.fail(what, "got %r, otherwise %r" % (got, other))
            return
        if isinstance(other, dict) and isinstance(got, dict) and list(got) == list(other):
            for k in other:
                self.same(got[k], other[k], "%s[%s]" % (what, k))
            return
        if isinstance(other, (tuple, list)) and isinstance(got, (tuple, list)) and len(got) == len(other):
            for i, (g, w) in enumerate(zip(got, other)):
                self.same(g, w, "%s[%d]" % (what, i))
            return
        try:
            g, w = np.asarray(to_np(got), dtype=float), np.asarray(to_np(other), dtype=float)
        except (TypeError, ValueError):
            if got != other:
                self.fail(what, "got %r, otherwise %r" % (got, other))
            return
        if g.shape != w.shape:
            self.fail(what + ": shape", "got shape %s, otherwise %s" % (g.shape, w.shape))
        with np.errstate(all="ignore"):
            ok = (g == w) | (np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= 1e-9 * np.abs(w) + 1e-280)
        self.checked += 1
        if not np.all(ok):
            i = tuple(int(x[0]) for x in np.where(~np.atleast_1d(ok)))
            self.fail(what, "got %r, otherwise %r (element %s)" % (float(np.atleast_1d(g)[i]), float(np.atleast_1d(w)[i]), i))

    def state_difference(self, a, b, where="", memo=None):
        return None

    def nonneg(self, got, what="non-negative"):
        self.count(what)
        if isinstance(got, Raised):
            self.fail(what, "got %r" % (got,))
        g = np.asarray(to_np(got), dtype=float)
        if not np.all(g >= 0):
            self.fail(what, "got %r" % (g,))

    def ensure_true(self, cond, what, detail=""):
        self.count(what)
        if isinstance(cond, Raised):
            self.fail(what, repr(cond))
        if not bool(np.all(to_np(cond))):
            self.fail(what, detail)

    def finite(self, got, what="finite"):
        self.count(what)
        if isinstance(got, Raised) or not np.all(np.isfinite(np.asarray(to_np(got), dtype=float))):
            self.fail(what, "got %r" % (got,))

    def stub(self, module, attr, value):
        pass

    def replace(self, real, value):
        pass

    def use(self, *names):
        pass


# ---------------------------------------------------------------- running


# properties whose run-time evaluations also pass whole numbers (Python ints, integer arrays) and numpy scalars
WHOLE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C14"}


def run_case(S, c):
    """execute contract c in scenario S"""
    S.install()
    if not S.symbolic and WHOLE & set(c.props):
        S.whole = S.rng.random() < 0.15
        S.npscalar = S.rng.random() < 0.15
    try:
        c.fn(S, **S.case)
        S.check_frame()
    finally:
        S.patch.undo()


def label_text(l):
    try:
        if isinstance(l[0], str):
            return str(l)[:120]
        return T.show_poly(dict(l[0]))[:160]
    except Exception:
        return str(l)[:120]


def path_text(path):
    out = []
    for key, s in path.known.items():
        op = solver.SIGNOP.get(frozenset(s))
        if op:
            out.append("%s %s 0" % (T.show_poly(dict(key))[:160], op))
    return out


def path_model(path):
    """a concrete assignment of scalar variables satisfying the path facts, if z3 finds one"""
    import z3

    try:
        r, model, ctx = path.check([], want_model=True)
    except Exception:
        return None
    if model is None:
        return None
    out = {}
    for k, v in ctx.vars.items():
        a = T.ATOMS[k]
        if a[0] != "v":
            continue
        val = model.eval(v, model_completion=True)
        try:
            if z3.is_algebraic_value(val):
                val = val.approx(20)
            f = float(val.numerator_as_long()) / float(val.denominator_as_long())
        except Exception:
            continue
        out[a[1]] = f
    return out


def verify(c, case, mode, inline=False, deadline=60.0, max_paths=4000):
    """prove contract c for one case and mode; -> dict"""
    t0 = time.time()
    z0 = dict(solver.STATS)
    max_paths = c.opts.get("max_paths", max_paths)
    res = dict(contract=c.name, case=str(case), mode=mode, inline=inline, obligations=0, paths=0, failures=[], status="proved", reason="")
    solver.VAR_SIGN.clear()
    facade.GRID_DIMS.clear()
    end = time.time() + deadline
    log = []

    def one(path):
        if time.time() > end:
            raise PathLimit("time limit of %.0f s" % deadline)
        CTX.path = path
        CTX.mode = mode
        S = SymS(case, mode, path, inline, log)
        try:
            run_case(S, c)
        except Fail as f:
            return ("fail", f.what, f.detail, S.n_ensured)
        return ("ok", S.n_ensured)

    try:
        for path, r in explore(one, limit=max_paths, deadline=end):
            res["paths"] += 1
            if r[0] == "ok":
                res["obligations"] += r[1]
            else:
                res["obligations"] += r[3]
                try:
                    feas = path.check([])
                except Exception:
                    feas = "unknown"
                if feas == "unsat":
                    continue
                res["failures"].append(dict(obligation="%s.%s" % (c.name, r[1]), detail=str(r[2])[:1500], path=["%s = option %d" % kv for kv in path.choices.items()] + path_text(path)[:30], model=dict(path_model(path) or {}, **path.choices), feasible=feas))
                if len(res["failures"]) >= 4:
                    break
    except Unsupported as e:
        res["status"] = "unsupported"
        res["reason"] = str(e)[:500]
    except (PathLimit, Undecided) as e:
        res["status"] = "limit"
        res["reason"] = str(e)[:500]
    except T.TooBig as e:
        res["status"] = "limit"
        res["reason"] = str(e)[:500]
    except Exception as e:
        res["status"] = "engine-error"
        res["reason"] = "".join(traceback.format_exception(e))[-1500:]
    if res["failures"]:
        res["status"] = "failed"
    elif res["status"] == "proved" and res["obligations"] == 0:
        res["status"] = "vacuous"
    res["notes"] = sorted(NOTES)
    res["time"] = time.time() - t0
    for k in ("z3_calls", "z3_time", "z3_unsat"):
        res[k] = solver.STATS[k] - z0[k]
    return res


def concrete(c, case, mode, seed, n, presets=(), tier="quick", deadline=60.0):
    """run the contract on concrete inputs against the real code; -> dict"""
    t0 = time.time()
    end = t0 + deadline
    res = dict(contract=c.name, case=str(case), mode=mode, evaluations=0, rejected=0, checks=0, failure=None, samples=[], error=None)
    i = 0
    tries = 0
    npre = len(presets)
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    distinct = set()
    while i < n and tries < 40 * n + 100 and time.time() < end:
        preset = dict(presets[tries]) if tries < npre else None
        s = "%s|%s|%s|%s|%d" % (seed, c.name, sorted(case.items(), key=str), mode, tries)
        tries += 1
        S = NumS(case, mode, s, preset, tier)
        try:
            run_case(S, c)
        except Reject:
            res["rejected"] += 1
            continue
        except Fail as f:
            res["failure"] = dict(contract=c.name, case={k: repr(v) for k, v in case.items()}, mode=mode, seed=s, preset=preset, what=f.what, detail=str(f.detail)[:1500], inputs=jsonable(S.inputs))
            break
        except Exception as e:
            res["error"] = "".join(traceback.format_exception(e))[-1500:]
            break
        i += 1
        res["evaluations"] += 1
        res["checks"] += S.n_ensured
        distinct.add(repr(sorted(S.inputs.items(), key=str))[:300])
        if len(res["samples"]) < 2:
            res["samples"].append(jsonable(S.inputs))
    res["distinct"] = len(distinct)
    res["time"] = time.time() - t0
    return res


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x[:12]]
    if isinstance(x, (float, int, str, bool)) or x is None:
        return x if not (isinstance(x, float) and not math.isfinite(x)) else repr(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.ravel()[:12].tolist())
    return repr(x)[:200]
