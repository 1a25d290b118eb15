"""Symbolic stand-ins for numpy / jax.numpy / scipy.special."""
import math

import numpy as _np
import scipy.special as _sps

from .sym import *
from .sym import SymArr, SymInt, Node, lift, elem, nconst, stack, dim_of, Unsupported, CTX
from . import sym


def _u(op, isbool=False):
    def f(x, *a, **k):
        if a or any(v is not None for v in k.values()):
            raise Unsupported("extra arguments of %s" % op)
        return SymArr(elem(op, lift(x).node, isbool=isbool))
    return f


def _b(op, isbool=False):
    def f(x, y, *a, **k):
        if a or k:
            raise Unsupported("extra arguments of %s" % op)
        return SymArr(elem(op, lift(x).node, lift(y).node, isbool=isbool))
    return f


def _op(name):
    def f(x, y, *a, **k):
        if a or k:
            raise Unsupported("extra arguments of %s" % name)
        r = getattr(arr0(x), name)(arr0(y))
        return r
    return f


def arr0(x):
    """as non-Python scalar"""
    a = lift(x)
    if a.py:
        return SymArr(a.node)
    return a


def f_array(x, dtype=None, **k):
    a = lift(x)
    if dtype is not None and getattr(dtype, "__name__", str(dtype)) not in ("float", "float64"):
        raise Unsupported("array dtype %r" % (dtype,))
    return SymArr(a.node, scalar=False)


def f_asarray(x, dtype=None, **k):
    if isinstance(x, SymArr) and not x.py:
        return x
    return f_array(x, dtype)


def f_where(c, a=None, b=None):
    if a is None:
        c = lift(c)
        if len(c.node.dims) != 1 or isinstance(c.node.dims[0], str):
            raise Unsupported("where(cond)")
        return (_np.array([i for i in range(c.node.dims[0]) if sym.evb(c.node, (i,))], dtype=int),)
    return SymArr(elem("where", lift(c).node, lift(a).node, lift(b).node, isbool=lift(a).node.isbool and lift(b).node.isbool))


def f_select(conds, vals, default=0):
    r = lift(default)
    for c, v in list(zip(conds, vals))[::-1]:
        r = f_where(c, v, r)
    return r


def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = lift(x)
    if not copy:
        raise Unsupported("nan_to_num(copy=False)")
    pi = nconst(sym.C(sym.BIG)) if posinf is None else lift(posinf).node
    ni = nconst(sym.C(-sym.BIG)) if neginf is None else lift(neginf).node
    return SymArr(elem("nan_to_num", x.node, lift(nan).node, pi, ni))


def f_clip(x, a_min=None, a_max=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = lift(x)
    if lo is not None:
        r = SymArr(elem("clip", r.node, lift(lo).node, Node("const", x=sym.PINF)))
    if hi is not None:
        r = SymArr(elem("clip", r.node, Node("const", x=sym.NINF), lift(hi).node))
    return r


def axes_of(x, axis):
    n = len(x.node.dims)
    if axis is None:
        return list(range(n))
    if isinstance(axis, int):
        axis = (axis,)
    out = []
    for a in axis:
        if not -n <= a < n:
            raise ValueError("axis %d is out of bounds for array of dimension %d" % (a, n))
        out.append(a % n)
    return out


def _reduce(op):
    def f(x, axis=None, keepdims=False, dtype=None, **k):
        if k:
            raise Unsupported("extra arguments of a reduction")
        x = lift(x)
        axs = axes_of(x, axis)
        n = x.node
        orig = n.dims
        for ax in sorted(axs, reverse=True):
            d = n.dims[ax]
            rest = n.dims[:ax] + n.dims[ax + 1:]
            if d == 1:
                n = Node("view", (n,), rest, tuple(("o", j if j < ax else j - 1) if j != ax else ("k", 0) for j in range(len(n.dims))), n.isbool)
                continue
            n = op(n, ax, rest)
        if keepdims:
            dims = tuple(1 if j in axs else d for j, d in enumerate(orig))
            keep = [j for j in range(len(orig)) if j not in axs]
            n = Node("view", (n,), dims, tuple(("o", j) for j in keep), n.isbool)
        return SymArr(n)
    return f


f_sum = _reduce(lambda n, ax, rest: Node("sum", (n,), rest, ax))
f_all = _reduce(lambda n, ax, rest: Node("all", (n,), rest, ax, True))
f_max = _reduce(lambda n, ax, rest: Node("extreme", (n,), rest, (ax, "max")))
f_min = _reduce(lambda n, ax, rest: Node("extreme", (n,), rest, (ax, "min")))


def f_any(x, axis=None, **k):
    x = lift(x)
    return ~SymArr((f_all(~SymArr(elem("tobool", x.node, isbool=True)), axis=axis)).node)


def f_mean(x, axis=None, keepdims=False, **k):
    x = lift(x)
    cnt = 1
    for ax in axes_of(x, axis):
        cnt = x.shape[ax] * cnt
    return f_sum(x, axis=axis, keepdims=keepdims) / arr0(cnt)


def f_nansum(x, axis=None, keepdims=False, **k):
    x = lift(x)
    return f_sum(f_where(SCS_ISNAN(x), 0.0, x), axis=axis, keepdims=keepdims, **k)


def f_nanmean(x, axis=None, keepdims=False, **k):
    x = lift(x)
    return f_nansum(x, axis, keepdims, **k) / f_sum(f_where(SCS_ISNAN(x), 0.0, 1.0), axis=axis, keepdims=keepdims)


def SCS_ISNAN(x):
    return NP["isnan"](x)


def f_var(x, axis=None, ddof=0, **k):
    x = lift(x)
    if ddof:
        raise Unsupported("var ddof")
    return f_mean(x * x, axis=axis) - f_mean(x, axis=axis) ** 2


def f_std(x, axis=None, ddof=0, **k):
    return f_sqrt(f_var(x, axis=axis, ddof=ddof))


f_sqrt = _u("sqrt")


def f_prod(x, axis=None, **k):
    x = lift(x)
    if len(x.node.dims) == 0:
        return x
    if axis not in (0, None) or isinstance(x.node.dims[0], str) or (axis is None and len(x.node.dims) > 1):
        raise Unsupported("prod over a symbolic axis")
    r = x[0]
    for i in range(1, x.node.dims[0]):
        r = r * x[i]
    return r


def f_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = lift(y)
    if len(y.node.dims) == 0:
        raise IndexError("trapezoid of a scalar")
    ax = axes_of(y, axis)[0]
    n = y.node
    rest = n.dims[:ax] + n.dims[ax + 1:]
    if x is None:
        return SymArr(Node("trapz_dx", (n, lift(dx).node), rest, ax))
    x = lift(x)
    if len(x.node.dims) == 1:
        if x.node.dims[0] != n.dims[ax]:
            if n.dims[ax] == 1 or x.node.dims[0] == 1:
                raise Unsupported("trapezoid with broadcast axis")
            raise ValueError("operands could not be broadcast together (trapezoid)")
    else:
        if sym.bdims(x.node.dims, n.dims) != n.dims or x.node.dims[ax - len(n.dims)] == 1:
            raise Unsupported("trapezoid with this x")
    return SymArr(Node("trapz", (n, x.node), rest, (ax, None)))


def shape_of(shape):
    if isinstance(shape, (int, SymInt)):
        shape = (shape,)
    return tuple(dim_of(s) for s in shape)


def _filled(v):
    def f(shape, dtype=None, **k):
        d = shape_of(shape)
        return SymArr(Node("fill", (nconst(v),), d), scalar=False)
    return f


def f_full(shape, v, dtype=None, **k):
    return SymArr(Node("fill", (lift(v).node,), shape_of(shape)), scalar=False)


def _filled_like(v):
    def f(x, dtype=None, **k):
        return SymArr(Node("fill", (nconst(v),), lift(x).node.dims), scalar=False)
    return f


def f_empty_like(x, dtype=None, **k):
    return SymArr(Node("fill", (Node("const", x=sym.ANY),), lift(x).node.dims), scalar=False)


def f_empty(shape, dtype=None, **k):
    return SymArr(Node("fill", (Node("const", x=sym.ANY),), shape_of(shape)), scalar=False)


def f_linspace(a, b, num=50, **k):
    if any(k.values()) and k != {"endpoint": True}:
        raise Unsupported("linspace options")
    a, b = lift(a), lift(b)
    if a.node.dims or b.node.dims:
        raise Unsupported("linspace of arrays")
    return SymArr(Node("linspace", (a.node, b.node), (grid_dim(num),)), scalar=False)


def grid_dim(num):
    """grids of a fixed, large size are generalised to a grid of arbitrary size"""
    if isinstance(num, (int, _np.integer)) and not isinstance(num, bool) and num >= 8:
        return "G%d" % num
    return dim_of(num)


GRID_DIMS = {}


def f_arange(*a, **k):
    if len(a) == 1:
        d = dim_of(a[0])
        return SymArr(Node("arange", (), (d,)), scalar=False)
    raise Unsupported("arange")


def f_meshgrid(*xs, indexing="xy", **k):
    if k:
        raise Unsupported("meshgrid options")
    xs = [lift(x) for x in xs]
    n = len(xs)
    order = list(range(n))
    if indexing == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    dims = tuple(xs[j].node.dims[0] for j in order)
    out = []
    for j in range(n):
        pos = order.index(j)
        out.append(SymArr(Node("view", (xs[j].node,), dims, (("o", pos),)), scalar=False))
    return out


def f_shape(x):
    return lift(x).shape


def along_one_axis(n):
    """(1-d node, axis) if the array repeats a 1-d array along all other axes, else None"""
    if len(n.dims) == 1 and n.op == "var":
        return n, 0
    if n.op == "view" and len(n.x) == 1 and n.x[0][0] == "o" and len(n.args[0].dims) == 1:
        return n.args[0], n.x[0][1]
    return None


def ascending(base):
    return base.op == "linspace" or (base.op == "var" and base.x in CTX.path.ascending)


def f_unique(x, **k):
    if k:
        raise Unsupported("unique options")
    r = along_one_axis(lift(x).node)
    if r is None or not ascending(r[0]):
        raise Unsupported("unique")
    return SymArr(r[0], scalar=False)


def f_diff(x, n=1, axis=-1):
    """of an array that repeats an ascending 1-d array: zero along the other axes, positive along its own"""
    x = lift(x)
    r = along_one_axis(x.node)
    if n != 1 or r is None or not ascending(r[0]):
        raise Unsupported("diff")
    ax = axes_of(x, axis)[0]
    d = x.node.dims[ax]
    dims = tuple((d + "-1" if isinstance(d, str) else d - 1) if j == ax else e for j, e in enumerate(x.node.dims))
    if ax != r[1]:
        return SymArr(Node("fill", (nconst(0),), dims), scalar=False)
    return SymArr(sym.var("#diff_%s" % (r[0].x if r[0].op == "var" else r[0].id), dims, {1}).node, scalar=False)


def f_searchsorted(*a, **k):
    raise Unsupported("searchsorted")


def f_vstack(xs):
    xs = [lift(x) for x in xs]
    if any(len(x.node.dims) != 1 for x in xs):
        raise Unsupported("vstack of this shape")
    return stack(xs)


def f_stack(xs, axis=0):
    if axis != 0:
        raise Unsupported("stack axis")
    return stack(list(xs))


def f_transpose(x, axes=None):
    if axes is not None:
        raise Unsupported("transpose axes")
    return lift(x).T


def f_expand_dims(x, axis):
    x = lift(x)
    n = len(x.node.dims) + 1
    a = axis % n
    key = [slice(None)] * (n - 1)
    key.insert(a, None)
    return x[tuple(key)]


def f_broadcast_to(x, shape):
    d = shape_of(shape)
    return SymArr(elem("add", lift(x).node, Node("fill", (nconst(0),), d)))


def f_copy(x):
    return SymArr(lift(x).node)


def f_square(x):
    return arr0(x) ** 2


def f_heaviside(x, y):
    return f_where(lift(x) > 0, 1.0, f_where(lift(x) < 0, 0.0, y))


def f_isclose(*a, **k):
    raise Unsupported("isclose")


def f_cumprod(*a, **k):
    raise Unsupported("cumprod")


def f_log10(x):
    return f_log(x) / f_log(10.0)


f_log = _u("log")
f_exp = _u("exp")


def f_betaln(a, b):
    g = SCS["gammaln"]
    a, b = lift(a), lift(b)
    return g(a) + g(b) - g(a + b)


def f_i0(k):
    return SCS["i0e"](k) * f_exp(abs(arr0(k)))


SCS = dict(
    ndtr=_u("ndtr"), log_ndtr=_u("log_ndtr"), expit=_u("expit"), gammaln=_u("gammaln"), i0e=_u("i0e"), i0=f_i0,
    xlogy=_b("xlogy"), betaln=f_betaln, erf=_u("erf"),
    erfc=lambda x: 1 - SCS["erf"](x),
    beta=lambda a, b: f_exp(f_betaln(a, b)),
    gamma=lambda a: f_exp(SCS["gammaln"](a)),
    xlog1py=lambda a, b: SCS["xlogy"](a, 1 + lift(b)),
    logit=lambda x: f_log(x) - f_log(1 - lift(x)),
)

NP = dict(
    array=f_array, asarray=f_asarray, where=f_where, select=f_select, nan_to_num=f_nan_to_num, clip=f_clip,
    exp=f_exp, log=f_log, log1p=_u("log1p"), sqrt=f_sqrt, cos=_u("cos"), sin=_u("sin"), abs=_u("abs"), absolute=_u("abs"), fabs=_u("abs"),
    expm1=lambda x: f_exp(x) - 1, log10=f_log10, log2=lambda x: f_log(x) / f_log(2.0),
    isnan=_u("isnan", True), isinf=_u("isinf", True), isfinite=_u("isfinite", True),
    power=_op("__pow__"), float_power=_op("__pow__"), multiply=_op("__mul__"), divide=_op("__truediv__"), true_divide=_op("__truediv__"),
    add=_op("__add__"), subtract=_op("__sub__"), negative=lambda x: -arr0(x), reciprocal=lambda x: 1 / arr0(x),
    greater=_op("__gt__"), greater_equal=_op("__ge__"), less=_op("__lt__"), less_equal=_op("__le__"), equal=_op("__eq__"), not_equal=_op("__ne__"),
    logical_and=_b("and", True), logical_or=_b("or", True), logical_not=_u("not", True), bitwise_and=_op("__and__"), bitwise_or=_op("__or__"),
    maximum=_b("maximum"), minimum=_b("minimum"), square=f_square,
    sum=f_sum, nansum=f_nansum, nanmean=f_nanmean, mean=f_mean, average=lambda x, axis=None: f_mean(x, axis=axis), all=f_all, any=f_any, max=f_max, min=f_min, amax=f_max, amin=f_min, var=f_var, std=f_std, prod=f_prod,
    trapezoid=f_trapezoid, ones=_filled(1), zeros=_filled(0), full=f_full, ones_like=_filled_like(1), zeros_like=_filled_like(0),
    empty=f_empty, empty_like=f_empty_like, linspace=f_linspace, arange=f_arange, meshgrid=f_meshgrid, shape=f_shape,
    ndim=lambda x: len(lift(x).node.dims), size=lambda x: lift(x).size,
    vstack=f_vstack, stack=f_stack, transpose=f_transpose, expand_dims=f_expand_dims, broadcast_to=f_broadcast_to, copy=f_copy,
    sign=lambda x: f_where(arr0(x) > 0, 1.0, f_where(arr0(x) < 0, -1.0, 0.0 * arr0(x))), logaddexp=lambda a, b: f_log(f_exp(a) + f_exp(b)), positive=lambda x: arr0(x),
    heaviside=f_heaviside, diff=f_diff, unique=f_unique, float64=lambda x: arr0(x), isscalar=lambda x: not lift(x).node.dims,
    atleast_1d=lambda x: lift(x) if lift(x).node.dims else lift(x)[None],
)


class Facade:
    def __init__(self, name, table, real):
        self.__dict__["__name__"] = name
        self.__dict__["_table"] = table
        self.__dict__["_real"] = real

    def __getattr__(self, attr):
        t = self.__dict__["_table"]
        if attr in t:
            return t[attr]
        if attr.startswith("__"):
            raise AttributeError(attr)
        real = self.__dict__["_real"]
        if not hasattr(real, attr):
            raise AttributeError("module %r has no attribute %r" % (self.__name__, attr))

        def f(*a, **k):
            raise Unsupported("%s.%s" % (self.__name__, attr))
        return f

    def __setattr__(self, a, v):
        raise Unsupported("assignment to a module attribute")


_consts = dict(inf=math.inf, nan=math.nan, newaxis=None, ndarray=SymArr, bool_=bool, e=None, int64=int)


def make_np(mode, real):
    t = dict(NP)
    t.update(_consts)
    t["pi"] = SymArr(nconst(sym.PI), py=True)
    del t["e"]
    return Facade("numpy" if mode == "numpy" else "jax.numpy", t, real)


def make_scs(mode, real):
    return Facade("scipy.special" if mode == "numpy" else "jax.scipy.special", dict(SCS), real)
