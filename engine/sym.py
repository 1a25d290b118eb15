"""Symbolic arrays and their evaluation to canonical terms along a path.

A SymArr stands for an array (or scalar) of arbitrary size.  It holds a Node,
an expression DAG built by the real code through the symbolic array module
(facade.py).  `ev(node, idx)` evaluates one (generic) element to a value:

  ('f', Term)  a finite real           ('nan',) ('+i',) ('-i',)  IEEE specials
  ('any',)     unspecified

Data-dependent selections (where, comparisons, sign conditions of log, pow and
division) fork the current path; the facts learned are kept on the path.
"""
from fractions import Fraction
import itertools
import math

import numpy as _np

from .terms import *
from . import terms as T
from .solver import *
from . import solver as SV


class Unsupported(BaseException):
    """the code used something outside the verified subset"""


class Ctx:
    path = None
    mode = "numpy"
    concrete_only = False


CTX = Ctx()
BIG = Fraction(2 ** 1024 - 2 ** 971)  # largest double

# ---------------------------------------------------------------- nodes

_nid = [0]


class Node:
    __slots__ = ("op", "args", "dims", "x", "id", "isbool")

    def __init__(self, op, args=(), dims=(), x=None, isbool=False):
        self.op = op
        self.args = args
        self.dims = dims
        self.x = x
        _nid[0] += 1
        self.id = _nid[0]
        self.isbool = isbool


def const_fraction(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, (bool, _np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (int, _np.integer)):
        return Fraction(int(v))
    if abs(v) > 1e300:
        return Fraction(float(v))
    return Fraction(repr(float(v)))


def nconst(v):
    if isinstance(v, (bool, _np.bool_)):
        return Node("const", x=("f", C(int(v))), isbool=True)
    if isinstance(v, Term):
        return Node("const", x=("f", v))
    if isinstance(v, (float, _np.floating)):
        if v != v:
            return Node("const", x=("nan",))
        if v in (math.inf, -math.inf):
            return Node("const", x=("+i",) if v > 0 else ("-i",))
    return Node("const", x=("f", C(const_fraction(v))))


def bdims(*ds):
    n = max((len(d) for d in ds), default=0)
    out = []
    for i in range(n):
        cur = 1
        for d in ds:
            j = i - (n - len(d))
            if j < 0:
                continue
            x = d[j]
            if x == 1:
                continue
            if cur == 1:
                cur = x
            elif cur != x:
                raise ValueError("operands could not be broadcast together with shapes %s" % (ds,))
        out.append(cur)
    return tuple(out)


def elem(op, *args, x=None, isbool=False):
    return Node(op, args, bdims(*[a.dims for a in args]), x, isbool)


# ---------------------------------------------------------------- values

NAN, PINF, NINF, ANY = ("nan",), ("+i",), ("-i",), ("any",)


def F(t):
    return ("f", t)


def child_idx(idx, node):
    d = node.dims
    k = len(idx) - len(d)
    return tuple(0 if d[j] == 1 else idx[k + j] for j in range(len(d)))


def ev(node, idx=()):
    p = CTX.path
    key = (node.id, idx)
    for m in p.memo:
        r = m.get(key)
        if r is not None:
            return r
    r = EVAL[node.op](node, idx)
    p.memo[-1][key] = r
    return r


def evc(node, idx):
    return ev(node, child_idx(idx, node))


def evb(node, idx):
    """truth value of an element (decided on the path)"""
    v = evc(node, idx)
    return truth(v)


def truth(v):
    if v[0] == "f":
        c = v[1].const()
        if c is not None:
            return c != 0
        return not CTX.path.is_zero(v[1])
    if v == ANY:
        raise Unsupported("branch on an unspecified value")
    return True


def B(b):
    return F(T1 if b else ZERO)


def v_neg(a):
    if a[0] == "f":
        return F(T.neg(a[1]))
    return {"+i": NINF, "-i": PINF, "nan": NAN, "any": ANY}[a[0]]


def v_add(a, b):
    if a[0] == "f" and b[0] == "f":
        ca, cb = a[1].const(), b[1].const()
        for c, o, oc in ((ca, b, cb), (cb, a, ca)):
            # largest double: IEEE addition absorbs everything of ordinary size (|x| < 2**969), and overflows
            if c is not None and abs(c) == BIG:
                if oc is None or abs(oc) < 2 ** 969:
                    return F(C(c))
                if (oc > 0) == (c > 0):
                    return PINF if c > 0 else NINF
        return F(T.add(a[1], b[1]))
    if NAN in (a, b):
        return NAN
    if ANY in (a, b):
        return ANY
    if a[0] == "f":
        return b
    if b[0] == "f":
        return a
    return a if a == b else NAN


def v_sign(v):
    if v[0] == "f":
        return CTX.path.sign(v[1])
    return {"+i": 1, "-i": -1}[v[0]]


def v_mul(a, b):
    if a[0] == "f" and b[0] == "f":
        return F(T.mul(a[1], b[1]))
    if NAN in (a, b):
        return NAN
    if ANY in (a, b):
        return ANY
    s = v_sign(a)
    if s == 0:
        return NAN
    s *= v_sign(b)
    return {1: PINF, -1: NINF, 0: NAN}[s]


def v_div(a, b):
    if NAN in (a, b):
        return NAN
    if ANY in (a, b):
        return ANY
    if b[0] == "f":
        if CTX.path.is_zero(b[1]):
            if a[0] == "f":
                s = v_sign(a)
                return {1: PINF, -1: NINF, 0: NAN}[s]
            return a  # inf / 0
        if a[0] == "f":
            return F(T.div(a[1], b[1]))
        return PINF if v_sign(a) * v_sign(b) > 0 else NINF
    if a[0] == "f":
        return F(ZERO)
    return NAN


def t_log(t):
    """log of a term known to be positive"""
    p = CTX.path
    return T.log_term(t, p.psign_decide)


def v_log(a):
    if a[0] != "f":
        return {"+i": PINF, "-i": NAN, "nan": NAN, "any": ANY}[a[0]]
    s = CTX.path.sign(a[1])
    if s < 0:
        return NAN
    if s == 0:
        return NINF
    return F(t_log(a[1]))


def v_exp(a):
    if a[0] == "f":
        return F(T.exp_term(a[1]))
    return {"+i": PINF, "-i": F(ZERO), "nan": NAN, "any": ANY}[a[0]]


def v_pow(a, b):
    p = CTX.path
    if b[0] == "f" and b[1].const() == 0:
        return F(T1)
    if a[0] == "f" and a[1].const() == 1:
        return F(T1)
    if NAN in (a, b):
        return NAN
    if ANY in (a, b):
        return ANY
    if a[0] == "f" and b[0] == "f":
        c = b[1].const()
        if c is not None and c.denominator == 1:
            if c < 0 and p.is_zero(a[1]):
                return PINF
            return F(T.powi(a[1], int(c)))
        s = p.sign(a[1])
        if s > 0:
            return F(T.exp_term(T.mul(b[1], t_log(a[1]))))
        if s == 0:
            e = p.sign(b[1])
            return {1: F(ZERO), 0: F(T1), -1: PINF}[e]
        if c is not None:
            return NAN
        if p.is_zero(b[1]):
            return F(T1)
        return ANY
    if a[0] == "f":  # finite ** inf
        return ANY
    if b[0] == "f":
        e = p.sign(b[1])
        if e == 0:
            return F(T1)
        if a == PINF:
            return PINF if e > 0 else F(ZERO)
    return ANY


def cmp_vals(op, a, b):
    """a op b, decided"""
    if ANY in (a, b):
        raise Unsupported("comparison with an unspecified value")
    if NAN in (a, b):
        return op == "ne"
    order = {"-i": -1, "f": 0, "+i": 1}
    if a[0] != "f" or b[0] != "f":
        s = order[a[0]] - order[b[0]]
        s = (s > 0) - (s < 0)
        return {"lt": s < 0, "le": s <= 0, "gt": s > 0, "ge": s >= 0, "eq": s == 0, "ne": s != 0}[op]
    groups = {"lt": [{-1}, {0, 1}], "le": [{-1, 0}, {1}], "gt": [{1}, {-1, 0}], "ge": [{0, 1}, {-1}], "eq": [{0}, {-1, 1}], "ne": [{-1, 1}, {0}]}[op]
    return CTX.path.ask(a[1] - b[1], groups) == 0


# ---------------------------------------------------------------- evaluation of nodes


def _mul(n, idx):
    a, b = n.args
    if b.isbool and not a.isbool:
        vb = evc(b, idx)
        va = evc(a, idx)
    else:
        va = evc(a, idx)
        if va == F(ZERO) and b.isbool:
            return F(ZERO)
        vb = evc(b, idx)
    return v_mul(va, vb)


def _cmp(op):
    def f(n, idx):
        return B(cmp_vals(op, evc(n.args[0], idx), evc(n.args[1], idx)))
    return f


def _fin1(f, specials):
    def g(n, idx):
        v = evc(n.args[0], idx)
        if v[0] == "f":
            return f(v[1])
        return specials.get(v[0], ANY)
    return g


def t_ndtr(t):
    if not t.num:
        return C(Fraction(1, 2))
    co, _, _ = T.content(t.num)
    if co < 0:
        return T1 - A(("fn", "ndtr", (T.neg(t).key,)))
    return A(("fn", "ndtr", (t.key,)))


def _ndtr(t):
    return F(t_ndtr(t))


def t_expit(t):
    c = t.const()
    if c is None and any(v == {0} for v in CTX.path.known.values()):
        u = t  # constant by an equality that holds on this path
        for k, val in known_substitutions(CTX.path):
            if k in CTX.path.closure(u.atoms()):
                try:
                    u = substitute(CTX.path, u, k, val)
                except (NotImplementedError, ZeroDivisionError, AssertionError):
                    continue
        c = u.const()
    if c is not None:
        if c > 800:
            return T1
        if c < -800:
            return ZERO
    return T.inv(T1 + T.exp_term(T.neg(t)))


def t_even(name, t):
    co, _, _ = T.content(t.num) if t.num else (1, 0, 0)
    if co < 0:
        t = T.neg(t)
    return A(("fn", name, (t.key,)))


def t_odd(name, t):
    if not t.num:
        return ZERO
    co, _, _ = T.content(t.num)
    if co < 0:
        return T.neg(A(("fn", name, (T.neg(t).key,))))
    return A(("fn", name, (t.key,)))


def _gammaln(t):
    if CTX.path.sign(t) <= 0:
        return ANY
    return F(A(("fn", "gammaln", (t.key,))))


def _xlogy(n, idx):
    a, x = evc(n.args[0], idx), evc(n.args[1], idx)
    if NAN in (a, x):
        return NAN
    if ANY in (a, x):
        return ANY
    if a[0] == "f" and CTX.path.is_zero(a[1]):
        return F(ZERO)
    return v_mul(a, v_log(x))


def _abs(n, idx):
    v = evc(n.args[0], idx)
    if v[0] != "f":
        return {"nan": NAN, "any": ANY}.get(v[0], PINF)
    return F(v[1]) if CTX.path.ask(v[1], [{0, 1}, {-1}]) == 0 else F(T.neg(v[1]))


def _sqrt(t):
    s = CTX.path.sign(t)
    if s < 0:
        return NAN
    if s == 0:
        return F(ZERO)
    return F(T.exp_term(T.mul(C(Fraction(1, 2)), t_log(t))))


def _nan_to_num(n, idx):
    v = evc(n.args[0], idx)
    if v[0] in ("f", "any"):
        return v
    return evc(n.args[1 + ["nan", "+i", "-i"].index(v[0])], idx)


def _where(n, idx):
    c, a, b = n.args
    return evc(a, idx) if evb(c, idx) else evc(b, idx)


def _clip(n, idx):
    x, lo, hi = n.args
    v = evc(x, idx)
    if v[0] in ("nan", "any"):
        return v
    if lo is not None:
        l = evc(lo, idx)
        if cmp_vals("le", v, l):
            v = l
    if hi is not None:
        h = evc(hi, idx)
        if cmp_vals("ge", v, h):
            v = h
    return v


def _minmax(op):
    def f(n, idx):
        a, b = evc(n.args[0], idx), evc(n.args[1], idx)
        if NAN in (a, b):
            return NAN
        if ANY in (a, b):
            return ANY
        return a if cmp_vals(op, a, b) else b
    return f


def _istag(tags):
    def f(n, idx):
        v = evc(n.args[0], idx)
        if v == ANY:
            raise Unsupported("test of an unspecified value")
        return B(v[0] in tags)
    return f


def _and(n, idx):
    return B(evb(n.args[0], idx) and evb(n.args[1], idx))


def _or(n, idx):
    return B(evb(n.args[0], idx) or evb(n.args[1], idx))


def _var(n, idx):
    t = V(n.x, idx)
    return F(t)


def _stack(n, idx):
    i = idx[0]
    if isinstance(i, tuple):
        raise Unsupported("generic index into a concrete axis")
    return evc(n.args[i], idx[1:])


def _view(n, idx):
    """x: tuple over child axes of ('o', j) | ('k', index)"""
    ch = []
    for m in n.x:
        if m[0] == "o":
            ch.append(idx[m[1]])
        else:
            ch.append(m[1])
    c = n.args[0]
    ch = tuple(0 if c.dims[j] == 1 else ch[j] for j in range(len(ch)))
    return ev(c, ch)


def _update(n, idx):
    """base with base[k] = value (first axis, concrete index)"""
    base, val = n.args
    i = idx[0]
    if isinstance(i, int) and isinstance(n.x, int):
        if i == n.x:
            return evc(val, idx[1:])
        return ev(base, idx)
    raise Unsupported("update at a symbolic index")


def _gather(n, idx):
    """x[index]: index along the first axis of args[0] by an integer array"""
    base, index = n.args
    k = len(index.dims)
    v = ev(index, idx[:k])
    if v[0] != "f":
        return ANY
    c = v[1].const()
    i = int(c) if c is not None else ("T", v[1].key)
    return ev(base, (i,) + idx[k:])


def _linspace(n, idx):
    lo, hi = evc(n.args[0], ()), evc(n.args[1], ())
    i = idx[0]
    size = n.dims[0]
    if lo[0] != "f" or hi[0] != "f":
        return ANY
    if isinstance(i, tuple):
        fr = V("#frac_" + str(size), (i,))
        if not isinstance(size, str):
            raise Unsupported("generic index into concrete linspace")
    else:
        nn = C(size) if not isinstance(size, str) else V("#size_" + size)
        if i == 0:
            fr = ZERO
        elif i == -1:
            fr = T1
        elif i > 0:
            fr = T.div(C(i), nn - T1)
        else:
            fr = T1 + T.div(C(i + 1), nn - T1)
    return F(lo[1] + T.mul(hi[1] - lo[1], fr))


def _arange(n, idx):
    i = idx[0]
    if isinstance(i, int):
        return F(C(i))
    if i[0] == "T":
        return F(T.from_key(i[1]))
    return F(V("#idx_" + str(n.dims[0]), (i,)))


def _fill(n, idx):
    return evc(n.args[0], ())


def _app(n, idx):
    """opaque contracted function: x = (name, extra hashables)"""
    keys = []
    for a in n.args:
        v = evc(a, idx)
        if v[0] != "f":
            return NAN if v == NAN else ANY
        keys.append(v[1].key)
    name, pre = n.x[0], n.x[1]
    f = APP_EVAL.get(name)
    if f is not None:
        return f([T.from_key(k) for k in keys])
    return F(A(("fn", name, tuple(keys) + tuple(n.x[2:]))))


APP_EVAL = {}


def fresh_lane(size):
    CTX.path.fresh += 1
    return "%s@f%d" % (size, CTX.path.fresh)


def bound_names(t, lane):
    """names of binders inside t whose bodies mention lane"""
    out = set()
    todo = list(t.atoms())
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or lane not in atom_lanes(k):
            continue
        seen.add(k)
        a = ATOMS[k]
        if a[0] == "sum":
            out |= set(a[1])
            todo += list(from_key(a[2]).atoms())
        elif a[0] == "bind":
            out.add(a[2])
            for x in a[3] + a[4]:
                if looks_termkey(x):
                    todo += list(from_key(x).atoms())
        elif a[0] in ("P", "log"):
            todo += list(p_atoms(dict(a[1])))
        elif a[0] == "E":
            todo += list(Term({a[1]: Fraction(1)}, a[2]).atoms())
        elif a[0] == "ind":
            todo += list(p_atoms(dict(a[2])))
        elif a[0] == "fn":
            for x in a[2]:
                if looks_termkey(x):
                    todo += list(from_key(x).atoms())
    return out


def canon_lane(t, lane):
    size = lane.split("@")[0]
    used = bound_names(t, lane)
    free = term_lanes(t)
    j = 0
    while "%s~%d" % (size, j) in used or "%s~%d" % (size, j) in free:
        j += 1
    new = "%s~%d" % (size, j)
    return new


def sum_term(t, lane):
    """canonical Sum_lane t (lane: fresh name)"""
    if not t.num:
        return ZERO
    den_in = []
    den_out = T1
    for f, e in t.den:
        if lane in poly_lanes(dict(f)):
            den_in.append((f, e))
        else:
            den_out = T.mul(den_out, T.powi(T.inv(Term(dict(f))), e))
    res = ZERO
    for m, c in t.num.items():
        inside, outside = [], []
        sums = []
        for k, e in m:
            if lane in atom_lanes(k):
                if ATOMS[k][0] == "sum" and e == 1:
                    sums.append(k)
                else:
                    inside.append((k, e))
            else:
                outside.append((k, e))
        out = Term({tuple(outside): c})
        body = Term({tuple(inside): Fraction(1)}, tuple(sorted(den_in)))
        body_lanes = [lane]
        if len(sums) == 1:
            a = ATOMS[sums[0]]
            inner = from_key(a[2])
            # merge nested sums: rename the inner bound lanes to fresh ones
            for l in a[1]:
                nl = fresh_lane(l.split("~")[0])
                inner = T.rename_lane(inner, l, nl)
                body_lanes.append(nl)
            body = T.mul(body, inner)
        elif sums:
            body = T.mul(body, Term({tuple((k, 1) for k in sums): Fraction(1)}))
        res = T.add(res, T.mul(out, _sum_body(body, body_lanes)))
    return T.mul(res, den_out)


def lane_orders(ls):
    """orders in which bound lanes may be named: all permutations among lanes of the same size (up to three)"""
    groups = {}
    for l in sorted(ls):
        groups.setdefault(l.split("@")[0], []).append(l)
    opts = [itertools.permutations(g) if len(g) <= 3 else [tuple(g)] for _, g in sorted(groups.items())]
    return [sum(c, ()) for c in itertools.product(*opts)]


def _sum_body(body, lanes):
    """sum of a single term over fresh lanes; split into connected components"""
    res = ZERO
    for m, c in body.num.items():
        pieces = [(Term({((k, e),): Fraction(1)}), set(atom_lanes(k)) & set(lanes)) for k, e in m]
        pieces += [(T.powi(T.inv(Term(dict(f))), e), poly_lanes(dict(f)) & set(lanes)) for f, e in body.den]
        comps = [({l}, []) for l in lanes]
        free = T1
        for t, ls in pieces:
            if not ls:
                free = T.mul(free, t)
                continue
            hit = [x for x in comps if x[0] & ls]
            new = (set().union(*[x[0] for x in hit]), [t] + [y for x in hit for y in x[1]])
            comps = [x for x in comps if x not in hit] + [new]
        r = T.mul(C(c), free)
        for ls, ts in comps:
            if not ts:
                for l in ls:
                    r = T.mul(r, CTX.path.size_term(l))
                continue
            b = T1
            for t in ts:
                b = T.mul(b, t)
            best = None
            for order in lane_orders(ls):
                bb = b
                names = []
                for l in order:
                    n = canon_lane(bb, l)
                    bb = T.rename_lane(bb, l, n)
                    names.append(n)
                cand = (tuple(sorted(names)), bb.key)
                if best is None or repr(cand) < repr(best):
                    best = cand
            r = T.mul(r, A(("sum",) + best))
        res = T.add(res, r)
    return res


def canon_lits(lits, lane):
    out = set()
    size = lane.split("@")[0]
    for pk, s in lits:
        t = T.rename_lane(Term(dict(pk)), lane, size + "~*")
        out.add((T.p_key(t.num), s))
    return frozenset(out)


def lane_cases(fn, lane):
    """cases of fn() over the bound lane: list of (indicator Term, value)"""
    p = CTX.path
    size = lane.split("@")[0]
    cases = p.enumerate(lane, fn)
    ex = p.excluded.get(size, ())
    out = []
    for lits, v in cases:
        if ex:
            cl = canon_lits(lits, lane)
            if any(e <= cl for e in ex):
                continue
        out.append((lits, v))
    return out


def lit_ind(lits):
    r = T1
    for pk, s in lits:
        r = T.mul(r, SV.ind_term(pk, s))
    return r


def settle_specials(cases, lane):
    """decide for each special case whether some lane element falls in it"""
    p = CTX.path
    size = lane.split("@")[0]
    fin = []
    tags = set()
    if cases and len({v[0] for _, v in cases}) == 1 and cases[0][1][0] != "f":
        return [], {cases[0][1][0]}  # the cells are exhaustive
    for lits, v in cases:
        if v[0] == "f":
            fin.append((lits, v))
            continue
        if not lits:
            tags.add(v[0])  # every element
            continue
        key = (size, canon_lits(lits, lane))
        if key not in p.exists:
            c = p.choose(2, label=("exists", key))
            p.exists[key] = c == 0
            if c == 1:
                p.excluded.setdefault(size, []).append(key[1])
        if p.exists[key]:
            tags.add(v[0])
    return fin, tags


def reduce_sum(fn, size, weight=None):
    """sum over an axis of the given size; fn(index) -> value"""
    if not isinstance(size, str):
        r = F(ZERO)
        for i in range(size):
            v = fn(i)
            if weight is not None:
                v = v_mul(v, weight(i))
            r = v_add(r, v)
        return r
    lane = fresh_lane(size)

    def body():
        v = fn(("L", lane))
        if weight is not None:
            v = v_mul(v, weight(("L", lane)))
        return v

    cases = lane_cases(body, lane)
    fin, tags = settle_specials(cases, lane)
    if tags:
        if "any" in tags:
            return ANY
        if "nan" in tags or len(tags) > 1:
            return NAN
        return (tags.pop(),)
    tot = ZERO
    for lits, v in fin:
        tot = T.add(tot, T.mul(lit_ind(lits), v[1]))
    return F(reuse_sum(tot, lane, sum_term(tot, lane)))


def reuse_sum(tot, lane, res):
    """the same sum found earlier on this path (its cells may have been split differently before later facts were known)"""
    p = CTX.path
    if not res.num:
        return res
    size = lane.split("@")[0]
    free = term_lanes(tot) - {lane}
    funs = fn_names(tot)
    body = T.rename_lane(tot, lane, size + "@S")
    for size2, free2, funs2, body2, res2 in p.sums:
        if res2 is res or res2.key == res.key:
            return res2
    if any(ATOMS[k][0] == "ind" for k in tot.atoms()):
        for size2, free2, funs2, body2, res2 in p.sums[:12]:
            if size2 != size or free2 != free or funs2 != funs:
                continue
            l = fresh_lane(size)
            d = T.rename_lane(body, size + "@S", l) - T.rename_lane(body2, size + "@S", l)
            if not d.num or pointwise_zero(p, d, l):
                return res2
    p.sums.append((size, free, funs, body, res))
    return res


def fn_names(t):
    return frozenset(ATOMS[k][1] for k in t.atoms() if ATOMS[k][0] == "fn")


def ins(idx, axis, i):
    return idx[:axis] + (i,) + idx[axis:]


def _sum(n, idx):
    c = n.args[0]
    ax = n.x
    return reduce_sum(lambda i: ev(c, ins(idx, ax, i)), c.dims[ax])


def trapz_weight(xnode, xidx_fn, size):
    """weight of the trapezoid rule at index i for abscissae x(i)"""

    def w(i):
        if not isinstance(size, str):
            xs = [ev(xnode, xidx_fn(j)) for j in (max(i - 1, 0), min(i + 1, size - 1))]
            return v_div(v_add(xs[1], v_neg(xs[0])), F(C(2)))
        x = ev(xnode, xidx_fn(i))
        if x[0] != "f":
            return ANY
        return F(t_tw(x[1], i, size))

    return w


def t_tw(x, i, size):
    fr = V("#frac_" + size, (i,))
    (fm, _), = fr.num.items()
    k = fm[0][0]
    # affine in the linspace fraction: weight = slope * unit weight
    if not x.den and all(dict(m).get(k, 0) in (0, 1) for m in x.num):
        slope = {tuple(y for y in m if y[0] != k): c for m, c in x.num.items() if dict(m).get(k, 0) == 1}
        rest = {m: c for m, c in x.num.items() if dict(m).get(k, 0) == 0}
        lane = i[1]
        if slope and lane not in poly_lanes(slope) and lane not in poly_lanes(rest):
            return T.mul(Term(slope), V("#tw_" + size, (i,)))
    return A(("fn", "tw", (x.key, i)))


def _trapz(n, idx):
    y, x = n.args
    ax, xax = n.x
    size = y.dims[ax]

    def xi(i):
        full = ins(idx, ax, i)
        if len(x.dims) == 1:
            return (i,)
        return child_idx(full, x)

    return reduce_sum(lambda i: ev(y, ins(idx, ax, i)), size, trapz_weight(x, xi, size))


def _trapz_dx(n, idx):
    y, dx = n.args
    ax = n.x
    size = y.dims[ax]
    d = evc(dx, ())
    nn = C(size) if not isinstance(size, str) else V("#size_" + size)

    def w(i):
        if not isinstance(size, str):
            return v_mul(d, F(C(Fraction(1, 2) if i in (0, size - 1) else 1)))
        return v_mul(d, F(T.mul(nn - T1, V("#tw_" + size, (i,)))))

    return reduce_sum(lambda i: ev(y, ins(idx, ax, i)), size, w)


def _all(n, idx):
    """forall over one axis"""
    c = n.args[0]
    ax = n.x
    size = c.dims[ax]
    if not isinstance(size, str):
        return B(all(truth(ev(c, ins(idx, ax, i))) for i in range(size)))
    p = CTX.path
    lane = fresh_lane(size)
    cases = lane_cases(lambda: B(truth(ev(c, ins(idx, ax, ("L", lane))))), lane)
    bad = [l for l, v in cases if not v[1].num]
    good = [l for l, v in cases if v[1].num]
    if not bad:
        return B(True)
    if not good:
        return B(False)
    res = True
    for lits in bad:
        key = (size, canon_lits(lits, lane))
        if key not in p.exists:
            ch = p.choose(2, label=("exists", key))
            p.exists[key] = ch == 0
            if ch == 1:
                p.excluded.setdefault(size, []).append(key[1])
        if p.exists[key]:
            res = False
    return B(res)


def _extreme(n, idx):
    """max / min over an axis: opaque binder over the body (finite, no case split)"""
    c = n.args[0]
    ax, which = n.x
    size = c.dims[ax]
    if not isinstance(size, str):
        r = ev(c, ins(idx, ax, 0))
        for i in range(1, size):
            v = ev(c, ins(idx, ax, i))
            if NAN in (r, v):
                return NAN
            if cmp_vals("gt" if which == "max" else "lt", v, r):
                r = v
        return r
    lane = fresh_lane(size)
    cases = lane_cases(lambda: ev(c, ins(idx, ax, ("L", lane))), lane)
    tot = ZERO
    for lits, v in cases:
        if v[0] != "f":
            return ANY
        tot = T.add(tot, T.mul(lit_ind(lits), v[1]))
    new = canon_lane(tot, lane)
    return F(A(("bind", which, new, (T.rename_lane(tot, lane, new).key,), ())))


def _interp(n, idx):
    """x = kind; args = (xnodes, ynodes, x); node axis is the last axis of xnodes/ynodes"""
    xn, yn, xx = n.args
    v = evc(xx, idx)
    if v[0] != "f":
        return ANY
    size = yn.dims[-1]
    if yn.op == "const" and yn.x[0] == "f":
        return yn.x  # every kind of interpolant reproduces constants
    if not isinstance(size, str):
        keys = []
        for nd in (xn, yn):
            for i in range(size):
                w = ev(nd, (i,))
                if w[0] != "f":
                    return ANY
                keys.append(w[1].key)
        return F(A(("fn", "interp_" + n.x, tuple(keys) + (v[1].key,))))
    lane = fresh_lane(size)
    out = []
    for nd in (xn, yn):
        cases = lane_cases(lambda: ev(nd, (("L", lane),)), lane)
        fin, tags = settle_specials(cases, lane)
        if tags:
            return ANY
        if nd is yn and fin and all(w[1].key == fin[0][1][1].key for _, w in fin) and lane not in term_lanes(fin[0][1][1]):
            return fin[0][1]  # every kind of interpolant reproduces constants
        tot = ZERO
        for lits, w in fin:
            tot = T.add(tot, T.mul(lit_ind(lits), w[1]))
        out.append(tot)
    new = canon_lane(T.add(out[0], T.mul(V("#dummy"), out[1])), lane)
    keys = tuple(T.rename_lane(t, lane, new).key for t in out)
    atom = ("bind", "interp_" + n.x, new, keys, (v[1].key,))
    memo = CTX.path.interps
    for old in memo:  # pointwise the same nodes and values
        if old == atom or (old[1] == atom[1] and old[4] == atom[4] and same_binder(CTX.path, atom, old)):
            return F(A(old))
    memo.append(atom)
    return F(A(atom))


EVAL = {
    "const": lambda n, i: n.x,
    "var": _var,
    "add": lambda n, i: v_add(evc(n.args[0], i), evc(n.args[1], i)),
    "sub": lambda n, i: v_add(evc(n.args[0], i), v_neg(evc(n.args[1], i))),
    "mul": _mul,
    "div": lambda n, i: v_div(evc(n.args[0], i), evc(n.args[1], i)),
    "pow": lambda n, i: v_pow(evc(n.args[0], i), evc(n.args[1], i)),
    "neg": lambda n, i: v_neg(evc(n.args[0], i)),
    "abs": _abs,
    "lt": _cmp("lt"), "le": _cmp("le"), "gt": _cmp("gt"), "ge": _cmp("ge"), "eq": _cmp("eq"), "ne": _cmp("ne"),
    "and": _and, "or": _or,
    "not": lambda n, i: B(not evb(n.args[0], i)),
    "tobool": lambda n, i: B(evb(n.args[0], i)),
    "exp": lambda n, i: v_exp(evc(n.args[0], i)),
    "log": lambda n, i: v_log(evc(n.args[0], i)),
    "log1p": lambda n, i: v_log(v_add(F(T1), evc(n.args[0], i))),
    "sqrt": _fin1(_sqrt, {"nan": NAN, "+i": PINF, "-i": NAN}),
    "cos": _fin1(lambda t: F(T1 if not t.num else t_even("cos", t)), {}),
    "sin": _fin1(lambda t: F(t_odd("sin", t)), {}),
    "ndtr": _fin1(_ndtr, {"nan": NAN, "+i": F(T1), "-i": F(ZERO)}),
    "log_ndtr": _fin1(lambda t: F(t_log(t_ndtr(t))), {"nan": NAN, "+i": F(ZERO), "-i": NINF}),
    "erf": _fin1(lambda t: F(T.mul(C(2), t_ndtr(T.mul(t, T.const_pow(2, Fraction(1, 2))))) - T1), {"nan": NAN, "+i": F(T1), "-i": F(C(-1))}),
    "expit": _fin1(lambda t: F(t_expit(t)), {"nan": NAN, "+i": F(T1), "-i": F(ZERO)}),
    "gammaln": _fin1(_gammaln, {"nan": NAN}),
    "i0e": _fin1(lambda t: F(t_even("i0e", t)), {"nan": NAN}),
    "xlogy": _xlogy,
    "nan_to_num": _nan_to_num,
    "where": _where,
    "clip": _clip,
    "maximum": _minmax("ge"),
    "minimum": _minmax("le"),
    "isnan": _istag({"nan"}), "isinf": _istag({"+i", "-i"}), "isfinite": _istag({"f"}),
    "stack": _stack, "view": _view, "update": _update, "gather": _gather,
    "linspace": _linspace, "arange": _arange, "fill": _fill,
    "app": _app, "sum": _sum, "trapz": _trapz, "trapz_dx": _trapz_dx, "all": _all, "extreme": _extreme, "interp": _interp,
}


# ---------------------------------------------------------------- assumptions

CMP_SIGNS = {"lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}, "eq": {0}, "ne": {-1, 1}}


def assert_node(n, idx, simple=False):
    """assume the boolean element n[idx]"""
    p = CTX.path
    if n.op == "and":
        assert_node(n.args[0], child_idx(idx, n.args[0]), simple)
        assert_node(n.args[1], child_idx(idx, n.args[1]), simple)
        return
    if n.op == "all":
        c = n.args[0]
        if isinstance(c.dims[n.x], str) and len(c.dims) == 1:
            return assume_all(c)
    if n.op in CMP_SIGNS and not (simple and any(a.op not in ("var", "const", "add", "sub", "mul", "view") for a in n.args)):
        a, b = evc(n.args[0], idx), evc(n.args[1], idx)
        if a[0] == "f" and b[0] == "f":
            p.assert_sign(a[1] - b[1], CMP_SIGNS[n.op], simple)
            return
    if simple:
        return
    if not truth(ev(n, idx)):
        raise Infeasible()


def same_dag(a, b, memo=None):
    """the same operations on the same inputs"""
    memo = set() if memo is None else memo
    todo = [(a, b)]
    while todo:
        a, b = todo.pop()
        if a is b or (a.id, b.id) in memo:
            continue
        if a.op == b.op == "var" and a.dims == b.dims == () and CTX.path is not None:  # inputs that are equal on this path
            u, v = evc(a, ()), evc(b, ())
            if u == v or u[0] == v[0] == "f" and CTX.path.is_zero(u[1] - v[1]):
                memo.add((a.id, b.id))
                continue
            return False
        if a.op != b.op or a.dims != b.dims or a.isbool != b.isbool or type(a.x) is not type(b.x) or len(a.args) != len(b.args):
            return False
        if a.x is not b.x:
            try:
                if not (a.x == b.x) is True:
                    return False
            except Exception:
                return False
        memo.add((a.id, b.id))
        for u, v in zip(a.args, b.args):
            if isinstance(u, Node) and isinstance(v, Node):
                todo.append((u, v))
            elif isinstance(u, Node) or isinstance(v, Node) or u != v:
                return False
    return True


def has_reduction(node, seen=None):
    seen = set() if seen is None else seen
    if node.id in seen:
        return False
    seen.add(node.id)
    return node.op in ("sum", "trapz", "trapz_dx") or any(isinstance(a, Node) and has_reduction(a, seen) for a in node.args)


def refresh(p):
    """restate the scalar assumptions about sums under the facts of the path (their normal forms depend on the facts)"""
    if p.local or p.refreshing or p.refreshed == len(p.known):
        return False
    memo, p.memo, p.refreshing = p.memo, [{}], True
    try:
        for node in list(p.reduced):
            assert_node(node, ())
    finally:
        p.memo, p.refreshing = memo, False
    p.refreshed = len(p.known)
    return True


def assume_all(node):
    """assume a condition for every element"""
    p = CTX.path
    p.instantiate = instantiate
    if not node.dims:
        if node.op in CMP_SIGNS and any(has_reduction(a) for a in node.args):
            p.reduced.append(node)
            p.refresh = refresh
        return assert_node(node, ())
    import itertools

    conc = [range(d) if not isinstance(d, str) else [None] for d in node.dims]
    if all(not isinstance(d, str) for d in node.dims):
        for idx in itertools.product(*conc):
            assert_node(node, idx)
        return
    p.universal.append(node)
    instantiate(p, [], only=node)


def lane_size(l):
    return l.split("@")[0].split("~")[0]


def instantiate(p, new, simple=False, only=None):
    """instantiate the universal assumptions at the lanes in scope (each combination using a new lane)"""
    import itertools

    for node in ([only] if only is not None else list(p.universal)):
        axes = []
        for d in node.dims:
            if isinstance(d, str):
                axes.append([("L", l) for l in p.active if lane_size(l) == d])
            else:
                axes.append(list(range(d)))
        for idx in itertools.product(*axes):
            if only is None and not any(isinstance(i, tuple) and i[1] in new for i in idx):
                continue
            assert_node(node, idx, simple)


# ---------------------------------------------------------------- arrays


class SymArr:
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .facade import NP, SCS
        if method != "__call__" or kw:
            raise Unsupported("numpy ufunc %s.%s" % (ufunc, method))
        f = NP.get(ufunc.__name__) or SCS.get(ufunc.__name__)
        if f is None:
            raise Unsupported("numpy ufunc %s" % ufunc.__name__)
        return f(*inputs)

    def __array_function__(self, func, types, args, kwargs):
        from .facade import NP
        f = NP.get(func.__name__)
        if f is None:
            raise Unsupported("numpy function %s" % func.__name__)
        return f(*args, **kwargs)

    def __init__(self, node, py=False, scalar=None, name=None):
        self.node = node
        self.py = py
        self.scalar = (len(node.dims) == 0) if scalar is None else scalar
        self.name = name
        self.writes = 0
        self.isview = False

    # ---- basic attributes
    @property
    def shape(self):
        return tuple(SymInt(d) if isinstance(d, str) else d for d in self.node.dims)

    @property
    def ndim(self):
        return len(self.node.dims)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    @property
    def dtype(self):
        return bool if self.node.isbool else float

    @property
    def T(self):
        n = self.node
        k = len(n.dims)
        if k < 2:
            return self
        return SymArr(Node("view", (n,), n.dims[::-1], tuple(("o", k - 1 - j) for j in range(k)), n.isbool))

    def __repr__(self):
        return "<sym %s %s>" % (self.name or self.node.op, self.node.dims)

    def __format__(self, spec):
        return repr(self)

    __hash__ = object.__hash__

    # ---- arithmetic
    def _bin(self, o, op, swap=False, isbool=False):
        if isinstance(o, str) or o is None:
            return NotImplemented
        try:
            b = lift(o)
        except TypeError:
            return NotImplemented
        x, y = (b, self) if swap else (self, b)
        py = x.py and y.py
        if py and op == "div":
            v = ev(y.node)
            if v[0] == "f" and CTX.path.is_zero(v[1]):
                raise ZeroDivisionError("division by zero")
        if py and op == "pow":
            v, w = ev(x.node), ev(y.node)
            if v[0] == "f" and w[0] == "f" and not (w[1].const() is not None and w[1].const() >= 0):
                if CTX.path.is_zero(v[1]) and CTX.path.sign(w[1]) < 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        if op in ("and", "or") and not (x.node.isbool and y.node.isbool):
            raise Unsupported("bitwise operation on numbers")
        return SymArr(elem(op, x.node, y.node, isbool=isbool), py=py)

    def __add__(self, o): return self._bin(o, "add")
    def __radd__(self, o): return self._bin(o, "add", True)
    def __sub__(self, o): return self._bin(o, "sub")
    def __rsub__(self, o): return self._bin(o, "sub", True)

    def _isb(self, o):
        return self.node.isbool and (isinstance(o, (bool, _np.bool_)) or (isinstance(o, SymArr) and o.node.isbool))

    def __mul__(self, o):
        return self._bin(o, "and" if self._isb(o) else "mul", isbool=self._isb(o))

    def __rmul__(self, o):
        return self._bin(o, "and" if self._isb(o) else "mul", True, isbool=self._isb(o))

    def __truediv__(self, o): return self._bin(o, "div")
    def __rtruediv__(self, o): return self._bin(o, "div", True)
    def __pow__(self, o): return self._bin(o, "pow")
    def __rpow__(self, o): return self._bin(o, "pow", True)
    def __neg__(self): return SymArr(elem("neg", self.node), py=self.py)
    def __pos__(self): return self
    def __abs__(self): return SymArr(elem("abs", self.node), py=self.py)
    def __lt__(self, o): return self._bin(o, "lt", isbool=True)
    def __le__(self, o): return self._bin(o, "le", isbool=True)
    def __gt__(self, o): return self._bin(o, "gt", isbool=True)
    def __ge__(self, o): return self._bin(o, "ge", isbool=True)

    def __eq__(self, o):
        r = self._bin(o, "eq", isbool=True)
        return r

    def __ne__(self, o):
        return self._bin(o, "ne", isbool=True)

    def __and__(self, o): return self._bin(o, "and", isbool=True)
    def __rand__(self, o): return self._bin(o, "and", True, isbool=True)
    def __or__(self, o): return self._bin(o, "or", isbool=True)
    def __ror__(self, o): return self._bin(o, "or", True, isbool=True)

    def __invert__(self):
        if not self.node.isbool:
            raise Unsupported("~ on numbers")
        return SymArr(elem("not", self.node, isbool=True), py=self.py)

    def __floordiv__(self, o): raise Unsupported("floor division")
    def __mod__(self, o): raise Unsupported("modulo")
    def __matmul__(self, o): raise Unsupported("matmul")

    # ---- in-place
    def _inplace(self, o, op):
        r = getattr(self, op)(o)
        if r is NotImplemented:
            return r
        if self.py or self.scalar or CTX.mode == "jax":
            return r
        if self.isview:
            raise Unsupported("in-place update of a view")
        if r.node.dims != self.node.dims:
            raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s" % (self.node.dims, r.node.dims))
        if self.node.isbool and not r.node.isbool:
            raise TypeError("Cannot cast ufunc output to bool")
        self.node = r.node
        self.writes += 1
        return self

    def __iadd__(self, o): return self._inplace(o, "__add__")
    def __isub__(self, o): return self._inplace(o, "__sub__")
    def __imul__(self, o): return self._inplace(o, "__mul__")
    def __itruediv__(self, o): return self._inplace(o, "__truediv__")
    def __ipow__(self, o): return self._inplace(o, "__pow__")
    def __iand__(self, o): return self._inplace(o, "__and__")
    def __ior__(self, o): return self._inplace(o, "__or__")

    # ---- conversion
    def __bool__(self):
        if any(d != 1 for d in self.node.dims):
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        v = ev(self.node, tuple(0 for _ in self.node.dims))
        if v == ANY:
            raise Unsupported("branch on an unspecified value")
        return truth(v)

    def __float__(self):
        v = ev(self.node, tuple(0 for _ in self.node.dims)) if all(d == 1 for d in self.node.dims) else None
        if v is not None and v[0] == "f" and v[1].const() is not None:
            return float(v[1].const())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        raise Unsupported("symbolic value used as a concrete index")

    def __len__(self):
        if not self.node.dims:
            raise TypeError("len() of unsized object")
        d = self.node.dims[0]
        if isinstance(d, str):
            raise Unsupported("len() of a symbolic array")
        return d

    def __iter__(self):
        if not self.node.dims:
            raise TypeError("iteration over a 0-d array")
        d = self.node.dims[0]
        if isinstance(d, str):
            if CTX.path is not None and CTX.path.generic_loops:
                from . import loops
                return iter(loops.of_array(self))
            raise Unsupported("iteration over an array of symbolic length")
        return iter([self[i] for i in range(d)])

    def __contains__(self, x):
        raise Unsupported("membership test on a symbolic array")

    def __array__(self, *a, **k):
        raise Unsupported("conversion of a symbolic array to a real numpy array")

    def astype(self, t):
        if getattr(t, "__name__", t) in ("int", "int64", "int32"):
            if self.node.isbool:
                return SymArr(elem("add", self.node, nconst(0)))
            raise Unsupported("astype(int)")
        if getattr(t, "__name__", t) == "bool":
            return SymArr(elem("tobool", self.node, isbool=True))
        return SymArr(elem("add", self.node, nconst(0)) if self.node.isbool else self.node)

    def copy(self):
        return SymArr(self.node)

    def item(self):
        return SymArr(self.node, py=True)

    def sum(self, axis=None, **k):
        from .facade import f_sum
        return f_sum(self, axis=axis, **k)

    def mean(self, axis=None, **k):
        from .facade import f_mean
        return f_mean(self, axis=axis, **k)

    def all(self, axis=None):
        from .facade import f_all
        return f_all(self, axis=axis)

    def any(self, axis=None):
        from .facade import f_any
        return f_any(self, axis=axis)

    def max(self, axis=None):
        from .facade import f_max
        return f_max(self, axis=axis)

    def min(self, axis=None):
        from .facade import f_min
        return f_min(self, axis=axis)

    def __getattr__(self, name):
        if name.startswith("__") or name in ("values", "keys", "at_", "to_value"):
            raise AttributeError(name)
        if name == "at" and CTX.mode == "jax":
            return _At(self)
        if hasattr(_np.ndarray, name):
            def f(*a, **k):
                raise Unsupported("ndarray.%s" % name)
            return f
        raise AttributeError(name)

    # ---- indexing
    def __getitem__(self, key):
        if isinstance(key, SymArr) and not isinstance(key, SymInt) and not hasattr(key, "lane"):
            if key.node.isbool:
                raise Unsupported("boolean mask indexing")
            n = self.node
            if not n.dims:
                raise IndexError("too many indices for array: array is 0-dimensional")
            return SymArr(Node("gather", (n, key.node), key.node.dims + n.dims[1:], None, n.isbool))
        if not isinstance(key, tuple):
            key = (key,)
        n = self.node
        nax = sum(1 for k in key if k is not None and k is not Ellipsis)
        if nax > len(n.dims):
            raise IndexError("too many indices for array")
        if Ellipsis in [k for k in key if not isinstance(k, SymArr)]:
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),) * (len(n.dims) - nax) + key[i + 1:]
        else:
            key = key + (slice(None),) * (len(n.dims) - nax)
        m = []
        out = []
        ax = 0
        post = None
        for k in key:
            if k is None:
                out.append(1)
                continue
            d = n.dims[ax]
            if isinstance(k, slice):
                if k != slice(None):
                    raise Unsupported("slicing")
                m.append(("o", len(out)))
                out.append(d)
            elif isinstance(k, (int, _np.integer)) and not isinstance(k, bool):
                k = int(k)
                if not isinstance(d, str):
                    if not -d <= k < d:
                        raise IndexError("index %d is out of bounds for axis %d with size %d" % (k, ax, d))
                    k = k % d
                m.append(("k", k))
            elif hasattr(k, "lane"):  # the index of a generic iteration
                if k.size_name != d:
                    raise Unsupported("index of another length")
                m.append(("k", ("L", k.lane)))
            elif isinstance(k, SymInt):
                v = ev(k.node)
                m.append(("k", ("T", v[1].key)))
            elif isinstance(k, SymArr) and not k.node.isbool:
                # integer array index on the last axis with picks before it
                if ax != len(n.dims) - 1 or out:
                    raise Unsupported("advanced indexing")
                post = k
                m.append(("o", len(out)))
                out.append(d)
            else:
                raise Unsupported("index %r" % (k,))
            ax += 1
        r = SymArr(Node("view", (n,), tuple(out), tuple(m), n.isbool))
        if post is not None:
            return r[post]
        r.isview = bool(out) and CTX.mode == "numpy"
        return r

    def __setitem__(self, key, val):
        if CTX.mode == "jax":
            raise TypeError("JAX arrays are immutable")
        if isinstance(key, (int, _np.integer)) and self.node.dims and not isinstance(self.node.dims[0], str):
            k = int(key) % self.node.dims[0]
            self.node = Node("update", (self.node, lift(val).node), self.node.dims, k)
            self.writes += 1
            return
        if hasattr(key, "lane") and self.node.dims and self.node.dims[0] == key.size_name:
            self.node = Node("update", (self.node, lift(val).node), self.node.dims, ("L", key.lane))
            self.writes += 1
            return
        raise Unsupported("item assignment")


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, key):
        a = self.a

        class S:
            @staticmethod
            def set(v):
                if isinstance(key, int) and not isinstance(a.node.dims[0], str):
                    return SymArr(Node("update", (a.node, lift(v).node), a.node.dims, key % a.node.dims[0]))
                if hasattr(key, "lane") and a.node.dims and a.node.dims[0] == key.size_name:
                    return SymArr(Node("update", (a.node, lift(v).node), a.node.dims, ("L", key.lane)))
                raise Unsupported(".at[].set")
        return S


class SymInt(SymArr):
    """a symbolic array size"""

    def __init__(self, dim):
        SymArr.__init__(self, Node("const", x=("f", V("#size_" + dim))), py=True)
        self.dim = dim

    def __repr__(self):
        return "<size %s>" % self.dim

    __hash__ = object.__hash__


def dim_of(s):
    if isinstance(s, SymInt):
        return s.dim
    if isinstance(s, (int, _np.integer)):
        return int(s)
    raise Unsupported("array size %r" % (s,))


def lift(o):
    if isinstance(o, SymArr):
        return o
    if isinstance(o, (bool, int, float, Fraction, _np.generic)):
        return SymArr(nconst(o), py=not isinstance(o, _np.generic))
    if isinstance(o, _np.ndarray):
        if o.ndim == 0:
            return SymArr(nconst(o.item()))
        return stack([lift(x) for x in o])
    if isinstance(o, (list, tuple)):
        return stack(o)
    f = getattr(type(o), "generic_value", None)
    if f is not None:
        return f(o)
    raise TypeError("cannot use %r in a symbolic expression" % (type(o),))


def stack(items):
    if CTX.path is not None and CTX.path.generic_loops:
        from . import loops
        r = loops.stacked(items)
        if r is not None:
            return r
    items = [lift(i) for i in items]
    if not items:
        raise Unsupported("empty array")
    dims = items[0].node.dims
    for i in items:
        if i.node.dims != dims:
            raise ValueError("all input arrays must have the same shape")
    n = len(items)
    if n == 1:
        it = items[0].node
        return SymArr(Node("view", (it,), (1,) + dims, tuple(("o", j + 1) for j in range(len(dims))), it.isbool), scalar=False)
    return SymArr(Node("stack", tuple(i.node for i in items), (n,) + dims, None, items[0].node.isbool), scalar=False)


def var(name, dims=(), sign=None, py=False):
    """declare a symbolic variable; sign: set of allowed signs for every element"""
    if sign is not None:
        SV.VAR_SIGN[name] = frozenset(sign)
    elif name in SV.VAR_SIGN:
        del SV.VAR_SIGN[name]
    return SymArr(Node("var", (), tuple(dims), name), py=py and not dims, name=name)


import numbers

numbers.Number.register(SymArr)


# ---------------------------------------------------------------- proving equality of terms


def known_substitutions(path):
    """linear equalities  c*v + rest == 0  known on the path, as atom -> Term (v a variable or an application)"""
    out = []
    for key, s in path.known.items():
        if s != {0}:
            continue
        t = Term(dict(key))
        for k, val in out:
            if k in path.closure(t.atoms()):
                try:
                    t = substitute(path, t, k, val)
                except (NotImplementedError, ZeroDivisionError, AssertionError):
                    pass
        p = t.num
        best = None
        for kind in ("v", "fn"):
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == kind:
                    k = m[0][0]
                    if all(k not in [x for x, _ in mm] for mm in p if mm != m) and not any(
                        k in path.closure([x for x, _ in mm]) for mm in p if mm != m
                    ):
                        best = (k, m, c)
                        break
            if best:
                break
        if best:
            k, m, c = best
            rest = {mm: -cc / c for mm, cc in p.items() if mm != m}
            out.append((k, Term(rest)))
    return out


def substitute(path, t, k, val):
    a0 = ATOMS[k]
    mp = T.Mapper(lambda a: val if a == a0 else None, log_sign=path.psign_decide)
    return mp.term(t)


def is_zero_term(path, d, depth=0):
    """prove d == 0 on this path"""
    if not d.num:
        return True
    # substitutions
    for k, val in known_substitutions(path):
        if k in path.closure(d.atoms()):
            try:
                d2 = substitute(path, d, k, val)
            except (NotImplementedError, ZeroDivisionError, AssertionError):
                continue
            if not d2.num:
                return True
            d = d2
    if depth < 3:
        d2 = cell_simplify(path, d)
        if d2 is True:
            return True
    try:
        return path.possible(Term(d.num)) == {0}
    except Infeasible:
        raise
    except T.TooBig:
        return False


def cell_simplify(path, d):
    """sum congruence: d linear in sum atoms over one lane whose combined body vanishes pointwise"""
    sums = [k for k in p_atoms(d.num) if ATOMS[k][0] == "sum"]
    binds = [k for k in p_atoms(d.num) if ATOMS[k][0] == "bind"]
    if sums:
        lanes = {ATOMS[k][1] for k in sums}
        for ls in lanes:
            if len(ls) != 1:
                continue
            ks = [k for k in sums if ATOMS[k][1] == ls]
            # linear?
            if any(sum(e for k, e in m if k in ks) > 1 for m in d.num):
                continue
            if any(not any(k in ks for k, e in m) for m in d.num):
                # constant part: S[1]=size
                pass
            lane = fresh_lane(ls[0].split("~")[0])
            body = ZERO
            const = ZERO
            for m, c in d.num.items():
                kk = [k for k, e in m if k in ks]
                rest = Term({tuple(x for x in m if x[0] not in ks): c})
                if kk:
                    b = T.rename_lane(from_key(ATOMS[kk[0]][2]), ls[0], lane)
                    body = T.add(body, T.mul(rest, b))
                else:
                    const = T.add(const, rest)
            if const.num:
                continue
            if pointwise_zero(path, body, lane):
                return True
    # unify binders/sums with pointwise equal bodies
    allb = sums + binds
    if len(allb) >= 2:
        for i in range(len(allb)):
            for j in range(len(allb)):
                if i == j:
                    continue
                a, b = ATOMS[allb[i]], ATOMS[allb[j]]
                if same_binder(path, a, b):
                    mp = T.Mapper(lambda x: A(b) if x == a else None, log_sign=path.psign_decide)
                    try:
                        d2 = mp.term(d)
                    except (NotImplementedError, ZeroDivisionError):
                        continue
                    if not d2.num:
                        return True
                    if len(d2.atoms()) < len(d.atoms()):
                        return cell_simplify(path, d2) or None
    return None


def same_binder(path, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "sum":
        if a[1] != b[1] or len(a[1]) != 1:
            return False
        lane = fresh_lane(a[1][0].split("~")[0])
        d = T.rename_lane(from_key(a[2]), a[1][0], lane) - T.rename_lane(from_key(b[2]), a[1][0], lane)
        return pointwise_zero(path, d, lane)
    if a[1] != b[1] or a[2].split("~")[0] != b[2].split("~")[0]:
        return False
    for x, y in zip(a[4], b[4]):
        if x != y and not is_zero_term(path, from_key(x) - from_key(y), 3):
            return False
    lane = fresh_lane(a[2].split("~")[0])
    for x, y in zip(a[3], b[3]):
        d = T.rename_lane(from_key(x), a[2], lane) - T.rename_lane(from_key(y), b[2], lane)
        if d.num and not pointwise_zero(path, d, lane):
            return False
    return True


def pointwise_zero(path, d, lane):
    """d == 0 for every element of the lane: enumerate the indicator cells"""
    ok = [True]

    def run():
        if not ok[0]:
            return True
        cur = d
        for _ in range(40):
            ind = None
            for k in sorted(cur.atoms()):
                if ATOMS[k][0] == "ind":
                    ind = k
                    break
            if ind is None:
                break
            a = ATOMS[ind]
            g = [{0, 1}, {-1}] if a[1] == ">=" else [{1}, {-1, 0}]
            r = path.ask(Term(dict(a[2])), g) == 0
            cur = T.Mapper(lambda x: (T1 if r else ZERO) if x == a else None).term(cur)
            if not cur.num:
                return True
        if not is_zero_term(path, cur, 2):
            ok[0] = False
        return True

    path.enumerate(lane, run)
    return ok[0]


def same_value(path, got, want):
    """got, want: values.  'any' on the spec side matches everything"""
    if want == ANY:
        return True, ""
    if got[0] != want[0]:
        return False, "got %s, contract says %s" % (show_val(got), show_val(want))
    if got[0] != "f":
        return True, ""
    d = got[1] - want[1]
    if is_zero_term(path, d):
        return True, ""
    return False, "got %s, contract says %s" % (show_val(got), show_val(want))


def show_val(v):
    return T.show(v[1]) if v[0] == "f" else {"nan": "NaN", "+i": "+inf", "-i": "-inf", "any": "unspecified"}[v[0]]
