"""Paths: accumulated facts, sign queries, forking decisions; z3 behind them."""
import time
from fractions import Fraction

import z3

from .terms import *
from . import terms as T

STATS = dict(z3_calls=0, z3_time=0.0, z3_unsat=0, z3_sat=0, z3_unknown=0, quick=0, cache=0)
Z3_TIMEOUT = 4000
LOGGED = []  # (smt2 text) of unsat queries, for the cvc5 cross check
LOG_LIMIT = 0

ALWAYS_POS = {"E", "c", "p", "P"}
# functions: known range (lo, hi, lo_open, hi_open)
FN_RANGE = {
    "ndtr": (0, 1, True, True),
    "i0e": (0, 1, True, False),
    "cos": (-1, 1, False, False),
    "sin": (-1, 1, False, False),
    "size": (1, None, False, False),
    "sqrtabs": (0, None, False, False),
}
FN_MONO = {"ndtr", "erf", "arctan", "tanh"}


class Infeasible(BaseException):
    pass


class Undecided(BaseException):
    """the solver could not settle something needed to go on"""


class PathLimit(BaseException):
    pass


_lanes_cache = {}


def idx_lanes(idx):
    s = set()
    for i in idx:
        if isinstance(i, tuple) and i and i[0] == "L":
            s.add(i[1])
        elif isinstance(i, tuple) and i and i[0] == "T":
            s |= term_lanes(from_key(i[1]))
    return s


def key_lanes(x):
    """lanes in a nested key structure that may contain term keys"""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "T":
        return term_lanes(from_key(x[1]))
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "L":
        return {x[1]}
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= key_lanes(y)
        return s
    return set()


def atom_lanes(k):
    r = _lanes_cache.get(k)
    if r is not None:
        return r
    a = ATOMS[k]
    if a[0] == "v":
        r = idx_lanes(a[2])
    elif a[0] in ("c", "p"):
        r = set()
    elif a[0] in ("P", "log"):
        r = poly_lanes(dict(a[1]))
    elif a[0] == "E":
        r = term_lanes(Term({a[1]: Fraction(1)}, a[2]))
    elif a[0] == "fn":
        r = set()
        for x in a[2]:
            r |= term_lanes(from_key(x)) if is_termkey(x) else key_lanes(x)
    elif a[0] == "ind":
        r = poly_lanes(dict(a[2]))
    elif a[0] == "sum":
        r = term_lanes(from_key(a[2])) - set(a[1])
    elif a[0] == "bind":
        # ('bind', name, boundlane, (bound termkeys), (free termkeys))
        r = set()
        for x in a[3]:
            r |= term_lanes(from_key(x))
        r -= {a[2]}
        for x in a[4]:
            r |= term_lanes(from_key(x)) if is_termkey(x) else key_lanes(x)
    else:
        raise AssertionError(a)
    r = frozenset(r)
    _lanes_cache[k] = r
    return r


def is_termkey(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], tuple) and (not x[0] or isinstance(x[0][0], tuple))


def poly_lanes(p):
    s = set()
    for k in p_atoms(p):
        s |= atom_lanes(k)
    return s


def term_lanes(t):
    s = poly_lanes(t.num)
    for f, _ in t.den:
        s |= poly_lanes(dict(f))
    return s


class Z3Ctx:
    """translation of polynomials to z3 with axioms for the atoms used"""

    def __init__(self, path):
        self.path = path
        self.vars = {}
        self.ax = []
        self.roots = {}
        self.done = set()

    def var(self, k):
        if k not in self.vars:
            self.vars[k] = z3.Real("a%d" % k)
        return self.vars[k]

    def power(self, k, e):
        v = self.var(k)
        if isinstance(e, Fraction):
            q = e.denominator
            r = self.roots.get((k, q))
            if r is None:
                r = z3.Real("r%d_%d" % (k, q))
                self.roots[(k, q)] = r
                pr = r
                for _ in range(q - 1):
                    pr = pr * r
                self.ax.append(pr == v)
                self.ax.append(r > 0)
            v = r
            e = e.numerator
        if e < 0:
            r = self.roots.get((str(v), "inv"))
            if r is None:
                r = z3.Real("i_" + str(v))
                self.roots[(str(v), "inv")] = r
                self.ax.append(r * v == 1)
            v = r
            e = -e
        out = v
        for _ in range(e - 1):
            out = out * v
        return out

    def poly(self, p):
        s = []
        for m, c in p.items():
            x = None
            for k, e in m:
                y = self.power(k, e)
                x = y if x is None else x * y
            c = Fraction(c)
            cc = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
            s.append(cc if x is None else (x if c == 1 else cc * x))
        if not s:
            return z3.RealVal(0)
        return z3.Sum(s) if len(s) > 1 else s[0]

    def term(self, t):
        n = self.poly(t.num)
        for f, e in t.den:
            d = self.poly(dict(f))
            for _ in range(e):
                n = n / d
        return n

    def axioms(self):
        """axioms for every atom translated so far (iterates to closure, bounded)"""
        for _ in range(3):
            todo = [k for k in list(self.vars) if k not in self.done]
            if not todo:
                break
            for k in todo:
                self.done.add(k)
                self.atom_axioms(k)
        ks = list(self.vars)
        # monotonicity
        by = {}
        for k in ks:
            a = ATOMS[k]
            if a[0] == "log":
                by.setdefault("log", []).append((k, Term(dict(a[1]))))
            elif a[0] == "E":
                by.setdefault("E", []).append((k, Term({a[1]: Fraction(1)}, a[2])))
            elif a[0] == "fn" and a[1] in FN_MONO:
                by.setdefault(a[1], []).append((k, from_key(a[2][0])))
        for name, lst in by.items():
            if len(lst) > 6:
                continue
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    (k1, t1), (k2, t2) = lst[i], lst[j]
                    d = self.term(t1) - self.term(t2)
                    x, y = self.var(k1), self.var(k2)
                    self.ax.append(z3.And(z3.Implies(d > 0, x > y), z3.Implies(d < 0, x < y), z3.Implies(d == 0, x == y)))
                    if name == "ndtr":  # ndtr(a) + ndtr(b) > 1 iff a + b > 0
                        d, x, y = self.term(t1) + self.term(t2), x, 1 - y
                        self.ax.append(z3.And(z3.Implies(d > 0, x > y), z3.Implies(d < 0, x < y), z3.Implies(d == 0, x == y)))
        # powers: sign(v^k u^a - u^k v^a) = sign((a-k)(u-v)) for k = 0, 1, 2
        pw = {}
        for k in ks:
            a = ATOMS[k]
            if a[0] != "E":
                continue
            logs = [(x, e) for x, e in a[1] if ATOMS[x][0] == "log"]
            if len(logs) == 1 and logs[0][1] == 1:
                rest = tuple((x, e) for x, e in a[1] if x != logs[0][0])
                pw.setdefault((rest, a[2]), []).append((k, logs[0][0]))
        for (rest, den), lst in pw.items():
            if len(lst) > 4:
                continue
            al = self.term(Term({rest: Fraction(1)}, den))
            for i in range(len(lst)):
                for j in range(i + 1, len(lst)):
                    (e1, g1), (e2, g2) = lst[i], lst[j]
                    u, v = self.poly(dict(ATOMS[g1][1])), self.poly(dict(ATOMS[g2][1]))
                    self.ax.append(z3.And(u > 0, v > 0))
                    x, y = self.var(e1), self.var(e2)
                    uk, vk = z3.RealVal(1), z3.RealVal(1)
                    for kk in (0, 1, 2):
                        d = vk * x - uk * y
                        self.ax.append(z3.And(z3.Implies(z3.Or(z3.And(al > kk, u > v), z3.And(al < kk, u < v)), d > 0), z3.Implies(z3.Or(z3.And(al > kk, u < v), z3.And(al < kk, u > v)), d < 0), z3.Implies(z3.Or(al == kk, u == v), d == 0)))
                        uk, vk = uk * u, vk * v
        # Cauchy-Schwarz: (sum f)^2 <= n sum f^2
        sums = [(k, ATOMS[k][1], from_key(ATOMS[k][2])) for k in ks if ATOMS[k][0] == "sum"]
        for k1, l1, b1 in sums:
            for k2, l2, b2 in sums:
                if l1 == l2 and k1 != k2 and mul(b1, b1) == b2:
                    n = T1
                    for l in l1:
                        n = mul(n, self.path.size_term(l))
                    n = self.poly(n.num)
                    self.ax.append(self.var(k1) * self.var(k1) <= n * self.var(k2))

    def atom_axioms(self, k):
        a = ATOMS[k]
        v = self.var(k)
        if a[0] in ALWAYS_POS:
            self.ax.append(v > 0)
        if a == ("c", "pi"):
            self.ax.append(z3.And(v > z3.RealVal("3.14159"), v < z3.RealVal("3.1416")))
        if a[0] == "p":
            self.ax.append(v == a[1])
        if a[0] == "P":
            self.ax.append(v == self.poly(dict(a[1])))
        if a[0] == "E":
            t = self.term(Term({a[1]: Fraction(1)}, a[2]))
            self.ax.append(z3.And(z3.Implies(t > 0, v > 1), z3.Implies(t < 0, v < 1), z3.Implies(t == 0, v == 1), v >= 1 + t))
        if a[0] == "log":
            p = self.poly(dict(a[1]))
            self.ax.append(p > 0)
            self.ax.append(z3.And(z3.Implies(p > 1, v > 0), z3.Implies(p < 1, v < 0), z3.Implies(p == 1, v == 0), v <= p - 1))
        if a[0] == "fn":
            r = FN_RANGE.get(a[1])
            if r:
                lo, hi, lop, hop = r
                if lo is not None:
                    self.ax.append(v > lo if lop else v >= lo)
                if hi is not None:
                    self.ax.append(v < hi if hop else v <= hi)
            f = FN_FACTS.get(a[1])
            if f:
                self.ax.extend(f(self, v, [from_key(x) if is_termkey(x) else x for x in a[2]]))
        if a[0] == "v" and a[1].startswith("#size"):
            self.ax.append(v >= 1)
        if a[0] == "v" and a[1] in VAR_SIGN:
            self.ax.append(op_expr(v, VAR_SIGN[a[1]]))
        if a[0] == "v" and a[1].startswith("#frac"):
            self.ax.append(z3.And(v >= 0, v <= 1))
        if a[0] == "v" and a[1].startswith("#tw"):
            self.ax.append(v > 0)
        if a[0] == "ind":
            p = self.poly(dict(a[2]))
            c = p >= 0 if a[1] == ">=" else p > 0
            self.ax.append(v == z3.If(c, z3.RealVal(1), z3.RealVal(0)))
        if a[0] in ("sum", "bind"):
            s = self.path.sum_sign(k)
            if s is not None:
                self.ax.append({">": v > 0, ">=": v >= 0, "<": v < 0, "<=": v <= 0}[s])


VAR_SIGN = {}
FN_FACTS = {}


def _ndtr_facts(ctx, v, args):
    t = ctx.term(args[0])
    h = z3.RealVal("1/2")
    return [z3.And(z3.Implies(t > 0, v > h), z3.Implies(t < 0, v < h), z3.Implies(t == 0, v == h))]


FN_FACTS["ndtr"] = _ndtr_facts
BIND_SIGN = {}
_QCACHE = {}

OPSIGN = {">": {1}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}, "<": {-1}, "<=": {-1, 0}}
SIGNOP = {frozenset(v): k for k, v in OPSIGN.items()}


def op_expr(e, signs):
    op = SIGNOP[frozenset(signs)]
    return {">": e > 0, ">=": e >= 0, "==": e == 0, "!=": e != 0, "<": e < 0, "<=": e <= 0}[op]


class Path:
    def __init__(self, prefix=()):
        self.ascending = set()
        self.open_loops, self.generic_loops, self.fork_check, self.comprehension = [], False, None, False
        self.sums = []
        self.interps = []
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []  # (choice, n_options)
        self.known = {}  # polykey -> frozenset of allowed signs
        self.order = []  # stack of polykeys for undo
        self.clauses = []  # list of list[(polykey, signs)] disjunctions
        self.exists = {}
        self.forall = {}  # lane -> list of clauses
        self.sizes = {}
        self.local = []  # stack of local explorers (lane, prefix, pos, trace, literals)
        self._sumsign = {}
        self.labels = []
        self.memo = [{}]
        self.choices = {}
        self.reduced, self.refresh, self.refreshing, self.refreshed = [], None, False, -1
        self.excluded = {}  # size -> list of literal sets known to be empty (lane renamed to size~*)
        self.fresh = 0
        self.universal = []  # assumed conditions over all elements: (node, dims)
        self.active = []  # lanes currently in scope
        self.instantiate = None  # set by sym: path.instantiate(new lanes)

    # -------------------------------------------------- sizes
    def size_term(self, lane):
        return V("#size_" + lane.split("~")[0].split("@")[0])

    # -------------------------------------------------- decisions
    def choose(self, n, label=None, lanes=()):
        """choose among n options (fork)"""
        for loc in reversed(self.local):
            if loc["lane"] in lanes:
                return self._choose(loc, n, label)
        if self.open_loops and n > 1:
            self.fork_check(self, lanes, label)
        d = dict(prefix=self.prefix, pos=self.pos, trace=self.trace)
        r = self._choose(d, n, label)
        self.pos = d["pos"]
        if label is not None:
            self.labels.append((label, r))
        return r

    @staticmethod
    def _choose(d, n, label):
        if d["pos"] < len(d["prefix"]):
            c = d["prefix"][d["pos"]]
        else:
            c = 0
        d["pos"] += 1
        d["trace"].append((c, n))
        return c

    # -------------------------------------------------- facts
    def add_fact(self, p, signs):
        """p: polynomial dict (primitive), signs: allowed set"""
        key = p_key(p)
        old = self.known.get(key)
        new = frozenset(signs) if old is None else old & frozenset(signs)
        if not new:
            raise Infeasible()
        if new != old:
            self.order.append((key, old))
            self.known[key] = new

    def mark(self):
        return len(self.order), len(self.clauses)

    def undo(self, mark):
        n, c = mark
        while len(self.order) > n:
            key, old = self.order.pop()
            if old is None:
                del self.known[key]
            else:
                self.known[key] = old
        del self.clauses[c:]

    # -------------------------------------------------- sign machinery
    def atom_sign(self, k):
        a = ATOMS[k]
        if a[0] in ALWAYS_POS:
            return frozenset({1})
        key = (((k, 1),), Fraction(1)),
        s = self.known.get(key)
        if a[0] == "ind":
            b = frozenset({0, 1})
        elif a[0] == "v" and a[1].startswith("#size"):
            b = frozenset({1})
        elif a[0] == "v" and a[1].startswith("#frac"):
            b = frozenset({0, 1})
        elif a[0] == "v" and a[1].startswith("#tw"):
            b = frozenset({1})
        elif a[0] == "v" and a[1] in VAR_SIGN:
            b = VAR_SIGN[a[1]]
        elif a[0] == "fn" and a[1] in FN_RANGE and FN_RANGE[a[1]][0] is not None and FN_RANGE[a[1]][0] >= 0:
            lo, hi, lop, hop = FN_RANGE[a[1]]
            b = frozenset({1}) if (lop or lo > 0) else frozenset({0, 1})
        elif a[0] in ("sum", "bind"):
            x = self.sum_sign(k)
            b = frozenset(OPSIGN[x]) if x else frozenset({-1, 0, 1})
        else:
            b = frozenset({-1, 0, 1})
        return b if s is None else (b & s)

    def mono_sign(self, m):
        s = {1}
        for k, e in m:
            a = self.atom_sign(k)
            if isinstance(e, Fraction):
                t = {abs(x) for x in a}
            elif e % 2 == 0:
                t = {abs(x) for x in a}
            else:
                t = set(a)
            if e < 0:
                t.discard(0)
            s = {x * y for x in s for y in t}
        return s

    def quick(self, p):
        """possible signs of a polynomial by monomial signs"""
        s = self.known.get(p_key(p))
        pos = neg = strict_pos = strict_neg = False
        for m, c in p.items():
            ms = self.mono_sign(m)
            if c < 0:
                ms = {-x for x in ms}
            if 1 in ms:
                pos = True
                if ms == {1}:
                    strict_pos = True
            if -1 in ms:
                neg = True
                if ms == {-1}:
                    strict_neg = True
        r = {-1, 0, 1}
        if not neg:
            r = {1} if strict_pos else {0, 1}
            if not pos:
                r = {0}
        elif not pos:
            r = {-1} if strict_neg else {-1, 0}
        r = frozenset(r)
        return r if s is None else (r & s)

    def sum_sign(self, k):
        """'>' / '>=' / ... for a sum or binder atom if the body has a definite sign"""
        if k in self._sumsign:
            return self._sumsign[k]
        self._sumsign[k] = None
        a = ATOMS[k]
        r = None
        if a[0] == "sum":
            body = from_key(a[2])
            mk_ = self.mark()
            try:
                if self.universal:
                    self.active.extend(a[1])
                    try:
                        self.instantiate(self, list(a[1]), simple=True)
                    finally:
                        del self.active[len(self.active) - len(a[1]):]
                ss = self.possible(body, fork=False, lanes_assume=a[1])
            except Infeasible:
                ss = frozenset({-1, 0, 1})
            finally:
                self.undo(mk_)
            if ss == {1}:
                r = ">"
            elif ss <= {0, 1}:
                r = ">="
            elif ss == {-1}:
                r = "<"
            elif ss <= {-1, 0}:
                r = "<="
        else:
            f = BIND_SIGN.get(a[1])
            if f:
                r = f(self, a)
        self._sumsign[k] = r
        return r

    def possible(self, t, fork=False, lanes_assume=None):
        """set of possible signs of a term without forking"""
        if not t.num:
            return frozenset({0})
        co, facs = factors(t)
        s = {1 if co > 0 else -1}
        for p, e in facs:
            ps = self.psigns(p)
            if isinstance(e, Fraction) or e % 2 == 0:
                ps = {abs(x) for x in ps}
            if e < 0:
                ps = set(ps) - {0}
            s = {x * y for x in s for y in ps}
        return frozenset(s)

    def pos_atom(self, k):
        s = self.atom_sign(k)
        if s == {1}:
            return True
        if 1 not in s:
            return False
        return self.z3_signs({((k, 1),): Fraction(1)}, s) == {1}

    def transform(self, p):
        """rewrite a two-monomial comparison into an easier equivalent Term with the same sign, or None"""
        if len(p) != 2:
            return None
        (m1, c1), (m2, c2) = sorted(p.items(), key=lambda x: -x[1])
        if not (c1 > 0 > c2):
            # sum of logs etc.
            return None
        # f(u) - f(v)
        if len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1 and c1 == -c2:
            a, b = ATOMS[m1[0][0]], ATOMS[m2[0][0]]
            if a[0] == "fn" and b[0] == "fn" and a[1] == b[1] and a[1] in FN_MONO:
                return from_key(a[2][0]) - from_key(b[2][0])
            if a[0] == "log" and b[0] == "log":
                return Term(dict(a[1])) - Term(dict(b[1]))
        kinds = {ATOMS[k][0] for m in (m1, m2) for k, e in m}
        if kinds & {"E", "P", "p"} and all(self.pos_atom(k) for m in (m1, m2) for k, _ in m):
            l1 = log_term(Term({m1: c1}), lambda q: 1)
            l2 = log_term(Term({m2: -c2}), lambda q: 1)
            return l1 - l2
        return None

    def psigns(self, p, depth=0):
        """possible signs of a primitive polynomial: quick, transform, z3"""
        if not p:
            return frozenset({0})
        if len(p) == 1 and ONE in p:
            return frozenset({1 if p[ONE] > 0 else -1})
        q = self.quick(p)
        if len(q) == 1:
            STATS["quick"] += 1
            return q
        # single log atom
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == "log" and depth < 4:
                inner = Term(dict(ATOMS[m[0][0]][1])) - T1
                s = self.possible_d(inner, depth + 1)
                if c < 0:
                    s = frozenset(-x for x in s)
                return q & s if q & s else s
        tr = self.transform(p) if depth < 4 else None
        if tr is not None:
            s = self.possible_d(tr, depth + 1)
            r = q & s
            if not r:
                raise Infeasible()
            if len(r) == 1:
                return r
            q = r
        return self.z3_signs(p, q)

    def possible_d(self, t, depth):
        if not t.num:
            return frozenset({0})
        co, facs = factors(t)
        s = {1 if co > 0 else -1}
        for p, e in facs:
            ps = self.psigns(p, depth)
            if isinstance(e, Fraction) or e % 2 == 0:
                ps = {abs(x) for x in ps}
            if e < 0:
                ps = set(ps) - {0}
            s = {x * y for x in s for y in ps}
        return frozenset(s)

    # -------------------------------------------------- z3
    def relevant(self, p):
        """facts connected to the atoms of p"""
        base = self.closure(p_atoms(p))
        facts = [(k, s) for k, s in self.known.items()]
        sel = []
        changed = True
        rest = list(facts)
        while changed:
            changed = False
            nr = []
            for k, s in rest:
                at = self.closure(p_atoms(dict(k)))
                if at & base:
                    sel.append((k, s))
                    if not at <= base:
                        base = base | at
                        changed = True
                else:
                    nr.append((k, s))
            rest = nr
        return sel

    _clos = {}

    def closure(self, ats):
        out = set()
        for k in ats:
            c = Path._clos.get(k)
            if c is None:
                c = {k}
                a = ATOMS[k]
                sub = set()
                if a[0] in ("P", "log"):
                    sub = p_atoms(dict(a[1]))
                elif a[0] == "E":
                    sub = Term({a[1]: Fraction(1)}, a[2]).atoms()
                elif a[0] == "ind":
                    sub = p_atoms(dict(a[2]))
                elif a[0] == "fn":
                    for x in a[2]:
                        if is_termkey(x):
                            sub |= from_key(x).atoms()
                if sub:
                    c |= self.closure(sub)
                c = frozenset(c)
                Path._clos[k] = c
            out |= c
        return out

    def z3_signs(self, p, cand):
        facts = self.relevant(p)
        key = (p_key(p), tuple(sorted((k, tuple(sorted(s))) for k, s in facts)), tuple(sorted(cand)), repr(self.clauses))
        if key in _QCACHE:
            STATS["cache"] += 1
            return _QCACHE[key]
        r = set()
        for s in sorted(cand):
            if self.check([(p, {s})], facts) != "unsat":
                r.add(s)
        if not r:
            raise Infeasible()
        r = frozenset(r)
        _QCACHE[key] = r
        return r

    def check(self, lits, facts=None, extra_terms=None, want_model=False):
        ctx = Z3Ctx(self)
        s = z3.Solver()
        s.set("timeout", Z3_TIMEOUT)
        if facts is None:
            facts = list(self.known.items())
        for k, sg in facts:
            if sg == {-1, 0, 1}:
                continue
            s.add(op_expr(ctx.poly(dict(k)), sg))
        for p, sg in lits:
            s.add(op_expr(ctx.poly(p), sg))
        for cl in self.clauses:
            s.add(z3.Or([op_expr(ctx.poly(dict(k)), sg) for k, sg in cl]))
        ctx.axioms()
        for a in ctx.ax:
            s.add(a)
        t0 = time.time()
        r = str(s.check())
        dt = time.time() - t0
        STATS["z3_calls"] += 1
        STATS["z3_time"] += dt
        STATS["z3_" + r] += 1
        if r == "unsat" and len(LOGGED) < LOG_LIMIT:
            LOGGED.append(s.to_smt2())
        if want_model:
            return r, (s.model() if r == "sat" else None), ctx
        return r

    # -------------------------------------------------- asking
    def ask(self, t, groups):
        """groups: list of disjoint sets of signs covering {-1,0,1}; returns index of the group t's sign is in.
        Forks if necessary and records the facts."""
        if not t.num:
            return next(i for i, g in enumerate(groups) if 0 in g)
        co, facs = factors(t)
        sgn = 1 if co > 0 else -1
        rest = []
        for p, e in facs:
            ps = self.psigns(p)
            ev = isinstance(e, Fraction) or e % 2 == 0
            eff = {abs(x) for x in ps} if ev else set(ps)
            if e < 0:
                eff.discard(0)
            if eff == {0}:
                return next(i for i, g in enumerate(groups) if 0 in g)
            if eff == {1}:
                continue
            if eff == {-1}:
                sgn = -sgn
                continue
            rest.append((p, e, ev, ps))
        poss = {sgn}
        for p, e, ev, ps in rest:
            eff = {abs(x) for x in ps} if ev else set(ps)
            if e < 0:
                eff = eff - {0}
            poss = {a * b for a in poss for b in eff}
        hit = [i for i, g in enumerate(groups) if g & poss]
        if len(hit) == 1:
            return hit[0]
        if self.reduced and any(ATOMS[k][0] == "sum" for r in rest for k in p_atoms(r[0])) and self.refresh(self):
            return self.ask(t, groups)
        if len(rest) == 1:
            p, e, ev, ps = rest[0]
            # map groups to signs of p
            gp = []
            for g in groups:
                sg = set()
                for s in ps:
                    if e < 0 and s == 0:
                        continue
                    x = abs(s) if ev else s
                    if sgn * x in g:
                        sg.add(s)
                gp.append(sg)
            opts = [i for i, sg in enumerate(gp) if sg]
            lanes = poly_lanes(p)
            c = self.choose(len(opts), label=(p_key(p), tuple(sorted(map(tuple, map(sorted, [gp[i] for i in opts]))))), lanes=lanes)
            i = opts[c]
            self.literal(p, gp[i], lanes)
            return i
        # several factors of unknown sign: settle them one by one
        total = sgn
        for p, e, ev, ps in rest:
            ps = self.psigns(p)
            if e < 0:
                ps = frozenset(ps) - {0}
            opts = sorted(ps)
            if ev:
                opts2 = [g for g in (set(ps) & {0}, set(ps) & {-1, 1}) if g]
            else:
                opts2 = [{x} for x in opts]
            if len(opts2) > 1:
                lanes = poly_lanes(p)
                c = self.choose(len(opts2), label=(p_key(p), "sign"), lanes=lanes)
                self.literal(p, opts2[c], lanes)
                ch = opts2[c]
            else:
                ch = opts2[0]
            v = next(iter(ch))
            total *= abs(v) if ev else v
        return next(i for i, g in enumerate(groups) if total in g)

    def literal(self, p, signs, lanes):
        self.add_fact(p, signs)
        for loc in reversed(self.local):
            if loc["lane"] in lanes:
                loc["literals"].append((p_key(p), frozenset(signs)))
                return

    def assert_sign(self, t, signs, simple=False):
        """assume sign(t) in signs (no fork where avoidable)"""
        if not t.num:
            if 0 not in signs:
                raise Infeasible()
            return
        co, facs = factors(t)
        sgn = 1 if co > 0 else -1
        rest = []
        for p, e in facs:
            ps = self.psigns(p) if not simple else self.quick(p)
            ev = isinstance(e, Fraction) or e % 2 == 0
            eff = {abs(x) for x in ps} if ev else set(ps)
            if e < 0:
                eff.discard(0)
            if len(eff) == 1:
                sgn *= next(iter(eff))
                continue
            rest.append((p, e, ev, ps))
        if not rest:
            if sgn not in signs:
                raise Infeasible()
            return
        if len(rest) == 1:
            p, e, ev, ps = rest[0]
            ok = {s for s in ps if not (e < 0 and s == 0) and sgn * (abs(s) if ev else s) in signs}
            if not ok:
                raise Infeasible()
            self.add_fact(p, ok)
            return
        if simple:
            return
        if self.ask(t, [set(signs), {-1, 0, 1} - set(signs)]) != 0:
            raise Infeasible()

    def sign(self, t):
        return self.ask(t, [{-1}, {0}, {1}]) - 1

    def is_zero(self, t):
        return self.ask(t, [{0}, {-1, 1}]) == 0

    def positive(self, t):
        return self.ask(t, [{1}, {-1, 0}]) == 0

    def psign_decide(self, p):
        s = self.sign(Term(dict(p)))
        return s

    # -------------------------------------------------- local enumeration over a bound lane
    def enumerate(self, lane, fn, limit=64):
        """run fn() for all cases of the bound lane; -> list of (literals, value)"""
        out = []
        stack = [[]]
        while stack:
            pre = stack.pop()
            loc = dict(lane=lane, prefix=pre, pos=0, trace=[], literals=[])
            mk_ = self.mark_local()
            self.local.append(loc)
            self.memo.append({})
            self.active.append(lane)
            try:
                try:
                    if self.universal:
                        self.instantiate(self, [lane])
                    v = fn()
                    out.append((tuple(loc["literals"]), v))
                except Infeasible:
                    pass
            finally:
                self.local.pop()
                self.memo.pop()
                self.active.pop()
                self.undo_local(mk_, lane)
            tr = loc["trace"]
            for i in range(len(tr) - 1, len(pre) - 1, -1):
                c, n = tr[i]
                for alt in range(c + 1, n):
                    stack.append([x for x, _ in tr[:i]] + [alt])
            if len(out) > limit:
                raise PathLimit("too many cases over lane %s" % lane)
        return out

    def mark_local(self):
        return len(self.order), len(self.clauses)

    def undo_local(self, mark, lane):
        """undo facts that mention the lane; keep the outer ones"""
        n, c = mark
        keep = []
        while len(self.order) > n:
            key, old = self.order.pop()
            cur = self.known.get(key)
            if lane in poly_lanes(dict(key)):
                if old is None:
                    self.known.pop(key, None)
                else:
                    self.known[key] = old
            else:
                keep.append((key, old))
        for x in reversed(keep):
            self.order.append(x)
        del self.clauses[c:]
        # sum signs computed under local facts may be too strong
        self._sumsign = {k: v for k, v in self._sumsign.items() if lane not in atom_lanes(k)}


def ind_term(pkey, signs):
    """indicator of sign(p) in signs as a Term"""
    p = dict(pkey)
    op = SIGNOP[frozenset(signs)] if frozenset(signs) in SIGNOP else None
    if op is None:
        return T1
    lead = max(p)
    if p[lead] < 0:
        p = {m: -c for m, c in p.items()}
        op = {">": "<", "<": ">", ">=": "<=", "<=": ">=", "==": "==", "!=": "!="}[op]
    k = p_key(p)
    ge = A(("ind", ">=", k))
    gt = A(("ind", ">", k))
    return {">": gt, ">=": ge, "<": T1 - ge, "<=": T1 - gt, "==": ge - gt, "!=": T1 - ge + gt}[op]


def explore(run, limit=400, deadline=None):
    """run(path) for every feasible path; yields (path, result)"""
    stack = [[]]
    n = 0
    while stack:
        if deadline and time.time() > deadline:
            raise PathLimit("time")
        pre = stack.pop()
        path = Path(pre)
        try:
            res = run(path)
            yield path, res
        except Infeasible:
            pass
        tr = path.trace
        for i in range(len(tr) - 1, len(pre) - 1, -1):
            c, k = tr[i]
            for alt in range(c + 1, k):
                stack.append([x for x, _ in tr[:i]] + [alt])
        n += 1
        if n > limit:
            raise PathLimit("more than %d paths" % limit)
