"""Canonical real terms: rational functions over interned atoms.

A Term is num/den.  num is a sparse polynomial whose monomials may carry
rational (also negative) exponents of *atoms*; den is a product of irreducible,
multi-term, primitive polynomials.  Equality of canonical terms is structural,
so `a == b` proves equality of the real expressions they denote (for all values
of the atoms for which both are defined).

Atom kinds (tuples, interned in ATOMS):
  ('v', name, idx)          variable / array element
  ('c', name)               named constant (pi)
  ('p', n)                  prime n, only used with fractional exponents
  ('P', polykey)            positive polynomial, only with exponent in (0,1)
  ('E', mono, den)          exp(mono/den)           always > 0
  ('log', polykey)          log of a positive irreducible polynomial
  ('fn', name, args)        application of a (contracted) function
  ('ind', op, polykey)      indicator [poly op 0], op in {'>=', '>'}
  ('sum', lane, termkey)    sum over a lane
  ('bind', name, lane, ...) other binders (interpolants)
"""
from fractions import Fraction
from functools import lru_cache
import math

import sympy
from sympy.polys.rings import ring
from sympy import QQ

ATOMS = []
_INDEX = {}


def atom(key):
    i = _INDEX.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        _INDEX[key] = i
    return i


def norm_exp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return e.numerator
    return e


ONE = ()  # monomial 1

# ---------------------------------------------------------------- monomials


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        s = d.get(k, 0) + e
        if s == 0:
            d.pop(k, None)
        else:
            d[k] = norm_exp(s)
    for k in list(d):
        if ATOMS[k][0] == "ind" and d[k] != 1:
            # indicators are idempotent (negative powers never occur)
            d[k] = 1
    return tuple(sorted(d.items()))


def mono_pow(m, e):
    return tuple((k, norm_exp(x * e)) for k, x in m) if e != 0 else ONE


# ---------------------------------------------------------------- polynomials
# dict mono -> Fraction (non-zero)


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_mul(a, b):
    r = {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 40000:
        raise TooBig("polynomial product of %d x %d terms" % (len(a), len(b)))
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return fix_frac(r)


class TooBig(Exception):
    pass


def fix_frac(p):
    """('p',n) and ('P',key) atoms keep exponents in (0,1); fold the rest."""
    bad = [m for m in p if any(ATOMS[k][0] in "pP" and not (0 < e < 1) for k, e in m)]
    if not bad:
        return p
    out = {m: c for m, c in p.items() if m not in set(bad)}
    for m in bad:
        c = p[m]
        rest = []
        extra = {ONE: Fraction(1)}
        neg = False
        for k, e in m:
            kind = ATOMS[k][0]
            if kind in "pP" and not (0 < e < 1):
                n = math.floor(e)
                f = e - n
                if f:
                    rest.append((k, norm_exp(Fraction(f))))
                if kind == "p":
                    c = c * Fraction(ATOMS[k][1]) ** n
                else:
                    if n < 0:
                        # keep as negative power of P: P^-e = P^(1-e) / p, not polynomial;
                        # leave it: callers handle through Term.
                        rest = [x for x in rest if x[0] != k] + [(k, e)]
                    else:
                        for _ in range(n):
                            extra = p_mul(extra, dict(ATOMS[k][1]))
            else:
                rest.append((k, e))
        base = {tuple(sorted(rest)): c}
        out = p_add(out, _raw_mul(base, extra))
    return out


def _raw_mul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def p_atoms(p):
    s = set()
    for m in p:
        for k, _ in m:
            s.add(k)
    return s


def content(p):
    """Split p = coef * mono * q with q primitive, no common monomial, positive leading coef."""
    if not p:
        return Fraction(0), ONE, {}
    items = list(p.items())
    # monomial content: min exponent of each atom
    mins = {}
    for i, (m, _) in enumerate(items):
        d = dict(m)
        if i == 0:
            mins = dict(d)
        for k in list(mins):
            mins[k] = min(mins[k], d.get(k, 0))
        for k in d:
            if k not in mins:
                mins[k] = min(0, d[k])
    mono = tuple(sorted((k, e) for k, e in mins.items() if e != 0 and ATOMS[k][0] != "ind" or (ATOMS[k][0] == "ind" and e > 0)))
    # indicator atoms: dividing an idempotent atom out is fine (i * q, q without i)
    inv = tuple((k, -e) for k, e in mono)
    q = {}
    for m, c in items:
        d = dict(m)
        for k, e in mono:
            s = d.get(k, 0) - e
            if s == 0:
                d.pop(k, None)
            else:
                d[k] = norm_exp(s)
        mm = tuple(sorted(d.items()))
        q[mm] = q.get(mm, 0) + c
    g = None
    l = 1
    for c in q.values():
        c = Fraction(c)
        g = abs(c.numerator) if g is None else math.gcd(g, abs(c.numerator))
        l = l * c.denominator // math.gcd(l, c.denominator)
    co = Fraction(g, l)
    lead = max(q)
    if q[lead] < 0:
        co = -co
    q = {m: c / co for m, c in q.items()}
    return co, mono, q


_FACT = {}


def factor_poly(q):
    """q primitive, no monomial content -> list of (polykey, exp) irreducible + coefficient."""
    if len(q) == 1 and ONE in q:
        return q[ONE], []
    key = p_key(q)
    r = _FACT.get(key)
    if r is not None:
        return r
    ats = sorted(p_atoms(q))
    if len(q) > 400:
        r = (Fraction(1), [(key, 1)])
        _FACT[key] = r
        return r
    # make exponents non-negative integers
    scale = {}
    low = {}
    for a in ats:
        den = 1
        mn = 0
        for m in q:
            e = dict(m).get(a, 0)
            den = den * Fraction(e).denominator // math.gcd(den, Fraction(e).denominator)
            mn = min(mn, e)
        scale[a] = den
        low[a] = mn
    R, *gens = ring(["x%d" % a for a in ats], QQ)
    pos = {a: i for i, a in enumerate(ats)}
    d = {}
    for m, c in q.items():
        ex = [0] * len(ats)
        dm = dict(m)
        for a in ats:
            ex[pos[a]] = int((Fraction(dm.get(a, 0)) - low[a]) * scale[a])
        d[tuple(ex)] = QQ(Fraction(c).numerator, Fraction(c).denominator)
    P = R.from_dict(d)
    try:
        co, facs = P.factor_list()
    except Exception:
        r = (Fraction(1), [(key, 1)])
        _FACT[key] = r
        return r
    coef = Fraction(int(co.numerator), int(co.denominator))
    out = []
    for f, e in facs:
        p = {}
        for ex, c in f.terms():
            m = tuple(sorted((ats[i], norm_exp(Fraction(x, scale[ats[i]]))) for i, x in enumerate(ex) if x))
            p[m] = Fraction(int(c.numerator), int(c.denominator))
        c2, m2, p2 = content(p)
        coef *= c2 ** e
        # p2 could have become a monomial (cannot, factor irreducible with >1 terms) or single atom
        if len(p2) == 1 and ONE in p2:
            # f was a monomial: atom power
            out.append((p_key({m2: Fraction(1)}), e))
        else:
            if m2:
                out.append((p_key({m2: Fraction(1)}), e))
            out.append((p_key(p2), e))
    # restore the lowered exponents
    lows = tuple(sorted((a, low[a]) for a in ats if low[a]))
    if lows:
        out.append((p_key({lows: Fraction(1)}), 1))
    merged = {}
    for k, e in out:
        merged[k] = merged.get(k, 0) + e
    r = (coef, sorted(merged.items()))
    _FACT[key] = r
    return r


_DIV = {}


def exact_div(p, fkey):
    """p / f if exact else None (f multi-term irreducible)."""
    f = dict(fkey)
    fa = p_atoms(f)
    if not fa <= p_atoms(p):
        return None
    key = (p_key(p), fkey)
    if key in _DIV:
        return _DIV[key]
    co, mono, q = content(p)
    ats = sorted(p_atoms(q) | fa)
    scale = {}
    lowq = {}
    for a in ats:
        den = 1
        for m in list(q) + list(f):
            e = Fraction(dict(m).get(a, 0))
            den = den * e.denominator // math.gcd(den, e.denominator)
        scale[a] = den
        lowq[a] = min([dict(m).get(a, 0) for m in q] + [0])
    if any(dict(m).get(a, 0) < 0 for m in f for a in ats):
        _DIV[key] = None
        return None
    R, *gens = ring(["x%d" % a for a in ats], QQ)

    def conv(pp, low):
        d = {}
        for m, c in pp.items():
            dm = dict(m)
            ex = tuple(int((Fraction(dm.get(a, 0)) - low.get(a, 0)) * scale[a]) for a in ats)
            c = Fraction(c)
            d[ex] = QQ(c.numerator, c.denominator)
        return R.from_dict(d)

    A = conv(q, lowq)
    B = conv(f, {})
    Q, Rm = A.div([B])
    Q = Q[0]
    if Rm != 0:
        _DIV[key] = None
        return None
    out = {}
    for ex, c in Q.terms():
        m = tuple(sorted((ats[i], norm_exp(Fraction(x, scale[ats[i]]) + lowq[ats[i]])) for i, x in enumerate(ex) if Fraction(x, scale[ats[i]]) + lowq[ats[i]] != 0))
        out[m] = Fraction(int(c.numerator), int(c.denominator))
    out = _raw_mul({mono: co}, out)
    _DIV[key] = out
    return out


# ---------------------------------------------------------------- terms


class Term:
    __slots__ = ("num", "den", "_key")

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = (p_key(self.num), self.den)
        return self._key

    def __eq__(self, o):
        return isinstance(o, Term) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def is_zero(self):
        return not self.num

    def const(self):
        """Fraction if constant else None"""
        if self.den:
            return None
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and ONE in self.num:
            return self.num[ONE]
        return None

    def atoms(self):
        s = p_atoms(self.num)
        for f, _ in self.den:
            s |= p_atoms(dict(f))
        return s

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return add(self, o)

    def __sub__(self, o):
        return add(self, neg(o))

    def __mul__(self, o):
        return mul(self, o)

    def __neg__(self):
        return neg(self)


def from_key(k):
    return Term(dict(k[0]), k[1])


def C(x):
    x = Fraction(x)
    return Term({ONE: x}) if x else Term({})


ZERO = Term({})
T1 = Term({ONE: Fraction(1)})


def A(key):
    return Term({((atom(key), 1),): Fraction(1)})


def V(name, idx=()):
    return A(("v", name, tuple(idx)))


PI = A(("c", "pi"))


def mk(num, den):
    """normalise: cancel den factors into num"""
    if not num:
        return ZERO
    num = fix_frac(num)
    negP = [m for m in num if any(ATOMS[k][0] == "P" and e < 0 for k, e in m)]
    if negP:
        r = Term({m: c for m, c in num.items() if m not in set(negP)})
        for m in negP:
            t = Term({tuple((k, e) for k, e in m if ATOMS[k][0] != "P" or e > 0): num[m]})
            for k, e in m:
                if ATOMS[k][0] == "P" and e < 0:
                    t = mul(t, pow_pos_poly(dict(ATOMS[k][1]), e))
            r = add(r, t)
        for f, e in den:
            r = mul(r, powi(inv(Term(dict(f))), e))
        return r
    if den:
        nd = []
        for f, e in den:
            while e > 0:
                q = exact_div(num, f)
                if q is None:
                    break
                num = q
                e -= 1
            if e:
                nd.append((f, e))
        den = tuple(sorted(nd))
    return Term(num, den)


def neg(a):
    return Term({m: -c for m, c in a.num.items()}, a.den)


def add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        return mk(p_add(a.num, b.num), a.den)
    da, db = dict(a.den), dict(b.den)
    na, nb = a.num, b.num
    den = {}
    for f in set(da) | set(db):
        e = max(da.get(f, 0), db.get(f, 0))
        den[f] = e
        for _ in range(e - da.get(f, 0)):
            na = p_mul(na, dict(f))
        for _ in range(e - db.get(f, 0)):
            nb = p_mul(nb, dict(f))
    return mk(p_add(na, nb), tuple(sorted(den.items())))


def mul(a, b):
    if not a.num or not b.num:
        return ZERO
    den = dict(a.den)
    for f, e in b.den:
        den[f] = den.get(f, 0) + e
    # cancel before multiplying
    na, nb = a.num, b.num
    if den:
        for f in list(den):
            while den[f] > 0:
                q = exact_div(na, f)
                if q is not None:
                    na = q
                    den[f] -= 1
                    continue
                q = exact_div(nb, f)
                if q is not None:
                    nb = q
                    den[f] -= 1
                    continue
                break
            if not den[f]:
                del den[f]
    return mk(p_mul(na, nb), tuple(sorted(den.items())))


def inv(a):
    """1/a (a assumed non-zero)."""
    if not a.num:
        raise ZeroDivisionError
    co, mono, q = content(a.num)
    num = {tuple((k, -e) for k, e in mono): 1 / co}
    den = {}
    if not (len(q) == 1 and ONE in q):
        c2, facs = factor_poly(q)
        num = {m: c / c2 for m, c in num.items()}
        for f, e in facs:
            fd = dict(f)
            if len(fd) == 1:
                (m, c), = fd.items()
                num = _raw_mul(num, {mono_pow(m, -e): Fraction(1)})
            else:
                den[f] = den.get(f, 0) + e
    for f, e in a.den:
        for _ in range(e):
            num = p_mul(num, dict(f))
    return mk(num, tuple(sorted(den.items())))


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    if n == 0:
        return T1
    if n < 0:
        return powi(inv(a), -n)
    if len(a.num) == 1 and not a.den:
        (m, c), = a.num.items()
        if all(ATOMS[k][0] not in ("ind",) for k, _ in m):
            if n > 4096 and c not in (1, -1):
                raise TooBig("power %d" % n)
            return mk({mono_pow(m, n): c ** n}, ())
    if n > 64:
        raise TooBig("power %d" % n)
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def factors(t):
    """t = coef * prod(poly_i^e_i); polys returned as dicts (single atoms or irreducible)."""
    co, mono, q = content(t.num)
    out = []
    for k, e in mono:
        out.append(({((k, 1),): Fraction(1)}, e))
    if not (len(q) == 1 and ONE in q):
        c2, facs = factor_poly(q)
        co *= c2
        for f, e in facs:
            fd = dict(f)
            if len(fd) == 1:
                (m, c), = fd.items()
                for k, x in m:
                    out.append(({((k, 1),): Fraction(1)}, x * e))
            else:
                out.append((fd, e))
    for f, e in t.den:
        out.append((dict(f), -e))
    return co, out


def exp_term(t):
    """exp(t) as a Term."""
    if not t.num:
        return T1
    res_mono = {}
    res = T1
    for m, c in t.num.items():
        # c * Log(p) ?
        if not t.den and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == "log":
            p = dict(ATOMS[m[0][0]][1])
            res = mul(res, pow_pos_poly(p, c))
            continue
        k = atom(("E", m, t.den))
        res_mono[k] = norm_exp(res_mono.get(k, 0) + c)
    mono = tuple(sorted((k, e) for k, e in res_mono.items() if e != 0))
    return mul(res, Term({mono: Fraction(1)}))


def pow_pos_poly(p, c):
    """p^c with p a positive polynomial (dict), c Fraction"""
    c = Fraction(c)
    if len(p) == 1:
        (m, co), = p.items()
        if m == ONE:
            return const_pow(co, c)
        return mul(const_pow(co, c), mk({mono_pow(m, c): Fraction(1)}, ()))
    n = math.floor(c)
    f = c - n
    r = T1
    if n > 0:
        r = powi(Term(dict(p)), n)
    elif n < 0:
        r = powi(inv(Term(dict(p))), -n)
    if f:
        r = mul(r, Term({((atom(("P", p_key(p))), f),): Fraction(1)}))
    return r


def const_pow(co, c):
    co = Fraction(co)
    c = Fraction(c)
    if c.denominator == 1:
        return C(co ** int(c))
    r = T1
    for base, s in ((co.numerator, 1), (co.denominator, -1)):
        for pr, e in sympy.factorint(base).items():
            x = c * s * e
            n = math.floor(x)
            f = x - n
            r = mul(r, C(Fraction(pr) ** n))
            if f:
                r = mul(r, Term({((atom(("p", int(pr))), f),): Fraction(1)}))
    return r


def log_const(co):
    """log of a positive rational"""
    co = Fraction(co)
    r = ZERO
    for base, s in ((co.numerator, 1), (co.denominator, -1)):
        if base > 10 ** 12:
            # do not factor huge numbers
            r = add(r, mul(C(s), A(("log", p_key({ONE: Fraction(base)})))))
            continue
        for pr, e in sympy.factorint(base).items():
            r = add(r, mul(C(s * e), A(("log", p_key({ONE: Fraction(int(pr))})))))
    return r


def log_term(t, sign):
    """log(t) for t>0; sign(polydict)->+1/-1 gives the (decided) sign of a factor."""
    co, facs = factors(t)
    r = ZERO
    for p, e in facs:
        if len(p) == 1:
            (m, c), = p.items()
            k = m[0][0]
            kind = ATOMS[k]
            if kind[0] == "E":
                r = add(r, mul(C(e), Term({kind[1]: Fraction(1)}, kind[2])))
                continue
            if kind[0] == "p":
                r = add(r, mul(C(e), log_const(kind[1])))
                continue
            if kind[0] == "P":
                r = add(r, mul(C(e), A(("log", kind[1]))))
                continue
        s = sign(p)
        if s < 0:
            p = {m: -c for m, c in p.items()}
            if Fraction(e).denominator == 1 and e % 2:
                co = -co
        r = add(r, mul(C(e), A(("log", p_key(p)))))
    assert co > 0, "log of a negative term"
    return add(r, log_const(co))


# ---------------------------------------------------------------- printing


def show_atom(k):
    a = ATOMS[k]
    if a[0] == "v":
        return a[1] + ("[" + ",".join(map(str, [show_idx(i) for i in a[2]])) + "]" if a[2] else "")
    if a[0] == "c":
        return a[1]
    if a[0] == "p":
        return str(a[1])
    if a[0] == "P":
        return "(" + show_poly(dict(a[1])) + ")"
    if a[0] == "E":
        return "exp(" + show(Term({a[1]: Fraction(1)}, a[2])) + ")"
    if a[0] == "log":
        return "log(" + show_poly(dict(a[1])) + ")"
    if a[0] == "fn":
        return a[1] + "(" + ", ".join(show(from_key(x)) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) else str(x) for x in a[2]) + ")"
    if a[0] == "ind":
        return "[" + show_poly(dict(a[2])) + a[1] + "0]"
    if a[0] == "sum":
        return "Sum_" + str(a[1]) + "(" + show(from_key(a[2])) + ")"
    return str(a)


def show_idx(i):
    return i[1] if isinstance(i, tuple) and i and i[0] == "L" else i


def show_poly(p):
    out = []
    for m, c in sorted(p.items()):
        s = "*".join(show_atom(k) + ("" if e == 1 else "^%s" % e) for k, e in m)
        out.append((str(c) + ("*" + s if s else "")) if c != 1 or not s else s)
    return " + ".join(out) or "0"


def show(t):
    s = show_poly(t.num)
    if t.den:
        s = "(" + s + ")/(" + " * ".join("(%s)^%s" % (show_poly(dict(f)), e) for f, e in t.den) + ")"
    return s if len(s) < 2000 else s[:2000] + "..."


# ---------------------------------------------------------------- traversal


def _map_key(x, f):
    """apply the term transformer f inside a nested key (term keys, lanes)"""
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "T":
        return ("T", f(from_key(x[1])).key)
    if looks_termkey(x):
        return f(from_key(x)).key
    return x


def looks_termkey(x):
    return (
        isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], tuple)
        and (not x[0] or (isinstance(x[0][0], tuple) and len(x[0][0]) == 2 and isinstance(x[0][0][0], tuple)))
    )


class Mapper:
    """rebuild terms bottom-up with a replacement for some atoms"""

    def __init__(self, atom_fn, lane_fn=None, log_sign=None):
        self.atom_fn = atom_fn  # key tuple -> Term or None
        self.lane_fn = lane_fn or (lambda l: l)
        self.log_sign = log_sign or (lambda p: 1)
        self.memo = {}

    def term(self, t):
        r = self.poly(t.num)
        for f, e in t.den:
            r = mul(r, powi(inv(self.poly(dict(f))), e))
        return r

    def poly(self, p):
        r = ZERO
        for m, c in p.items():
            x = C(c)
            for k, e in m:
                a = self.atom(k)
                if a.num == {((k, 1),): 1} and not a.den:
                    x = mul(x, Term({((k, e),): Fraction(1)}))
                elif isinstance(e, int):
                    x = mul(x, powi(a, e))
                else:
                    x = mul(x, exp_term(mul(C(e), log_term(a, self.log_sign))))
            r = add(r, x)
        return r

    def idx(self, i):
        if isinstance(i, tuple) and i and i[0] == "L":
            return ("L", self.lane_fn(i[1]))
        if isinstance(i, tuple) and i and i[0] == "T":
            return ("T", self.term(from_key(i[1])).key)
        return i

    def atom(self, k):
        r = self.memo.get(k)
        if r is None:
            r = self._atom(k)
            self.memo[k] = r
        return r

    def _atom(self, k):
        a = ATOMS[k]
        r = self.atom_fn(a)
        if r is not None:
            return r
        if a[0] == "v":
            return A(("v", a[1], tuple(self.idx(i) for i in a[2])))
        if a[0] in ("c", "p"):
            return A(a)
        if a[0] == "P":
            q = self.poly(dict(a[1]))
            if not q.den and p_key(q.num) == a[1]:
                return A(a)
            raise NotImplementedError("P atom under substitution")
        if a[0] == "E":
            return exp_term(self.term(Term({a[1]: Fraction(1)}, a[2])))
        if a[0] == "log":
            return log_term(self.poly(dict(a[1])), self.log_sign)
        if a[0] == "fn":
            return A(("fn", a[1], tuple(self.key(x) for x in a[2])))
        if a[0] == "ind":
            q = self.poly(dict(a[2]))
            c = q.const()
            if c is not None:
                return T1 if (c >= 0 if a[1] == ">=" else c > 0) else ZERO
            if q.den:
                raise NotImplementedError("ind of a rational function")
            co, mono, qq = content(q.num)
            if mono:
                qq = q.num
                if max(qq) and qq[max(qq)] < 0:
                    co = -1
                else:
                    co = 1
                if co < 0:
                    qq = {m: -c for m, c in qq.items()}
            if co > 0:
                return A(("ind", a[1], p_key(qq)))
            return add(T1, neg(A(("ind", ">" if a[1] == ">=" else ">=", p_key(qq)))))
        if a[0] == "sum":
            return A(("sum", tuple(sorted(self.lane_fn(l) for l in a[1])), self.term(from_key(a[2])).key))
        if a[0] == "bind":
            return A(("bind", a[1], self.lane_fn(a[2]), tuple(self.key(x) for x in a[3]), tuple(self.key(x) for x in a[4])))
        raise AssertionError(a)

    def key(self, x):
        if looks_termkey(x):
            return self.term(from_key(x)).key
        return self.idx(x)


def rename_lane(t, old, new):
    return Mapper(lambda a: None, lambda l: new if l == old else l).term(t)
