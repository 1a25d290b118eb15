"""Loops over sequences of symbolic length: the rule for a generic iteration.

`for x in seq` over a GenericSeq of size N executes the real body once, for an arbitrary element (index token t, 0 <= t < N).
Before the body, every local number or array that the loop assigns (found in the byte code) is replaced by an unknown value;
after it, its value must be a recurrence whose closed form is known:

  x = x + e(t)              ->  x0 + Sum_t e(t)
  x = min(x, e(t))          ->  min(x0, Min_t e(t))            (sizes only)
  a[t] = e(t), a.at[t].set  ->  the array with element t equal to e(t), for every t
  list.append(e(t))         ->  the family e(0) ... e(N-1)
  d["..t.."] = e(t)         ->  one entry per t (the name contains the token)

Anything else a loop changes, and any decision inside the body that depends on t or on a value carried from one
iteration to the next, is outside the rule (Unsupported).  A local assigned in the loop is unusable after it.
"""
import ctypes
import dis
import sys

from . import sym
from .sym import CTX, F, Node, SymArr, SymInt, Unsupported, V, C, lift, elem

_seen = {}


class GenIdx(SymArr):
    """the index of the generic iteration"""

    def __init__(self, size, lane):
        SymArr.__init__(self, Node("laneidx", (), (), lane), py=True)
        self.size_name, self.lane = size, lane

    def __format__(self, spec):
        return "<%s>" % self.size_name

    __str__ = __repr__ = lambda self: "<%s>" % self.size_name
    __hash__ = object.__hash__


def _laneidx(n, idx):
    i = n.x
    if isinstance(i, int):
        return F(C(i))
    if isinstance(i, str):
        i = ("L", i)
    if i[0] == "T":
        return F(sym.T.from_key(i[1]))
    return F(V("#idx_" + i[1].split("@")[0].split("~")[0], (i,)))


def subst(node, lane, i, memo=None):
    """node with the generic index `lane` replaced by index i (int, ('L', lane) or ('T', term))"""
    memo = {} if memo is None else memo
    r = memo.get(node.id)
    if r is not None:
        return r
    key = (node.id, lane, i)
    r = _seen.get(key)
    if r is None or r[0] is not node:
        args = tuple(subst(a, lane, i, memo) if isinstance(a, Node) else a for a in node.args)
        x = node.x
        if node.op == "view":
            x = tuple(("k", i) if m == ("k", ("L", lane)) else m for m in x)
        elif node.op == "laneidx" and x in (lane, ("L", lane)):
            x = i
        if all(a is b for a, b in zip(args, node.args)) and x == node.x:
            out = node
        else:
            out = Node(node.op, args, node.dims, x, node.isbool)
        if len(_seen) > 200000:
            _seen.clear()
        _seen[key] = r = (node, out)
    memo[node.id] = r[1]
    return r[1]


def free_lanes(node, memo=None):
    """index tokens of finished or open loops the value of node depends on"""
    memo = {} if memo is None else memo
    r = memo.get(node.id)
    if r is not None:
        return r
    r = set()
    for a in node.args:
        if isinstance(a, Node):
            r |= free_lanes(a, memo)
    if node.op == "view":
        r |= {m[1][1] for m in node.x if m[0] == "k" and isinstance(m[1], tuple) and m[1][0] == "L" and "@t" in m[1][1]}
    elif node.op == "laneidx" and isinstance(node.x, str):
        r.add(node.x)
    elif node.op == "family":
        r -= {node.x}
    memo[node.id] = r
    return r


def _family(n, idx):
    return sym.ev(subst(n.args[0], n.x, idx[0]), idx[1:])


def mentions(node, target, memo=None):
    memo = set() if memo is None else memo
    if node is target:
        return True
    if node.id in memo:
        return False
    memo.add(node.id)
    return any(mentions(a, target, memo) for a in node.args if isinstance(a, Node))


def family(v, lane=None):
    """the array over all iterations of a value computed in a generic iteration"""
    n = lift(v).node
    free = free_lanes(n)
    if lane is None:
        if len(free) != 1:
            raise Unsupported("value of the generic iterations %s" % sorted(free))
        lane = next(iter(free))
    return SymArr(Node("family", (n,), (sym.lane_size(lane),) + n.dims, lane, n.isbool), scalar=False)


class Family:
    """what the iterations of a loop appended to a list"""

    def __init__(self, lane, items):
        self.lane, self.items = lane, items

    def array(self):
        if len(self.items) != 1:
            raise Unsupported("several appends per iteration")
        return family(self.items[0], self.lane)


    def generic_value(self):
        raise Unsupported("list extended in a loop of symbolic length")


def stacked(items):
    """the array of a list built by the iterations of a loop of symbolic length"""
    if isinstance(items, GenericSeq):
        CTX.path.n_loops += 1
        lane = "%s@t%d" % (items.size, CTX.path.n_loops)
        return family(items.get(("L", lane)), lane)
    if not isinstance(items, (list, tuple)):
        return None
    if any(isinstance(i, Family) for i in items):
        if len(items) != 1:
            raise Unsupported("list extended in a loop of symbolic length")
        return items[0].array()
    if len(items) == 1 and CTX.path.comprehension:
        n = lift(items[0]).node
        lanes = free_lanes(n) - {l.lane for l in CTX.path.open_loops}
        if len(lanes) != 1:
            raise Unsupported("list of one element after a comprehension of symbolic length")
        return family(items[0], next(iter(lanes)))
    return None


class Poison:
    generic_value = lambda self: self._no()

    """a local variable of a loop, used after the loop"""

    def _no(self, *a, **k):
        raise Unsupported("use of a loop variable after a loop of symbolic length")
    __getattr__ = __iter__ = __len__ = __bool__ = __call__ = __getitem__ = __setitem__ = __contains__ = __float__ = __int__ = __index__ = __str__ = __format__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __pow__ = __rpow__ = _no


class GenericSeq:
    def __init__(self, size, get):
        self.size, self.get = size, get

    def __iter__(self):
        return GenericIter(self)

    def __symlen__(self):
        return SymInt(self.size)

    def generic_value(self):
        return stacked(self)

    def __len__(self):
        raise Unsupported("len of a sequence of symbolic length")

    def __getitem__(self, i):
        if isinstance(i, GenIdx) and i.size_name == self.size:
            return self.get(("L", i.lane))
        if isinstance(i, int) and i >= 0:
            return self.get(i)
        raise Unsupported("index %r" % (i,))


def of_array(a):
    d = a.node.dims[0]

    def get(i):
        n = a.node
        m = (("k", i),) + tuple(("o", j) for j in range(len(n.dims) - 1))
        return SymArr(Node("view", (n,), n.dims[1:], m, n.isbool))
    return GenericSeq(d, get)


def indices(size):
    return GenericSeq(size, lambda i: i if isinstance(i, int) else GenIdx(size, i[1]))


def as_seq(x):
    if isinstance(x, GenericSeq):
        return x
    if isinstance(x, SymArr) and x.node.dims and isinstance(x.node.dims[0], str):
        return of_array(x)
    f = getattr(x, "__genericseq__", None)
    return f() if f is not None else None


def sym_enumerate(x, start=0):
    s = as_seq(x)
    if s is None or not isinstance(start, int) or start:
        return enumerate(x, start)
    ix = indices(s.size)
    return GenericSeq(s.size, lambda i: (ix.get(i), s.get(i)))


def sym_zip(*xs, **k):
    ss = [as_seq(x) for x in xs]
    if not any(s is not None for s in ss):
        return zip(*xs, **k)
    if any(s is None for s in ss) or len({s.size for s in ss}) != 1:
        raise Unsupported("zip of sequences of different symbolic length")
    return GenericSeq(ss[0].size, lambda i: tuple(s.get(i) for s in ss))


def sym_list(*a):
    if len(a) == 1:
        s = as_seq(a[0])
        if s is not None:
            return s
        if isinstance(a[0], GenericIter):
            raise Unsupported("list of a generic iterator")
    return list(*a)


def list_len(x):
    if any(isinstance(i, Family) for i in x):
        if len(x) == 1 and len(x[0].items) == 1:
            return SymInt(sym.lane_size(x[0].lane))
        raise Unsupported("length of a list extended in a loop of symbolic length")
    if len(x) == 1 and CTX.path.comprehension:
        raise Unsupported("length of a list after a comprehension of symbolic length")
    return len(x)


def on():
    return CTX.path is not None and getattr(CTX.path, "generic_loops", False)


# ------------------------------------------------------------------ byte code


def loop_effects(code, lasti):
    """(names assigned in the loop at FOR_ITER lasti, is it a comprehension)"""
    key = (code, lasti)
    r = _fx.get(key)
    if r is not None:
        return r
    ins = list(dis.get_instructions(code))
    here = [i for i in ins if i.offset == lasti]
    if not here or not here[0].opname.startswith("FOR_ITER"):
        r = None
    else:
        end = here[0].argval
        body = [i for i in ins if lasti < i.offset < end]
        inner = [(i.offset, i.argval) for i in body if i.opname.startswith("FOR_ITER")]
        names, comp, bad = set(), False, None
        for i in body:
            if i.opname in ("STORE_FAST", "DELETE_FAST", "LOAD_FAST_AND_CLEAR"):
                names.add(i.argval)
            elif i.opname.startswith("STORE_FAST"):
                names |= set(i.argval) if isinstance(i.argval, tuple) else {i.argval}
            elif i.opname in ("STORE_GLOBAL", "STORE_DEREF", "STORE_NAME"):
                bad = i.opname
            elif i.opname in ("LIST_APPEND", "SET_ADD", "MAP_ADD"):
                depth = sum(a < i.offset < b for a, b in inner)
                if i.arg > depth + 1:
                    comp = True
            elif i.opname in ("RETURN_VALUE", "RETURN_CONST"):
                bad = "return inside the loop"
            elif i.opname.startswith(("POP_JUMP", "JUMP")) and isinstance(i.argval, int) and i.argval > end:
                bad = "leaving the loop early"
        r = (names, comp, bad)
    _fx[key] = r
    return r


_fx = {}


def locals_of(f):
    return dict(f.f_locals)


def set_locals(f, new):
    d = f.f_locals
    for k, v in new.items():
        d[k] = v
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(f), ctypes.c_int(0))


def reachable(roots):
    """containers reachable from the local variables, with a copy of their contents"""
    out, todo, seen = [], [(v, 0) for v in roots], set()
    while todo:
        o, depth = todo.pop()
        if id(o) in seen or depth > 4:
            continue
        seen.add(id(o))
        if isinstance(o, SymArr):
            out.append((o, (o.node, o.writes)))
        elif isinstance(o, dict):
            out.append((o, dict(o)))
            todo += [(v, depth + 1) for v in o.values()]
        elif isinstance(o, (list, tuple)):
            if isinstance(o, list):
                out.append((o, list(o)))
            todo += [(v, depth + 1) for v in o]
        elif type(o).__module__.startswith(("gwpopulation", "bilby")) and hasattr(o, "__dict__"):
            out.append((o.__dict__, dict(o.__dict__)))
            todo += [(v, depth + 1) for v in o.__dict__.values()]
    return out


class GenericIter:
    def __init__(self, seq):
        if not on():
            raise Unsupported("loop over a sequence of symbolic length")
        self.seq, self.state = seq, 0

    def __iter__(self):
        return self

    def __next__(self):
        f = sys._getframe(1)
        if self.state == 0:
            return self.first(f)
        if self.state == 1:
            self.close(f)
        raise StopIteration

    # ---- entering the loop
    def first(self, f):
        p = CTX.path
        fx = loop_effects(f.f_code, f.f_lasti)
        if fx is None:
            raise Unsupported("sequence of symbolic length consumed by %s" % f.f_code.co_name)
        names, comp, bad = fx
        if bad:
            raise Unsupported("loop of symbolic length: " + bad)
        if f.f_code.co_flags & 0x20 and not getattr(p, "consuming", 0):
            raise Unsupported("generator over a sequence of symbolic length")
        self.state, self.frame, self.names, self.comp = 1, f, names, comp
        p.n_loops += 1
        self.lane = "%s@t%d" % (self.seq.size, p.n_loops)
        p.open_loops.append(self)
        if comp:
            p.comprehension = True
        p.S.enter((("L", self.lane),))
        loc = locals_of(f)
        self.havoc = {}
        for n in sorted(names):
            v = loc.get(n)
            if isinstance(v, GenIdx):
                continue
            if isinstance(v, SymArr) or isinstance(v, (int, float)) and not isinstance(v, bool):
                a = lift(v)
                if comp:
                    continue
                h = sym.var("#carried%d_%s" % (p.n_loops, n), a.node.dims, py=a.py)
                h.scalar = a.scalar
                h.node.isbool = a.node.isbool
                self.havoc[n] = (v, a, h, h.node)
        self.before = loc
        if self.havoc:
            set_locals(f, {n: h[2] for n, h in self.havoc.items()})
        own = {id(h[1]) for h in self.havoc.values()}
        self.snap = [(o, c) for o, c in reachable(loc.values()) if id(o) not in own]
        return self.seq.get(("L", self.lane))

    # ---- leaving it
    def close(self, f):
        p = CTX.path
        self.state = 2
        if f is not self.frame or not p.open_loops or p.open_loops[-1] is not self:
            raise Unsupported("interleaved loops of symbolic length")
        p.open_loops.pop()
        loc = locals_of(f)
        new = {}
        for n in self.names:
            if n in self.havoc:
                new[n] = self.settle(n, loc.get(n))
            elif n in loc and not (n in self.before and loc[n] is self.before[n]):
                new[n] = Poison()
        if new:
            set_locals(f, new)
        for o, c in self.snap:
            self.settle_container(o, c)

    def settle(self, n, post):
        old, pre, h, hn = self.havoc[n]
        if post is h and h.node is hn:
            return old
        if not isinstance(post, SymArr):
            return Poison()
        inplace = post is h
        node = post.node
        if not mentions(node, hn):
            return Poison()
        r = closed(node, hn, pre, self.lane)
        if inplace:
            if not isinstance(old, SymArr):
                raise Unsupported("in-place update of a number")
            if r.node.dims != old.node.dims:
                raise Unsupported("shape changed in a loop")
            old.node = r.node
            old.writes += 1
            return old
        return r

    def settle_container(self, o, c):
        if isinstance(o, SymArr):
            if o.node is c[0]:
                return
            o.node = written(o.node, c[0], self.lane)
            return
        if isinstance(o, list):
            if len(o) < len(c) or any(a is not b for a, b in zip(o, c)):
                raise Unsupported("a list was changed in a loop")
            if len(o) > len(c):
                o[len(c):] = [Family(self.lane, o[len(c):])]
            return
        for k in c:
            if k not in o or o[k] is not c[k]:
                raise Unsupported("entry %r changed in a loop of symbolic length" % (k,))
        for k in o:
            if k not in c and not (isinstance(k, str) and "<%s>" % self.seq.size in k):
                raise Unsupported("entry %r set in a loop of symbolic length" % (k,))


def written(node, old, lane):
    """the array after a[t] = e(t) for every t"""
    if node.op != "update" or node.args[0] is not old or node.x != ("L", lane) or mentions(node.args[1], old):
        raise Unsupported("array changed in a loop of symbolic length")
    v = node.args[1]
    if node.dims[0] != sym.lane_size(lane):
        raise Unsupported("array of another length written in a loop")
    if v.dims != node.dims[1:]:
        v = SymArr(elem("add", v, Node("fill", (sym.nconst(0),), node.dims[1:]))).node
    return Node("family", (v,), node.dims, lane, node.isbool)


def closed(node, hn, pre, lane):
    if node.op == "update" and node.args[0] is hn:
        return SymArr(written(node, hn, lane), scalar=False)
    if node.op == "add":
        todo, parts, n = [(node, 1)], [], 0
        while todo:
            x, s = todo.pop()
            if x is hn:
                n += 1
                if s != 1:
                    raise Unsupported("recurrence")
            elif x.op in ("add", "sub") and mentions(x, hn):
                todo += [(x.args[0], s), (x.args[1], s if x.op == "add" else -s)]
            else:
                parts.append((x, s))
        if n == 1 and not any(mentions(x, hn) for x, s in parts):
            from .facade import f_sum
            tot = pre
            for x, s in parts:
                e = f_sum(family(SymArr(x), lane), axis=0)
                tot = tot + e if s == 1 else tot - e
            tot.scalar = pre.scalar and not tot.node.dims
            return tot
    if node.op == "sizemin":
        fold = [a for a in node.args if a is not hn]
        if len(fold) == len(node.args) - 1 and not any(mentions(a, hn) for a in fold):
            return size_min([pre if isinstance(pre, SymInt) else pre.node] + [("all", a, lane) for a in fold])
    raise Unsupported("recurrence of a loop-carried value")


# ------------------------------------------------------------------ sizes

HUGE = 10 ** 12


def describe(n):
    """canonical description of a member of a minimum of sizes"""
    if isinstance(n, tuple):
        _, node, lane = n
        if lane not in free_lanes(node):
            return describe(node)
        return ("all",) + shape_key(subst(node, lane, ("L", sym.lane_size(lane) + "@*")))
    v = sym.ev(n)
    c = v[1].const() if v[0] == "f" else None
    if v == sym.PINF or c is not None and c > HUGE:
        return None
    if c is not None:
        return ("const", c)
    return shape_key(n)


def shape_key(n):
    if n.op in ("var", "const", "view", "laneidx") and all(isinstance(a, Node) for a in n.args):
        x = n.x if n.op != "const" else (n.x[0], n.x[1].key)
        return (n.op, x) + tuple(shape_key(a) for a in n.args)
    raise Unsupported("size %s" % n.op)


def size_min(members):
    """min of sizes: its own size, determined by the set of its members"""
    out = set()
    for m in members:
        if isinstance(m, SymInt):
            out |= fold_of(m.dim) or {describe(m.node)}
            continue
        d = describe(m)
        if d is not None:
            out.add(d)
    fold = frozenset(out)
    if not fold:
        raise Unsupported("minimum of nothing")
    S = CTX.path.S
    name = CTX.path.fold_names.get(fold)
    if name is None:
        name = "K%d" % len(CTX.path.fold_names)
        CTX.path.fold_names[fold] = name
        S.size(name)
        S.assume(S.size(name) >= 1)
        S.assume(S.size(name) < 10 ** 9)
    return SymInt(name)


def fold_of(size):
    """the members of the minimum a size is"""
    for fold, name in CTX.path.fold_names.items():
        if name == size:
            return fold
    return frozenset()


def family_key(node, lane):
    return describe(("all", node, lane))


def sym_min(*a, **k):
    if k or not on():
        return min(*a, **k)
    items = a
    if len(a) == 1:
        items = consume(a[0])
        if items is None:
            return min(*a)
    if not any(isinstance(i, (SymArr, Family)) for i in items):
        return min(items)
    def generic(i):
        return isinstance(i, Family) or isinstance(i, SymInt) and fold_of(i.dim) or isinstance(i, SymArr) and free_lanes(i.node)
    if not CTX.path.open_loops and not any(generic(i) for i in items):
        return min(items)
    if CTX.path.open_loops:
        ns = [lift(i).node for i in items]
        flat = []
        for n in ns:
            flat += list(n.args) if n.op == "sizemin" else [n]
        return SymArr(Node("sizemin", tuple(flat)), py=True)
    mem = []
    for i in items:
        if isinstance(i, SymInt):
            mem.append(i)
            continue
        n = (i.array().node.args[0] if isinstance(i, Family) else lift(i).node)
        fr = free_lanes(n)
        if len(fr) > 1:
            raise Unsupported("min of nested generic values")
        mem.append(("all", n, next(iter(fr))) if fr else n)
    return size_min(mem)


def consume(it):
    """run an iterable whose elements are generic"""
    import types

    if isinstance(it, types.GeneratorType):
        p = CTX.path
        p.consuming = getattr(p, "consuming", 0) + 1
        try:
            return list(it)
        finally:
            p.consuming -= 1
    s = as_seq(it)
    if s is not None:
        CTX.path.n_loops += 1
        return [s.get(("L", "%s@t%d" % (s.size, CTX.path.n_loops)))]
    if isinstance(it, (list, tuple)):
        return list(it)
    return None


def sym_sum(it, start=0):
    from . import facade

    if isinstance(it, SymArr) and it.node.dims and isinstance(it.node.dims[0], str):
        return facade.f_sum(it, axis=0) + start
    if on() and not isinstance(it, SymArr):
        items = consume(it)
        if items is not None:
            tot = start
            for i in items:
                if CTX.path.comprehension and len(items) == 1 and not isinstance(i, Family) and not (isinstance(i, SymArr) and free_lanes(i.node)):
                    raise Unsupported("sum over a comprehension of symbolic length")
                if isinstance(i, Family):
                    tot = tot + facade.f_sum(i.array(), axis=0)
                elif isinstance(i, SymArr) and not CTX.path.open_loops and free_lanes(i.node):
                    tot = tot + facade.f_sum(family(i), axis=0)
                else:
                    tot = tot + i
            return tot
    return sum(it, start)


def fork_check(p, lanes, label):
    """a decision inside the body of a generic iteration must not depend on the iteration"""
    if any("@t" in l for l in lanes):
        raise Unsupported("a decision depends on the iteration of a loop of symbolic length")
    if label and isinstance(label[0], tuple):
        for k in sym.p_atoms(dict(label[0])):
            a = sym.ATOMS[k]
            if a[0] == "v" and a[1].startswith("#carried"):
                raise Unsupported("a decision depends on a value carried by a loop of symbolic length")


def setup(S):
    """allow loops of symbolic length in this scenario"""
    from .contract import shadow_type

    p = CTX.path
    SHADOW["list"] = shadow_type(list, sym_list)
    p.generic_loops, p.n_loops, p.open_loops, p.comprehension = True, 0, [], False
    p.fork_check = fork_check
    p.S, p.fold_names = S, {}


def _sizemin(n, idx):
    raise Unsupported("value of a running minimum")


SHADOW = dict(min=sym_min, sum=sym_sum, enumerate=sym_enumerate, zip=sym_zip)
sym.EVAL["laneidx"] = _laneidx
sym.EVAL["family"] = _family
sym.EVAL["sizemin"] = _sizemin
