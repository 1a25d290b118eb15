"""C15: switching the backend.

The invariant INV of the backend module: if __backend__ is the name b of a backend then every registered module holds
b's array module, special functions and extra functions (and jax is in 64-bit mode if b is jax).  Every contract reaches
a state by real calls on a freshly imported backend module and shows that INV holds after the next ones, whether they
return or raise.  __backend__ is the only state the module has (frame condition), so under INV the states are those
after a single switch and the conclusions hold after any history.  Requests, states, and the place and kind of a
failure are enumerated exhaustively on the real code; the registry (modules and extra functions registered by entry
points) is a case parameter, so the result is bounded in the number of registered entries."""
import sys
import types
import importlib
import importlib.metadata
import importlib.util

from engine.contract import contract, Raised

B = "gwpopulation.backend."
BOUND = "exhaustive over states, requests and failures; registries with at most five modules and six extra functions"
BACKENDS = ["numpy", "jax", "cupy"]
NP = dict(numpy="numpy", cupy="cupy", jax="jax.numpy")
SC = dict(numpy="scipy", cupy="cupyx.scipy", jax="jax.scipy")

REGISTRIES = [
    dict(xp=[], scs=[], other=[]),
    dict(xp=["vreg_a"], scs=[], other=[]),
    dict(xp=[], scs=["vreg_a"], other=["vreg_a:scipy.linalg.toeplitz"]),
    dict(xp=["vreg_a", "vreg_b.sub", "vreg_c"], scs=["vreg_c", "vreg_b.sub", "vreg_d"], other=[]),
    dict(xp=["vreg_a"], scs=["vreg_b.sub"], other=["vreg_a:scipy.linalg.toeplitz", "vreg_c:scipy.linalg.cholesky", "vreg_a:scipy.linalg.solve"]),
    dict(xp=["vreg_a", "vreg_b.sub", "vreg_b.other"], scs=["vreg_a"], other=["vreg_c:scipy.linalg.toeplitz", "vreg_c:numpy.fft.fft", "vreg_c:scipy.special.xlogy", "vreg_d:scipy.linalg.toeplitz", "vreg_d:vlib.tools.smooth", "vreg_a:numpy.linalg.inv"]),
]


def resolve(backend, func):
    """the object an extra function denotes for a backend"""
    root, rest = func.split(".", 1)
    base = dict(scipy=SC[backend], numpy=NP[backend]).get(root, root)
    mod, name = (base + "." + rest).rsplit(".", 1)
    return getattr(importlib.import_module(mod), name)


class World:
    """the registered modules and the entry points, installed for one run"""

    def __init__(self, S, reg):
        self.S, self.reg = S, reg
        self.saved = {}
        self.fault = None
        names = set(reg["xp"]) | set(reg["scs"]) | {o.split(":")[0] for o in reg["other"]}
        for n in sorted(names):
            if "." in n:
                self.put(n.rsplit(".", 1)[0], types.ModuleType(n.rsplit(".", 1)[0]))
        self.mods = {n: types.ModuleType(n) for n in sorted(names)}
        for n, m in self.mods.items():
            self.put(n, m)
        self.fakes()
        self.finder = self
        sys.meta_path.insert(0, self)
        world = self

        class Points(list):
            def select(self, group=None, **k):
                return Points(p for p in self if p.group == group)

        def entry_points(group=None, **k):
            if world.fault == ("entry_points",):
                raise RuntimeError("unreadable package metadata")
            eps = Points()
            for g in ("xp", "scs", "other"):
                for i, v in enumerate(world.reg[g]):
                    eps.append(importlib.metadata.EntryPoint("entry%d" % i, v, "gwpopulation." + g))
            return eps if group is None else eps.select(group=group)
        S.patch.set(importlib.metadata, "entry_points", entry_points)
        real = S.mod("backend")
        spec = importlib.util.spec_from_file_location(real.__name__, real.__file__)
        self.module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(self.module)
        self.globals = self.state()

    def state(self):
        return {k: v if not isinstance(v, (dict, list, set)) else repr(v) for k, v in self.module.__dict__.items() if k not in ("__backend__", "__builtins__")}

    def put(self, name, module):
        if name not in self.saved:
            self.saved[name] = sys.modules.get(name)
        sys.modules[name] = module

    def fakes(self):
        """a stand-in for cupy, which is not installed, and for a third-party library"""
        def fake(name, **attrs):
            m = types.ModuleType(name)
            m.__path__ = []
            m.__dict__.update(attrs)
            self.put(name, m)
            return m
        fn = lambda n: (lambda *a: n)
        cp = fake("cupy")
        cp.fft = fake("cupy.fft", fft=fn("fft"))
        cp.linalg = fake("cupy.linalg", inv=fn("inv"))
        cx = fake("cupyx")
        cx.scipy = fake("cupyx.scipy")
        cx.scipy.special = fake("cupyx.scipy.special", xlogy=fn("xlogy"))
        cx.scipy.linalg = fake("cupyx.scipy.linalg", toeplitz=fn("toeplitz"), cholesky=fn("cholesky"), solve=fn("solve"))
        vl = fake("vlib")
        vl.tools = fake("vlib.tools", smooth=fn("smooth"))

    def special(self, b):
        return importlib.import_module(SC[b] + ".special")

    # -- faults: importing a module raises
    def find_spec(self, name, path=None, target=None):
        if self.fault and self.fault[0] == "import" and name == self.fault[1]:
            raise self.fault[2]("injected: %s" % name)
        return None

    def set_fault(self, fault):
        self.fault = fault
        if fault and fault[0] == "import":
            self.hidden = sys.modules.pop(fault[1], None)
        if fault and fault[0] == "attr":
            m = importlib.import_module(fault[1])
            self.hidden = m.__dict__.pop(fault[2])

    def clear_fault(self):
        if self.fault and self.fault[0] == "import" and self.hidden is not None:
            sys.modules[self.fault[1]] = self.hidden
        if self.fault and self.fault[0] == "attr":
            sys.modules[self.fault[1]].__dict__[self.fault[2]] = self.hidden
        self.fault = None

    def close(self):
        self.clear_fault()
        sys.meta_path.remove(self)
        for n, m in self.saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m

    # -- state
    def expected(self, b):
        out = {}
        for m in self.reg["xp"]:
            out[m, "xp"] = importlib.import_module(NP[b])
        for m in self.reg["scs"]:
            out[m, "scs"] = self.special(b)
        for o in self.reg["other"]:
            m, f = o.split(":")
            out[m, f.rsplit(".", 1)[1]] = resolve(b, f)
        return out

    def mismatch(self, b):
        for (m, n), v in self.expected(b).items():
            if self.mods[m].__dict__.get(n, "missing") is not v:
                return "%s.%s is %r, %s's is %r" % (m, n, self.mods[m].__dict__.get(n, "missing"), b, v)
        import jax

        if b == "jax" and not jax.config.jax_enable_x64:
            return "jax is not configured for 64-bit floats"
        return None

    def invariant(self, what):
        b = self.module.__dict__.get("__backend__", "")
        bad = None
        if b not in [""] + BACKENDS:
            bad = "recorded backend %r" % (b,)
        elif b:
            bad = self.mismatch(b)
        self.S.ensure_true(bad is None, what + ": the recorded backend is the one in use", bad or "")

    def note_state(self):
        """whether the module has state of its own besides __backend__ (then the conclusions are bounded to the histories run)"""
        return self.state() == self.globals


def with_world(S, reg, body):
    import jax

    x64 = jax.config.jax_enable_x64
    w = World(S, reg)
    try:
        body(w)
        if not w.note_state():
            S.note("the backend module keeps state besides __backend__: histories longer than those run are not covered")
    finally:
        w.close()
        jax.config.update("jax_enable_x64", x64)


def start(S, w, longest=2):
    """a state reached by at most `longest` switches; jax's precision is arbitrary unless jax is in use"""
    import jax

    jax.config.update("jax_enable_x64", S.choice("64-bit before", [True, False]))
    b = ""
    for i in range(longest):
        r = S.choice("earlier request %d" % i, ["stop"] + BACKENDS)
        if r == "stop":
            break
        got = S.call(lambda: w.module.set_backend(r))
        S.ensure_true(not isinstance(got, Raised), "set_backend returns", repr(got))
        b = r
    if b and b != "jax":  # what others may do in between
        jax.config.update("jax_enable_x64", S.choice("64-bit since", [True, False]))
    return b


@contract("C15", [B + f for f in ("set_backend", "modules_to_update", "_load_numpy_and_scipy", "_load_arbitrary", "_configure_jax")], modes=("numpy",), cases=[dict(reg=i) for i in range(len(REGISTRIES))], bounded=BOUND, max_paths=4000)
def switch(S, reg):
    """any state, any supported backend: everything registered is switched and recorded"""
    def body(w):
        full, late = w.reg, S.choice("plugins", ["all", "some registered after the earlier switches"]) != "all"
        if late:
            w.reg = {g: list(v)[: len(v) // 2] for g, v in full.items()}
        b0 = start(S, w)
        w.reg = full
        b = S.choice("request", [x for x in BACKENDS if x != b0] if late else BACKENDS)
        got = S.call(lambda: w.module.set_backend(b))
        S.ensure_true(not isinstance(got, Raised), "set_backend returns", repr(got))
        bad = w.mismatch(b)
        S.ensure_true(bad is None, "every registered module sees the requested backend", bad or "")
        w.invariant("after the switch")
    with_world(S, REGISTRIES[reg], body)


@contract("C15", [B + "set_backend"], modes=("numpy",), cases=[dict(reg=i) for i in (0, 4, 5)], bounded=BOUND, max_paths=4000)
def unsupported(S, reg):
    """any other name raises ValueError and changes nothing"""
    def body(w):
        b0 = start(S, w)
        before = {m: dict(x.__dict__) for m, x in w.mods.items()}
        name = S.choice("request", ["fail", "NumPy", "", "jax.numpy", "num", "torch", " numpy", None, 5, ("jax",)])
        got = S.call(lambda: w.module.set_backend(name))
        S.ensure_raises(got, ValueError, "unsupported backend")
        S.ensure_true(w.module.__dict__.get("__backend__", b0) == b0 and before == {m: dict(x.__dict__) for m, x in w.mods.items()}, "nothing changes for an unsupported backend")
    with_world(S, REGISTRIES[reg], body)


def faults(reg, b):
    """every import a switch depends on, failing in every way"""
    out = []
    root = NP[b].split(".")[0]
    for m in {root, NP[b], SC[b], SC[b].split(".")[0]}:
        for e in (ModuleNotFoundError, ImportError):
            out.append(("import", m, e))
    for m in dict.fromkeys(reg["xp"] + reg["scs"] + [o.split(":")[0] for o in reg["other"]]):
        for e in (ModuleNotFoundError, ImportError, RuntimeError):
            out.append(("import", m, e))
    for o in reg["other"]:
        f = o.split(":")[1]
        r, rest = f.split(".", 1)
        mod, name = (dict(scipy=SC[b], numpy=NP[b]).get(r, r) + "." + rest).rsplit(".", 1)
        out.append(("import", mod, ImportError))
        out.append(("attr", mod, name))
    out.append(("entry_points",))
    return sorted(dict.fromkeys(out), key=str)


@contract("C15", [B + "set_backend", B + "_load_numpy_and_scipy"], modes=("numpy",), cases=[dict(reg=i, b=b) for i in (1, 3, 4, 5) for b in BACKENDS], bounded=BOUND, max_paths=4000)
def failing_switch(S, reg, b):
    """an import fails at any point: if the switch did not happen it is not recorded, and the next request is carried out"""
    registry = REGISTRIES[reg]

    def body(w):
        import jax

        b0 = start(S, w, 1)
        f = S.choice("fault", faults(registry, b))
        w.set_fault(f)
        got = S.call(lambda: w.module.set_backend(b))
        w.clear_fault()
        own = f[0] == "import" and f[1] in (NP[b], SC[b])
        if b0 != b and (own or (f[0] == "import" and f[1] in w.mods) or f[0] == "attr"):
            S.ensure_true(isinstance(got, Raised), "a switch whose import fails raises", "set_backend(%r) returned with %s failing" % (b, f[1]))
        if b0 != b and own:
            e = got.exc if isinstance(got, Raised) else None
            S.ensure_true(isinstance(e, ImportError) and (isinstance(e, ModuleNotFoundError) == (f[2] is ModuleNotFoundError)), "the error matches the failure", "%s of %s became %r" % (f[2].__name__, f[1], got))
        if not isinstance(got, Raised):
            bad = w.mismatch(b)
            S.ensure_true(bad is None, "every registered module sees the requested backend", bad or "")
        w.invariant("after the failure")
        b2 = S.choice("next request", BACKENDS)
        got = S.call(lambda: w.module.set_backend(b2))
        S.ensure_true(not isinstance(got, Raised), "the next request succeeds", repr(got))
        bad = w.mismatch(b2)
        S.ensure_true(bad is None, "the next request is carried out", bad or "")
        w.invariant("after the next request")
    with_world(S, registry, body)


@contract("C15", [B + "set_backend", B + "modules_to_update"], modes=("numpy",), cases=[dict()], bounded="the modules of this package", sym=True)
def own_modules(S):
    """every module of the package that uses the backend is registered and follows it"""
    import tomllib
    import os
    import gwpopulation

    root = os.path.dirname(os.path.dirname(os.path.abspath(gwpopulation.__file__)))
    ep = tomllib.load(open(os.path.join(root, "pyproject.toml"), "rb"))["project"]["entry-points"]
    reg = {g: list(ep.get("gwpopulation." + g, {}).values()) for g in ("xp", "scs", "other")}
    for g in ("xp", "scs"):
        for name in list(sys.modules):
            m = sys.modules[name]
            if name.startswith("gwpopulation.") and isinstance(m, types.ModuleType) and g in m.__dict__ and name != "gwpopulation.backend":
                S.ensure_true(name in reg[g], "%s of %s is registered" % (g, name))
