"""C17: jit-compiled and numpyro likelihoods."""
import numpy as np

from engine.contract import contract, Raised
from engine import specs as SP, deps, sym, solver
from contracts.c09_likelihood import H, BIG, any_state, convert, hyper_prior, make, pars_of, pop_spec, posteriors, as0, special
from contracts.c12_selection import injections, efficiency, density

J = "gwpopulation.experimental.jax."
N_ = "gwpopulation.experimental.numpyro."
solver.FN_RANGE["pop"] = (0, None, False, False)
solver.FN_RANGE["user_volume"] = (0, None, True, False)


@contract("C17", [J + "generic_bilby_likelihood_function", J + "JittedLikelihood.__init__", J + "JittedLikelihood.log_likelihood_ratio", J + "JittedLikelihood.__getattr__"],
          cases=[dict(what=w, func=f, kwargs=k) for w in ("number", "inf", "ninf") for f in ("default", "user") for k in (False, True) if not (f == "user" and not k)], modes=("jax",), num_scale=0.3)
def jitted_likelihood(S, what, func, kwargs):
    """precondition: the wrapped ratio is not NaN (every likelihood of the package satisfies this, C10)"""
    from bilby.core.likelihood import Likelihood

    if S.symbolic:
        import jax

        S.patch.set(jax, "jit", lambda f, **k: f)
    noise = S.par("noise", S.real(-50, 50))
    off = S.par("offset", S.real(-2, 2))

    class Base(Likelihood):
        tag = object()

        def log_likelihood_ratio(self, parameters):
            a, b = parameters["a"], parameters["b"]
            if what != "number":
                return as0(S, special(S, "ratio", what, None)) + 0 * a
            return S.app("user_ratio", a, b) if S.symbolic else a * a - 3 * b

        def noise_log_likelihood(self):
            return noise

        def log_likelihood(self, parameters):
            return noise + self.log_likelihood_ratio(parameters)

    base = Base()
    X = S.mod("xjax")
    kw = {}
    if func == "user":
        kw["likelihood_func"] = lambda like, parameters, shift=0.0: like.log_likelihood_ratio(parameters) + shift
        kw["kwargs"] = dict(shift=off)
    elif kwargs:
        kw["kwargs"] = dict(use_ratio=True)
    like = S.call(lambda: X.JittedLikelihood(base, **kw))
    xp = S.xp
    for j in range(2):
        p = dict(a=S.par("a%d" % j, S.real(-3, 3)), b=S.par("b%d" % j, S.real(-3, 3)))
        S.frame(p)
        got = S.call(lambda: like.log_likelihood_ratio(p))
        if what == "number":
            want = S.app("user_ratio", p["a"], p["b"]) if S.symbolic else p["a"] ** 2 - 3 * p["b"]
            if func == "user":
                want = want + off
        else:
            want = BIG if what == "inf" else -BIG
        S.ensure(got, want, "log-likelihood ratio, call %d" % j, shape=False)
        S.finite(got)
        if not isinstance(got, Raised):
            S.ensure_true(getattr(got, "py", False) if S.symbolic else isinstance(got, float), "a Python float")
    S.ensure_true(S.call(lambda: like.tag is Base.tag), "other attributes are those of the wrapped likelihood")


class Sites:
    """the sites the model registers"""

    def __init__(self, S):
        self.S = S
        self.values = {}
        self.rates = []
        self.D = deps.install_random(S)
        if S.symbolic:
            def det(name, value):
                if name in self.values:
                    S.fail("site %s is registered twice" % name)
                self.values[name] = value
                return value

            class Gamma:
                def __init__(g, concentration, rate=1.0, **k):
                    if any(v is not None for v in k.values()):
                        raise sym.Unsupported("Gamma options")
                    g.shape_, g.rate = concentration, rate

            def sample(name, fn, obs=None, **k):
                if not isinstance(fn, Gamma) or obs is not None:
                    raise sym.Unsupported("sample %r" % (fn,))
                self.rates.append((name, fn.shape_, fn.rate))
                return sym.var("#rate", (), {1})
            S.stub("numpyro", "deterministic", det)
            S.stub("numpyro", "sample", sample)
            S.stub("numpyro", "Gamma", Gamma)
            import numpyro
            import numpyro.distributions as nd

            S.patch.set(numpyro, "deterministic", det)
            S.patch.set(numpyro, "sample", sample)
            S.patch.set(nd, "Gamma", Gamma)

    def run(self, f):
        if self.S.symbolic:
            return f()
        from numpyro import handlers

        with handlers.seed(rng_seed=self.S.rng.randrange(2 ** 31)), handlers.trace() as tr:
            r = f()
        for k, v in tr.items():
            if v["type"] == "deterministic":
                self.values[k] = v["value"]
            else:
                d = v["fn"]
                self.rates.append((k, d.concentration, d.rate))
        return r

    def repeat(self, f, times):
        """the registered values of repeated runs with fresh random keys (run time only)"""
        import jax

        out = []
        for name in ("PRNGKey", "key"):  # whatever key the code asks for, it gets a fresh one
            real = getattr(jax.random, name)
            self.S.patch.set(jax.random, name, lambda *a, _real=real, **k: _real(self.S.rng.randrange(2 ** 31)))
        for _ in range(times):
            self.values, self.rates = {}, []
            self.run(f)
            out.append(dict(self.values))
        return out


def follows(S, hits, p, what):
    """frequencies of repeated draws against the probabilities, 7 standard deviations"""
    n = len(hits)
    for q, pq in enumerate(p):
        c = sum(h == q for h in hits)
        S.ensure_true(abs(c - n * pq) <= 7 * np.sqrt(n * pq * (1 - pq)) + 1, what, "sample %d drawn %d times out of %d, expected %.1f" % (q, c, n, n * pq))


def selector(S, cov):
    d, n = injections(S, True)
    deps.install_cosmo(S)

    def one(dataset, lam):
        return density(S, dataset, lam)
    vt = S.mod("vt").ResamplingVT(one, d)
    vol = S.par("volume", S.logreal(0.1, 100), sign={1})

    def volume(parameters):
        return S.app("user_volume", vol, parameters["lam"]) if S.symbolic else vol * (1 + parameters["lam"])
    vt.surveyed_hypervolume = volume
    return vt, d, n, lambda lam: S.app("user_volume", vol, lam) if S.symbolic else vol * (1 + float(lam))


MODEL_CASES = [dict(select=s, prior=p, conv=c, limit=l) for s in (True, False) for (p, c) in ((True, "user"), (False, "default")) for l in ("default", "given")]


@contract("C17", N_ + "gwpopulation_likelihood_model", cases=MODEL_CASES, modes=("jax",), num_scale=0.3)
def numpyro_model(S, select, prior, conv, limit):
    """any number of events and samples, with positive weight in each event and among the injections"""
    import gwpopulation.experimental.numpyro
    sites = Sites(S)
    ckw, lam_of = convert(S, conv)
    kw = dict(ckw)
    if select:
        vt, inj, total, vol_of = selector(S, None)
        kw["selection_function"] = vt
    like, d, N, K = any_state(S, "HyperparameterLikelihood", prior, **kw)
    p = pars_of(S, conv, "")
    S.frame(p, getattr(like, "data", None))
    lam = lam_of(p)
    xp = S.xp
    w = pop_spec(S, d, lam)
    if prior:
        w = w / SP.A(S, d["prior"])
    m, m2 = xp.mean(w, axis=-1), xp.mean(w ** 2, axis=-1)
    S.assume(m > 0)
    lnz, var = xp.log(m), (m2 - m ** 2) / (w.shape[-1] * m ** 2)
    want = dict(ln_bayes_factors=lnz, variances=var)
    ln_l, tot = xp.sum(lnz), xp.sum(var)
    if select:
        mu, mv = efficiency(S, inj, total, dict(lam=lam), False)
        S.assume(mu > 0)
        want["selection"] = -N * xp.log(mu)
        want["selection_variance"] = N ** 2 * mv / mu ** 2
        ln_l, tot = ln_l + want["selection"], tot + want["selection_variance"]
    want["ln_l"], want["variance"] = ln_l, tot
    a = dict(apply_selection=select, predictive_resample=False)
    lim = None
    if limit == "given":
        lim = a["varmax"] = S.par("varmax", S.logreal(0.05, 5), sign={0, 1})
        if not S.symbolic:
            if S.rng.random() < 0.25:
                # exactly at the limit: the variance does not exceed it
                S.call(lambda: sites.run(lambda: S.mod("numpyro").gwpopulation_likelihood_model(like, p, **dict(a, varmax=1e300))))
                lim = a["varmax"] = S.inputs["varmax"] = float(sites.values["variance"])
                sites.values, sites.rates, tot = {}, [], tot * 0 + lim
            else:
                S.assume(abs(float(tot) - lim) > 1e-9)
    if not S.symbolic:
        S.atol = 1e-9
    got = S.call(lambda: sites.run(lambda: S.mod("numpyro").gwpopulation_likelihood_model(like, p, **a)))
    if isinstance(got, Raised):
        S.ensure(got, 0.0, "model")
    S.ensure({k: sites.values.get(k, Raised(KeyError(k))) for k in want}, want, "site", shape=False)
    res = ln_l if lim is None else xp.where(tot > SP.A(S, lim), -BIG, ln_l)
    S.ensure(got, res, "returned log-likelihood", shape=False)
    if select:
        S.ensure_true([r[0] for r in sites.rates] == ["rate"], "one rate site")
        S.ensure(sites.rates[0][1], N * 1.0, "rate: Gamma shape is the number of events", shape=False)
        S.ensure(sites.rates[0][2], mu * vol_of(lam), "rate: Gamma rate is efficiency times hypervolume", shape=False)
        if not S.symbolic or S.mode == "jax":
            std = S.call(lambda: like.ln_likelihood_and_variance(p)) if not S.symbolic else None
            if std is not None and not isinstance(std, Raised) and np.isfinite(float(std[0])):
                S.ensure(got if lim is None else sites.values["ln_l"], std[0], "same as the standard likelihood", shape=False)


@contract("C17", N_ + "gwpopulation_likelihood_model", cases=[dict(select=True), dict(select=False)], modes=("jax",), num_scale=0.3)
def numpyro_undefined(S, select):
    """an undefined (NaN) estimate is rejected when a maximum variance is given"""
    import gwpopulation.experimental.numpyro
    sites = Sites(S)
    vt, inj, total, vol_of = selector(S, None)

    class Own:
        @staticmethod
        def prob(data, lam, **unused):
            return (S.app("pop", data["a"], data["b"], lam) if S.symbolic else S.bxp.exp(-data["a"] * lam)) * float("nan")
    like, d, N, K = any_state(S, "HyperparameterLikelihood", True, selection_function=vt)
    like.hyper_prior = Own()
    p = pars_of(S, "default", "")
    S.assume(efficiency(S, inj, total, p, False)[0] > 0)
    lim = S.par("varmax", S.logreal(0.05, 5), sign={0, 1})
    got = S.call(lambda: sites.run(lambda: S.mod("numpyro").gwpopulation_likelihood_model(like, p, varmax=lim, apply_selection=select, predictive_resample=False)))
    S.ensure(got, -BIG, "returned log-likelihood", shape=False)


def check_draw(S, sites, k, weights, n, dims):
    c = sites.D.choices[k]
    S.ensure_true(c["dims"] == dims and c["n"] == n, "draws from all samples", "draws %r of %r, contract: %r of %r" % (c["dims"], c["n"], dims, n))
    S.ensure(c["p"], weights / S.xp.sum(weights), "probabilities are the normalised weights")
    return c["idx"]


@contract("C17", N_ + "posterior_predictive_resample", cases=[dict(event=e, keys=k) for e in (None, 0, 1, 2) for k in ("all", "some")], modes=("jax",), num_scale=0.1)
def numpyro_resample(S, event, keys):
    """one event of any number; any number of samples"""
    import gwpopulation.experimental.numpyro
    sites = Sites(S)
    if S.symbolic:
        K = S.size("K")
        S.assume(K >= 1)
        S.assume(K < 10 ** 9)
        dims = ("N", "K") if event is not None else ("K",)
        if event is not None:
            S.assume(S.size("N") >= event + 1)
    else:
        dims = (event + S.choice("more", [1, 2]), S.choice("K", [1, 2, 5])) if event is not None else (S.choice("K", [2, 5]),)
    data = {k: S.arr(k, dims, S.real(-5, 5)) for k in ("a", "b", "c")}
    w = S.arr("w", dims, S.logreal(1e-3, 10, 0.0), sign={0, 1})
    if not S.symbolic and S.choice("weights held as", ["jax", "numpy"]) == "numpy":
        w = np.array(w)
    mine = w if event is None else w[event]
    tot = S.xp.sum(SP.A(S, mine))
    S.assume(tot > 0)
    S.frame(data, w)
    kw = {} if keys == "all" else dict(fit_keys=["b"])
    fit = ["a", "b", "c"] if keys == "all" else ["b"]
    shape = ()
    if event is None:
        shape = (2,)
        kw["shape"] = shape
        if not S.symbolic:
            S.assume(int((np.asarray(w) > 0).sum()) >= 2)
    r = S.call(lambda: sites.run(lambda: S.mod("numpyro").posterior_predictive_resample(data, w, "lab", event=event, **kw)))
    if isinstance(r, Raised):
        S.ensure(r, 0.0, "resampling")
    S.ensure_true(set(sites.values) == {k + "_lab" for k in fit}, "one site per key", "sites %s" % sorted(sites.values))
    if S.symbolic:
        S.ensure_true(len(sites.D.choices) == 1, "one draw")
        i = check_draw(S, sites, 0, mine, "K", shape)
        for k in fit:
            row = data[k] if event is None else data[k][event]
            S.ensure(sites.values[k + "_lab"], row[i], "whole sample of the event")
    else:
        rows = {k: np.asarray(data[k] if event is None else data[k][event]) for k in data}
        ww = np.asarray(mine)
        vals = {k: np.atleast_1d(np.asarray(sites.values[k + "_lab"])) for k in fit}
        n = 2 if event is None else 1
        for j in range(n):
            hit = [q for q in range(len(ww)) if all(rows[k][q] == vals[k][j] for k in fit)]
            S.ensure_true(any(ww[q] > 0 for q in hit), "whole sample of the event with positive weight")
        if event is not None and len(ww) > 1 and S.rng.random() < 0.5:
            k = fit[0]
            S.assume(len(set(rows[k].tolist())) == len(ww))
            draws = sites.repeat(lambda: S.mod("numpyro").posterior_predictive_resample(data, w, "lab", event=event, **kw), 60)
            follows(S, [rows[k].tolist().index(float(v[k + "_lab"])) for v in draws], ww / ww.sum(), "samples are drawn in proportion to their weight")


@contract("C17", N_ + "gwpopulation_likelihood_model", cases=[dict(n=n, select=s, fit=f) for n in (1, 2, 3) for s in (True, False) for f in (False, True) if not (n == 3 and not f)], modes=("jax",), bounded="number of events N in {1,2,3} (loop over events unrolled); numpyro_resample covers each event of any number", num_scale=0.1)
def numpyro_predictive(S, n, select, fit):
    """predictive samples registered by the model"""
    import gwpopulation.experimental.numpyro
    sites = Sites(S)
    kw = {}
    if select:
        vt, inj, total, vol_of = selector(S, None)
        kw["selection_function"] = vt
        if not S.symbolic:
            S.assume(len(inj["a"]) >= n)
    posts = posteriors(S, n, True)
    p = pars_of(S, "default", "")
    like = S.call(lambda: make(S, "HyperparameterLikelihood", posts, hyper_prior(S), **kw))
    drawn = deps.drawn(S, posts, like)
    xp = S.xp
    ws = [pop_spec(S, d, p["lam"]) / SP.A(S, d["prior"]) for d in drawn]
    for w in ws:
        S.assume(xp.mean(w, axis=-1) > 0)
    if select:
        mu, mv = efficiency(S, inj, total, p, False)
        S.assume(mu > 0)
        wi = density(S, inj if S.symbolic else {k: np.asarray(v) for k, v in inj.items()}, p["lam"]) / SP.A(S, inj["prior"])
        if not S.symbolic:
            S.assume(int((wi > 0).sum()) >= n)
    keys = ["a"] if fit else ["a", "b"]
    a = dict(apply_selection=select)
    if fit:
        a["fit_keys"] = keys
    S.frame(p, getattr(like, "data", None), *( [inj] if select else []))
    got = S.call(lambda: sites.run(lambda: S.mod("numpyro").gwpopulation_likelihood_model(like, p, **a)))
    if isinstance(got, Raised):
        S.ensure(got, 0.0, "model")
    S.ensure(got, sum(xp.log(xp.mean(w, axis=-1)) for w in ws) + (-n * xp.log(mu) if select else 0), "returned log-likelihood", shape=False)
    ev = {"%s_%d" % (k, i) for k in keys for i in range(n)}
    S.ensure_true(ev <= set(sites.values), "sites of every event", "sites %s" % sorted(sites.values))
    if select:
        S.ensure_true({k + "_injections" for k in keys} <= set(sites.values), "sites of the injections", "sites %s" % sorted(sites.values))
    if S.symbolic:
        S.ensure_true(len(sites.D.choices) == n + bool(select), "one draw per event")
        off = 0
        if select:
            i = check_draw(S, sites, 0, wi, "M", (n,))
            for k in keys:
                S.ensure(sites.values[k + "_injections"], inj[k][i], "predicted injections")
            off = 1
        for e in range(n):
            i = check_draw(S, sites, e + off, ws[e], drawn[e]["a"].node.dims[0], ())
            for k in keys:
                S.ensure(sites.values["%s_%d" % (k, e)], drawn[e][k][i], "predicted event")
    else:
        for e in range(n):
            hit = [q for q in range(len(ws[e])) if all(float(drawn[e][k][q]) == float(sites.values["%s_%d" % (k, e)]) for k in keys)]
            S.ensure_true(any(ws[e][q] > 0 for q in hit), "predicted event")
        if select:
            for j in range(n):
                hit = [q for q in range(len(wi)) if all(float(inj[k][q]) == float(sites.values[k + "_injections"][j]) for k in keys)]
                S.ensure_true(any(wi[q] > 0 for q in hit), "predicted injections")


@contract("C17", [N_ + "gwpopulation_likelihood_model", N_ + "posterior_predictive_resample"], cases=[dict(select=s, fit=f) for s in (True, False) for f in (False, True)], modes=("jax",), num_scale=0.1)
def numpyro_predictive_any_events(S, select, fit):
    """predictive samples of any number of events"""
    import gwpopulation.experimental.numpyro
    sites = Sites(S)
    if S.symbolic:
        S.loops()
    kw = {}
    if select:
        vt, inj, total, vol_of = selector(S, None)
        kw["selection_function"] = vt
    like, d, N, K = any_state(S, "HyperparameterLikelihood", True, "own", **kw)
    p = pars_of(S, "default", "")
    xp = S.xp
    w = pop_spec(S, d, p["lam"]) / SP.A(S, d["prior"])
    S.assume(xp.mean(w, axis=-1) > 0)
    if select:
        mu, mv = efficiency(S, inj, total, p, False)
        S.assume(mu > 0)
        wi = density(S, inj if S.symbolic else {k: np.asarray(v) for k, v in inj.items()}, p["lam"]) / SP.A(S, inj["prior"])
        if not S.symbolic:
            S.assume(int((wi > 0).sum()) >= N)
    keys = ["a"] if fit else ["a", "b"]
    a = dict(apply_selection=select)
    if fit:
        a["fit_keys"] = keys
    S.frame(p, like.data, *([inj] if select else []))
    got = S.call(lambda: sites.run(lambda: S.mod("numpyro").gwpopulation_likelihood_model(like, p, **a)))
    if isinstance(got, Raised):
        S.ensure(got, 0.0, "model")
    if not S.symbolic:
        S.atol = 1e-9
    S.ensure(got, xp.sum(xp.log(xp.mean(w, axis=-1))) + (-N * xp.log(mu) if select else 0), "returned log-likelihood", shape=False)
    if S.symbolic:
        from engine import loops
        own = [c for c in sites.D.choices if c["lanes"]]
        S.ensure_true(len(own) == 1 and len(sites.D.choices) == 1 + bool(select), "one draw per event")
        c = own[0]
        S.ensure_true(c["dims"] == () and c["n"] == K.dim, "draws from all samples", "draws %r of %r" % (c["dims"], c["n"]))
        lane = c["lanes"][0]
        S.ensure(loops.family(c["p"], lane), (w.T / xp.sum(w, axis=-1)).T, "probabilities are the normalised weights of the event")
        for k in keys:
            S.ensure_true(k + "_<N>" in sites.values, "sites of every event", "sites %s" % sorted(sites.values))
            S.ensure(loops.family(sites.values[k + "_<N>"], lane), loops.family(loops.of_array(d[k]).get(("L", lane))[c["idx"]], lane), "predicted event")
        if select:
            j = [q for q, r in enumerate(sites.D.choices) if not r["lanes"]][0]
            i = check_draw(S, sites, j, wi, "M", ("N",))
            for k in keys:
                S.ensure(sites.values[k + "_injections"], inj[k][i], "predicted injections")
    else:
        w = np.asarray(w)
        for e in range(N):
            S.ensure_true(all("%s_%d" % (k, e) in sites.values for k in keys), "sites of every event", "sites %s" % sorted(sites.values))
            hit = [q for q in range(w.shape[1]) if all(float(d[k][e][q]) == float(sites.values["%s_%d" % (k, e)]) for k in keys)]
            S.ensure_true(any(w[e][q] > 0 for q in hit), "predicted event")
