"""C11: extra statistics, predictive resampling and rate samples."""
import numpy as np

from engine.contract import contract, Raised
from engine import specs as SP, deps, sym
from contracts.c09_likelihood import (H, CTOR, LIKE, RATE, KINDS, FULL, any_drawn, any_posteriors, any_state, any_terms, convert, hyper_prior, make, pars_of, pop_spec, posteriors, selection, selection_terms, weights, event_terms)

STAT_CASES = [dict(n=n, kind=k, sel=s, prior=p, conv=c) for n in (1, 2, 3) for k in KINDS for (s, p, c) in (("pair", True, "user"), ("value", False, "default"), ("default", True, "inplace"))]


@contract("C11", [H + "HyperparameterLikelihood.generate_extra_statistics"] + LIKE + RATE, cases=STAT_CASES, bounded="number of events N in {1,2,3} (loop over events unrolled)", num_scale=0.4)
def extra_statistics(S, n, kind, sel, prior, conv):
    posts = posteriors(S, n, prior)
    ckw, lam_of = convert(S, conv)
    skw, sel_of = selection(S, sel, lam_of)
    like = S.call(lambda: make(S, kind, posts, hyper_prior(S), **ckw, **skw))
    sample = pars_of(S, conv, kind)
    sample["unrelated"] = S.par("unrelated", S.real(-1, 1))
    before = dict(sample)
    ws = weights(S, deps.drawn(S, posts, like), lam_of(sample), prior)
    for w in ws:
        S.assume(S.xp.mean(w, axis=-1) > 0)
    lnz, var = event_terms(S, ws)
    pd, pv = [SP.A(S, v) for v in sel_of(sample)]
    ts, tv = selection_terms(S, kind, n, pd, pv, sample.get("rate"))
    want = dict(before)
    for i in range(n):
        want["ln_bf_%d" % i] = lnz[i]
        want["var_%d" % i] = var[i]
    want["selection"] = pd
    want["selection_variance"] = pv / pd ** 2
    want["variance"] = sum(var) + tv
    if not S.symbolic:
        S.atol = 1e-10
    got = S.call(lambda: like.generate_extra_statistics(sample))
    S.ensure(got, want, "statistics", shape=False)
    S.ensure_true(got is sample, "the sample is extended in place (documented)")
    lv = S.call(lambda: like.ln_likelihood_and_variance(before))
    S.ensure(got["variance"], SP.A(S, lv[1]) if not isinstance(lv, Raised) else lv, "total variance is the one the likelihood reports", shape=False)


def per_event(S, d, stem, n):
    """the entries <stem>0 ... <stem>(N-1) of a dictionary as an array over the events, removed from it"""
    if S.symbolic:
        from engine import loops
        k = stem + "<N>"
        if k not in d:
            if any(q.startswith(stem) and "<" in q for q in d):
                raise sym.Unsupported("names of the entries")
            S.ensure_true(False, "one entry %s<i> per event" % stem, "keys %s" % sorted(d))
        return loops.family(d.pop(k))
    S.ensure_true(all(stem + str(i) in d for i in range(n)), "one entry %s<i> per event" % stem, "keys %s" % sorted(d))
    return np.array([float(d.pop(stem + str(i))) for i in range(n)])


@contract("C11", CTOR + [H + "HyperparameterLikelihood.generate_extra_statistics"] + LIKE + RATE, cases=FULL, num_scale=0.4)
def extra_statistics_any_events(S, kind, sel, prior, conv, how):
    """any number of events"""
    posts = any_posteriors(S, prior)
    ckw, lam_of = convert(S, conv)
    skw, sel_of = selection(S, sel, lam_of)
    sample = pars_of(S, conv, kind)
    sample["unrelated"] = S.par("unrelated", S.real(-1, 1))
    before = dict(sample)
    like = S.call(lambda: make(S, kind, posts, hyper_prior(S, how), **ckw, **skw))
    if isinstance(like, Raised):
        S.ensure(like, 0.0, "construction")
    d, N, K = any_drawn(S, posts, like)
    w, m, lnz, var = any_terms(S, d, lam_of(before), prior)
    S.assume(m > 0)
    pd, pv = [SP.A(S, v) for v in sel_of(before)]
    ts, tv = selection_terms(S, kind, N, pd, pv, before.get("rate"))
    if not S.symbolic:
        S.atol = 1e-9
    got = S.call(lambda: like.generate_extra_statistics(sample))
    if isinstance(got, Raised):
        S.ensure(got, 0.0, "statistics")
    S.ensure_true(got is sample, "the sample is extended in place (documented)")
    rest = dict(got)
    S.ensure(per_event(S, rest, "ln_bf_", N), lnz, "log-evidence ratio of every event")
    S.ensure(per_event(S, rest, "var_", N), var, "variance of every event")
    want = dict(before, selection=pd, selection_variance=pv / pd ** 2, variance=S.xp.sum(var) + tv)
    S.ensure(rest, want, "statistics", shape=False)


@contract("C11", CTOR + [H + "HyperparameterLikelihood.posterior_predictive_resample"], cases=[dict(prior=p, conv=c) for (p, c) in ((True, "default"), (False, "user"), (True, "inplace"))], num_scale=0.2)
def predictive_resampling_any_events(S, prior, conv):
    """any number of events and of hyper-samples (the draws themselves at run time: predictive_resampling)"""
    D = deps.install_random(S)
    ckw, lam_of = convert(S, conv)
    posts = any_posteriors(S, prior)
    name = "lam0" if conv != "default" else "lam"
    xp = S.xp
    if S.symbolic:
        from engine import loops
        S.size("H")
        S.assume(S.size("H") >= 1)
        v = S.arr(name, ("H",), None)
        samples = loops.GenericSeq("H", lambda i: {name: loops.of_array(v).get(i)})
    else:
        samples = [{name: S.par("%s_%d" % (name, j), S.real(0.1, 2))} for j in range(S.choice("samples", [1, 2, 5]))]
        S.frame(samples, *samples)
    like = S.call(lambda: make(S, "HyperparameterLikelihood", posts, hyper_prior(S, "own" if S.symbolic else "function"), **ckw))
    if isinstance(like, Raised):
        S.ensure(like, 0.0, "construction")
    d, N, K = any_drawn(S, posts, like)
    if S.symbolic:
        one = any_terms(S, d, lam_of({name: loops.of_array(v).get(("L", "H@t0"))}), prior)[0]
        z = xp.sum(one, axis=-1)
        S.assume(loops.family(z, "H@t0") > 0)
        tot = xp.sum(loops.family((one.T / z).T, "H@t0"), axis=0)
    else:
        tot = 0
        for s in samples:
            one = any_terms(S, d, lam_of(s), prior)[0]
            z = one.sum(axis=-1)
            S.assume(np.all(z > 0))
            tot = tot + one / z[:, None]
    S.assume(xp.sum(tot, axis=-1) > 0)  # the number of hyper-samples: each contributes weights that sum to one
    probs = (tot.T / xp.sum(tot, axis=-1)).T
    got = S.call(lambda: like.posterior_predictive_resample(samples, return_weights=True))
    if isinstance(got, Raised):
        S.ensure(got, 0.0, "resampling")
    got, w = got
    S.ensure(w, probs, "weights are the normalised sums over hyper-samples")
    S.ensure_true(isinstance(got, dict) and set(got) == {"a", "b"}, "resamples every parameter")
    if S.symbolic:
        S.ensure_true(len(D.choices) == 1 and [sym.lane_size(l) for l in D.choices[0]["lanes"]] == ["N"], "one draw per event")
        c = D.choices[0]
        S.ensure_true(c["replace"] is True, "drawn with replacement")
        S.ensure_true(c["n"] == K.dim and c["dims"] == (K.dim,), "as many draws as samples")
        S.ensure(loops.family(c["p"], c["lanes"][0]), probs, "probability of each sample of every event")
        for k in ("a", "b"):
            S.ensure(got[k], loops.family(loops.of_array(d[k]).get(("L", c["lanes"][0]))[c["idx"]], c["lanes"][0]), "whole samples of the same event")
    else:
        for i in range(N):
            rows = {r: p for r, p in zip(zip(d["a"][i].tolist(), d["b"][i].tolist()), probs[i].tolist())}
            mine = list(zip(np.asarray(got["a"])[i].tolist(), np.asarray(got["b"])[i].tolist()))
            S.ensure_true(len(mine) == K, "as many draws as samples")
            S.ensure_true(all(r in rows for r in mine), "whole samples of the same event")
            S.ensure_true(all(rows[r] > 0 for r in mine if r in rows), "samples without weight are never drawn")


@contract("C11", [H + "HyperparameterLikelihood.posterior_predictive_resample"], cases=[dict(n=n, m=m, prior=p, conv=c, form=f) for (n, m, p, c, f) in (
    (1, 1, True, "default", "dict"), (2, 1, False, "user", "dict"), (2, 2, True, "user", "list"), (2, 1, True, "inplace", "dict"), (3, 2, False, "default", "list"), (2, 2, False, "inplace", "list"), (1, 3, True, "default", "list"))],
    bounded="number of events N in {1,2,3} and of hyper-samples M in {1,2,3}; any number of samples per event", num_scale=0.2)
def predictive_resampling(S, n, m, prior, conv, form):
    D = deps.install_random(S)
    ckw, lam_of = convert(S, conv)
    if S.symbolic:
        posts = posteriors(S, n, prior)
        names = ["lam0" if conv != "default" else "lam"]
    else:
        K = 400
        posts = [deps.frame(S, {k: np.array([dom(S.rng) for _ in range(K)]) for k, dom in (("a", S.real(0, 3)), ("b", S.real(-3, 3))) + ((("prior", S.logreal(0.1, 5)),) if prior else ())}, None, i) for i in range(n)]
        names = ["lam0" if conv != "default" else "lam"]
    like = S.call(lambda: make(S, "HyperparameterLikelihood", posts, hyper_prior(S), **ckw))
    drawn = deps.drawn(S, posts, like)
    samples = [{names[0]: S.par("%s_%d" % (names[0], j), S.real(0.1, 2))} for j in range(m)]
    arg = samples[0] if form == "dict" else list(samples)
    if not S.symbolic and form == "list" and S.choice("form", ["list", "frame"]) == "frame":
        import pandas as pd
        arg = pd.DataFrame(samples)
    S.frame(arg, *samples)
    xp = S.xp
    probs = []
    for i in range(n):
        tot = 0
        for s in samples:
            w = weights(S, [drawn[i]], lam_of(s), prior)[0]
            z = xp.sum(w, axis=-1)
            S.assume(z > 0)
            tot = tot + w / z
        probs.append(tot / m)
    ret = S.choice("return_weights", [True, False])
    got = S.call(lambda: like.posterior_predictive_resample(arg, return_weights=ret))
    if isinstance(got, Raised):
        S.ensure(got, 0.0, "resampling")
    if ret:
        S.ensure_true(isinstance(got, tuple) and len(got) == 2, "returns samples and weights")
        got, w = got
        S.ensure(w, sym.stack(probs) if S.symbolic else np.array(probs), "weights are the normalised sums over hyper-samples")
    S.ensure_true(isinstance(got, dict) and set(got) == {"a", "b"}, "resamples every parameter")
    if S.symbolic:
        S.ensure_true(len(D.choices) == n, "one draw per event")
        for i, c in enumerate(D.choices):
            S.ensure_true(c["replace"] is True, "drawn with replacement")
            S.ensure_true(c["n"] == drawn[i]["a"].node.dims[0] and c["dims"] == drawn[i]["a"].node.dims, "as many draws as samples")
            S.ensure(c["p"], probs[i], "probability of each sample of event %d" % i)
        for k in ("a", "b"):
            S.ensure(got[k], sym.stack([drawn[i][k][D.choices[i]["idx"]] for i in range(n)]), "whole samples of the same event")
    else:
        for i in range(n):
            rows = {tuple(r): q for r, q in zip(np.array([drawn[i]["a"], drawn[i]["b"]]).T.tolist(), probs[i])}
            mine = np.array([np.asarray(got[k])[i] for k in ("a", "b")]).T.tolist()
            S.ensure_true(all(tuple(r) in rows for r in mine), "whole samples of the same event")
            S.ensure_true(all(rows[tuple(r)] > 0 for r in mine if tuple(r) in rows), "samples without weight are never drawn")
            order = np.argsort(probs[i])
            hi = set(map(tuple, np.array([drawn[i]["a"], drawn[i]["b"]]).T[order[len(order) // 2:]].tolist()))
            P = float(sum(rows[r] for r in hi))
            cnt = sum(tuple(r) in hi for r in mine)
            n_draw = len(mine)
            S.ensure_true(n_draw == len(drawn[i]["a"]), "as many draws as samples")
            S.ensure_true(abs(cnt - n_draw * P) <= 7 * np.sqrt(n_draw * P * (1 - P)) + 1, "probability of each sample of event %d" % i, "expected %.1f draws of the likelier half, got %d" % (n_draw * P, cnt))


@contract("C11", [H + "HyperparameterLikelihood.generate_rate_posterior_sample", H + "RateLikelihood.generate_rate_posterior_sample"], cases=[dict(kind=k, sel=s) for k in KINDS for s in ("function", "injections")], num_scale=0.2)
def rate_samples(S, kind, sel):
    D = deps.install_random(S)
    eff = S.par("efficiency", S.logreal(0.01, 1), sign={1})
    vol = S.par("hypervolume", S.logreal(0.1, 100), sign={1})
    p = dict(lam=S.par("lam", S.real(0.1, 2)), rate=S.par("rate", S.logreal(0.1, 100), sign={1}))
    seen = []

    class Injections:
        def __call__(self, parameters):
            return eff * 2, 0.0

        def detection_efficiency(self, parameters):
            seen.append(parameters)
            return eff, 0.1

        def surveyed_hypervolume(self, parameters):
            seen.append(parameters)
            return vol
    fn = Injections() if sel == "injections" else (lambda q: eff * vol)
    like, d, N, K = any_state(S, kind, True, selection_function=fn)
    S.frame(p)
    got = S.call(lambda: like.generate_rate_posterior_sample(p))
    if kind == "RateLikelihood":
        S.ensure(got, SP.A(S, p["rate"]), "the sampled rate", shape=False)
        return
    vt = SP.A(S, eff) * SP.A(S, vol)
    if S.symbolic:
        S.ensure_true(len(D.gammas) == 1, "one Gamma deviate")
        S.ensure(D.gammas[0], N * 1.0, "shape is the number of events", shape=False)
        S.ensure(got, sym.var("#gamma0", (), {1}) / vt, "deviate divided by the sensitive hypervolume", shape=False)
    else:
        g = np.array([float(S.call(lambda: like.generate_rate_posterior_sample(p))) for _ in range(300)]) * float(vt)
        S.ensure_true(np.all(g > 0) and len(set(g)) > 250, "random positive deviates")
        S.ensure_true(abs(g.mean() - N) < 7 * np.sqrt(N / 300.0), "mean of the Gamma deviates is N", "mean %r N %r" % (g.mean(), N))
        S.ensure_true(abs(g.var() - N) < 7 * np.sqrt((2 * N ** 2 + 6 * N) / 300.0), "variance of the Gamma deviates is N", "var %r N %r" % (g.var(), N))
