#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--jobs N] | --replay FILE

Generates the proof obligations of every contract of PROPERTY from /repo's
current source, discharges them, runs the run-time side of the same contracts,
and writes evidence/PROPERTY.json.  Exit 0: held; 1: VIOLATION line printed.
"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = "/opt/venv/bin/python"


class TaskTimeout(BaseException):
    pass


def _alarm(*a):
    raise TaskTimeout()


def init_worker():
    import resource

    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)  # what the code under test prints
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))  # runaway terms end as MemoryError, not as a killed worker
    sys.stdout = open(os.devnull, "w")
    from engine.boot import boot

    boot()


def budgets(tier):
    if tier == "thorough":
        return dict(sym=420.0, num_n=600, num_t=240.0, search_n=3000, search_t=240.0)
    return dict(sym=110.0, num_n=40, num_t=30.0, search_n=600, search_t=30.0)


def run_task(task):
    kind, name, ci, mode, tier, seed = task
    from engine import contract as K

    c = K.REGISTRY[name]
    case = c.cases[ci]
    b = budgets(tier)
    out = dict(kind=kind, name=name, case=case_text(case), ci=ci, mode=mode, funcs=c.funcs, bounded=c.bounded)
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    try:
        if kind == "sym":
            limit = c.opts.get("deadline", b["sym"])
            signal.setitimer(signal.ITIMER_REAL, limit * (2 if c.opts.get("modular") else 1) + 40 + 2 * b["search_t"], 2.0)
            r = None
            tries = [False, True] if c.opts.get("modular") else [True]
            for inline in tries:
                if r is not None and r["status"] == "limit":
                    break
                q = K.verify(c, case, mode, inline=inline, deadline=limit)
                if r is not None:
                    q["first_try"] = dict(status=r["status"], reason=r["reason"], failures=r["failures"][:1])
                    # keep the more telling one
                    if q["status"] not in ("proved", "failed") and r["status"] == "failed":
                        r["second_try"] = dict(status=q["status"], reason=q["reason"])
                        q = r
                r = q
                if r["status"] == "proved":
                    break
            out["verify"] = r
            if r["status"] == "failed" and c.opts["num"]:
                presets = [f["model"] for f in r["failures"] if f.get("model")]
                out["search"] = K.concrete(c, case, mode, seed, b["search_n"], presets, tier, b["search_t"])
        else:
            n = max(1, int(b["num_n"] * c.opts.get("num_scale", 1.0)))
            signal.setitimer(signal.ITIMER_REAL, 2 * b["num_t"] + 60, 2.0)
            out["num"] = K.concrete(c, case, mode, seed, n, (), tier, b["num_t"])
    except TaskTimeout:
        out["timeout"] = True
    except BaseException as e:  # noqa
        import traceback

        out["crash"] = "".join(traceback.format_exception(e))[-2000:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out["time"] = time.time() - t0
    return out


def case_text(case):
    return ", ".join("%s=%s" % kv for kv in case.items())


def replay(path):
    from engine.boot import boot

    boot()
    from engine import contract as K

    d = json.load(open(path))
    print(json.dumps({k: d[k] for k in d if k not in ("verifier_output",)}, indent=1)[:4000])
    f = d.get("failing_input")
    c = K.REGISTRY[d["contract"]]
    case = c.cases[d["case_index"]]
    if f:
        import warnings
        import numpy as np

        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        S = K.NumS(case, d["mode"], f["seed"], dict(f["preset"]) if f.get("preset") else None, d.get("tier", "quick"))
        try:
            K.run_case(S, c)
        except K.Fail as e:
            print("REPLAY: still fails: %s: %s" % (e.what, e.detail))
            return 1
        print("REPLAY: holds on this tree")
        return 0
    r = K.verify(c, case, d["mode"], inline=True)
    print("REPLAY: verifier says %s" % r["status"])
    for x in r["failures"]:
        print("  ", x["obligation"], x["detail"])
    return 1 if r["status"] == "failed" else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    budget = 660.0 if tier == "quick" else 3000.0
    from engine.boot import boot

    try:
        boot()
    except BaseException as e:  # noqa
        import traceback

        sys.exit(broken(a.prop, "".join(traceback.format_exception(e))[-3000:]))
    from engine import contract as K

    cs = [c for c in K.REGISTRY.values() if a.prop in c.props and (not a.only or a.only in c.name)]
    tasks = []
    for c in cs:
        for ci, case in enumerate(c.cases):
            for mode in c.modes:
                if c.opts["sym"]:
                    tasks.append(("sym", c.name, ci, mode, tier, seed))
                if c.opts["num"]:
                    tasks.append(("num", c.name, ci, mode, tier, seed))
    # run-time sides first: they are short, and a failing input found there ends the run early
    tasks.sort(key=lambda t: (t[0] == "sym", -K.REGISTRY[t[1]].opts.get("weight", 1.0)))
    results = []
    ctx = mp.get_context("spawn")
    pool = ctx.Pool(min(a.jobs, max(1, len(tasks))), initializer=init_worker)
    pending = [(t, pool.apply_async(run_task, (t,))) for t in tasks]
    deadline = t0 + budget
    grace = 45.0 if tier == "quick" else 600.0
    failing = False
    while pending and time.time() < deadline:
        left = []
        for t, p in pending:
            if not p.ready():
                left.append((t, p))
                continue
            r = p.get()
            results.append(r)
            if not failing and ((r.get("num") or {}).get("failure") or (r.get("search") or {}).get("failure")):
                failing = True  # a failing input is in hand: the rest is only detail
                deadline = min(deadline, time.time() + grace)
        if len(left) == len(pending):
            left[0][1].wait(0.05)
        pending = left
    unfinished = [t for t, p in pending]
    pool.terminate()
    sys.exit(report(a.prop, tier, seed, cs, results, unfinished, t0))


def report(prop, tier, seed, cs, results, unfinished, t0):
    from engine import trusted

    findings = load_findings(prop)
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    obligations = discharged = evaluations = distinct = checks = 0
    z3_calls = 0
    z3_time = sym_time = 0.0
    bounded, undis, funcs, proved_units, samples, violations, known = [], [], {}, [], [], [], []
    errors, notes = [], set()
    for r in results:
        unit = "%s[%s] (%s)" % (r["name"], r["case"], r["mode"])
        fail = None
        if "verify" in r:
            v = r["verify"]
            notes.update(v.get("notes", ()))
            if r["bounded"]:
                # every path is one execution of the real code on concrete values: bounded, never counted as proved
                evaluations += v["paths"]
                distinct += v["paths"]
                checks += v["obligations"]
            else:
                obligations += v["obligations"]
            z3_calls += v.get("z3_calls", 0)
            z3_time += v.get("z3_time", 0.0)
            sym_time += v["time"]
            if v["status"] == "proved" and r["bounded"]:
                bounded.append("%s: %s; %d executions, %d conditions" % (unit, r["bounded"], v["paths"], v["obligations"]))
                for f in r["funcs"]:
                    funcs.setdefault(f, set())
            elif v["status"] == "proved":
                discharged += v["obligations"]
                proved_units.append(unit)
                for f in r["funcs"]:
                    funcs.setdefault(f, set()).add(r["name"])
            elif v["status"] == "failed":
                s = r.get("search") or {}
                if s.get("failure"):
                    fail = (s["failure"], v)
                elif v.get("refuted", True):
                    fail = (None, v)
                else:
                    undis.append("%s: not discharged, numerically consistent: %s" % (unit, v["failures"][0]["obligation"]))
            else:
                undis.append("%s: %s (%s); the run-time contract check stands in" % (unit, v["status"], v["reason"][:300]))
        elif "num" in r:
            n = r["num"]
            evaluations += n["evaluations"]
            distinct += n.get("distinct", 0)
            checks += n["checks"]
            if n["samples"] and len(samples) < 6:
                samples.append(dict(contract=r["name"], case=r["case"], mode=r["mode"], inputs=n["samples"][0]))
            if n["failure"]:
                fail = (n["failure"], None)
            if n["error"]:
                errors.append("%s: %s" % (unit, n["error"]))
            from engine import contract as K

            c = K.REGISTRY[r["name"]]
            if not c.opts["sym"]:
                bounded.append("%s: %s" % (unit, c.bounded or "run-time contract check on %d seeded inputs" % n["evaluations"]))
                for f in r["funcs"]:
                    funcs.setdefault(f, set())
        elif r.get("timeout"):
            undis.append("%s: time limit (%s)" % (unit, r["kind"]))
        else:
            errors.append("%s: %s" % (unit, r.get("crash", "?")))
        if fail:
            inp, v = fail
            what = "%s.%s" % (r["name"], inp["what"]) if inp else v["failures"][0]["obligation"]
            k = next((x for x in findings if x["unit"] == unit and x["what"] == what), None)
            if k:
                known.append(k)
                continue
            path = os.path.join(HERE, "replay", "%s-%s-%d-%s-%s.json" % (prop, r["name"], r["ci"], r["mode"], "input" if inp else "obligation"))
            d = dict(property=prop, obligation=what, contract=r["name"], case_index=r["ci"], case=r["case"], mode=r["mode"], functions=r["funcs"], tier=tier, failing_input=inp, verifier_output=v and dict(status=v["status"], failures=v["failures"], obligations=v["obligations"], first_try=v.get("first_try"), second_try=v.get("second_try")), replay_cmd="%s check.py --replay %s" % (PY, path))
            json.dump(d, open(path, "w"), indent=1, default=str)
            violations.append((unit, what, path, inp))
    for t in unfinished:
        undis.append("%s[%d] (%s, %s): not finished within the time budget" % (t[1], t[2], t[3], t[0]))
    wall = time.time() - t0
    cov = dict(
        obligations=obligations, discharged=discharged, checker_cmd="%s check.py %s" % (PY, prop),
        trusted_base=trusted.BASE, evaluations=evaluations, distinct_nontrivial=distinct,
        rule="run-time side of the same contracts: seeded inputs inside the precondition, boundary values included; non-trivial = distinct input assignments accepted by the precondition",
        samples=samples, contract_checks_at_run_time=checks,
        functions_under_contract={k: sorted(v) for k, v in sorted(funcs.items())},
        backend="rational-function normaliser + z3 %s" % z3_version(), z3_calls=z3_calls, z3_seconds=round(z3_time, 2), prover_seconds=round(sym_time, 2),
        proved_units=len(proved_units), bounded_units=bounded, remarks=sorted(notes), undischarged=undis, errors=errors,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=trusted.LEVELS.get(prop, "proof"), coverage=cov, assumptions=trusted.ASSUMPTIONS + trusted.PER_PROPERTY.get(prop, []), wall_s=round(wall, 2), violations=len(violations))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d contracts, %d obligations, %d discharged, %d units proved, %d bounded, %d undischarged, %d run-time evaluations, %.1f s" % (prop, len(cs), obligations, discharged, len(proved_units), len(bounded), len(undis), evaluations, wall))
    for u in undis:
        print("  undischarged:", u[:400])
    for e in errors:
        print("  error:", e[-1200:])
    for k in known:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k["unit"], k["what"]))
    # inputs first
    violations.sort(key=lambda x: x[3] is None)
    shown = 0
    have_input = any(v[3] for v in violations)
    for unit, what, path, inp in violations:
        print("  failed: %s %s%s" % (unit, what, ": " + inp["detail"][:300] if inp else ""))
        if shown < 5 and (inp or not have_input):
            print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if inp else " no-failing-input-found"))
            shown += 1
    if violations:
        return 1
    if not obligations and not evaluations:
        return broken(prop, "nothing could be checked: " + "; ".join(errors + undis)[:3000])
    return 0


def broken(prop, why):
    """the code cannot even be loaded or no obligation can be generated from it"""
    os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "replay", "%s-load.json" % prop)
    json.dump(dict(property=prop, obligation="the modules under contract can be loaded and executed", verifier_output=why), open(path, "w"), indent=1)
    print(why)
    print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


def z3_version():
    try:
        import z3

        return z3.get_version_string()
    except Exception:
        return "?"


def load_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


if __name__ == "__main__":
    main()
