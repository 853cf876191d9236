"""
Check runner: explores the harnesses of one property symbolically, replays every
counterexample on the unpatched code, writes the evidence file.

exit 0  the property held on everything explored (known findings are listed)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  inconclusive / error of the check
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
OUT = os.environ.get("VERIF_OUT") or os.path.join(ROOT, "out")
PY = "/opt/venv/bin/python"

LEVEL = "model_checking"


class Harness:
    """One symbolic driver.

    fn(ctx, cfg)   runs the real code on ctx's values and asserts with ctx.check/check_eq
    quick/thorough lists of configurations (dicts of JSON values)
    bounds         text, goes to the evidence
    known          id of a known finding this harness isolates (expected to fail)
    """

    def __init__(self, name, fn, quick, thorough=None, bounds="", opts=None, setup=None,
                 known=None, budget=400, validate=True, tol=1e-6):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick
        self.bounds = bounds
        self.opts = opts or {}
        self.setup = setup
        self.known = known
        self.budget = budget
        self.validate = validate
        self.tol = tol


def load(prop):
    return importlib.import_module("props." + prop.lower())


def find_harness(mod, name):
    for h in mod.HARNESSES:
        if h.name == name:
            return h
    raise KeyError(name)


# --------------------------------------------------------------------------
# symbolic side (worker process)


def _task(args):
    prop, hname, cfg, budget = args
    from vlib import env, symx
    mod = load(prop)
    h = find_harness(mod, hname)
    env.bind()
    funcs = set()
    state = {"first": True}

    def prof(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(env.REPO):
                funcs.add("%s:%s" % (os.path.relpath(fn, env.REPO), frame.f_code.co_qualname))

    def fn(ctx):
        with env.quiet():
            if h.setup:
                h.setup()
            env.bind()
            if state["first"] or len(ctx.prefix) % 7 == 0:
                state["first"] = False
                sys.setprofile(prof)
                try:
                    h.fn(ctx, cfg)
                finally:
                    sys.setprofile(None)
            else:
                h.fn(ctx, cfg)
    try:
        r = symx.explore(fn, h.opts, budget_s=budget)
    except BaseException as e:       # engine failure
        r = symx.Result()
        r.status = "inconclusive"
        r.reason = "engine error %r\n%s" % (e, traceback.format_exc()[-1500:])
    v = None
    if r.violation is not None:
        v = {"kind": r.violation.kind, "label": r.violation.label,
             "values": {k: str(x) for k, x in r.violation.values.items()},
             "detail": r.violation.detail[:2000]}
    st = r.stats.as_dict()
    return {"harness": hname, "cfg": cfg, "status": r.status, "reason": r.reason, "violation": v,
            "stats": st, "samples": r.samples, "wall": r.wall, "funcs": sorted(funcs)}


# --------------------------------------------------------------------------
# concrete replay (fresh process, unpatched code)


def replay_one(prop, hname, cfg, values):
    """-> (outcome, label, detail); outcome in ok|fail|exception|infeasible"""
    from vlib import env, symx
    mod = load(prop)
    h = find_harness(mod, hname)
    ctx = symx.ReplayCtx(values, tol=h.tol)
    try:
        with env.quiet():
            if h.setup:
                h.setup()
            h.fn(ctx, cfg)
    except symx.ReplayFail as e:
        return "fail", e.label, str(e)
    except symx.PathInfeasible:
        return "infeasible", "", ""
    except symx.EngineUnsupported as e:
        return "unsupported", "", str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d %s" % (f.filename, f.lineno, f.name) for f in tb[-4:]]
        return "exception", type(e).__name__, "%s: %s | %s" % (type(e).__name__, e, " < ".join(reversed(where)))
    return "ok", "", ""


def replay_main(path):
    with open(path) as f:
        rec = json.load(f)
    if rec.get("batch"):
        out = []
        for r in rec["batch"]:
            out.append(replay_one(rec["property"], r["harness"], r["cfg"], r["values"]))
        print("REPLAY-BATCH " + json.dumps(out))
        return 0
    o, label, detail = replay_one(rec["property"], rec["harness"], rec["cfg"], rec["values"])
    print("replay property=%s harness=%s cfg=%s" % (rec["property"], rec["harness"], json.dumps(rec["cfg"])))
    print("inputs: %s" % json.dumps({k: v for k, v in list(rec["values"].items())[:80]}))
    print("outcome: %s %s" % (o, detail))
    print("REPLAY %s %s" % (o, label))
    return 1 if o in ("fail", "exception") else 0


def run_replay(path):
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    p = subprocess.run([PY, "-B", os.path.join(ROOT, "check"), "--replay", path],
                       capture_output=True, text=True, timeout=600, env=e, cwd=ROOT)
    return p.stdout, p.stderr, p.returncode


# --------------------------------------------------------------------------


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--harness")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    if a.replay:
        return replay_main(a.replay)
    t0 = time.time()
    prop = a.prop
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    try:
        mod = load(prop)
    except Exception:
        # the code under test does not even import
        traceback.print_exc()
        print("INCONCLUSIVE property=%s harness import failed" % prop)
        return 2
    tasks = []
    total = 800 if tier == "quick" else 20000
    for h in mod.HARNESSES:
        if a.harness and h.name != a.harness:
            continue
        cfgs = h.quick if tier == "quick" else h.thorough
        if callable(cfgs):
            cfgs = cfgs(seed)
        for c in cfgs:
            tasks.append((prop, h.name, c, h.budget if tier == "quick" else 20 * h.budget))
    known = {h.name: h.known for h in mod.HARNESSES if h.known}
    results = []
    viol = None
    ctxmp = mp.get_context("fork")
    inconclusive = []
    kf_seen = {}
    kf_list = {k["id"]: k for k in known_findings() if k["property"] == prop}
    pool = ctxmp.Pool(min(a.jobs, max(1, len(tasks))), maxtasksperchild=1)
    try:
        it = pool.imap_unordered(_task, tasks)
        pool.close()
        for _ in range(len(tasks)):
            left = total - (time.time() - t0)
            try:
                r = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                inconclusive.append({"harness": "*", "cfg": {}, "reason": "wall budget"})
                break
            results.append(r)
            if a.v:
                print("%-28s %-44s %-12s paths=%d q=%d %.1fs %s" % (
                    r["harness"], json.dumps(r["cfg"])[:44], r["status"], r["stats"]["paths"],
                    r["stats"]["queries"], r["wall"], r["reason"][:1500]), flush=True)
            if r["status"] == "inconclusive":
                inconclusive.append(r)
                if a.v:
                    print(r["reason"])
            elif r["status"] == "violation":
                rec = {"property": prop, "harness": r["harness"], "cfg": r["cfg"],
                       "values": r["violation"]["values"], "kind": r["violation"]["kind"],
                       "label": r["violation"]["label"], "detail": r["violation"]["detail"]}
                path = os.path.join(OUT, "%s-%s-%d.json" % (prop, r["harness"], len(results)))
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
                so, se, rc = run_replay(path)
                last = [l for l in so.splitlines() if l.startswith("REPLAY ")]
                if a.v:
                    print("   counterexample: %s | %s" % (rec["label"], rec["detail"][:600]))
                    print("   " + "\n   ".join(so.splitlines()[-3:]))
                outc = last[-1].split()[1] if last else "error"
                if outc in ("fail", "exception"):
                    k = known.get(r["harness"])
                    if k and k in kf_list and kf_list[k]["outcome"] == " ".join(last[-1].split()[1:]):
                        kf_seen[k] = path
                    else:
                        viol = (path, r, so)
                        break
                else:
                    r["reason"] = "counterexample did not reproduce: %s %s %s %s" % (
                        rec["label"], rec["detail"][:300], so[-400:], se[-400:])
                    inconclusive.append(r)
    finally:
        pool.terminate()
        pool.join()

    # translation check: witness inputs of explored paths through the unpatched code
    validated = 0
    vfail = []
    if viol is None:
        batch = []
        for r in results:
            h = find_harness(mod, r["harness"])
            if not h.validate or r["status"] != "held":
                continue
            for s in r["samples"][:2]:
                batch.append({"harness": r["harness"], "cfg": r["cfg"], "values": s["inputs"]})
        batch = batch[:200]
        if batch:
            path = os.path.join(OUT, "%s-validate.json" % prop)
            with open(path, "w") as f:
                json.dump({"property": prop, "batch": batch}, f)
            so, se, rc = run_replay(path)
            got = [l for l in so.splitlines() if l.startswith("REPLAY-BATCH ")]
            if not got:
                vfail.append("validation run failed: " + se[-800:])
            else:
                for b, o in zip(batch, json.loads(got[-1][len("REPLAY-BATCH "):])):
                    if o[0] == "ok":
                        validated += 1
                    else:
                        vfail.append("%s %s: %s" % (b["harness"], json.dumps(b["cfg"]), o))

    agg = {"paths": 0, "decisions": 0, "queries": 0, "assertions": 0, "solver_s": 0.0, "unknown": 0,
           "infeasible": 0, "truncated": 0}
    reach = {}
    funcs = set()
    for r in results:
        for k in agg:
            agg[k] += r["stats"].get(k, 0)
        for k, n in r["stats"]["reach"].items():
            reach[r["harness"] + ":" + k] = reach.get(r["harness"] + ":" + k, 0) + n
        funcs.update(r["funcs"])
    # vacuity: every harness must have completed at least one path and every
    # witness the module requires must have been reached
    vac = []
    if viol is None:
        by = {}
        for r in results:
            by.setdefault(r["harness"], []).append(r)
        for hn, rs in by.items():
            if hn in known:
                continue
            if sum(x["stats"]["paths"] for x in rs) == 0 and all(x["status"] == "held" for x in rs):
                vac.append("no feasible path in " + hn)
            if sum(x["stats"]["assertions"] for x in rs) == 0 and all(x["status"] == "held" for x in rs):
                vac.append("no assertion reached in " + hn)
        if not a.harness:
            for w in getattr(mod, "WITNESSES", []):
                if not any(k == w or k.split(":", 1)[1] == w for k in reach):
                    vac.append("witness not reached: " + w)

    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "states": agg["paths"], "transitions": agg["decisions"],
            "traces_validated_against_impl": validated,
            "samples": [{"harness": r["harness"], "cfg": r["cfg"], "witness": s}
                        for r in results for s in r["samples"][:1]][:6] or [{"note": "no witness"}],
            "states_meaning": "feasible symbolic paths completed (each stands for all inputs with that outcome of "
                              "comparisons); transitions = symbolic branch decisions",
            "functions_encoded": sorted(funcs),
            "configurations": len(results),
            "bounds": {h.name: h.bounds for h in mod.HARNESSES},
            "assertions": agg["assertions"],
            "solver": "z3 (python API), path feasibility and assertion queries",
            "solver_queries": agg["queries"], "solver_seconds": round(agg["solver_s"], 2),
            "solver_unknown_branches": agg["unknown"], "paths_cut_at_loop_bound": agg["truncated"],
            "witnesses_reached": reach,
            "inconclusive": [{"harness": r["harness"], "cfg": r["cfg"], "reason": r["reason"][:300]} for r in inconclusive],
        },
        "assumptions": ["real arithmetic stands for IEEE doubles", "inputs within the ranges given in bounds"] +
        list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": 1 if viol else 0,
    }
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)

    for k, p in kf_seen.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kf_list[k]["what"], k))
    if viol:
        path, r, so = viol
        print("counterexample: harness=%s cfg=%s %s: %s" % (r["harness"], json.dumps(r["cfg"]), r["violation"]["label"],
                                                            r["violation"]["detail"][:800]))
        print(so.strip()[-1500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inconclusive:
        for r in inconclusive[:10]:
            print("INCONCLUSIVE property=%s harness=%s cfg=%s %s" % (prop, r["harness"], json.dumps(r["cfg"]), r["reason"][:1500]))
        return 2
    if vfail:
        for v in vfail[:10]:
            print("ENCODING-MISMATCH property=%s %s" % (prop, v))
        return 2
    if vac:
        for v in vac:
            print("VACUOUS property=%s %s" % (prop, v))
        return 2
    print("HELD property=%s tier=%s configs=%d paths=%d queries=%d assertions=%d validated=%d solver=%.1fs wall=%.1fs" % (
        prop, tier, len(results), agg["paths"], agg["queries"], agg["assertions"], validated, agg["solver_s"], wall))
    return 0
