"""Solver-based checks of copt.   run.py PNN [--tier quick|thorough] [--only CONFIG] [--replay FILE]

exit 0: every decided claim holds (undecided ones are listed as INCONCLUSIVE and in the evidence)
exit 1: a counterexample found by the solver fails on the real code (VIOLATION line)
exit 2: nothing could be decided
"""
import os
import sys

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("COPT_DATA_DIR", "/nonexistent/copt_data")
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and os.path.exists(VENV) and not os.environ.get("VP_REEXEC"):
    os.environ["VP_REEXEC"] = "1"
    os.execv(VENV, [VENV, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import argparse
import importlib
import json
import multiprocessing as mp
import re
import time
import traceback

EVDIR = os.path.join(HERE, "evidence")


def load_known(prop):
    ids, text = set(), {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+id=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == prop:
                ids.add(m.group(2))
                text[m.group(2)] = m.group(3)
    return ids, text


def child(conn, prop, cfg, known, tier):
    try:
        sys.setrecursionlimit(20000)
        from vp import harness
        conn.send(harness.run_config(prop, cfg, known, EVDIR, tier))
    except BaseException:
        conn.send({"name": cfg["name"], "crash": traceback.format_exc()})
    finally:
        conn.close()


def run_all(prop, cfgs, known, tier, jobs):
    ctx = mp.get_context("fork")
    # longest budget first
    todo = sorted(cfgs, key=lambda c: -c.get("budget", 60))
    live, done = [], []
    stop = False
    # the budgets of the configurations are CPU time; the whole quick run also has a wall limit
    start = time.time()
    limit = start + (600 if tier == "quick" else 100000)
    todo = [dict(c, wall_deadline=limit, budget=c.get("budget", 60) * (2 if tier == "quick" else 1)) for c in todo]
    while todo or live:
        while todo and len(live) < jobs and not stop:
            c = todo.pop(0)
            if time.time() > limit:
                done.append({"name": c["name"], "crash": "not started within the wall limit of the run"})
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, prop, c, known, tier))
            p.start()
            b.close()
            live.append((p, a, c, time.time()))
        nxt = []
        for p, a, c, t0 in live:
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"name": c["name"], "crash": "worker died (exit %s)" % p.exitcode}
                p.join(5)
                if p.is_alive():
                    p.kill()
                done.append(r)
                if r.get("violations"):
                    stop = True
            elif not p.is_alive() and not a.poll(0.1):
                done.append({"name": c["name"], "crash": "worker died (exit %s)" % p.exitcode})
            elif time.time() - t0 > c["budget"] * 4 + 60 or time.time() > limit + 90:
                p.kill()
                p.join(5)
                done.append({"name": c["name"], "crash": "killed after its time budget"})
            else:
                nxt.append((p, a, c, t0))
        live = nxt
        if stop:
            for p, a, c, t0 in live:
                p.kill()
                p.join(5)
            break
        if not live and not todo:
            break
        time.sleep(0.01)
    return done


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    t0 = time.time()
    prop, tier = args.prop, args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("harnesses." + prop.lower())
    cfgs = mod.configs(tier)
    if args.only:
        cfgs = [c for c in cfgs if re.search(args.only, c["name"])]
    if args.replay:
        from vp import harness
        rec = json.load(open(args.replay))
        allc = {c["name"]: c for t in ("quick", "thorough") for c in mod.configs(t)}
        c = allc[rec["config"]]
        out = harness.replay(c["fn"], c["params"], rec["values"], rec["logs"])
        bad = [l for l, ok in out["results"] if not ok]
        print("inputs:", json.dumps(rec["values"]))
        print("error:", out["error"], "\nfailed claims:", bad)
        sys.exit(1 if (out["error"] or bad) else 0)
    names = [c["name"] for c in cfgs]
    assert len(set(names)) == len(names), "duplicate configuration names"
    known, ktext = load_known(prop)
    jobs = args.jobs or min(8, os.cpu_count() or 4)
    done = run_all(prop, cfgs, known, tier, jobs)
    ok = [d for d in done if "crash" not in d]
    crashed = [d for d in done if "crash" in d]
    violations = [v for d in ok for v in d["violations"]]
    S = lambda k: sum(d[k] for d in ok)
    decided = S("discharged") + S("trivial")
    wall = time.time() - t0
    incon = []
    for d in ok:
        if d["unknown"]:
            incon.append("%s: %d claim queries unknown" % (d["name"], d["unknown"]))
        if d["unsupported"]:
            incon.append("%s: %d paths outside the encoding (%s)" % (d["name"], sum(d["unsupported"].values()),
                                                                   "; ".join(list(d["unsupported"])[:2])))
        if not d["finished"] and not d["violations"]:
            incon.append("%s: exploration not finished, %d paths done (%s)" % (d["name"], d["paths"], "; ".join(d["notes"][-2:])))
        if d["unreproduced"]:
            incon.append("%s: solver counterexample did not reproduce on the real code: %s" % (d["name"], d["unreproduced"][:1]))
        if d["paths"] == 0 or d["trivial"] + d["discharged"] + d["unknown"] == 0:
            if not d["violations"] and not d["known_hits"]:
                incon.append("%s: VACUOUS, no path reached a claim" % d["name"])
    for d in crashed:
        incon.append("%s: %s" % (d["name"], d["crash"].strip().splitlines()[-1] if not args.v else d["crash"]))
    hits = {}
    for d in ok:
        for h in d["known_hits"]:
            hits.setdefault(h["id"], h)
    level = getattr(mod, "LEVEL", "model_checking")
    functions = sorted({f for d in ok for f in d["functions"]})
    samples = []
    for d in ok:
        if d.get("witness") and len(samples) < 6:
            samples.append(dict(configuration=d["name"], **d["witness"]))
    if not samples:
        samples = [dict(configuration=d["name"], claims=list(d["labels"])) for d in ok[:3]]
    cov = dict(
        states=S("paths"), transitions=S("decisions"), traces_validated_against_impl=S("validated"), samples=samples,
        explanation="Symbolic execution of the current source of /repo/copt; a state is one feasible execution path of a "
                    "harness configuration (a set of inputs described by its path condition), a transition one branch "
                    "decision on symbolic data; every claim is decided for all values on the path: by a z3 query "
                    "(claims_discharged), by z3's rewriter, by expansion of both sides to the same rational function, or, when "
                    "no symbolic value is left in it, by evaluation. Validated traces "
                    "are solver models of whole paths re-run on the real package with the same outcome.",
        functions_encoded=functions,
        configurations=[dict(name=d["name"], bounds=d["bounds"], paths=d["paths"], claims={k: dict(
            zip(("held", "unknown", "violated"), v[:3])) for k, v in d["labels"].items()},
            finished=d["finished"], cut=d["cuts"], queries=d["queries"], branch_queries=d["branch_queries"],
            solver_s=round(d["solver_s"], 2), wall_s=round(d["wall"], 2), validated=d["validated"],
            vacuous_paths=d["vacuous_paths"], validation_mismatches=len(d["mismatch"])) for d in ok],
        claim_queries=S("queries"), claims_discharged=S("discharged"), 
        claims_by_z3_rewriting=S("rewritten"), claims_by_rational_normal_form=S("identities"),
        claims_on_concrete_values=S("trivial") - S("rewritten") - S("identities"),
        claims_unknown=S("unknown"), branch_queries=S("branch_queries"), solver_s=round(S("solver_s"), 2),
        validation_mismatches=[m for d in ok for m in d["mismatch"]][:5],
        inconclusive=incon, known_findings=sorted(hits),
        exhaustive=bool(not incon and not any(d["cuts"] for d in ok)),
    )
    if level == "other":
        pass
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "Arithmetic is exact real arithmetic extended with inf/nan for concrete specials; rounding is outside the claim.",
                  "numpy/scipy primitives are modelled by their documented elementwise contracts (vp/symnp.py)."],
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(EVDIR, exist_ok=True)
    if not args.only:
        with open(os.path.join(EVDIR, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d configurations, %d paths, %d claims discharged by solver queries (+%d by z3 rewriting, %d as identities, %d concrete), %d unknown, "
          "%d traces validated (%d mismatches), solver %.1fs, wall %.1fs" % (
              prop, tier, len(ok), S("paths"), S("discharged"), S("rewritten"), S("identities"), S("trivial") - S("rewritten") - S("identities"), S("unknown"), S("validated"),
              sum(len(d["mismatch"]) for d in ok), S("solver_s"), wall))
    if args.v:
        for d in ok:
            print("  ", d["name"], "paths", d["paths"], "disch", d["discharged"], "triv", d["trivial"], "unk", d["unknown"],
                  "val", d["validated"], "mism", d["mismatch"][:2], "cuts", d["cuts"], "solver %.1f wall %.1f" % (d["solver_s"], d["wall"]),
                  "" if d["finished"] else "UNFINISHED", d["notes"][:3], d["vacuous_paths"] or "")
    for s in incon:
        print("INCONCLUSIVE:", s[:600])
    for i in sorted(hits):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, ktext.get(i, hits[i]["what"]), i))
    for i in sorted(known - set(hits)):
        if not args.only and not violations:
            print("note: listed finding not observed in this run: %s" % i)
    seen = set()
    for v in violations:
        if v["id"] in seen:
            continue
        seen.add(v["id"])
        print("counterexample [%s] %s" % (v["id"], v["what"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if violations:
        sys.exit(1)
    if decided == 0 and not hits:
        print("nothing decided")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
