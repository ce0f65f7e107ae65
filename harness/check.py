#!/usr/bin/env python3
"""check.py PROPERTY: decides one property (see DESIGN.md)."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlc  # noqa: E402
from plan import PLAN, MODELS  # noqa: E402

PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = int(os.environ.get("VERIF_CPUS", "8"))


def findings():
    """Known findings: entries {property, match: {clause, ctx substring...}, what}."""
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return [x for x in json.load(f)["findings"]]


def is_known(prop, clause, ev, fs):
    for x in fs:
        if x["property"] == prop and clause in x["clauses"] and x["ctx"] == ev.get("ctx"):
            return x
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.lstrip("-").isdigit():
        seed = "1"
    t0 = time.time()
    plan = PLAN[prop]
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    env = dict(os.environ, VERIF_SEED=seed, VERIF_TIER=tier, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPATH=os.path.join(REPO, "python") + ":" + HERE, VERIF_REPO=REPO,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=tmp, XDG_CACHE_HOME=tmp)
    states = transitions = 0
    models, errors, fails, samples = [], [], [], []
    ctxs = set()
    nevents = 0
    ops = {}
    try:
        with cf.ThreadPoolExecutor(NCPU) as ex:
            # 1. the specification itself
            def model(name):
                m = MODELS[name]
                if m.get("lemmas"):
                    return name, m, tlc.lemmas(m["module"], m["lemmas"])
                cfg = m.get("cfg_" + tier, m["cfg"])
                r = tlc.run(m["module"] + ".tla", cfg, workers=m.get("workers", 2), timeout=m.get("timeout", 800),
                            heap=m.get("heap", "4g"), extra=[x.replace("{seed}", seed) for x in m.get("extra_" + tier, m.get("extra", ()))],
                            env={"VERIF_SEED": seed})
                return name, m, r
            mnames = plan.get("models_" + tier, plan.get("models", []))
            futs = {n: ex.submit(model, n) for n in mnames}

            def shard(suite, module, i, n, cases):
                out = os.path.join(tmp, "%s_%d.ndjson" % (suite.replace(":", "_"), i))
                cmd = [PY, "-B", os.path.join(HERE, "drv.py"), suite, "--out", out, "--shard", "%d/%d" % (i, n)]
                if cases:
                    cmd += ["--cases", cases]
                p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                   errors="replace", cwd=tmp, timeout=850 if tier == "quick" else 7200)
                if p.returncode != 0 or not os.path.exists(out):
                    return suite, out, None, "driver ended with %s: %s" % (p.returncode, p.stderr[-2000:])
                if os.path.getsize(out) == 0:
                    return suite, out, dict(fails=[], error=None, generated=0, distinct=0), None
                return suite, out, tlc.judge(module, out, timeout=850 if tier == "quick" else 7200), None

            # cases generated by TLC from the models
            casefiles = {}

            def cases_of(name):
                if name not in casefiles:
                    n, m, r = futs[name].result()
                    f = os.path.join(tmp, name + ".cases")
                    with open(f, "w") as fh:
                        for p in sorted(r["prints"]):
                            if p.startswith("CASE "):
                                fh.write(p[5:] + "\n")
                    casefiles[name] = f
                return casefiles[name]

            sf = []
            order = sorted(plan["suites"], key=lambda s: bool(s.get("cases")))
            for s in order:
                cases = cases_of(s["cases"]) if s.get("cases") else None
                n = s.get("shards_" + tier, s.get("shards", 8))
                for i in range(n):
                    sf.append(ex.submit(shard, s["suite"], s["module"], i, n, cases))
            for n, f in futs.items():
                n, m, r = f.result()
                if r["rc"] != 0:
                    errors.append("model %s: %s" % (n, r["out"][-1500:]))
                states += r["distinct"]
                transitions += r["generated"]
                models.append(dict(model=n, lemmas_for_all_integers=m["lemmas"], shown=r["distinct"]) if m.get("lemmas") else
                              dict(model=n, distinct=r["distinct"], generated=r["generated"]))
            for f in sf:
                suite, path, j, err = f.result()
                if err:
                    errors.append(suite + ": " + err)
                    continue
                with open(path) as fh:
                    evs = [json.loads(x) for x in fh]
                nevents += len(evs)
                states += j["distinct"]
                transitions += j["generated"]
                for e in evs:
                    ctxs.add((suite, e["ctx"]))
                    ops[e["op"]] = ops.get(e["op"], 0) + 1
                if evs and len(samples) < 6:
                    samples.append(evs[len(evs)//2])
                if j["error"]:
                    if j["error"]["timeout"]:
                        errors.append("TLC ran out of time on " + suite)
                    else:
                        ln = min(max(1, j["error"]["line"]), len(evs))
                        fails.append((["ANY.unjudgeable"], evs[ln - 1], suite, j["error"]["msg"]))
                for ln, cl in j["fails"]:
                    fails.append((cl, evs[ln - 1], suite, ""))
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    fs = findings()
    mine, known, others = [], {}, {}
    for cl, ev, suite, msg in fails:
        hit = [c for c in cl if c.split(".")[0] in [prop, "ANY"] + plan.get("also", [])]
        for c in cl:
            if c not in hit:
                others[c] = others.get(c, 0) + 1
        left = []
        for c in hit:
            x = is_known(prop, c, ev, fs)
            if x:
                known[x["id"]] = x
            else:
                left.append(c)
        if left:
            mine.append(dict(clauses=left, event=ev, suite=suite, msg=msg))
    for x in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
    cov = dict(states=states, transitions=transitions, traces_validated_against_impl=len(ctxs), samples=samples,
               events=nevents, events_by_kind=ops, models=models,
               clauses_of_other_properties_failing=others)
    ev = dict(property=prop, tier=tier, seed=int(seed), level="model_checking", coverage=cov,
              assumptions=["lsst.geom, lsst.afw.geom and lsst.pex.exceptions are stand-ins (harness/substrate), since the real "
                           "packages are not in the sandbox; the stand-in WCS agrees with astropy.wcs",
                           "observed executions only: what is not recorded is not judged"],
              wall_s=round(time.time() - t0, 2), violations=len(mine))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rc = 0
    if mine:
        rp = os.path.join(VERIF, "evidence", "replay_%s.json" % prop)
        with open(rp, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier,
                           rerun="VERIF_SEED=%s VERIF_TIER=%s bash check.sh %s" % (seed, tier, prop),
                           violations=mine[:50]), f, indent=1)
        agg = {}
        for m in mine:
            for c in m["clauses"]:
                agg[c] = agg.get(c, 0) + 1
        print("failing clauses:", json.dumps(agg))
        print("first:", json.dumps(mine[0])[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    if errors and rc == 0:
        print("ERROR", "\n".join(errors)[:4000])
        rc = 2
    print("%s %s: %d events in %d traces, %d states, %.1fs, rc=%d" % (prop, tier, nevents, len(ctxs), states,
                                                                   time.time() - t0, rc))
    sys.exit(rc)


main()
