#!/usr/bin/env python3
"""Mutation campaign: single-site changes of lsst/skymap, judged by the suites (never used by a check).

campaign.py OUT.jsonl [--sample N] [--seed S] [--files a.py,b.py]
Needs the case files of the models: made on the first run in OUT's folder.
"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))
import tlc  # noqa: E402
from plan import PLAN, MODELS  # noqa: E402

KNOWN = {x["ctx"] for x in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]}
PKG = "/repo/python/lsst/skymap"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult}


def mutants(path):
    """(description, source) of every single-site mutant."""
    src = open(path).read()
    tree = ast.parse(src)
    docs = set()
    for n in ast.walk(tree):
        b = getattr(n, "body", None)
        if isinstance(b, list):
            for s in b:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    docs.add(id(s.value))
                    docs.add(id(s))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, "id", "") == "__name__":
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.keyword) and n.arg in ("doc", "reason"):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                skip |= {id(x) for x in ast.walk(d)}
    out = []

    def emit(node, what, undo):
        try:
            s = ast.unparse(tree)
        except Exception:
            undo()
            return
        undo()
        out.append(("%s:%d %s" % (os.path.basename(path), node.lineno, what), s))

    for n in list(ast.walk(tree)):
        if id(n) in skip or id(n) in docs:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                r = CMP.get(type(o))
                if r:
                    old = n.ops[i]
                    n.ops[i] = r()
                    emit(n, "%s -> %s" % (type(o).__name__, r.__name__), lambda: n.ops.__setitem__(i, old))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            r = BIN.get(type(n.op))
            if r and not (isinstance(n, ast.BinOp) and isinstance(n.left, (ast.Constant, ast.JoinedStr))
                          and isinstance(getattr(n.left, "value", None), str)):
                old = n.op
                n.op = r()
                emit(n, "%s -> %s" % (type(old).__name__, r.__name__), lambda: setattr(n, "op", old))
        elif isinstance(n, ast.BoolOp):
            old = n.op
            n.op = ast.Or() if isinstance(old, ast.And) else ast.And()
            emit(n, "and/or", lambda: setattr(n, "op", old))
        elif isinstance(n, ast.UnaryOp):
            old = n.op
            if isinstance(old, ast.USub):
                n.op = ast.UAdd()
                emit(n, "drop minus", lambda: setattr(n, "op", old))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not Ellipsis and n.value is not None:
            old = n.value
            for v in ([not old] if isinstance(old, bool) else [old + 1, old - 1] if isinstance(old, int) else [old*0.5, old*1.01]):
                n.value = v
                emit(n, "%r -> %r" % (old, v), lambda: setattr(n, "value", old))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            old = n.test
            n.test = ast.UnaryOp(ast.Not(), old)
            emit(n, "negate condition", lambda: setattr(n, "test", old))
            if isinstance(n, ast.If):
                n.test = ast.Constant(False)
                emit(n, "if False", lambda: setattr(n, "test", old))
        elif isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            old = n.type
            for i in range(len(old.elts)):
                n.type = ast.Tuple([e for j, e in enumerate(old.elts) if j != i], ast.Load())
                emit(n, "drop except %d" % i, lambda: setattr(n, "type", old))
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if id(s) in docs or id(s) in skip:
                        continue
                    if isinstance(s, (ast.Expr, ast.AugAssign)) or isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Attribute, ast.Subscript)):
                        b[i] = ast.Pass()
                        ast.copy_location(b[i], s)
                        emit(s, "delete statement", lambda: b.__setitem__(i, s))
                    if isinstance(s, ast.Return) and s.value is not None:
                        old = s.value
                        s.value = ast.Constant(None)
                        emit(s, "return None", lambda: setattr(s, "value", old))
        if isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) \
                and ast.unparse(n.args[0]) != ast.unparse(n.args[1]):
            a, b2 = n.args
            n.args = [b2, a]
            emit(n, "swap arguments", lambda: setattr(n, "args", [a, b2]))
    return out


ORDER = {
    "tractBuilder.py": ["C01", "C15", "C16", "C08", "C05", "C27"], "tractInfo.py": ["C01", "C15", "C16", "C18", "C19", "C05", "C09", "C28", "C25", "C23"],
    "patchInfo.py": ["C01", "C19", "C28", "C17", "C05"], "cellInfo.py": ["C01", "C19", "C28"],
    "ringsSkyMap.py": ["C10", "C12", "C13", "C17", "C06", "C08", "C27", "C18", "C25"], "baseSkyMap.py": ["C14", "C12", "C17", "C08", "C27", "C28", "C24", "C05", "C09", "C18"],
    "cachingSkyMap.py": ["C06", "C07", "C10"], "discreteSkyMap.py": ["C26", "C27", "C08"], "dodecaSkyMap.py": ["C26", "C14", "C07", "C08", "C27", "C06", "C25"],
    "equatSkyMap.py": ["C26", "C14", "C07", "C08", "C27", "C06", "C25"], "healpixSkyMap.py": ["C26", "C14", "C08", "C27", "C25"], "packers.py": ["C21"],
    "wcsFactory.py": ["C18", "C27"], "utils.py": ["C19", "C26", "C20", "C14"], "dodecahedron.py": ["C20", "C26", "C14"],
    "skyMapRegistry.py": ["C27"], "__init__.py": ["C27"],
}


def suites(f):
    seen = []
    for p in ORDER[f] + [p for p in PLAN if p not in ORDER[f]]:
        for s in PLAN[p]["suites"]:
            if s not in seen:
                seen.append(s)
    return seen


def judge(desc, src, f, work, cases, stable, maxsuites):
    rel = next(os.path.relpath(os.path.join(d, f), "/repo") for d, _, fs in os.walk(PKG) if f in fs)
    w = tempfile.mkdtemp(prefix="mut_", dir=work)
    try:
        shutil.copytree("/repo/python", os.path.join(w, "python"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(w, rel), "w").write(src)
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_REPO=w,
                   PYTHONPATH=os.path.join(w, "python") + ":" + os.path.join(VERIF, "harness"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   HOME=w, XDG_CACHE_HOME=w)
        if f == "packers.py":
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "skymap_no_init", "/repo/tests/test_packers.py"],
                               env=dict(env, PYTHONPATH=w + "/python:/repo/tests:/opt/vp/support"), cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return dict(mutant=desc, killed="stable tests", clauses=[])
        n = 0
        ss = suites(f)[:maxsuites]
        for s, i in [(s, 0) for s in ss] + [(s, i) for s in ss for i in range(1, 8)]:
            if True:
                out = os.path.join(w, "t.nd")
                cmd = ["/opt/venv/bin/python", "-B", os.path.join(VERIF, "harness/drv.py"), s["suite"], "--out", out, "--shard", "%d/8" % i]
                if s.get("cases"):
                    cmd += ["--cases", os.path.join(cases, s["cases"] + ".cases")]
                try:
                    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=w, timeout=400)
                except subprocess.TimeoutExpired:
                    return dict(mutant=desc, killed=s["suite"], clauses=["TIMEOUT driver"])
                if p.returncode:
                    return dict(mutant=desc, killed=s["suite"], clauses=["DRIVER ERROR " + p.stderr[-300:]])
                if os.path.getsize(out) == 0:
                    continue
                r = tlc.judge(s["module"], out, timeout=400)
                if r["error"]:
                    return dict(mutant=desc, killed=s["suite"], clauses=["UNJUDGEABLE " + r["error"]["msg"][:300]])
                if r["fails"]:
                    evs = [json.loads(x) for x in open(out)]
                c = sorted({x for ln, cl in r["fails"] for x in cl if evs[ln - 1].get("ctx") not in KNOWN})
                if c:
                    return dict(mutant=desc, killed=s["suite"], shard=i, clauses=c[:8])
                n += 1
        return dict(mutant=desc, killed=None, clauses=[])
    except Exception as e:
        return dict(mutant=desc, killed="?", clauses=["ERROR %r" % e])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files", default="")
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--suites", type=int, default=12)
    a = ap.parse_args()
    d = os.path.dirname(os.path.abspath(a.out))
    cases = os.path.join(d, "cases")
    os.makedirs(cases, exist_ok=True)
    for name in {s["cases"] for p in PLAN.values() for s in p["suites"] if s.get("cases")}:
        f = os.path.join(cases, name + ".cases")
        if not os.path.exists(f):
            m = MODELS[name]
            r = tlc.run(m["module"] + ".tla", m["cfg"], workers=4, extra=[x.replace("{seed}", "1") for x in m.get("extra", ())], env={"VERIF_SEED": "1"})
            with open(f, "w") as fh:
                for x in sorted(r["prints"]):
                    if x.startswith("CASE "):
                        fh.write(x[5:] + "\n")
    todo = []
    for dd, _, fs in os.walk(PKG):
        for f in sorted(fs):
            if f.endswith(".py") and f != "version.py" and (not a.files or f in a.files.split(",")):
                todo += [(desc, src, f) for desc, src in mutants(os.path.join(dd, f))]
    random.Random(a.seed).shuffle(todo)
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(x)["mutant"] for x in open(a.out)}
    if a.sample:
        todo = todo[:a.sample]
    todo = [t for t in todo if t[0] not in done]
    print(len(todo), "mutants", flush=True)
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as fh:
        for r in cf.as_completed([ex.submit(judge, desc, src, f, d, cases, None, a.suites) for desc, src, f in todo]):
            fh.write(json.dumps(r.result()) + "\n")
            fh.flush()


if __name__ == "__main__":
    main()
