#!/usr/bin/env python3
"""Is what the traces record also judged? Corrupts recorded events and looks which corruptions are rejected.

corrupt.py OUT PROPERTY... : records the traces of the properties' suites as check.sh does (VERIF_KEEP), then changes one
field of one event in each unit of a shard and lets TLC judge. OUT gets, for each (suite, op, field, kind of change), how
often it was rejected. Never used by a check.
"""
import collections
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))
import tlc  # noqa: E402
from plan import PLAN  # noqa: E402

ROUNDS = int(os.environ.get("ROUNDS", "6"))
JOBS = int(os.environ.get("JOBS", "6"))


def paths(v, p=()):
    """(general path, concrete path) of every place in a value."""
    if isinstance(v, dict):
        for k in v:
            if not p and k in ("op", "ctx"):
                continue
            yield from paths(v[k], p + (k,))
        return
    yield p
    if isinstance(v, list):
        for i, x in enumerate(v):
            yield from paths(x, p + (i,))


def gen(p):
    return ".".join("*" if isinstance(x, int) else x for x in p)


def get(v, p):
    for x in p:
        v = v[x]
    return v


def kinds(v):
    if isinstance(v, bool):
        return ["not"]
    if isinstance(v, int):
        return ["+1", "+1000"]
    if isinstance(v, str):
        return ["str"]
    if isinstance(v, list):
        r = []
        if v:
            r += ["drop", "twice"]
        if len(v) > 1 and v[0] != v[1]:
            r.append("swap")
        return r
    return []


def corrupt(ev, p, k):
    ev = json.loads(json.dumps(ev))
    o = get(ev, p[:-1])
    v = o[p[-1]]
    if k == "not":
        o[p[-1]] = not v
    elif k[0] == "+":
        o[p[-1]] = v + int(k)
    elif k == "str":
        o[p[-1]] = v + "x"
    elif k == "drop":
        v.pop()
    elif k == "twice":
        v.append(v[-1])
    else:
        v[0], v[1] = v[1], v[0]
    return ev


def one(rng, suite, module, evs, tmp, want):
    """A file with one corrupted event for each unit; which were rejected."""
    units = collections.OrderedDict()
    for i, e in enumerate(evs):
        units.setdefault(e["ctx"], []).append(i)
    out, marks = list(evs), {}
    for c, ix in units.items():
        best = None
        for _ in range(60):
            i = rng.choice(ix)
            ps = list(paths(evs[i]))
            if not ps:
                continue
            p = rng.choice(ps)
            ks = kinds(get(evs[i], p))
            if not ks:
                continue
            k = rng.choice(ks)
            key = (suite, evs[i]["op"], gen(p), k)
            n = want[key]
            if best is None or n < best[0]:
                best = (n, i, p, k, key)
            if n == 0:
                break
        if best:
            want[best[4]] += 1
            out[best[1]] = corrupt(evs[best[1]], best[2], best[3])
            marks[c] = (best[4], out[best[1]])
    f = os.path.join(tmp, "c%d.nd" % rng.getrandbits(40))
    with open(f, "w") as fh:
        for e in out:
            fh.write(json.dumps(e) + "\n")
    r = tlc.judge(module, f, timeout=600)
    os.unlink(f)
    last = len(out)
    hit = {out[n - 1]["ctx"] for n, _ in r["fails"]}
    if r["error"]:
        last = max(1, r["error"]["line"]) - 1
        if last < len(out):
            hit.add(out[last]["ctx"])
    seen = {out[j]["ctx"] for j in range(min(last + 1, len(out)))}
    return [(m[0], c in hit, m[1]) for c, m in marks.items() if c in seen]


def main():
    dst, props = sys.argv[1], sys.argv[2:] or sorted(PLAN)
    done = set()
    res = collections.defaultdict(lambda: [0, 0, None])
    for prop in props:
        if all(s["suite"] in done for s in PLAN[prop]["suites"]):
            continue
        p = subprocess.run(["bash", os.path.join(VERIF, "check.sh"), prop], env=dict(os.environ, VERIF_KEEP="1"),
                           stdout=subprocess.PIPE, text=True)
        d = re.search(r"^kept (.*)$", p.stdout, re.M).group(1)
        try:
            with cf.ThreadPoolExecutor(JOBS) as ex:
                fs = []
                want = collections.Counter()
                for s in PLAN[prop]["suites"]:
                    if s["suite"] in done:
                        continue
                    done.add(s["suite"])
                    for i in range(8):
                        t = os.path.join(d, "%s_%d.ndjson" % (s["suite"].replace(":", "_"), i))
                        if not os.path.exists(t) or not os.path.getsize(t):
                            continue
                        evs = [json.loads(x) for x in open(t)]
                        for r in range(ROUNDS):
                            fs.append(ex.submit(one, random.Random("%s %d %d" % (t, i, r)), s["suite"], s["module"], evs, d, want))
                for f in fs:
                    for key, hit, ev in f.result():
                        x = res[key]
                        x[0] += 1
                        x[1] += hit
                        if not hit:
                            x[2] = ev
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with open(dst, "w") as f:
            for k in sorted(res):
                n, h, ev = res[k]
                f.write("%-12s %-8s %-24s %-6s %d/%d %s\n" % (k + (h, n, "" if h else json.dumps(ev)[:700])))
        print(prop, len(res), flush=True)


main()
