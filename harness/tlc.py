"""Running TLC: model checking, and judging recorded traces."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run(module, cfg, env=None, workers=1, heap="2g", timeout=800, extra=(), tool_opts=()):
    """-> dict(rc, out, generated, distinct, prints, error)"""
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta] + list(tool_opts) + [
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg] + list(extra) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = -1, (x.stdout.decode("utf-8", "replace") if isinstance(x.stdout, bytes) else x.stdout or "") + "\nTIMEOUT"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"The number of states generated: (\d+)", out)     # simulation mode
    if m:
        gen = dist = int(m[-1])
    prints = [unq(l) for l in out.splitlines() if l.startswith('"')]
    return dict(rc=rc, out=out, generated=gen, distinct=dist, prints=prints)


def unq(line):
    try:
        return json.loads(line)
    except Exception:
        return line.strip('"').replace('\\"', '"').replace("\\\\", "\\")


def judge(module, trace, timeout=800):
    """Judge a trace file. -> dict(fails=[(line no, [clauses])], ok, error, generated, distinct)"""
    r = run(module + ".tla", module + ".cfg", env={"TRACE": trace}, workers=1, heap="3g", timeout=timeout)
    fails = []
    for p in r["prints"]:
        if p.startswith("FAIL "):
            _, n, rest = p.split(" ", 2)
            fails.append((int(n), json.loads(rest)))
    err = None
    if r["rc"] != 0:
        # the specification could not even evaluate an event: find which
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", r["out"], re.M)
        msg = re.findall(r"Error: (.*(?:\n.+){0,6})", r["out"])
        err = dict(line=int(ls[-1]) if ls else 0, msg=(" | ".join(msg))[:1500] or r["out"][-1500:],
                   timeout=r["rc"] == -1)
    return dict(fails=fails, error=err, generated=r["generated"], distinct=r["distinct"], out=r["out"])


def lemmas(module, invs, timeout=300):
    """Have Apalache show invariants of the choices of Init for integers of any size. -> as run()"""
    out = ""
    for attempt in range(2):        # again if the tool, not the lemma, fails
        d = tempfile.mkdtemp(prefix="apalache")
        try:
            for f in os.listdir(SPEC):
                if f.endswith(".tla"):
                    shutil.copy(os.path.join(SPEC, f), d)
            e = dict(os.environ, JVM_ARGS="-Xmx2g -Djava.io.tmpdir=" + d, HOME=d, TMPDIR=d)
            p = subprocess.run(["apalache-mc", "check", "--length=0", "--inv=" + ",".join(invs), "--out-dir=" + d + "/out",
                                module + ".tla"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = -1, "TIMEOUT of apalache-mc"
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc in (0, 12):
            break
    n = len(re.findall(r"state invariant \d+ holds", out))
    if rc == 0 and n < len(invs):
        rc, out = 1, "only %d of %d lemmas shown: %s" % (n, len(invs), out[-1500:])
    return dict(rc=rc, out=out, generated=n, distinct=n, prints=[])
