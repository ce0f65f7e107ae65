"""Registrations by several processes at once, moved as spec/MCSerial.tla says (spec/TraceConc.tla).

Every process is a child of this one and does one call of its butler at a time, when it is told to.
One that waits for another (for the database) is left to itself until it answers.
"""
import json
import os
import select
import shutil
import signal
import time

from common import *  # noqa: F401,F403
import confs
import scen_reg
from scen_reg import Butler, Fault, EXCS, STYLES, content, fresh, calls, three
from lsst.daf.butler.registry import ConflictingDefinitionError

BLOCK = 0.35           # no answer for so long: it waits for another
STUCK = 80            # nobody gets on for so long


class Stepper(scen_reg.Injector):
    """Waits for leave before every step, and fails when told so."""

    def __init__(self, r, w):
        super().__init__(exc=Fault)
        self.r, self.w, self.hit = r, w, False

    def leave(self):
        os.write(self.w, b"s")
        c = os.read(self.r, 1)
        if not c:
            os._exit(3)
        if c in b"0123456789":
            self.hit = True
            raise EXCS[int(c) % len(EXCS)]("injected")

    def step(self, name, f, after=True):
        self.log.append(name)
        self.leave()
        return f()


class StepCM(scen_reg.CM):
    def __exit__(self, t, v, tb):
        if t is None:
            try:
                self.inj.leave()
            except BaseException as e:
                if not self.cm.__exit__(type(e), e, e.__traceback__):
                    raise
                return True
        return self.cm.__exit__(t, v, tb)


def child(path, descs, r, w, early):
    """Does one registration after the other, as it is told: a line of JSON, then leave after leave."""
    scen_reg.CM = StepCM
    b = Butler.from_config(path, writeable=True) if early else None
    os.write(w, b"r")
    f = os.fdopen(os.dup(r), "rb", buffering=0)
    kept = {}
    while True:
        line = f.readline()
        if not line:
            os._exit(0)
        op = json.loads(line)
        inj = Stepper(r, w)
        try:
            if b is None or op["new"]:
                b = Butler.from_config(path, writeable=True)
            m = kept.get(op["m"]) if op["used"] else None
            if m is None:
                m = kept[op["m"]] = confs.build(descs[op["m"]])
            m.register(op["name"], scen_reg.Proxy(inj, b, "butler"))
            err = []
        except BaseException as e:
            err = names(e) or [type(e).__name__]
        os.write(w, b"d" + (json.dumps(dict(err=err, hit=inj.hit, last=inj.log[-1:])) + "\n").encode())


class Proc:
    def __init__(self, path, descs, early):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.setitimer(signal.ITIMER_PROF, 0)
                os.close(w1)
                os.close(r2)
                for f in Proc.fds:
                    try:
                        os.close(f)
                    except OSError:
                        pass
                child(path, descs, r1, w2, early)
            except BaseException as e:
                os.write(2, ("child: " + repr(e) + "\n").encode())
            finally:
                os._exit(9)
        os.close(r1)
        os.close(w2)
        Proc.fds |= {r2, w1}
        self.r, self.w = r2, w1
        self.alive, self.busy, self.waits, self.op, self.steps = True, False, False, None, 0

    fds = set()

    def get(self, t):
        """What it answers: 's', 'd', 'r', '' (gone) or None (nothing yet)."""
        if not select.select([self.r], [], [], t)[0]:
            return None
        c = os.read(self.r, 1).decode()
        self.waits = False
        return c

    def result(self):
        s = b""
        while not s.endswith(b"\n"):
            c = os.read(self.r, 1)
            if not c:
                break
            s += c
        return json.loads(s)

    def kill(self):
        if self.alive:
            self.alive = False
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            for f in (self.r, self.w):
                os.close(f)
                Proc.fds.discard(f)


class Scene:
    def __init__(self, R, rng, descs):
        self.R, self.rng, self.descs = R, rng, descs
        self.style = rng.choice(STYLES)
        self.path = fresh()
        R("begin")
        self.ref = {}
        for k, d in descs.items():
            m = confs.build(d)
            self.ref[k] = m
            R("map", k=k, nums=[IL(t.getNumPatches(), 2) for t in m], sha=m.getSha1().hex())
        self.procs = []
        self.nops = 0

    def stuck(self, **kw):
        global STUCK
        STUCK = 5      # patient only once
        self.R("stuck", **kw)

    def close(self):
        for p in self.procs:
            p.kill()
        shutil.rmtree(self.path, ignore_errors=True)

    def start(self):
        p = Proc(self.path, self.descs, self.rng.random() < 0.6)
        self.procs.append(p)
        return p

    def call(self, p, m, name):
        self.nops += 1
        p.op, p.busy, p.steps = self.nops, True, 0
        name = self.style(name)
        self.R("call", p=p.op, m=m, name=name)
        os.write(p.w, (json.dumps(dict(m=m, name=name, new=self.rng.random() < 0.3, used=self.rng.random() < 0.4)) + "\n").encode())
        self.hear(p, BLOCK)

    def hear(self, p, t):
        """Takes an answer; True when there was one."""
        c = p.get(t)
        if c == "r":       # it has its butler (for which it may have to wait, too)
            c = p.get(t)
        if c is None:
            p.waits = True
            return False
        if c == "d":
            o = p.result()
            p.busy = False
            self.R("ret", p=p.op, err=o["err"], hit=o["hit"], last=o["last"])
        elif c == "":
            p.kill()
            p.busy = False
            self.R("crash", where="a registering process", ex="ended", loc="")
        return True

    def go(self, p, msg=b"g"):
        """One step; False when it does not come to an end."""
        if p.waits and not self.hear(p, 0):
            return False
        if not p.busy or not p.alive:
            return True
        p.steps += 1
        os.write(p.w, msg)
        return self.hear(p, BLOCK)

    def kill(self, p):
        if p.busy and p.alive:
            p.kill()
            p.busy = False
            self.R("end", p=p.op)

    def look(self, must=False):
        """Another process reads the repository; it may have to wait for a writer: then never mind."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.setitimer(signal.ITIMER_PROF, 0)
                try:
                    v = content(self.path, self.ref, None)
                except Exception as e:
                    v = repr(e)[:300]
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(v))
            finally:
                os._exit(0)
        os.close(w)
        s, end = b"", time.time() + (STUCK if must else 4)
        while time.time() < end:
            if select.select([r], [], [], max(0, end - time.time()))[0]:
                c = os.read(r, 65536)
                if not c:
                    break
                s += c
        else:
            s = None
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        if s is None:
            if must:
                self.stuck(what="reading")
            return
        v = json.loads(s)
        if isinstance(v, str):
            self.R("crash", where="reading the repository", ex=v, loc="")
        else:
            self.R("look", content=v[0], orphans=v[1])

    def finish(self):
        """Everybody gets on, until all are done."""
        t = time.time()
        while True:
            todo = [p for p in self.procs if p.alive and p.busy]
            if not todo:
                return True
            self.rng.shuffle(todo)
            for p in todo:
                if self.go(p):
                    t = time.time()
            if time.time() - t > STUCK:
                self.stuck(what="registering", who=[p.op for p in todo])
                for p in todo:
                    self.kill(p)
                return False


def steps(d):
    """How many steps a registration has, and how many before its transaction."""
    log = calls(d)
    b = [i for i, x in enumerate(log) if ".transaction" in x]
    return max(3, len(log)), b[0] if b else min(2, len(log))


def conc_unit(R, rng, case):
    descs = three(rng)
    S = Scene(R, rng, descs)
    try:
        N = {}
        for k in {o[0] for o in case["ops"]}:
            N[k] = steps(descs[k])
        procs = {}
        for p in range(1, len(case["ops"]) + 1):
            if rng.random() < 0.6:
                procs[p] = S.start()
        for p, what in case["sched"]:
            if p == 0:
                S.look()
                continue
            m, n = case["ops"][p - 1]
            if p not in procs:
                procs[p] = S.start()
            q = procs[p]
            if what == "idle":
                S.call(q, m, "name%d" % n)
            elif what == "fail":
                if rng.random() < 0.5:
                    S.kill(q)
                elif not q.waits:
                    S.go(q, b"%d" % rng.randrange(len(EXCS)))
                    while q.busy and S.go(q):
                        pass
            else:
                # how far in a registration of so many steps
                n0, b = N[m]
                at = {"type": b, "wtype": b, "begin": b + 1, "wbegin": b + 1, "sync": b + 2, "rows": rng.randint(b + 3, max(b + 3, n0 - 2)),
                      "put": n0 - 1, "commit": 10*n0}[what]
                at = min(at, n0 - 1) if what != "commit" else at
                if what == "type" and rng.random() < 0.2:
                    at = rng.randint(0, at)
                while q.busy and q.steps < at and S.go(q):
                    pass
        S.finish()
        S.look(True)
        # those that are left go on with the butlers they have, one after the other or together
        left = [p for p in S.procs if p.alive]
        for p in left:
            m, n = rng.choice(case["ops"])
            S.call(p, m, "name%d" % (n if rng.random() < 0.7 else rng.randint(1, 3)))
            if rng.random() < 0.5:
                S.finish()
        S.finish()
        S.look(True)
    finally:
        S.close()


def kind(case):
    """How two of its registrations meet: one is done while the other has begun but not come to its transaction."""
    out = set()
    first = {}
    for i, (p, what) in enumerate(case["sched"]):
        first.setdefault((p, what), i)
    for p, a in enumerate(case["ops"], 1):
        for q, b in enumerate(case["ops"], 1):
            if p != q:
                t, y = first.get((p, "type"), -1), first.get((p, "sync"), -1)
                c = first.get((q, "commit"), first.get((q, "sync"), -1))
                if 0 <= t < c < y:
                    out.add((a[0] == b[0], a[1] == b[1]))
    return tuple(sorted(out))


def suite_two(seed, tier, cases):
    cs = [json.loads(x) for x in open(cases)]
    r = rng_for(seed, "conc")
    r.shuffle(cs)
    by = {}
    for c in cs:
        by.setdefault(kind(c), []).append(c)
    # of each kind in turn
    pick, k = [], 36 if tier == "quick" else 400
    while len(pick) < min(k, len(cs)):
        for q in sorted(by, key=lambda q: (-len(q), q)):
            if by[q] and len(pick) < k:
                pick.append(by[q].pop())
    return [("processes %d" % i, conc_unit, (c,)) for i, c in enumerate(pick)]


suite_three = suite_two
