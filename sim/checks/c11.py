"""C11: the same input gives the same result in every process and at any time."""
import json
import os
import subprocess
import sys

from .. import prog
from ..core import Violation, Invalid, VERIF
from .base import Base
from .c05 import REAL
from .c10 import brief

HASH = (1, 77, 4242)
ZYGOTES = {}


def ask(variant, req):
    """One process of the given variant."""
    key = (os.getpid(), variant)
    z = ZYGOTES.get(key)
    if z is None:
        env = dict(os.environ, PYTHONHASHSEED=str(HASH[variant]))
        z = ZYGOTES[key] = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "sim.child", str(variant)], cwd=VERIF, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    z.stdin.write(json.dumps(req).encode("utf-8") + b"\n")
    z.stdin.flush()
    line = z.stdout.readline()
    if not line:
        raise RuntimeError("the process server died")
    return json.loads(line.decode("utf-8"))


class C11(Base):
    id = "C11"
    runs = {"quick": 360, "thorough": 20000}
    rule = ("seeded programs (load, query, convert, shift, save, reload, regenerate, draw), performed by three processes with different hash seeds, random identifiers, clocks, import orders, "
            "directories and histories: in another order, repeated, interleaved call by call with others, after programs whose storage failed or which were given up half-way; all results of a "
            "program are compared exactly; non-trivial: a program performed in two processes with different histories")
    measure = "distinct (programs, histories) signatures"
    real = REAL + ["gerber.ipc356", "gerber.layers", "gerber.pcb", "gerber.render.*", "interpreter processes (forked from three interpreters with different hash seeds)"]
    stub = ["raw file (simulated)", "uuid4 and random (seeded per process)", "the clock (shifted per process)"]
    assumptions = ["SVG identifiers (process-wide counter of libcairo) are normalised", "sets are compared as sets"]
    run_limit = 150

    def generate(self, rng, tier, i):
        n = rng.choice((2, 4, 8, 16))
        focus = rng.choice((None, None, None, "macro", "guess"))
        ps = [prog.gen(rng, render=0.08, focus=focus) for _ in range(n)]
        for k in range(1, n):
            if rng.random() < 0.35:
                ps[k] = prog.twin(rng, ps[rng.randrange(k)])
        procs = []
        for v in range(3):
            steps = []
            order = list(range(n))
            if v:
                rng.shuffle(order)
            for k in order:
                q = rng.random()
                if v and q < 0.15:
                    steps.append(["fault", rng.randrange(n), [{"op": rng.choice(("open", "read", "write", "close", "mktemp")), "n": rng.choice((1, 1, 2, 3)), "kind": rng.choice(("EIO", "ENOSPC", "EACCES"))}]])
                elif v and q < 0.3:
                    steps.append(["stop", rng.randrange(n), rng.randint(1, 4)])
                elif q < 0.35:
                    steps.append(["gc"])
                if v and rng.random() < 0.25:
                    steps.append(["both", k, rng.randrange(n)])
                else:
                    steps.append(["run", k])
            procs.append({"variant": v, "uuid": rng.randint(0, 999), "clock": rng.choice((0, 3600, -86400 * 400, 86400 * 9000)), "steps": steps, "long": rng.randint(0, 30) if v else 0,
                          "same": int(rng.random() < 0.4)})
        return {"programs": ps, "procs": procs}

    def execute(self, sc, ctx):
        ps = sc["programs"]
        if not ps:
            raise Invalid("no program")
        for p in ps:
            prog.check(p) if p["kind"] != "board" else [prog.check(f) for f in p["files"].values()]
        seen = {}
        ctx.sig += [[prog.shape(p) for p in ps]]
        for q, pr in enumerate(sc["procs"]):
            d = os.path.join(ctx.scratch, "p%d" % q + "x" * pr["long"])
            os.makedirs(d)
            r = ask(pr["variant"], {"programs": ps, "steps": pr["steps"], "uuid": pr["uuid"], "clock": pr["clock"], "same": pr["same"], "dir": d})
            if "error" in r:
                raise Violation("process", "process %d: %s" % (q, r["error"]))
            for st in pr["steps"]:
                if st[0] in ("fault", "stop"):
                    ctx.fault("storage fault before" if st[0] == "fault" else "given up half-way before")
            ctx.stat("programs performed", len(r["ok"]))
            for n, (k, out) in enumerate(r["ok"]):
                ctx.log(q, k, out)
                if k not in seen:
                    seen[k] = (q, n, out)
                    continue
                q0, n0, want = seen[k]
                if q != q0:
                    ctx.nontrivial = True
                for m, (a, b) in enumerate(zip(out, want)):
                    if a != b:
                        raise Violation("different", "program %d (%s), call %d (%s): %s as number %d of process %d, but %s as number %d of process %d" % (
                            k, ps[k]["kind"], m, a[0], brief(a[1], b[1]), n, q, brief(b[1], a[1]), n0, q0))
                if len(out) != len(want):
                    raise Violation("different", "program %d: %d calls instead of %d" % (k, len(out), len(want)))
            ctx.sig.append([pr["variant"], [s[0] for s in pr["steps"]]])


CHECK = C11()
