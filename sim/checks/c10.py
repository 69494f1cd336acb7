"""C10: threads working on different documents never affect one another."""
import os

from .. import ghist, prog, sched, world, xhist
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL



def gen_slices(rng, n):
    style = rng.random()
    if style < 0.25:
        # strict alternation with short slices
        k = rng.choice((1, 1, 2, 3, 7))
        return [[t, k] for t in range(n)]
    if style < 0.5:
        # few preemptions at arbitrary depths
        out = []
        for _ in range(rng.randint(1, 4)):
            out.append([rng.randrange(n), int(10 ** rng.uniform(0.5, 4))])
            out.append([rng.randrange(n), rng.choice((50, 500, 5000, 50000))])
        return out
    m = rng.choice((3, 20, 100, 1000))
    return [[rng.randrange(n), rng.randint(1, m)] for _ in range(rng.choice((5, 20, 60)))]


class C10(Base):
    id = "C10"
    runs = {"quick": 1500, "thorough": 60000}
    rule = ("two to four threads, each with its own seeded program (load, query, convert, shift, save, reload, regenerate, draw a Gerber, drill file, netlist or board), or all querying one "
            "document, under seeded schedules that switch at source lines (anywhere, or wherever lines of a chosen class are reached) and storage operations, with storage faults in one thread's files and threads stopped half-way; every call's result "
            "is compared with that of the same program running alone, before and afterwards; non-trivial: at least two switches inside the library")
    measure = "distinct (programs, preempted source lines) signatures"
    real = REAL + ["gerber.ipc356", "gerber.layers", "gerber.pcb", "gerber.render.*", "threads of the interpreter (one runs at a time)"]
    stub = ["thread scheduler (baton passed at trace events)", "raw file (simulated)", "locks of the library, if it had any"]
    assumptions = ["switches happen between source lines and at storage operations", "SVG identifiers (process-wide counter of libcairo) are normalised"]
    run_limit = 120

    def setup(self):
        sched.install()
        Base.setup(self)

    def generate(self, rng, tier, i):
        n = rng.choice((2, 2, 2, 3, 4))
        sc = {"shared": int(rng.random() < 0.25)}
        same = 0
        if sc["shared"]:
            p = prog.gen(rng, render=0, shared=True, n=rng.choice((1, 2, 4)))
            ps = [p]
            for _ in range(n - 1):
                q = dict(p)
                q["ops"] = self.shared_ops(rng, p["kind"])
                ps.append(q)
            if p["kind"] != "netlist" and rng.random() < 0.15:
                for q in ps:
                    q["ops"] = q["ops"] + [["render", "default", 20, "mem"]]
        else:
            ps = [prog.gen(rng, render=0.06, n=rng.choice((1, 2, 3))) for _ in range(n)]
            if rng.random() < 0.3:
                # the same work twice: the same names, numbers and tables in both
                ps[1] = prog.twin(rng, ps[0]) if rng.random() < 0.5 else ps[0]
            if rng.random() < 0.35:
                # everybody does the same at the same time, each with a document of his own
                kind = rng.choice(("gerber", "gerber", "drill"))
                ops = rng.choice(([["inch"], ["metric"], ["inch"], ["obs"]],) + tuple([[o], ["obs"]] for o in ("save", "reload", "copy", "offset")) + (([["regen"]], [["am"]]) if kind == "gerber" else ([["report"]], [["tool"]])))
                if ops[0] == ["offset"]:
                    ops = (ghist if kind == "gerber" else xhist).gen_ops(rng, ["offset"], 1, 2) + [["obs"]]
                for k in range(n):
                    while ps[k]["kind"] != kind:
                        ps[k] = prog.gen(rng, render=0, n=1)
                    ps[k] = dict(ps[k], ops=ops)
                same = 1
        sc["programs"] = ps
        sc["slices"] = gen_slices(rng, n)
        if rng.random() < (0.7 if same else 0.2):
            # whoever reaches certain source lines has to wait there for the others
            m = rng.choice((5, 20, 60, 400))
            sc["sites"] = [m, rng.randrange(m)]
            if rng.random() < 0.7:
                sc["slices"] = [[t, rng.choice((200, 5000, 100000))] for t in range(n)]
        if not sc["shared"] and rng.random() < 0.2:
            sc["kill"] = [rng.randrange(n), int(10 ** rng.uniform(0.5, 4))]
        elif not sc["shared"] and rng.random() < 0.25:
            sc["faults"] = [{"in": "t%d" % rng.randrange(n), "op": rng.choice(("open", "read", "read", "write", "close")), "n": rng.choice((1, 1, 2, 3)), "kind": rng.choice(("EIO", "ENOSPC", "EACCES", "EMFILE"))}]
        if rng.random() < 0.3:
            sc["plan"] = world.gen_delivery(rng)
        return sc

    def shared_ops(self, rng, kind):
        if kind == "netlist":
            return [[rng.choice(prog.NOPS)] for _ in range(rng.randint(1, 4))]
        return (ghist if kind == "gerber" else xhist).gen_ops(rng, ["obs", "query"], 1, 4)

    # ------------------------------------------------------------------
    def world(self, sc):
        return world.World(self.ctx.scratch, dict(sc.get("plan") or {}, faults=sc.get("faults") or []))

    def alone(self, sc, k, where):
        d = os.path.join(self.ctx.scratch, where, "t%d" % k)
        w = self.world(sc)
        r = prog.Run(sc["programs"][k], d)
        with w:
            r.run()
        w.close()
        self.ctx.world_done(w)
        return r.out

    def execute(self, sc, ctx):
        import gerber
        self.ctx = ctx
        ps = sc["programs"]
        if len(ps) < 2 or not sc["slices"]:
            raise Invalid("one thread")
        for p in ps:
            prog.check(p) if p["kind"] != "board" else [prog.check(f) for f in p["files"].values()]
        os.chdir(ctx.scratch)
        kill = sc.get("kill")
        want = [self.alone(sc, k, "a") for k in range(len(ps))]
        shared = None
        if sc["shared"]:
            if any(p["kind"] != ps[0]["kind"] or prog.source(p) != prog.source(ps[0]) for p in ps):
                raise Invalid("several documents")
            r = prog.Run(ps[0], os.path.join(ctx.scratch, "b", "t0"))
            try:
                r.load()
            except Exception:
                return        # (a damaged document: there is nothing to share)
            shared = r.doc
            want = [v[1:] for v in want]
        w = self.world(sc)
        runs = [prog.Run(p, os.path.join(ctx.scratch, "b", "t%d" % k), shared) for k, p in enumerate(ps)]
        s = sched.Scheduler(sc["slices"], os.path.dirname(os.path.abspath(gerber.__file__)), kill, sites=sc.get("sites"))
        w.sched_hook = s.hook
        before = []
        if kill:
            # (the library may well catch what stops the thread: what the thread does afterwards is not judged)
            s.on_kill = lambda: before.append(len(runs[kill[0]].out))
        with w:
            s.run([r.run for r in runs])
        w.close()
        ctx.world_done(w)
        ctx.log(s.log[:2000], s.steps)
        full = list(want)
        if s.killed:
            ctx.fault("thread stopped")
        for k, r in enumerate(runs):
            if s.killed and kill and k == kill[0]:
                r.out, want[k] = r.out[:before[0]], want[k][:before[0]]
            self.compare(r.out, want[k], "thread %d of %d" % (k, len(ps)))
        for k in range(len(ps)):
            got = self.alone(sc, k, "c")
            if sc["shared"]:
                got = got[1:]
            self.compare(got, full[k], "program %d alone after the threads" % k)
        ctx.nontrivial = s.switches >= 2
        ctx.stat("thread switches", s.switches)
        ctx.stat("steps", s.total)
        ctx.sig += [[prog.shape(p) for p in ps], sorted(s.sites)[:400]]

    def compare(self, got, want, what):
        if got == want:
            return
        for n, (a, b) in enumerate(zip(got, want)):
            if a != b:
                raise Violation("thread", "%s: call %d (%s) gave %s instead of %s" % (what, n, b[0], brief(a[1], b[1]), brief(b[1], a[1])))
        raise Violation("thread", "%s: %d calls instead of %d" % (what, len(got), len(want)))


def brief(a, b):
    """The part of a that differs from b."""
    a, b = repr(a), repr(b)
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return "..." + a[max(0, k - 60):k + 100]


CHECK = C10()
