"""C03: a loaded drill file is exactly the holes and slots it describes, or an error."""
import os

from .. import world, xdoc, xgen, xhist
from ..core import Violation
from .base import Base

REAL = ["gerber.excellon", "gerber.excellon_statements", "gerber.excellon_tool", "gerber.cam", "gerber.primitives (Drill, Slot)", "gerber.utils", "gerber.common"]


class C03(Base):
    id = "C03"
    runs = {"quick": 24000, "thorough": 600000}
    rule = ("seeded Excellon programs (tool tables, comment tools, declared formats and zero suppressions, absolute and incremental, modal coordinates, repeats, "
            "G85 and routed slots, next-tool, hits in the header) x delivery (chunking, buffers, line ends, file / string / detecting entry point) x read faults "
            "followed by a retry; non-trivial: at least one hole or slot")
    measure = "distinct (command-kind sequence, entry point, delivery class, fault) signatures"
    real = REAL + ["io buffering and text layers"]
    stub = ["raw file (simulated)"]
    assumptions = ["the reference interpreter (sim/xdoc.py) states the Excellon subset described in DESIGN.md", "tolerance 2e-7 mm"]

    def generate(self, rng, tier, i):
        doc = xgen.gen(rng)
        sc = {"doc": doc, "entry": rng.choice(("read", "read", "excellon.read", "loads", "excellon.loads")), "plan": world.gen_delivery(rng), "faults": []}
        if sc["entry"].endswith("read") and rng.random() < 0.35:
            n = rng.choice((1, 1, 2, 3, rng.randint(1, 40)))
            if rng.random() < 0.3:
                sc["faults"] = [{"op": "open", "n": rng.choice((1, 1, 2, 3)), "kind": rng.choice(("EACCES", "EMFILE", "ENOENT", "EIO"))}]
            else:
                sc["faults"] = [{"op": "read", "n": n, "kind": rng.choice(("EIO", "EIO", "ESTALE", "ETIMEDOUT"))}]
            if rng.random() < 0.06:
                world.gen_bulk(rng, doc["cmds"], sc, len(doc["cmds"]) // 2)
        return sc

    def execute(self, sc, ctx):
        import gerber
        import gerber.excellon
        doc = sc["doc"]
        ref = xdoc.ref(doc)
        text = xdoc.text(doc)
        path = os.path.join(ctx.scratch, "board.drl")
        world.put(path, text)
        plan = dict(sc.get("plan") or {})
        ctx.sig += [[c[0] for c in doc["cmds"]], sc["entry"], bool(plan.get("chunk")), [f["kind"] for f in sc.get("faults", [])]]
        ctx.nontrivial = bool(ref["hits"])

        def load():
            e = sc["entry"]
            if e == "read":
                return gerber.read(path)
            if e == "excellon.read":
                return gerber.excellon.read(path)
            return gerber.loads(text) if e == "loads" else gerber.excellon.loads(text)

        if sc.get("faults"):
            w = world.World(ctx.scratch, dict(plan, faults=sc["faults"]))
            with w:
                try:
                    got = load()
                except Exception as e:
                    ctx.log("error", type(e).__name__)
                    got = None
            w.close()
            ctx.world_done(w)
            if not w.fired and got is None:
                raise Violation("refused", "a well-formed file was refused: no fault was injected")
            if got is not None:
                xhist.compare_ref(got, ref, "read that met %s" % (w.fired[0],) if w.fired else "first read")
        w = world.World(ctx.scratch, plan)
        with w:
            try:
                got = load()
            except Exception as e:
                raise Violation("refused:" + type(e).__name__, "a well-formed file was refused: %s: %s" % (type(e).__name__, e))
        w.close()
        ctx.world_done(w)
        if type(got).__name__ != "ExcellonFile":
            raise Violation("type", "a drill file was loaded as %s" % type(got).__name__)
        if (got.units == "inch") != (doc["unit"] == "IN"):
            raise Violation("units", "units %r for a file in %s" % (got.units, doc["unit"]))
        o = xhist.compare_ref(got, ref, "read")
        ctx.stat("hits", len(ref["hits"]))
        for h in o["hits"]:
            ctx.log(h)


CHECK = C03()
