"""C04: a drill file saved after any edits and read back has the same holes."""
import os

from .. import canon, world, xdoc, xhist
from ..core import Violation
from .base import Base
from .c03 import REAL
from .c02 import first_diff


class C04(Base):
    id = "C04"
    runs = {"quick": 12000, "thorough": 300000}
    rule = ("seeded Excellon programs (also ones whose format has to be guessed) x seeded histories of conversions, shifts, tool edits, queries, saves under simulated "
            "chunked storage and restarts from the saved bytes only; every save is read back and compared per tool with memory, re-saved and compared byte for "
            "byte; non-trivial: at least one save of a document with holes")
    measure = "distinct (hit-kind set, operation sequence, savable verdicts) signatures"
    real = REAL + ["io buffering and text layers"]
    stub = ["raw file (simulated)", "process restart: all objects dropped, state rebuilt from the simulated disk"]
    assumptions = ["half a file unit of tolerance per coordinate and size", "order is compared within each tool: the writer groups holes by tool",
                   "a coordinate that does not fit the document's number format may be refused"]

    def generate(self, rng, tier, i):
        kw = {"small": 1} if rng.random() < 0.4 else {}
        if rng.random() < 0.3:
            kw["n"] = rng.randint(1, 8)
        guess = rng.random() < 0.15
        doc = xhist.gen_doc(rng, guess=guess, **kw)
        ops = xhist.gen_ops(rng, ["inch", "metric", "offset", "tool", "query", "save", "save", "restart"], 1, 8)
        if not any(o[0] in ("save", "restart") for o in ops):
            ops.append(["save"])
        for o in ops:
            if o[0] in ("save", "restart") and rng.random() < 0.3:
                o.append("here")
        return {"doc": doc, "guess": int(guess), "ops": ops, "plan": world.gen_delivery(rng, True)}

    def execute(self, sc, ctx):
        # a guessed format is outside the reference, but the program must make sense
        xdoc.ref(dict(sc["doc"], dec=1) if sc.get("guess") else sc["doc"])
        w = world.World(ctx.scratch, sc.get("plan"))
        try:
            with w:
                self.history(sc, ctx)
        finally:
            w.close()
            ctx.world_done(w)

    def history(self, sc, ctx):
        import gerber
        doc = xhist.load(xdoc.text(sc["doc"]), ctx.scratch)
        ctx.sig += [sorted(set(h[0] + str(h[2]) if h[0] == "slot" else h[0] for h in xhist.observe(doc)["hits"])), [o[0] for o in sc["ops"]]]
        where = "board.drl"
        again = os.path.join(ctx.scratch, "again.drl")
        for n, o in enumerate(sc["ops"]):
            if o[0] == "inch":
                doc.to_inch()
            elif o[0] == "metric":
                doc.to_metric()
            elif o[0] == "offset":
                x, y, _, _ = xhist.mm_offset(doc, o)
                doc.offset(x, y)
            elif o[0] == "tool":
                xhist.edit_tool(doc, o)
            elif o[0] == "query":
                xhist.query(doc, o[1], o[2], ctx.scratch)
            elif o[0] in ("save", "restart"):
                fmt = tuple(doc.format)
                v = xhist.savable(doc)
                ctx.sig.append(v)
                ctx.stat("save:" + v)
                mem = xhist.observe(doc)
                # where it was read from, or elsewhere
                here = len(o) > 1 and o[1] == "here"
                out = os.path.join(ctx.scratch, os.path.basename(where) if here else "saved.drl")
                try:
                    if here:
                        doc.write()
                    else:
                        doc.write(out)
                except ValueError as e:
                    if v == "yes":
                        raise Violation("refused", "save %d refused although every coordinate fits %s: %s" % (n, fmt, e))
                    continue
                if v == "edge":
                    continue
                if mem["n"]:
                    ctx.nontrivial = True
                try:
                    back = gerber.read(out)
                except Exception as e:
                    raise Violation("unreadable", "the saved file cannot be read back: %s: %s" % (type(e).__name__, e))
                if back.units != doc.units:
                    raise Violation("reload-units", "saved in %s, read back in %s" % (doc.units, back.units))
                res = 10.0 ** -fmt[1] * canon.scale_of(doc.units)
                xhist.compare_saved(mem, xhist.observe(back), res, "save %d" % n, 10.0 ** -fmt[1])
                back.write(again)
                b1, b2 = world.get(out), world.get(again)
                if b1 != b2:
                    raise Violation("unstable", "saving the reloaded document gives other bytes: %s" % first_diff(b1, b2))
                doc.write(again)
                if world.get(again) != b1:
                    raise Violation("unstable-memory", "saving the same document twice gives other bytes")
                ctx.log("saved", len(b1))
                if o[0] == "restart":
                    doc, where = back, out


CHECK = C04()
