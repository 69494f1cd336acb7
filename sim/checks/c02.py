"""C02: a Gerber saved after any edits and read back is the same image."""
import os

from .. import canon, gdoc, ghist, world
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL


class C02(Base):
    id = "C02"
    runs = {"quick": 9000, "thorough": 250000}
    rule = ("seeded documents x seeded histories of conversions, shifts, queries, saves (under simulated chunked storage, also with other format settings) and "
            "restarts from the saved bytes only; every save is read back and compared with memory, re-saved and compared byte for byte; "
            "non-trivial: at least one save of a document with objects")
    measure = "distinct (object kinds, operation sequence, savable verdicts) signatures"
    real = REAL + ["io buffering and text layers"]
    stub = ["raw file (simulated)", "process restart: all objects dropped, state rebuilt from the simulated disk"]
    assumptions = ["half a file unit of tolerance per coordinate (one for arc centres), 2e-6 mm for sizes",
                   "an arc whose chord or radius vanishes at the saved resolution is not compared"]

    def generate(self, rng, tier, i):
        kw = {"small": 1} if rng.random() < 0.5 else {}
        if rng.random() < 0.3:
            kw["n"] = rng.randint(1, 8)
        if rng.random() < 0.4:
            kw["am_extra"] = 1
        doc = ghist.gen_doc(rng, **kw)
        ops = ghist.gen_ops(rng, ["inch", "metric", "offset", "query", "save", "save", "restart", "save_as"], 1, 8)
        for o in ops:
            if o[0] == "save_as":
                o.append(ghist.gen_settings(rng, None))
        if not any(o[0] in ("save", "restart", "save_as") for o in ops):
            ops.append(["save"])
        return {"kind": "gerber", "doc": doc, "ops": ops, "plan": world.gen_delivery(rng, True)}

    def execute(self, sc, ctx):
        w = world.World(ctx.scratch, sc.get("plan"))
        try:
            with w:
                self.history(sc, ctx)
        finally:
            w.close()
            ctx.world_done(w)

    def history(self, sc, ctx):
        import gerber
        from gerber.cam import FileSettings
        doc = ghist.load(gdoc.text(sc["doc"]), ctx.scratch)
        base = ghist.params(doc)
        shapes = ghist.macros(doc)
        ctx.sig += [sorted(set(p[0] for p in canon.prims(doc))), [o[0] for o in sc["ops"]]]
        out = os.path.join(ctx.scratch, "saved.gbr")
        again = os.path.join(ctx.scratch, "again.gbr")
        for n, o in enumerate(sc["ops"]):
            if o[0] == "inch":
                doc.to_inch()
            elif o[0] == "metric":
                doc.to_metric()
            elif o[0] == "offset":
                x, y, _, _ = ghist.mm_offset(doc, o)
                doc.offset(x, y)
            elif o[0] == "query":
                ghist.query(doc, o[1], o[2])
            elif o[0] in ("save", "restart", "save_as"):
                st = None
                fmt = tuple(doc.format)
                if o[0] == "save_as":
                    fmt = tuple(o[1]["fmt"])
                    st = FileSettings(doc.notation, doc.units, o[1]["zs"], fmt)
                v = ghist.savable(doc, fmt)
                ctx.sig.append(v)
                ctx.stat("save:" + v)
                mem = ghist.observe(doc, full=False)
                mem["params"] = base
                try:
                    doc.write(out, st) if st else doc.write(out)
                except ValueError as e:
                    if v == "yes":
                        raise Violation("refused", "save %d refused although every number fits %s: %s" % (n, fmt, e))
                    continue
                if v == "no":
                    raise Violation("overflow", "save %d: a coordinate does not fit format %s but no error was raised" % (n, fmt))
                if v == "edge":
                    continue
                if mem["n"]:
                    ctx.nontrivial = True
                try:
                    back = gerber.read(out)
                except Exception as e:
                    raise Violation("unreadable", "the saved file cannot be read back: %s: %s" % (type(e).__name__, e))
                if back.units != doc.units:
                    raise Violation("reload-units", "saved in %s, read back in %s" % (doc.units, back.units))
                res = 10.0 ** -fmt[1] * canon.scale_of(doc.units)
                got = ghist.observe(back, full=False)
                got["params"] = ghist.params(back)
                ghist.compare_saved(mem, got, res, "save %d" % n)
                # (the contents of macros are written with ten digits after the point)
                d = canon.diff(ghist.macros(back), shapes, 1e-6, "macro")
                if d:
                    raise Violation("reload-macros", "save %d: %s" % (n, d))
                back.write(again)
                b1, b2 = world.get(out), world.get(again)
                if b1 != b2:
                    raise Violation("unstable", "saving the reloaded document gives other bytes: %s" % first_diff(b1, b2))
                doc.write(again, st) if st else doc.write(again)
                if world.get(again) != b1:
                    raise Violation("unstable-memory", "saving the same document twice gives other bytes")
                ctx.log("saved", len(b1))
                if o[0] == "restart":
                    doc = back
                    base, shapes = got["params"], ghist.macros(back)


def first_diff(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "line %d: %r then %r" % (i + 1, x[:200], y[:200])
    return "%d lines then %d lines" % (len(la), len(lb))


CHECK = C02()
