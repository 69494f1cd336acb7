"""C06: shifting a design moves everything rigidly, and exactly once."""
import os

from .. import canon, gdoc, ghist, world, xhist
from ..core import Violation
from .base import Base
from .c05 import REAL


class C06(Base):
    id = "C06"
    runs = {"quick": 9000, "thorough": 250000}
    rule = ("seeded documents x seeded histories of shifts, conversions, deep copies and cache-warming queries; after every step everything observable is compared "
            "with an untouched twin moved by the net vector, and saved files are read back; non-trivial: a non-zero shift of a document with objects")
    measure = "distinct (object kinds, operation sequence) signatures"
    real = REAL
    stub = ["raw file (simulated)"]
    assumptions = ["tolerance 2e-6 mm in memory, half a file unit (one for arc centres) after a save"]

    def generate(self, rng, tier, i):
        kw = {"small": 1} if rng.random() < 0.6 else {}
        if rng.random() < 0.3:
            kw["n"] = rng.randint(1, 8)
        if rng.random() < 0.3:
            doc = xhist.gen_doc(rng, **kw)
            ops = xhist.gen_ops(rng, ["offset"] * 5 + ["query"] * 3 + ["inch", "metric", "copy_offset", "save"], 1, 8)
            for o in ops:
                if o[0] == "copy_offset":
                    o += [rng.randint(-400, 400), rng.randint(-400, 400), 100]
            return {"kind": "drill", "doc": doc, "ops": ops}
        doc = ghist.gen_doc(rng, **kw)
        ops = ghist.gen_ops(rng, ["offset"] * 5 + ["query"] * 3 + ["inch", "metric", "copy_offset", "save"], 1, 8)
        for o in ops:
            if o[0] == "copy_offset":
                o += [rng.randint(-400, 400), rng.randint(-400, 400), 100]
        return {"kind": "gerber", "doc": doc, "ops": ops}

    def execute(self, sc, ctx):
        if sc["kind"] == "drill":
            return self.drill(sc, ctx)
        import gerber
        from gerber import operations
        text = gdoc.text(sc["doc"])
        twin = ghist.load(text, ctx.scratch)
        doc = ghist.load(text, ctx.scratch)
        base = ghist.observe(twin)
        ctx.sig += [sorted(set(p[0] for p in base["prims"])), [o[0] for o in sc["ops"]]]
        dx = dy = 0.0
        for n, o in enumerate(sc["ops"]):
            if o[0] == "inch":
                doc.to_inch()
            elif o[0] == "metric":
                doc.to_metric()
            elif o[0] in ("offset", "copy_offset"):
                x, y, mx, my = ghist.mm_offset(doc, o)
                if o[0] == "offset":
                    doc.offset(x, y)
                else:
                    doc = operations.offset(doc, x, y)
                dx, dy = dx + mx, dy + my
                if (mx or my) and base["n"]:
                    ctx.nontrivial = True
            elif o[0] == "query":
                ghist.query(doc, o[1], o[2])
                continue
            elif o[0] == "save":
                v = ghist.savable(doc, doc.format)
                ctx.stat("save:" + v)
                if v != "yes":
                    continue
                path = os.path.join(ctx.scratch, "out.gbr")
                doc.write(path)
                back = gerber.read(path)
                res = 10.0 ** -doc.format[1] * canon.scale_of(doc.units)
                ghist.compare_saved(ghist.shift_obs(base, dx, dy), ghist.observe(back, True), res, "file saved after a shift by (%g, %g) mm" % (dx, dy))
                continue
            got = ghist.observe(doc)
            want = ghist.shift_obs(base, dx, dy)
            for k in ("units",):
                want.pop(k)
            ghist.compare_obs(got, want, 2e-6, "after operation %d (%s), net shift (%g, %g) mm" % (n, o[0], dx, dy))
        ctx.log(dx, dy)

    def drill(self, sc, ctx):
        import gerber
        from gerber import operations
        from .. import xdoc
        xdoc.ref(sc["doc"])
        text = xdoc.text(sc["doc"])
        base = xhist.observe(xhist.load(text, ctx.scratch))
        doc = xhist.load(text, ctx.scratch)
        ctx.sig += ["drill", sorted(set(h[0] for h in base["hits"])), [o[0] for o in sc["ops"]]]
        dx = dy = 0.0
        for n, o in enumerate(sc["ops"]):
            if o[0] == "inch":
                doc.to_inch()
            elif o[0] == "metric":
                doc.to_metric()
            elif o[0] in ("offset", "copy_offset"):
                x, y, mx, my = xhist.mm_offset(doc, o)
                if o[0] == "offset":
                    doc.offset(x, y)
                else:
                    doc = operations.offset(doc, x, y)
                dx, dy = dx + mx, dy + my
                if (mx or my) and base["n"]:
                    ctx.nontrivial = True
            elif o[0] == "query":
                xhist.query(doc, o[1], o[2])
                continue
            elif o[0] == "save":
                v = xhist.savable(doc)
                ctx.stat("save:" + v)
                if v != "yes":
                    continue
                doc.write("out.drl")
                back = gerber.read("out.drl")
                res = 10.0 ** -doc.format[1] * canon.scale_of(doc.units)
                xhist.compare_saved(xhist.shift_obs(base, dx, dy), xhist.observe(back), res, "file saved after a shift by (%g, %g) mm" % (dx, dy), 10.0 ** -doc.format[1])
                continue
            xhist.compare_obs(xhist.observe(doc), xhist.shift_obs(base, dx, dy), 2e-6, "after operation %d (%s), net shift (%g, %g) mm" % (n, o[0], dx, dy))
        ctx.log(dx, dy)


CHECK = C06()
