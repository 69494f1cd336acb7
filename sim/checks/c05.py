"""C05: unit conversion never changes the physical geometry, however often repeated."""
from .. import ghist, xhist
from ..core import Violation
from .base import Base

REAL = ["gerber.rs274x", "gerber.excellon", "gerber.excellon_statements", "gerber.gerber_statements", "gerber.am_*", "gerber.primitives", "gerber.utils", "gerber.cam"]


class C05(Base):
    id = "C05"
    runs = {"quick": 9000, "thorough": 250000}
    rule = ("seeded documents x seeded histories of conversions (repeated and redundant ones included), deep copies and queries that warm caches; after every "
            "conversion everything observable, in mm, is compared with an untouched twin; non-trivial: at least one effective conversion of a document with objects")
    measure = "distinct (document kind, object kinds, operation sequence) signatures"
    real = REAL
    stub = ["raw file (simulated)"]
    assumptions = ["tolerance 2e-6 mm"]

    def generate(self, rng, tier, i):
        kw = {}
        if rng.random() < 0.3:
            kw["n"] = rng.randint(1, 8)
        if rng.random() < 0.3:
            doc = xhist.gen_doc(rng, **kw)
            ops = xhist.gen_ops(rng, ["inch", "metric", "inch", "metric", "query", "query", "copy_inch", "copy_metric", "tool"], 1, 9)
            return {"kind": "drill", "doc": doc, "ops": ops}
        doc = ghist.gen_doc(rng, **kw)
        ops = ghist.gen_ops(rng, ["inch", "metric", "inch", "metric", "query", "query", "copy_inch", "copy_metric"], 1, 9)
        return {"kind": "gerber", "doc": doc, "ops": ops}

    def execute(self, sc, ctx):
        if sc["kind"] == "drill":
            return self.drill(sc, ctx)
        from .. import gdoc
        text = gdoc.text(sc["doc"])
        twin = ghist.load(text, ctx.scratch)
        doc = ghist.load(text, ctx.scratch)
        want = ghist.observe(twin)
        want["units"] = [True] * want["n"]
        ctx.sig += [sorted(set(p[0] for p in want["prims"])), [o[0] for o in sc["ops"]]]
        from gerber import operations
        for n, o in enumerate(sc["ops"]):
            before = doc.units
            if o[0] == "inch":
                doc.to_inch()
            elif o[0] == "metric":
                doc.to_metric()
            elif o[0] in ("copy_inch", "copy_metric"):
                f = operations.to_inch if o[0] == "copy_inch" else operations.to_metric
                new = f(doc)
                if doc.units != before:
                    raise Violation("copy", "operations.%s changed its argument" % o[0])
                doc = new
            elif o[0] == "query":
                ghist.query(doc, o[1], o[2])
                continue
            u = "inch" if o[0].endswith("inch") else "metric"
            if doc.units != u:
                raise Violation("units", "units %r after converting to %s" % (doc.units, u))
            if u != before and want["n"]:
                ctx.nontrivial = True
                ctx.stat("conversions")
            got = ghist.observe(doc, full=True)
            ghist.compare_obs(got, want, 2e-6, "after operation %d (%s)" % (n, o[0]))
            for p in got["prims"]:
                ctx.log(u, p[0])

    def drill(self, sc, ctx):
        from .. import xdoc
        from gerber import operations
        xdoc.ref(sc["doc"])
        doc = xhist.load(xdoc.text(sc["doc"]), ctx.scratch)
        want = xhist.observe(xhist.load(xdoc.text(sc["doc"]), ctx.scratch))
        ctx.sig += ["drill", sorted(set(h[0] for h in want["hits"])), [o[0] for o in sc["ops"]]]
        for n, o in enumerate(sc["ops"]):
            before = doc.units
            if o[0] == "query":
                xhist.query(doc, o[1], o[2])
                continue
            if o[0] == "tool":
                num = xhist.edit_tool(doc, o)
                if num is not None:
                    want = xhist.expect_edit(want, num, o[2])
            else:
                u = "inch" if o[0].endswith("inch") else "metric"
                if o[0] in ("inch", "metric"):
                    getattr(doc, "to_" + u)()
                else:
                    new = getattr(operations, "to_" + u)(doc)
                    if doc.units != before:
                        raise Violation("copy", "operations.to_%s changed its argument" % u)
                    xhist.compare_obs(xhist.observe(doc), want, 2e-6, "source of a converted copy")
                    doc = new
                if doc.units != u:
                    raise Violation("units", "units %r after converting to %s" % (doc.units, u))
                if u != before and want["n"]:
                    ctx.nontrivial = True
                    ctx.stat("conversions")
            xhist.compare_obs(xhist.observe(doc), want, 2e-6, "after operation %d (%s)" % (n, o[0]))
        ctx.log(want["hits"])


CHECK = C05()
