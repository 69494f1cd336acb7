"""C17: reading answers from a document or deriving another never changes the source."""
import os

from .. import alloc, canon, gdoc, ghist, world, xhist
from ..core import Violation
from .base import Base
from .c05 import REAL


class C17(Base):
    id = "C17"
    runs = {"quick": 6000, "thorough": 150000}
    rule = ("seeded documents x seeded histories of queries, renders (Cairo and Gerber-writing contexts), saves, deep-copying operations and edits of the derived "
            "documents, between edits of the source itself; a twin gets the edits only, and all later answers and saved bytes must be equal; "
            "non-trivial: at least one query or derivation of a document with objects")
    measure = "distinct (object kinds, operation sequence) signatures"
    real = REAL + ["gerber.operations", "gerber.render.cairo_backend", "gerber.render.rs274x_backend", "libcairo"]
    stub = ["raw file (simulated)"]
    assumptions = []

    def generate(self, rng, tier, i):
        kw = {"small": 1} if rng.random() < 0.5 else {}
        if rng.random() < 0.5:
            kw["n"] = rng.randint(1, 8)
        if rng.random() < 0.3:
            doc = xhist.gen_doc(rng, **kw)
            ops = xhist.gen_ops(rng, ["query"] * 6 + ["copy", "copy", "render", "save", "offset", "inch", "metric", "tool"], 1, 9)
            for o in ops:
                if o[0] == "copy":
                    o += [rng.choice(("to_inch", "to_metric", "offset")), rng.choice(("inch", "metric", "offset", "clear", "write", "poke", "tool"))]
            return {"kind": "drill", "doc": doc, "ops": self.cuts(rng, ops)}
        doc = ghist.gen_doc(rng, **kw)
        ops = ghist.gen_ops(rng, ["query"] * 6 + ["copy", "copy", "render", "regen", "save", "save_as", "offset", "inch", "metric", "print"], 1, 9)
        for o in ops:
            if o[0] == "copy":
                o += [rng.choice(("to_inch", "to_metric", "offset")), rng.choice(("inch", "metric", "offset", "clear", "write", "poke"))]
            elif o[0] == "save_as":
                o.append(ghist.gen_settings(rng, None))
        return {"kind": "gerber", "doc": doc, "ops": self.cuts(rng, ops)}

    def cuts(self, rng, ops):
        """Let some queries and derivations fail for lack of memory."""
        if rng.random() < 0.3:
            for o in ops:
                if o[0] not in ("inch", "metric", "offset", "tool") and rng.random() < 0.5:
                    o.append({"line": alloc.gen_line(rng)})
        return ops

    def some(self, fn, doc, o, ctx):
        if isinstance(o[-1], dict) and "line" in o[-1]:
            return alloc.cut_short(lambda: fn(doc, o[:-1], ctx), o[-1]["line"], ctx)
        return fn(doc, o, ctx)

    def execute(self, sc, ctx):
        if sc["kind"] == "drill":
            return self.drill(sc, ctx)
        from gerber import operations
        text = gdoc.text(sc["doc"])
        twin = ghist.load(text, ctx.scratch)
        doc = ghist.load(text, ctx.scratch)
        ctx.sig += [sorted(set(p[0] for p in canon.prims(twin))), [o[0] for o in sc["ops"]]]
        for o in sc["ops"]:
            if o[0] in ("inch", "metric", "offset"):
                for d in (doc, twin):
                    if o[0] == "inch":
                        d.to_inch()
                    elif o[0] == "metric":
                        d.to_metric()
                    else:
                        x, y, _, _ = ghist.mm_offset(d, o)
                        d.offset(x, y)
                continue
            if len(doc.primitives):
                ctx.nontrivial = True
            self.some(self.side, doc, o, ctx)
        self.same(doc, twin, ctx)
        # and everything still behaves the same under later edits
        for d in (doc, twin):
            d.to_metric()
            d.offset(1.5, -0.25)
            d.to_inch()
        self.same(doc, twin, ctx)

    def same(self, doc, twin, ctx):
        a, b = ghist.observe(doc), ghist.observe(twin)
        if doc.units != twin.units:
            raise Violation("units", "units %r, twin %r" % (doc.units, twin.units))
        ghist.compare_obs(a, b, 0, "after queries and derivations")
        for k in a:
            if a[k] != b[k]:
                raise Violation(k, "after queries and derivations %s differs" % k)
        outs = []
        for d in (doc, twin):
            path = os.path.join(ctx.scratch, "s.gbr")
            try:
                d.write(path)
                outs.append(world.get(path))
            except ValueError as e:
                outs.append("refused")
        if outs[0] != outs[1]:
            raise Violation("bytes", "the saved bytes differ from those of a document that was not queried")
        ctx.log(len(outs[0]))

    def drill(self, sc, ctx):
        from .. import xdoc
        xdoc.ref(sc["doc"])
        text = xdoc.text(sc["doc"])
        twin = xhist.load(text, ctx.scratch)
        doc = xhist.load(text, ctx.scratch)
        ctx.sig += ["drill", sorted(set(h[0] for h in xhist.observe(twin)["hits"])), [o[0] for o in sc["ops"]]]
        for o in sc["ops"]:
            if o[0] in ("inch", "metric", "offset", "tool"):
                for d in (doc, twin):
                    if o[0] == "inch":
                        d.to_inch()
                    elif o[0] == "metric":
                        d.to_metric()
                    elif o[0] == "tool":
                        xhist.edit_tool(d, o)
                    else:
                        x, y, _, _ = ghist.mm_offset(d, o)
                        d.offset(x, y)
                continue
            if doc.hits:
                ctx.nontrivial = True
            self.some(self.drill_side, doc, o, ctx)
        self.drill_same(doc, twin, ctx)
        for d in (doc, twin):
            d.to_metric()
            d.offset(1.5, 0.25)
            d.to_inch()
        self.drill_same(doc, twin, ctx)

    def drill_same(self, doc, twin, ctx):
        if doc.units != twin.units or str(doc.settings) != str(twin.settings):
            raise Violation("units", "settings %r, twin %r" % (str(doc.settings), str(twin.settings)))
        a, b = xhist.observe(doc), xhist.observe(twin)
        xhist.compare_obs(a, b, 0, "after queries and derivations")
        outs = []
        for d in (doc, twin):
            try:
                d.write("s.drl")
                outs.append(world.get(os.path.join(ctx.scratch, "s.drl")))
            except ValueError:
                outs.append("refused")
        if outs[0] != outs[1]:
            raise Violation("bytes", "the saved bytes differ from those of a document that was not queried")
        if doc.report() != twin.report():
            raise Violation("report", "the reports differ")
        ctx.log(len(outs[0]))

    def drill_side(self, doc, o, ctx):
        from gerber import operations
        if o[0] == "query":
            xhist.query(doc, o[1], o[2], ctx.scratch)
        elif o[0] == "save":
            try:
                doc.write("x.drl")
            except ValueError:
                ctx.stat("save refused")
        elif o[0] == "copy":
            d = operations.offset(doc, 1.25, 3.5) if o[1] == "offset" else getattr(operations, o[1])(doc)
            if d is doc:
                raise Violation("copy", "operations.%s returned its argument" % o[1])
            if o[2] == "inch":
                d.to_inch()
            elif o[2] == "metric":
                d.to_metric()
            elif o[2] == "offset":
                d.offset(0.5, 7.0)
            elif o[2] == "clear":
                del d.hits[:]
                del d.statements[:]
                d.tools.clear()
            elif o[2] == "write":
                try:
                    d.write("derived.drl")
                except ValueError:
                    pass
            elif o[2] == "tool" and d.tools:
                d.update_tool(sorted(d.tools)[0], diameter=0.77, rpm=5000)
            elif o[2] == "poke":
                for h in d.hits:
                    h.tool.diameter = 1.5
                for p in doc.primitives:
                    p.offset(3, 4)
        elif o[0] == "render" and doc.hits:
            from gerber.render import GerberCairoContext
            from gerber.layers import PCBLayer
            b = doc.bounds
            s = canon.scale_of(doc.units)
            w, h = (b[0][1] - b[0][0]) * s, (b[1][1] - b[1][0]) * s
            if max(w, h) < 200 and min(w, h) > 2:
                c = GerberCairoContext(scale=40)
                c.render_layer(PCBLayer.from_cam(doc))
                c.dump_str()

    def side(self, doc, o, ctx):
        from gerber import operations
        if o[0] == "query":
            ghist.query(doc, o[1], o[2])
        elif o[0] == "print":
            str(doc), repr(doc)
            for p in doc.primitives:
                str(p), repr(p)
        elif o[0] == "copy":
            if o[1] == "offset":
                d = operations.offset(doc, 1.25, -3.5)
            else:
                d = getattr(operations, o[1])(doc)
            if d is doc:
                raise Violation("copy", "operations.%s returned its argument" % o[1])
            if o[2] == "inch":
                d.to_inch()
            elif o[2] == "metric":
                d.to_metric()
            elif o[2] == "offset":
                d.offset(0.5, 7.0)
            elif o[2] == "clear":
                del d.primitives[:]
                del d.statements[:]
            elif o[2] == "write":
                try:
                    d.write(os.path.join(ctx.scratch, "derived.gbr"))
                except ValueError:
                    pass
            elif o[2] == "poke":
                for p in d.primitives:
                    p.level_polarity = "clear"
                    if hasattr(p, "position"):
                        p.position = (1.0, 2.0)
                    if hasattr(p, "aperture"):
                        p.aperture.diameter = 123.0
        elif o[0] == "save" or o[0] == "save_as":
            from gerber.cam import FileSettings
            st = FileSettings(doc.notation, doc.units, o[1]["zs"], tuple(o[1]["fmt"])) if o[0] == "save_as" else None
            try:
                doc.write(os.path.join(ctx.scratch, "x.gbr"), st) if st else doc.write(os.path.join(ctx.scratch, "x.gbr"))
            except ValueError:
                ctx.stat("save refused")
        elif o[0] == "render":
            from gerber.render import GerberCairoContext
            b = doc.bounds
            if doc.primitives and abs(b[0][0]) < 1000000 and abs(b[1][0]) < 1000000:
                s = canon.scale_of(doc.units)
                w, h = (b[0][1] - b[0][0]) * s, (b[1][1] - b[1][0]) * s
                if max(w, h) < 200 and min(w, h) > 2 and all(renderable(p) for p in doc.primitives):
                    c = GerberCairoContext(scale=40)
                    from gerber.layers import PCBLayer
                    c.render_layer(PCBLayer.from_cam(doc))
                    c.dump_str()
        elif o[0] == "regen":
            from gerber.render.rs274x_backend import Rs274xContext
            c = Rs274xContext(doc.settings)
            try:
                for p in doc.primitives:
                    c.render(p)
                c.dump()
            except Exception as e:
                ctx.stat("regen:" + type(e).__name__)


def renderable(p):
    return True


CHECK = C17()
