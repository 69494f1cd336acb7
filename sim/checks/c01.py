"""C01: a loaded Gerber is exactly the image its file describes, or an error."""
import os

from .. import canon, gdoc, ggen, world
from ..core import Violation, Invalid
from .base import Base

TOL = 2e-7


def compare(doc, ref, what, tol=TOL, boxes=True):
    got = canon.prims(doc)
    d = canon.diff(got, ref["objects"], tol)
    if d:
        raise Violation("image", "%s: object list differs from the described image at %s" % (what, d))
    if ref["bounds"] is not None:
        b = canon.box(doc.bounds, canon.scale_of(doc.units))
        d = canon.diff(b, ref["bounds"], tol)
        if d:
            raise Violation("bounds", "%s: bounds differ %s" % (what, d))
    if boxes:
        for i, (p, rb) in enumerate(zip(doc.primitives, ref["boxes"])):
            if rb is not None:
                d = canon.diff(canon.box(p.bounding_box, canon.scale_of(doc.units)), rb, 1e-5)
                if d:
                    raise Violation("extents", "%s: extents of object %d (%s) differ %s" % (what, i, ref["objects"][i][0], d))


class C01(Base):
    id = "C01"
    runs = {"quick": 24000, "thorough": 600000}
    rule = ("seeded RS-274X documents (all aperture shapes and holes, macros with arithmetic, modal coordinates and codes, arcs in both quadrant modes, "
            "regions, polarity, formats and zero suppressions, deprecated and unknown parameters) x delivery (chunking, buffer size, line ends, file / string / "
            "format-detecting entry point) x read faults followed by a retry; non-trivial: the document has at least one object")
    measure = "distinct (object-kind sequence, entry point, delivery class, fault) signatures"
    real = ["gerber.rs274x parser and interpreter", "gerber.gerber_statements", "gerber.am_*", "gerber.primitives", "gerber.common", "io buffering and text layers"]
    stub = ["raw file (simulated)"]
    assumptions = ["the reference interpreter (sim/gdoc.py) states RS-274X for the grammar described in DESIGN.md", "tolerance 2e-7 mm",
                   "moire (6) and lower-left-line (22) macro primitives are outside the grammar: the library says they are unsupported"]

    def generate(self, rng, tier, i):
        doc = ggen.gen(rng)
        sc = {"doc": doc, "entry": rng.choice(("read", "read", "rs274x.read", "loads", "rs274x.loads")), "plan": world.gen_delivery(rng),
              "faults": []}
        if sc["entry"].endswith("read") and rng.random() < 0.35:
            k = rng.random()
            n = rng.choice((1, 1, 2, 3, rng.randint(1, 40)))
            if k < 0.3:
                sc["faults"] = [{"op": "open", "n": rng.choice((1, 1, 2)), "kind": rng.choice(("EACCES", "EMFILE", "ENOENT", "EIO"))}]
            else:
                sc["faults"] = [{"op": "read", "n": n, "kind": rng.choice(("EIO", "EIO", "ESTALE", "ETIMEDOUT"))}]
            if rng.random() < 0.06:
                world.gen_bulk(rng, doc["cmds"], sc, len(doc["cmds"]) // 2)
        return sc

    def execute(self, sc, ctx):
        import gerber
        import gerber.rs274x
        doc = sc["doc"]
        ref = gdoc.ref(doc)
        text = gdoc.text(doc)
        path = os.path.join(ctx.scratch, "board.gtl")
        world.put(path, text)
        plan = dict(sc.get("plan") or {})
        ctx.sig += [[o[0] for o in ref["objects"]], sc["entry"], bool(plan.get("chunk")), [f["kind"] for f in sc.get("faults", [])]]
        ctx.nontrivial = bool(ref["objects"])

        def load():
            e = sc["entry"]
            if e == "read":
                return gerber.read(path)
            if e == "rs274x.read":
                return gerber.rs274x.read(path)
            # strings handed to loads have universal line ends already decoded by whoever read them
            t = text.replace("\r\n", "\n").replace("\r", "\n") if (plan.get("chunk")) else text
            return gerber.loads(t) if e == "loads" else gerber.rs274x.loads(t)

        if sc.get("faults"):
            w = world.World(ctx.scratch, dict(plan, faults=sc["faults"]))
            with w:
                try:
                    got = load()
                except Exception as e:
                    ctx.log("error", type(e).__name__)
                    got = None
            w.close()
            ctx.world_done(w)
            if w.fired and got is not None:
                # tolerated only if the reader retried by itself and got the whole image
                compare(got, ref, "read that met %s" % (w.fired[0],))
            elif not w.fired and got is None:
                raise Violation("refused", "a well-formed file was refused: no fault was injected")
            elif got is not None:
                compare(got, ref, "first read")
        w = world.World(ctx.scratch, plan)
        with w:
            try:
                got = load()
            except Exception as e:
                raise Violation("refused:" + type(e).__name__, "a well-formed file was refused: %s: %s" % (type(e).__name__, e))
        w.close()
        ctx.world_done(w)
        if type(got).__name__ != "GerberFile":
            raise Violation("type", "a Gerber was loaded as %s" % type(got).__name__)
        if (got.units == "inch") != (doc["unit"] == "IN"):
            raise Violation("units", "units %r for a file in %s" % (got.units, doc["unit"]))
        compare(got, ref, "read")
        ctx.stat("objects", len(ref["objects"]))
        for o in canon.prims(got):
            ctx.log(o)


CHECK = C01()
