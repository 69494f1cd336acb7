"""C16: a loaded netlist lists exactly the records, nets and points in its file."""
import os

from .. import canon, idoc, world
from ..core import Violation, Invalid
from .base import Base


def compare(n, ref, what):
    if (n.units, n.angle_units) != (ref["unit"], ref["angle"]):
        raise Violation("units", "%s: units %s, %s instead of %s, %s" % (what, n.units, n.angle_units, ref["unit"], ref["angle"]))
    got = idoc.observe(n)
    d = canon.diff(got, ref["recs"], 1e-9)
    if d:
        raise Violation("records", "%s: records differ from those in the file: %s" % (what, d))
    pts = [[[r[1]["x"], r[1]["y"]], r[1]["net"], r[1]["access"]] for r in ref["recs"] if r[0] == "record"]
    d = canon.diff(idoc.observe_points(n), pts, 1e-9)
    if d:
        raise Violation("points", "%s: test points differ from the records: %s" % (what, d))
    for p in n.primitives:
        if p.units not in (None, n.units):
            raise Violation("point-units", "%s: a test point in %s in a netlist in %s" % (what, p.units, n.units))
    for side in ("top", "bottom", "both"):
        class Rec(object):
            seen = []

            def render(self, p):
                self.seen.append([list(p.position), p.net_name, p.layer])
        ctx = Rec()
        ctx.seen = []
        n.render(ctx, layer=side)
        d = canon.diff(ctx.seen, [q for q in pts if q[2] in ((side, "both") if side != "both" else ("top", "bottom", "both"))], 1e-9)
        if d:
            raise Violation("side", "%s: drawing the test points that can be reached from %s: %s" % (what, side, d))
    want = idoc.derived(ref["recs"])
    got = idoc.observe_derived(n)
    for k in want:
        d = canon.diff(got[k], want[k], 0)
        if d:
            raise Violation(k, "%s: %s differ from those that occur: %s" % (what, k, d))
    for name, typ in (("comments", "comment"), ("parameters", "parameter"), ("test_records", "record"), ("outlines", "outline"), ("adjacency_records", "adjacency")):
        k = sum(r[0] == typ for r in ref["recs"])
        if len(getattr(n, name)) != k:
            raise Violation(name, "%s: %d %s instead of %d" % (what, len(getattr(n, name)), name, k))


class C16(Base):
    id = "C16"
    runs = {"quick": 20000, "thorough": 500000}
    rule = ("seeded IPC-D-356A netlists (test records with every optional field, long designators, net name variables, conductors, adjacencies and outlines with continuation "
            "records, three unit systems) x delivery (chunking, buffers, line ends, file / string / detecting entry point) x read faults followed by a retry, with other "
            "netlists read in between; non-trivial: at least one test record")
    measure = "distinct (record-kind sequence, unit, entry point, delivery class, fault) signatures"
    real = ["gerber.ipc356", "gerber.common", "gerber.cam", "gerber.primitives (TestRecord)", "io buffering and text layers"]
    stub = ["raw file (simulated)"]
    assumptions = ["the reference reading (sim/idoc.py) states IPC-D-356A for the grammar described in DESIGN.md", "an empty net name is not a net"]

    def generate(self, rng, tier, i):
        doc = idoc.gen(rng)
        sc = {"doc": doc, "entry": rng.choice(("read", "read", "ipc356.read", "from_file", "loads", "ipc356.loads")), "plan": world.gen_delivery(rng), "faults": [], "twice": int(rng.random() < 0.3)}
        if sc["entry"] not in ("loads", "ipc356.loads") and rng.random() < 0.35:
            if rng.random() < 0.3:
                sc["faults"] = [{"op": "open", "n": rng.choice((1, 1, 2)), "kind": rng.choice(("EACCES", "EMFILE", "ENOENT", "EIO"))}]
            else:
                sc["faults"] = [{"op": "read", "n": rng.choice((1, 1, 2, 3, rng.randint(1, 40))), "kind": rng.choice(("EIO", "EIO", "ESTALE", "ETIMEDOUT"))}]
            if rng.random() < 0.1:
                k = rng.randint(len(doc["recs"]) // 2, len(doc["recs"]))
                doc["recs"][k:k] = [["C", "filler"]] * rng.choice((500, 2000, 8000))
                sc["plan"] = {"buf": rng.choice((512, 4096, 8192, 65536))}
                sc["faults"] = [{"op": "read", "n": rng.choice((2, 5, 9, rng.randint(1, 60))), "kind": "EIO"}]
        return sc

    def execute(self, sc, ctx):
        import gerber
        import gerber.ipc356
        doc = sc["doc"]
        ref = idoc.ref(doc)
        text = idoc.text(doc)
        detecting = sc["entry"] in ("read", "loads")
        if sc["entry"] == "loads" and doc["style"].get("eol") == "\r":
            text = text.replace("\r", "\n")     # strings have their line ends decoded by whoever read them
        path = os.path.join(ctx.scratch, "board.ipc")
        world.put(path, text)
        plan = dict(sc.get("plan") or {})
        kinds = "".join(r[0][0] if r[0] != "tr" else "t" for r in doc["recs"])[:60]
        ctx.sig += [kinds, ref["unit"], ref["angle"], sc["entry"], bool(plan.get("chunk")), [f["kind"] for f in sc.get("faults", [])]]
        ctx.nontrivial = any(r[0] == "tr" for r in doc["recs"])
        if detecting and not any(r[0] == "P" and r[1] == "JOB" for r in doc["recs"]):
            raise Invalid("type cannot be told")

        def load():
            e = sc["entry"]
            if e == "read":
                return gerber.read(path)
            if e == "ipc356.read":
                return gerber.ipc356.read(path)
            if e == "from_file":
                return gerber.ipc356.IPCNetlist.from_file(path)
            return gerber.loads(text) if e == "loads" else gerber.ipc356.loads(text)

        def attempt(faults, what):
            w = world.World(ctx.scratch, dict(plan, faults=faults))
            got = None
            with w:
                try:
                    got = load()
                except Exception as e:
                    ctx.log("error", type(e).__name__)
                    err = e
            w.close()
            ctx.world_done(w)
            if got is None:
                if not w.fired:
                    raise Violation("refused:" + type(err).__name__, "%s: a well-formed netlist was refused: %s: %s" % (what, type(err).__name__, err))
                return None
            if type(got).__name__ != "IPCNetlist":
                raise Violation("type", "%s: a netlist was loaded as %s" % (what, type(got).__name__))
            compare(got, ref, what + (" that met %s" % (w.fired[0],) if w.fired else ""))
            return got
        first = None
        if sc.get("faults"):
            first = attempt(sc["faults"], "first read")
        got = attempt([], "read")
        if sc.get("twice"):
            # answers do not wear out, and another netlist does not disturb them
            other = gerber.ipc356.loads("P  JOB x\nP  UNITS CUST 1\nP  NNAME1 OTHER\n317NNAME1           VIA         D  24PA00X  14900Y   1450\n")
            if idoc.observe_derived(other) != {"nets": [["OTHER", []]], "components": [], "vias": 1}:
                raise Violation("other", "a second netlist reads as %r" % (idoc.observe_derived(other),))
            compare(got, ref, "asked again")
        ctx.log(idoc.observe(got), [n.name for n in got.nets], list(got.components))
        ctx.stat("records", sum(r[0] == "record" for r in ref["recs"]))


CHECK = C16()
