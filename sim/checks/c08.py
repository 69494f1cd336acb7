"""C08: a truncated or torn file never produces objects that were not in it."""
import os
import re

from .. import canon, gdoc, ghist, idoc, world, xdoc, xhist
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL


class C08(Base):
    id = "C08"
    runs = {"quick": 9000, "thorough": 250000}
    rule = ("seeded Gerber, drill and netlist documents, as written by other tools or saved by the library itself, cut at seeded offsets (any byte, and around every "
            "command's end), read back from simulated storage in seeded chunks; the objects must be a leading part of the whole file's, at least all those whose commands "
            "are complete; non-trivial: the cut leaves some but not all of the file")
    measure = "distinct (document kind, source, command hit by the tear, outcome) signatures"
    real = REAL + ["io buffering and text layers"]
    stub = ["raw file (simulated)"]
    assumptions = ["the number format is declared in the file (a guess made from the holes may change when holes are missing)"]

    def generate(self, rng, tier, i):
        kind = rng.choice(("gerber", "gerber", "gerber", "drill", "drill", "netlist"))
        kw = {"n": rng.randint(1, 10)} if rng.random() < 0.6 else {}
        doc = idoc.gen(rng, **kw) if kind == "netlist" else (xhist if kind == "drill" else ghist).gen_doc(rng, **kw)
        cuts = []
        for _ in range(rng.choice((4, 8, 8, 16))):
            if rng.random() < 0.4:
                cuts.append(["byte", rng.randint(0, 9999)])
            else:
                cuts.append(["cmd", rng.randint(0, 9999), rng.randint(-6, 3)])
        return {"kind": kind, "doc": doc, "cuts": cuts, "saved": int(kind != "netlist" and rng.random() < 0.3), "entry": rng.choice(("read", "read", "own", "loads")),
                "plan": world.gen_delivery(rng)}

    def execute(self, sc, ctx):
        import gerber
        import gerber.rs274x
        import gerber.excellon
        import gerber.ipc356
        drill = sc["kind"] == "drill"
        net = sc["kind"] == "netlist"
        mod = xdoc if drill else idoc if net else gdoc
        name = "board.drl" if drill else "board.ipc" if net else "board.gtl"
        own = gerber.excellon if drill else gerber.ipc356 if net else gerber.rs274x
        os.chdir(ctx.scratch)
        text = mod.text(sc["doc"])
        whole = mod.ref(sc["doc"])["hits" if drill else "recs" if net else "objects"]
        if sc["saved"]:
            d = gerber.loads(text)
            try:
                d.write(name)
            except ValueError:
                raise Invalid("not savable")
            text = world.get(os.path.join(ctx.scratch, name)).decode()
            if drill and not (re.search("^(INCH|METRIC),(LZ|TZ)", text, re.M) and re.search("FILE_FORMAT|^FMAT|,0+\\.0+$", text, re.M)):
                # the writer leaves the format out when it will be guessed right, but the guess needs all holes
                raise Invalid("format not declared")
            whole = self.objects(gerber.loads(text), drill)
            marks = self.scan(text, drill)
        elif net:
            marks, n = [], 0
            for e, r in zip(idoc.ends(sc["doc"]), sc["doc"]["recs"]):
                n += r[0] != "x"
                marks.append((e, n))
        else:
            marks = mod.marks(sc["doc"])
        plan = dict(sc.get("plan") or {})
        for c in sc["cuts"]:
            if c[0] == "byte":
                k = c[1] * len(text) // 10000
            else:
                k = marks[c[1] * len(marks) // 10000][0] + c[2]
            k = max(0, min(len(text), k))
            left = text[:k]
            lo = max([n for e, n in marks if e <= k] or [0])
            inside = not (k == 0 or left[-1] in "\r\n" or any(e == k for e, n in marks))
            hi = min([n for e, n in marks if e > k] or [len(whole)]) if inside or not drill else lo
            if net:
                hi = min(lo + 1, len(whole))
            elif isinstance(marks, Loose):
                hi = len(whole)
            elif not drill:
                hi = min([n for e, n in marks if e > k] or [len(whole)])
            world.put(os.path.join(ctx.scratch, name), left)
            w = world.World(ctx.scratch, plan)
            err = None
            with w:
                try:
                    if sc["entry"] == "read":
                        got = gerber.read(name)
                    elif sc["entry"] == "own":
                        got = own.read(name)
                    else:
                        got = own.loads(left) if net else gerber.loads(left)
                    objs = self.objects(got, drill, net)
                except Exception as e:
                    err = e
            w.close()
            ctx.world_done(w)
            hit = next((sc["doc"]["recs" if net else "cmds"][j][0] for j, (e, n) in enumerate(marks) if e > k), "end") if not sc["saved"] else "saved"
            ctx.sig.append([sc["kind"], hit, type(err).__name__ if err else "read"])
            if 0 < k < len(text):
                ctx.nontrivial = True
                ctx.fault("torn file")
            what = "%s cut after %d of %d bytes (...%r)" % (name, k, len(text), left[-24:])
            if err is not None:
                if k >= len(text):
                    raise Violation("refused", "the whole file was refused: %s: %s" % (type(err).__name__, err))
                ctx.log(k, type(err).__name__)
                continue
            ctx.log(k, len(objs))
            if len(objs) < lo:
                raise Violation("lost", "%s: %d objects although the commands of %d are complete" % (what, len(objs), lo))
            if len(objs) > hi:
                raise Violation("invented", "%s: %d objects; the commands before the tear and the one it hits give at most %d" % (what, len(objs), hi))
            n = lo if drill or net else len(objs)
            d = canon.diff(objs[:n], whole[:n], 2e-7)
            if d:
                raise Violation("altered", "%s: object differs from the whole file's: %s" % (what, d))

    def objects(self, doc, drill, net=False):
        s = canon.scale_of(doc.units)
        if net:
            if type(doc).__name__ != "IPCNetlist":
                raise Violation("invented", "the torn netlist was read as %s" % type(doc).__name__)
            doc.nets, doc.components     # the lists can be made whatever was lost
            return idoc.observe(doc)
        if drill:
            if type(doc).__name__ != "ExcellonFile":
                if len(doc.primitives):
                    raise Violation("invented", "the torn drill file was read as %s with %d objects" % (type(doc).__name__, len(doc.primitives)))
                return []
            return [xhist.hit(h, s) for h in doc.hits]
        if type(doc).__name__ != "GerberFile":
            if len(doc.primitives):
                raise Violation("invented", "the torn Gerber was read as %s with %d objects" % (type(doc).__name__, len(doc.primitives)))
            return []
        return canon.prims(doc)

    def scan(self, text, drill):
        """Ends of the lines of a saved file, with the number of objects certainly complete there."""
        out, pos, n = [], 0, 0
        route = down = False
        region = contours = 0
        for line in text.split("\n")[:-1]:
            pos += len(line)
            if drill:
                if line.startswith(("G00", "G01")):
                    route = True
                if line == "M15":
                    down = True
                elif line in ("M16", "M17"):
                    down = False
                elif line == "G05":
                    route = down = False
                if line.startswith(("X", "Y")) and not route or line.startswith("G01") and down:
                    n += 1
            else:
                if line == "G36*":
                    region, contours = 1, 0
                elif line == "G37*":
                    region = 0
                    n += contours
                elif region and line.endswith(("D01*", "D1*")):
                    contours = contours or 1
                elif not region and line.endswith(("D01*", "D03*", "D1*", "D3*")):
                    n += 1
            out.append((pos, n))
            pos += 1
        if not drill:
            # the writer may leave out codes that are still in force, and regions may have several contours: only lower bounds
            return Loose(out)
        return out


class Loose(list):
    pass


CHECK = C08()
