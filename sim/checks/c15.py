"""C15: drill counts, report, path length and tool edits agree with the holes."""
import math
import os
import re

from .. import canon, world, xdoc, xhist
from ..core import Violation
from .base import Base
from .c03 import REAL


class C15(Base):
    id = "C15"
    runs = {"quick": 12000, "thorough": 300000}
    rule = ("seeded Excellon programs x seeded histories of tool edits, conversions, shifts, queries, deep copies, saves and restarts; after every step hit counts, path "
            "lengths, report (printed and stored through simulated storage) and tool table are recomputed from the holes; non-trivial: a document with holes")
    measure = "distinct (hit kinds, operation sequence) signatures"
    real = REAL + ["io text layer"]
    stub = ["raw file (simulated)"]
    assumptions = ["the report shows sizes and lengths in current units, rounded as printed"]

    def generate(self, rng, tier, i):
        kw = {"small": 1} if rng.random() < 0.5 else {}
        if rng.random() < 0.4:
            kw["n"] = rng.randint(1, 8)
        doc = xhist.gen_doc(rng, **kw)
        ops = xhist.gen_ops(rng, ["tool", "tool", "tool", "inch", "metric", "offset", "query", "query", "restart", "copy"], 1, 8)
        return {"doc": doc, "ops": ops, "plan": world.gen_delivery(rng, True)}

    def execute(self, sc, ctx):
        w = world.World(ctx.scratch, sc.get("plan"))
        try:
            with w:
                self.history(sc, ctx)
        finally:
            w.close()
            ctx.world_done(w)

    def history(self, sc, ctx):
        import copy
        import gerber
        ref = xdoc.ref(sc["doc"])
        doc = xhist.load(xdoc.text(sc["doc"]), ctx.scratch)
        want = xhist.observe(doc)
        ctx.sig += [sorted(set(h[0] for h in ref["hits"])), [o[0] for o in sc["ops"]]]
        ctx.nontrivial = bool(ref["hits"])
        self.audit(doc, ref["hits"], "as loaded", ctx)
        for n, o in enumerate(sc["ops"]):
            what = "after operation %d (%s)" % (n, o[0])
            tol = 2e-6
            if o[0] == "inch":
                doc.to_inch()
            elif o[0] == "metric":
                doc.to_metric()
            elif o[0] == "offset":
                x, y, mx, my = xhist.mm_offset(doc, o)
                doc.offset(x, y)
                want = xhist.shift_obs(want, mx, my)
            elif o[0] == "tool":
                num = xhist.edit_tool(doc, o)
                if num is not None:
                    want = xhist.expect_edit(want, num, o[2])
                    ctx.stat("tool edits")
            elif o[0] == "query":
                xhist.query(doc, o[1], o[2], ctx.scratch)
            elif o[0] == "copy":
                other = copy.deepcopy(doc)
                if other.tools:
                    other.update_tool(list(other.tools)[0], diameter=0.1, rpm=1234)
                other.offset(1, 1)
            elif o[0] == "restart":
                v = xhist.savable(doc)
                if v != "yes":
                    continue
                out = os.path.join(ctx.scratch, "saved.drl")
                doc.write(out)
                os.chdir(ctx.scratch)
                back = gerber.read("saved.drl")
                fmt = doc.format
                xhist.compare_saved(want, xhist.observe(back), 10.0 ** -fmt[1] * canon.scale_of(doc.units), what, 10.0 ** -fmt[1])
                doc = back
                want = xhist.observe(doc)
                tol = 2e-6
            got = xhist.observe(doc)
            xhist.compare_obs(got, want, tol, what)
            self.audit(doc, got["hits"], what, ctx)
        ctx.log(want["n"], want["counts"])

    def audit(self, doc, hits, what, ctx):
        """hits in mm: what the queries have to agree with."""
        s = canon.scale_of(doc.units)
        nums = sorted(doc.tools)
        counts = doc.hit_count()
        exp = dict((n, sum(1 for h in hits if h[1] == n)) for n in nums)
        if counts != exp:
            raise Violation("hit-count", "%s: hit counts %r, holes %r" % (what, counts, exp))
        for n in nums:
            if doc.hit_count(n) != exp[n]:
                raise Violation("hit-count", "%s: hit_count(%d) is %r, holes %r" % (what, n, doc.hit_count(n), exp[n]))
        lengths = xdoc.path_lengths(hits)
        got = doc.path_length()
        if sorted(got) != sorted(lengths):
            raise Violation("path-length", "%s: path lengths for tools %r, holes for %r" % (what, sorted(got), sorted(lengths)))
        for n in lengths:
            for v in (got[n], doc.path_length(n)):
                if abs(v * s - lengths[n]) > 1e-5 * max(1, len(hits)):
                    raise Violation("path-length", "%s: path length of tool %d is %r mm, its holes give %r" % (what, n, v * s, lengths[n]))
        rep = doc.report()
        os.chdir(ctx.scratch)
        if doc.report("report.txt") != rep or (world.get(os.path.join(ctx.scratch, "report.txt")) or b"").decode() != rep:
            raise Violation("report", "%s: the stored report is not the one returned" % what)
        self.check_report(doc, rep, counts, got, what)

    def check_report(self, doc, rep, counts, lengths, what):
        unit = "in." if doc.units == "inch" else "mm"
        m = re.search(r"Units\s+(\S+)", rep)
        if not m or m.group(1) != {"inch": "Inches", "metric": "Millimeters"}[doc.units]:
            raise Violation("report", "%s: report units %r, document in %s" % (what, m and m.group(1), doc.units))
        rows = re.findall(r"^\s*T(\d+)\s+([-0-9.]+)\s+(\d+)\s+([-0-9.]+)(in\.|mm)\s*$", rep, re.M)
        if sorted(int(r[0]) for r in rows) != sorted(doc.tools):
            raise Violation("report", "%s: report lists tools %r, document has %r" % (what, [r[0] for r in rows], sorted(doc.tools)))
        for num, size, hits, length, u in rows:
            n = int(num)
            t = doc.tools[n]
            half = 0.5 * 10.0 ** -len(size.partition(".")[2]) + 1e-9
            lhalf = 0.5 * 10.0 ** -len(length.partition(".")[2]) + 1e-9
            if u != unit or int(hits) != counts[n] or abs(float(size) - t.diameter) > half or abs(float(length) - (lengths.get(n) or 0.0)) > lhalf:
                raise Violation("report", "%s: report row %r, tool %d: %r %s, %d hits, path %r" % (
                    what, (num, size, hits, length, u), n, t.diameter, unit, counts[n], lengths.get(n)))


CHECK = C15()
