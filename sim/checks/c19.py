"""C19: drill files read with an external tool table and settings."""
import os

from .. import canon, sched, world, xdoc, xgen, xhist
from ..core import Violation, Invalid
from .base import Base
from .c10 import gen_slices

PLATED = {"PLATED": "plated", "NON_PLATED": "nonplated", "OPTIONAL": "optional", "P": "plated", "N": "nonplated", "x": "plated", "-": "nonplated", "?": None}


# ------------------------------------------------------------------ the texts that go with drill files
def settings_text(g, style):
    lines = ["MACHINE-TYPE EXCELLON", "HEADER none", "LEADER 12", "CODE ASCII", "SEPARATE NO"][:style.get("lead", 0)]
    keys = [("INTEGER-PLACES", g["fmt"][0]), ("DECIMAL-PLACES", g["fmt"][1]), ("COORDINATES", "INCREMENTAL" if g.get("inc") else "ABSOLUTE"),
            ("OUTPUT-UNITS", {"IN": "ENGLISH", "MM": "METRIC"}[g["unit"]])]
    k = style.get("turn", 0) % 4
    lines += ["%-20s %s" % (a, b) for a, b in keys[k:] + keys[:k]]
    lines += ["FEEDRATE 1", "EXTRA WORDS HERE 4", "DRILLING LAYER-PAIR"][:style.get("tail", 0)]
    return (style.get("eol") or "\n").join(lines) + "\n"


def table_text(t, cut=None):
    """t = {"form", "rows": [[number, size text, plating, unit, feed, speed]]} -> text, tools that complete rows describe (mm)."""
    out, tools = [], []
    if t["form"] == "report":
        out += ["Drill report", "", "Tool Size Pltd Feed Speed Qty", "==== ==== ==== ==== ===== ==="]
    elif t["form"] == "tool":
        out += ["# tool table", ""]
    for n, size, plating, unit, feed, speed in t["rows"]:
        v = float(size) * (0.0254 if unit == "MILS" else 25.4 if unit == "IN" else 1.0)
        par = {}
        if t["form"] == "report":
            out.append("%d %s %s %d %d %d" % (n, size, plating, feed, speed, 7))
            par = {"F": feed, "S": speed}
        elif t["form"] == "tool":
            out.append("  %s   %s   T%02d   0.000   0.000" % (size, plating, n))
        else:
            out.append("%sHolesize %d. = %s Tolerance = +0.000000/-0.000000 %s %s Quantity = 7" % ("T%02d " % n if t["form"] == "hole2" else "", n, size, plating, unit))
        tools.append((len(out), n, {"dia": v, "plated": PLATED[plating], "par": par}))
    if t["form"] == "report":
        out += ["==== ==== ==== ==== ===== ===", "Total 55"]
    if cut is not None:
        # the table was only half written
        out = out[:cut % (len(out) + 1)]
    d = {}
    for k, n, tool in tools:
        if k <= len(out):
            d[n] = tool
    return "\n".join(out) + "\n", d


def gen_table(rng, numbers, unit):
    form = rng.choice(("tool", "hole", "hole2", "report"))
    rows = []
    for n in numbers:
        u = {"tool": "MILS", "report": unit}.get(form) or rng.choice(("MILS", "MILS", "MM"))
        size = {"MILS": rng.choice(("%.2f", "%g", "%f")) % (rng.randint(80, 2000) / 10.0), "MM": "%f" % (rng.randint(20, 600) / 100.0), "IN": xgen.dia(rng, "IN")}[u]
        if form == "report" and u == "MM":
            size = xgen.dia(rng, "MM")
        plating = rng.choice({"tool": "PN", "report": "x-?"}.get(form) or ("PLATED", "NON_PLATED", "OPTIONAL"))
        rows.append([n, size, plating, u, rng.randint(1, 200), rng.randint(1, 60) * 1000])
    if rng.random() < 0.1:
        rows.append(list(rows[0]))
        rows[-1][1] = rows[-1][1].replace("1", "2")
    return {"form": form, "rows": rows}


def with_table(rng, d, g):
    """The program with its tool definitions (or most of them) left to the table, and its declarations (or not) left to the settings."""
    d = dict(d)
    left = []
    for c in d["cmds"]:
        if c[0] in ("td", "hole") and rng.random() < 0.85:
            continue
        if c[0] in ("unit", "mm", "ff", "fmat") and g and rng.random() < 0.6:
            continue
        left.append(c)
    if rng.random() < 0.2 and any(c[0] == "t" for c in left):
        # no header at all
        k = min(i for i, c in enumerate(left) if c[0] == "t")
        if not any(c[0] in ("td", "hole", "unit", "mm", "ff", "fmat") for c in left[:k]):
            left = [["%"], ["%"]] + left[k:]
    d["cmds"] = left
    return d


class C19(Base):
    id = "C19"
    runs = {"quick": 6000, "thorough": 250000}
    rule = ("one to three seeded drill programs whose tools come from a seeded external table (tool table, hole list or report, complete or half written) and whose units, format and "
            "notation may come from a seeded settings file, loaded, converted, shifted, edited and saved in seeded interleavings of calls or, in threads, of source lines; "
            "non-trivial: at least one hole drilled with a tool of the table")
    measure = "distinct (table form, programs' tools, operation interleaving, preempted source lines) signatures"
    real = ["gerber.excellon", "gerber.excellon_settings", "gerber.excellon_tool", "gerber.excellon_statements", "gerber.cam", "gerber.utils"]
    stub = ["thread scheduler (baton passed at trace events)", "half-written table: cut at a line"]
    assumptions = ["the table and the program use the units of the settings", "platings of external tools are not part of a saved drill file", "tolerance 2e-7 mm"]

    def setup(self):
        sched.install()
        Base.setup(self)

    def generate(self, rng, tier, i):
        for _ in range(300):
            sc = self.attempt(rng)
            try:
                self.refs(sc)
                return sc
            except Invalid:
                continue
        raise AssertionError("generator")

    def attempt(self, rng):
        n = rng.choice((1, 1, 2, 2, 3))
        first = xgen.gen(rng, n=rng.choice((None, 1, 4, 8)), allow_holes=False)
        docs = [first]
        for _ in range(n - 1):
            d = xgen.gen(rng, n=rng.choice((1, 4, 8)), allow_holes=False)
            for _ in range(60):
                if d["unit"] == first["unit"]:
                    break
                d = xgen.gen(rng, n=rng.choice((1, 4, 8)), allow_holes=False)
            docs.append(d if rng.random() < 0.7 else first)
        numbers = sorted({c[1] for d in docs for c in d["cmds"] if c[0] in ("t", "td") and c[1]} | {1})
        numbers = [k for k in numbers if rng.random() < 0.9] or [1]
        rng.random() < 0.3 and numbers.append(max(numbers) + 1)
        sc = {"unit": first["unit"], "table": gen_table(rng, numbers, first["unit"]), "docs": [], "style": {"lead": rng.randint(0, 5), "turn": rng.randint(0, 3), "tail": rng.randint(0, 3)}}
        if rng.random() < 0.15:
            sc["cut"] = rng.randint(0, 9)
        for d in docs:
            g = None
            if rng.random() < 0.7:
                g = {"unit": d["unit"], "fmt": d["fmt"], "zero": d["zero"], "how": "file" if d["dec"] or d["style"]["pad"] == 1 or d["zero"] == "T" else rng.choice(("file", "FileSettings"))}
                if rng.random() < 0.6:
                    g["how"] = "FileSettings"
                if rng.random() < 0.15:
                    g["inc"] = 1
                if g["how"] == "file":
                    g["zero"] = "T"
            sc["docs"].append(dict(with_table(rng, d, g), given=g))
        ops = [[k, "load"] for k in range(n)]
        for _ in range(rng.randint(0, 8)):
            o = xhist.gen_ops(rng, ["inch", "metric", "offset", "tool", "save", "query"], 1, 1)[0]
            ops.insert(rng.randint(0, len(ops)), [rng.randrange(n)] + o)
        ops += [[rng.randrange(n), "load"] for _ in range(rng.choice((0, 0, 1)))]
        sc["ops"] = ops
        if n > 1 and rng.random() < 0.25:
            sc["slices"] = gen_slices(rng, n)
        return sc

    def refs(self, sc):
        text, tools = table_text(sc["table"], sc.get("cut"))
        out = []
        for d in sc["docs"]:
            if d["unit"] != sc["unit"]:
                raise Invalid("two units")
            g = d.get("given")
            if g and (g["unit"] != d["unit"]):
                raise Invalid("two units")
            if g and g["how"] == "file" and g["zero"] != "T":
                raise Invalid("settings files state no zero suppression")
            if any(c[0] == "type" for c in d["cmds"]):
                raise Invalid("plating stated twice")
            e = dict(d, ext=[[n, t] for n, t in sorted(tools.items())])
            out.append((e, xdoc.ref(e), xdoc.text(e)))
        return text, tools, out

    # ------------------------------------------------------------------
    def execute(self, sc, ctx):
        import gerber.excellon
        import gerber.excellon_settings
        import gerber.excellon_tool
        from gerber.cam import FileSettings
        text, tools, refs = self.refs(sc)
        os.chdir(ctx.scratch)
        fmt = (2, 4) if sc["unit"] == "IN" else (3, 3)
        base = FileSettings(units={"IN": "inch", "MM": "metric"}[sc["unit"]], format=fmt, zeros="leading")
        table = (gerber.excellon_tool.loads_rep if sc["table"]["form"] == "report" else gerber.excellon_tool.loads)(text, base)
        scale = canon.scale_of(base.units)

        def seen():
            return [[n, t.number, t.diameter, t.plated, t.feed_rate, t.retract_rate, t.rpm, t.max_hit_count, t.depth_offset, t.hit_count] for n, t in sorted(table.items())]
        pristine = seen()
        want = [[n, n, t["dia"] / scale, t["plated"], t["par"].get("F"), None, t["par"].get("S"), None, None, 0] for n, t in sorted(tools.items())]
        d = canon.diff(pristine, want, 1e-8)
        if d:
            raise Violation("table", "the tool table reads differently: %s" % d)
        given = []
        for e, ref, t in refs:
            g = e.get("given")
            if not g:
                given.append(None)
                continue
            if g["how"] == "file":
                s = gerber.excellon_settings.loads(settings_text(g, sc["style"]))
            else:
                s = FileSettings(notation="incremental" if g.get("inc") else "absolute", units={"IN": "inch", "MM": "metric"}[g["unit"]], format=tuple(g["fmt"]),
                                 zero_suppression={"L": "leading", "T": "trailing"}[g["zero"]])
            got = (s.units, tuple(s.format), s.notation, s.zero_suppression)
            exp = ({"IN": "inch", "MM": "metric"}[g["unit"]], tuple(g["fmt"]), "incremental" if g.get("inc") else "absolute", {"L": "leading", "T": "trailing"}[g["zero"]])
            if got != exp:
                raise Violation("settings", "the settings read %r instead of %r" % (got, exp))
            given.append(s)
        frozen = [None if s is None else (s.units, tuple(s.format), s.notation, s.zero_suppression) for s in given]

        def load(k):
            e, ref, t = refs[k]
            return gerber.excellon.loads(t, settings=given[k], tools=table)

        docs, exp = {}, {}

        def step(o, judge=True):
            k = o[0]
            if o[1] == "load":
                docs[k] = load(k)
                if judge:
                    exp[k] = xhist.compare_ref(docs[k], refs[k][1], "program %d" % k)
                return
            if k not in docs:
                return
            doc = docs[k]
            if o[1] == "inch":
                doc.to_inch()
            elif o[1] == "metric":
                doc.to_metric()
            elif o[1] == "offset":
                x, y, dx, dy = xhist.mm_offset(doc, o[1:])
                doc.offset(x, y)
                if judge:
                    exp[k] = xhist.shift_obs(exp[k], dx, dy)
                else:
                    moved[k] = (moved[k][0] + dx, moved[k][1] + dy)
            elif o[1] == "tool":
                if judge:
                    n = xhist.edit_tool(doc, o[1:])
                    if n is not None:
                        exp[k] = xhist.expect_edit(exp[k], n, o[3])
            elif o[1] == "query":
                xhist.query(doc, o[2], o[3])
            elif o[1] == "save":
                self.save(doc, k, ctx)

        def judge_all(what):
            d = canon.diff(seen(), pristine, 0)
            if d:
                raise Violation("table-changed", "%s: the tool table changed: %s" % (what, d))
            for k, s in enumerate(given):
                if s is not None and (s.units, tuple(s.format), s.notation, s.zero_suppression) != frozen[k]:
                    raise Violation("settings-changed", "%s: the settings passed for program %d changed" % (what, k))
            for k in sorted(docs):
                xhist.compare_obs(xhist.observe(docs[k]), exp[k], 1e-6, "%s: program %d" % (what, k))

        if not sc.get("slices"):
            for n, o in enumerate(sc["ops"]):
                step(o)
                judge_all("after step %d (%s of program %d)" % (n, o[1], o[0]))
        else:
            moved = [(0.0, 0.0)] * len(refs)
            errors = []

            def thread(k):
                def run():
                    try:
                        for o in sc["ops"]:
                            if o[0] == k and o[1] != "tool" and not (o[1] == "load" and k in docs):
                                step(o, False)
                    except Exception as e:
                        errors.append((k, e))
                return run
            s = sched.Scheduler(sc["slices"], os.path.dirname(os.path.abspath(gerber.__file__)))
            s.run([thread(k) for k in range(len(refs))])
            if errors:
                k, e = errors[0]
                if isinstance(e, Violation):
                    raise e
                raise Violation("thread", "program %d in its thread: %s: %s" % (k, type(e).__name__, e))
            for k in sorted(docs):
                d = gerber.excellon.loads(refs[k][2], settings=given[k], tools=table)
                exp[k] = xhist.shift_obs(xhist.compare_ref(d, refs[k][1], "program %d after the threads" % k), *moved[k])
            judge_all("after the threads")
            ctx.stat("thread switches", s.switches)
            ctx.sig.append(sorted(s.sites)[:100])
        used = set(tools) & set(h[1] for e, ref, t in refs for h in ref["hits"])
        ctx.nontrivial = bool(used)
        ctx.sig += [sc["table"]["form"], [[c[0] for c in e["cmds"]][:30] for e, ref, t in refs], [o[:2] for o in sc["ops"]], sc.get("cut")]
        if sc.get("cut") is not None and len(tools) < len(sc["table"]["rows"]):
            ctx.fault("half-written tool table")
        for k in sorted(exp):
            ctx.log(exp[k]["hits"][:20], exp[k]["tools"])

    def save(self, doc, k, ctx):
        import gerber.excellon
        fmt = tuple(doc.format)
        v = xhist.savable(doc)
        mem = xhist.observe(doc)
        out = os.path.join(ctx.scratch, "saved%d.drl" % k)
        try:
            doc.write(out)
        except ValueError as e:
            if v == "yes":
                raise Violation("refused", "program %d: save refused although every coordinate fits %s: %s" % (k, fmt, e))
            return
        if v == "edge" or not mem["n"]:
            return
        back = gerber.excellon.read(out)
        if back.units != doc.units:
            raise Violation("reload-units", "saved in %s, read back in %s" % (doc.units, back.units))
        got = xhist.observe(back)
        for o in (mem, got):
            for n, t in o["tools"]:
                t["plated"] = None
        xhist.compare_saved(mem, got, 10.0 ** -fmt[1] * canon.scale_of(doc.units), "program %d saved" % k, 10.0 ** -fmt[1])


CHECK = C19()
