"""C21: a drill file regenerated from drawn holes describes the same holes."""
import copy
import os

from .. import canon, ghist, world, xdoc, xhist
from ..core import Violation, Invalid
from .base import Base
from .c03 import REAL

BAD = ("line", "arc", "circle", "rectangle", "obround", "polygon", "region", "donut", "macro", "outline", "diamond", "testrecord", "butterfly")


def bad_object(kind, units, k):
    from gerber import primitives as P
    v = 0.1 * (1 + k % 7)
    pen = P.Circle((0, 0), v, units=units)
    if kind == "line":
        return P.Line((v, v), (2 * v, v), pen, units=units)
    if kind == "arc":
        return P.Arc((v, 0), (0, v), (0, 0), "counterclockwise", pen, "multi-quadrant", units=units)
    if kind == "circle":
        return P.Circle((v, v), v, units=units)
    if kind == "rectangle":
        return P.Rectangle((v, v), v, 2 * v, units=units)
    if kind == "obround":
        return P.Obround((v, v), v, 2 * v, units=units)
    if kind == "polygon":
        return P.Polygon((v, v), 5, v, 0, units=units)
    if kind == "diamond":
        return P.Diamond((v, v), v, 2 * v, units=units)
    if kind == "donut":
        return P.Donut((v, v), "round", v, 2 * v, units=units)
    if kind == "butterfly":
        return P.RoundButterfly((v, v), v, units=units)
    if kind == "testrecord":
        return P.TestRecord((v, v), "NET", "F.Cu", units=units)
    sides = [P.Line((0, 0), (v, 0), pen, units=units), P.Line((v, 0), (0, v), pen, units=units), P.Line((0, v), (0, 0), pen, units=units)]
    if kind == "region":
        return P.Region(sides, units=units)
    if kind == "outline":
        return P.Outline(sides, units=units)
    if kind == "macro":
        from gerber.am_statements import AMCirclePrimitive
        return P.AMGroup([AMCirclePrimitive(1, 'on', v, (v, v))], units=units)
    raise Invalid(kind)


class C21(Base):
    id = "C21"
    runs = {"quick": 10000, "thorough": 250000}
    rule = ("one to three seeded drill documents (with seeded conversions, shifts and tool edits), their holes drawn into one or two Excellon-writing contexts (own units, "
            "formats and zero rules) in a seeded interleaving, with and without the hit a hole was made by, with repeated and skipped holes, objects that are no holes and "
            "dumps in between; every dump is stored under simulated storage, read back and compared with the holes drawn so far; non-trivial: at least one hole was dumped")
    measure = "distinct (kinds of hole drawn, context settings, step kinds, verdicts) signatures"
    real = REAL + ["gerber.render.excellon_backend", "gerber.render.render"]
    stub = ["raw file (simulated)"]
    assumptions = ["half a file unit of tolerance per coordinate and diameter", "every hole has a tool with a diameter", "how a slot is cut is only kept when its hit is known"]

    def generate(self, rng, tier, i):
        docs, pre = [], []
        for _ in range(rng.choice((1, 1, 2, 3))):
            kw = {"small": 1} if rng.random() < 0.6 else {}
            if rng.random() < 0.6:
                kw["n"] = rng.randint(1, 10)
            docs.append(xhist.gen_doc(rng, **kw))
            pre.append(xhist.gen_ops(rng, ["inch", "metric", "offset", "query", "tool"], 0, 3))
        ctxs = []
        for _ in range(rng.choice((1, 1, 1, 2))):
            c = {"doc": rng.randrange(len(docs)), "settings": None}
            if rng.random() < 0.6:
                c["settings"] = dict(ghist.gen_settings(rng, None), unit=rng.choice(("inch", "metric", None, None)))
            ctxs.append(c)
        queues = []
        for c in range(len(ctxs)):
            for d in rng.sample(range(len(docs)), rng.randint(1, len(docs))):
                n = rng.choice((4, 10, 10, 30))
                a = rng.choice((0, 0, 0, rng.randint(0, 20)))
                known = rng.random() < 0.5
                q = [["draw", c, d, a + k, int(known if rng.random() < 0.9 else not known)] for k in range(n)]
                k = rng.random()
                if k < 0.15:
                    rng.shuffle(q)
                elif k < 0.3:
                    q = [q[rng.randrange(n)] for _ in range(n)]
                elif k < 0.4:
                    q = [x for x in q for _ in range(rng.choice((1, 1, 2)))]
                queues.append(q)
        steps = []
        while queues:
            q = rng.choice(queues)
            for _ in range(rng.choice((1, 1, 3, 100))):
                if q:
                    steps.append(q.pop(0))
                    k = rng.random()
                    if k < 0.02:
                        steps.append(["dump", rng.randrange(len(ctxs))])
                    elif k < 0.04:
                        steps.append(["bad", rng.randrange(len(ctxs)), rng.choice(BAD), rng.randint(0, 6)])
                    elif k < 0.06:
                        steps.append(["edit", rng.randrange(len(docs)), xhist.gen_ops(rng, ["inch", "metric", "offset", "tool"], 1, 1)[0]])
            queues = [x for x in queues if x]
        return {"docs": docs, "pre": pre, "ctxs": ctxs, "steps": steps, "plan": world.gen_delivery(rng)}

    def execute(self, sc, ctx):
        w = world.World(ctx.scratch, sc.get("plan"))
        try:
            with w:
                self.history(sc, ctx)
        finally:
            w.close()
            ctx.world_done(w)

    def history(self, sc, ctx):
        from gerber.cam import FileSettings
        from gerber.render.excellon_backend import ExcellonContext
        docs = []
        for d, ops in zip(sc["docs"], sc["pre"]):
            doc = xhist.load(xdoc.text(d), ctx.scratch)
            for o in ops:
                self.edit(doc, o)
            docs.append(doc)
        if not docs:
            raise Invalid("no document")
        cs = []
        for c in sc["ctxs"]:
            doc = docs[c["doc"] % len(docs)]
            st = c["settings"]
            settings = copy.copy(doc.settings)
            if st is not None:
                settings = FileSettings("absolute", st["unit"] or doc.units, st["zs"], tuple(st["fmt"]))
            if settings.notation != "absolute":
                try:
                    x = ExcellonContext(settings)
                except NotImplementedError:
                    ctx.stat("incremental refused")
                    settings.notation = "absolute"
            x = ExcellonContext(settings)
            cs.append([x, settings, [], "yes", [], []])
        if not cs:
            raise Invalid("no context")
        kinds = set()
        for step in sc["steps"]:
            if step[0] == "edit":
                self.edit(docs[step[1] % len(docs)], step[2])
                continue
            c = cs[step[1] % len(cs)]
            if step[0] == "dump":
                self.dump(c, ctx)
            elif step[0] == "bad":
                ctx.fault("inexpressible:" + step[2])
                try:
                    c[0].render(bad_object(step[2], c[1].units, step[3]))
                except (ValueError, NotImplementedError, TypeError):
                    continue
                raise Violation("dropped", "an object that a drill file cannot express (%s) was drawn without an error" % step[2])
            else:
                doc = docs[step[2] % len(docs)]
                if not doc.hits:
                    continue
                k = step[3] % len(doc.hits)
                h, p = doc.hits[k], doc.primitives[k]
                if h.tool.diameter is None:
                    continue
                s = canon.scale_of(doc.units)
                if step[4]:
                    p.hit = h
                want = xhist.hit(h, s)
                want = want[:1] + [want[2] if step[4] else None] * (want[0] == "slot") + want[-3 if want[0] == "slot" else -2:]
                kinds.add(tuple(want[:2]) if want[0] == "slot" else want[0])
                before = [canon.prim(p, s), xhist.hit(h, s), xhist.tool(h.tool, s), p.units, h.tool.settings.units]
                c[0].render(p)
                after = [canon.prim(p, s), xhist.hit(h, s), xhist.tool(h.tool, s), p.units, h.tool.settings.units]
                if after != before:
                    raise Violation("source", "drawing changed the hole: %r became %r" % (before, after))
                f = s / canon.scale_of(c[1].units)
                v = fits([h.start, h.end] if hasattr(h, "slot_type") else [h.position], c[1].format, f)
                c[3] = "no" if "no" in (v, c[3]) else "edge" if "edge" in (v, c[3]) else "yes"
                c[2].append(want)
                if step[4]:
                    # a tool is described as it was when used for one of the holes
                    t = xhist.tool(h.tool, s)
                    t = dict((a, t[a]) for a in ("feed", "retract", "rpm", "max", "depth"))
                    for known in c[4]:
                        if known[0] is h.tool:
                            break
                    else:
                        known = [h.tool, []]
                        c[4].append(known)
                    if t not in known[1]:
                        known[1].append(t)
                    c[5].append(known[1][:])
                else:
                    c[5].append(None)
        for c in cs:
            self.dump(c, ctx)
            ctx.sig += [c[1].units, tuple(c[1].format), c[1].zero_suppression, c[3]]
        ctx.sig += [sorted(kinds, key=str), [s[0] for s in sc["steps"] if s[0] != "draw"], len(docs)]

    def edit(self, doc, o):
        if o[0] == "inch":
            doc.to_inch()
        elif o[0] == "metric":
            doc.to_metric()
        elif o[0] == "offset":
            x, y, _, _ = xhist.mm_offset(doc, o)
            doc.offset(x, y)
        elif o[0] == "tool":
            xhist.edit_tool(doc, o)
        elif o[0] == "query":
            xhist.query(doc, o[1], o[2])

    def dump(self, c, ctx):
        import gerber
        x, settings, drawn, v, _, pars = c
        ctx.stat("dump:" + v)
        try:
            text = "\n".join(st.to_excellon(settings) for st in x.statements) + "\n"
        except ValueError as e:
            if v == "yes":
                raise Violation("refused", "dump refused although every number fits %s: %s" % (settings.format, e))
            return
        if v == "no":
            raise Violation("overflow", "a coordinate does not fit format %s but no error was raised" % (settings.format,))
        if "\n".join(st.to_excellon(settings) for st in x.statements) + "\n" != text:
            raise Violation("unstable", "dumping twice gives different text")
        if v == "edge":
            return
        if drawn:
            ctx.nontrivial = True
        world.put(os.path.join(ctx.scratch, "regenerated.drl"), text)
        os.chdir(ctx.scratch)
        try:
            back = gerber.read("regenerated.drl")
        except OSError:
            raise
        except Exception as e:
            raise Violation("unreadable", "the regenerated file cannot be read: %s: %s" % (type(e).__name__, e))
        if drawn and back.units != settings.units:
            raise Violation("units", "regenerated in %s, read back in %s" % (settings.units, back.units))
        s = canon.scale_of(back.units)
        res = 10.0 ** -settings.format[1] * canon.scale_of(settings.units)
        got = [xhist.hit(h, s) for h in back.hits]
        if len(got) != len(drawn):
            raise Violation("regenerated", "%d holes were drawn, the file has %d" % (len(drawn), len(got)))
        for n, (g, w) in enumerate(zip(got, drawn)):
            if g[0] == "slot":
                g = g[:1] + [g[2] if w[0] != "slot" or w[1] else None] + g[3:]
            else:
                g = g[:1] + g[2:]
            d = canon.diff(g, w, 0.51 * res + 1e-7, "hole %d" % n)
            if d:
                raise Violation("regenerated", d)
        for n, (h, p) in enumerate(zip(back.hits, pars)):
            t = xhist.tool(h.tool, s)
            wrong = [[(a, t[a], v) for a, v in q.items() if not close(t[a], v, 0.51 * res + 1e-7 if a == "depth" else
                      0.51 * 10.0 ** -settings.format[1] * (1000 if a == "rpm" else 1) + 1e-6)] for q in p or ()]
            if wrong and all(wrong):
                raise Violation("parameters", "hole %d: %s of its tool is %r instead of %r" % ((n,) + wrong[-1][0]))
        numbers = {}
        for h in back.hits:
            if numbers.setdefault(h.tool.number, h.tool) is not h.tool:
                raise Violation("regenerated", "two tools of number %d" % h.tool.number)
        ctx.log(len(text), len(got))


def close(a, b, tol):
    return a == b if a is None or b is None else abs(a - b) <= tol


def fits(points, fmt, k):
    """yes / no / edge: whether the coordinates, times k, fit the number format."""
    lim = 10 ** (fmt[0] + fmt[1])
    m = max(abs(v * k) * 10 ** fmt[1] for p in points for v in p)
    return "no" if m > lim + 0.001 else "edge" if m > lim - 1.001 else "yes"


CHECK = C21()
