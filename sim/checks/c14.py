"""C14: a Gerber regenerated from drawn objects describes the same objects."""
import copy
import itertools
import json
import math
import os
import re

from .. import canon, gdoc, ghist, world
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL

BAD = ("drill", "slot", "rotated", "rotated-obround", "diamond-line", "diamond", "testrecord", "tall-line")
SHAPE = 4e-5     # contours of macros are written with six decimals


def bad_object(kind, units, k):
    from gerber import primitives as P
    v = 0.1 * (1 + k % 7)
    if kind == "drill":
        return P.Drill((v, v), v, units=units)
    if kind == "slot":
        return P.Slot((v, v), (2 * v, v), v, units=units)
    if kind == "rotated":
        return P.Rectangle((v, v), v, 2 * v, rotation=30, units=units)
    if kind == "rotated-obround":
        return P.Obround((v, v), v, 2 * v, rotation=45, units=units)
    if kind == "diamond-line":
        return P.Line((v, v), (3 * v, v), P.Diamond((0, 0), v, 2 * v, units=units), units=units)
    if kind == "diamond":
        return P.Diamond((v, v), v, 2 * v, units=units)
    if kind == "testrecord":
        return P.TestRecord((v, v), "NET", "F.Cu", units=units)
    if kind == "tall-line":
        return P.Line((v, v), (3 * v, v), P.Rectangle(None, v, 2 * v, rotation=30, units=units), units=units)
    raise Invalid(kind)


def values(p, s):
    """What the file has to hold of one canonical object: coordinates, and arcs as (start, end, i, j, quadrant mode, direction)."""
    n = type(p).__name__
    if n == "Region":
        out, arcs = [], []
        for q in p.primitives:
            a, b = values(q, s)
            out += a
            arcs += b
        return out, arcs
    if n == "Line":
        return list(p.start) + list(p.end), []
    if n == "Arc":
        i, j = p.center[0] - p.start[0], p.center[1] - p.start[1]
        return list(p.start) + list(p.end) + [i, j], [p]
    return list(p.position), []


def verdict(prims, fmt, k):
    """yes / no / edge, the primitives' numbers being multiplied by k for the file's unit (see ghist.savable)."""
    res = 10.0 ** -fmt[1]
    lim = 10 ** (fmt[0] + fmt[1])
    out = "yes"
    for p in prims:
        vals, arcs = values(p, k)
        over = max([abs(v * k) / res for v in vals] or [0])
        if over > lim + 0.001:
            return "no"
        if over > lim - 1:
            out = "edge"
        for a in arcs:
            i, j = (a.center[0] - a.start[0]) * k, (a.center[1] - a.start[1]) * k
            st, en = [v * k for v in a.start], [v * k for v in a.end]
            same = abs(a.start[0] - a.end[0]) < 1e-12 and abs(a.start[1] - a.end[1]) < 1e-12
            if a.quadrant_mode == "single-quadrant":
                d = "cw" if a.direction == "clockwise" else "ccw"
                for t in itertools.product(*[ghist.rounded(v / res) for v in st + en + [i, j]]):
                    try:
                        gdoc.single_ok(t[0], t[1], ["ar", d] + list(t[2:]))
                    except Invalid:
                        out = "edge"
                        break
            elif not same and abs(round(st[0] / res) - round(en[0] / res)) + abs(round(st[1] / res) - round(en[1] / res)) < 4:
                out = "edge"
            if math.hypot(i, j) / res < 3:
                out = "edge"
    return out


TOKEN = re.compile(r"%(AM)([^*%]+)\*|%AD(D)(\d+)([A-Za-z_.$][^,*%]*)|(?:^|\*|\n)(?:G54)?D([1-9]\d+)\*")


def well_defined(text, what):
    """Every definition before its use, and given once."""
    macros, codes = set(), set()
    for m in TOKEN.finditer(text):
        if m.group(1):
            if m.group(2) in macros:
                raise Violation("definitions", "%s: macro %s is defined twice" % (what, m.group(2)))
            macros.add(m.group(2))
        elif m.group(3):
            if m.group(4) in codes:
                raise Violation("definitions", "%s: aperture D%s is defined twice" % (what, m.group(4)))
            if m.group(5) not in ("C", "R", "O", "P") and m.group(5) not in macros:
                raise Violation("definitions", "%s: aperture D%s uses macro %s before it is defined" % (what, m.group(4), m.group(5)))
            codes.add(m.group(4))
        elif m.group(6) not in codes:
            raise Violation("definitions", "%s: aperture D%s is used before it is defined" % (what, m.group(6)))


def zero_dots(prims):
    """Indices of draws without length which repeat the end of the draw before them: leaving them out changes nothing."""
    out = set()
    for i in range(1, len(prims)):
        a, b = prims[i - 1], prims[i]
        if b[0] == "line" and a[0] in ("line", "arc") and canon.diff([b[1], b[1], a[-2:]], [b[2], a[2], b[-2:]], 1e-9) is None:
            out.add(i)
    return out


def short(seg, tol):
    return seg[0] == "line" and all(abs(a - b) <= tol for a, b in zip(seg[1], seg[2]))


def hollow(p, tol):
    """A contour of nothing but segments of no length: it encloses nothing."""
    return p[0] == "region" and all(short(s, tol) for s in p[1])


def thread(a, b, same, spare, extra):
    """Indices of `a` and `b` to leave out (only spare / extra ones) so that the rest correspond one to one, or None."""
    reach = {0: ((), ())}              # how many of b are accounted for -> what was left out
    for i, p in enumerate(a):
        nxt = {}
        for j, (out, more) in sorted(reach.items()):
            while True:
                if j < len(b) and same(p, b[j]):
                    nxt.setdefault(j + 1, (out, more))
                if i in spare:
                    nxt.setdefault(j, (out + (i,), more))
                if j < len(b) and j in extra:
                    j, more = j + 1, more + (j,)
                    continue
                break
        reach = nxt
    for j, (out, more) in sorted(reach.items(), reverse=True):
        if all(k in extra for k in range(j, len(b))):
            return out, more + tuple(range(j, len(b)))
    return None


def align(drawn, got, res):
    """Both lists without what may be left out of a regenerated file: repeated dots, and parts of contours that have no length."""
    def fit(p, q):
        if p[0] != "region" or q[0] != "region" or len(p[1]) == len(q[1]):
            return p
        left = thread(p[1], q[1], lambda s, t: ghist.diff_saved([s], [t], res, shape=SHAPE) is None, {i for i, s in enumerate(p[1]) if short(s, 1.02 * res)}, ())
        return p if left is None else [p[0], [s for i, s in enumerate(p[1]) if i not in left[0]]] + list(p[2:])

    def same(p, q):
        return ghist.diff_saved([fit(p, q)], [q], res, shape=SHAPE) is None
    spare = zero_dots(drawn) | {i for i, p in enumerate(drawn) if hollow(p, 1.02 * res)}
    left = thread(drawn, got, same, spare, {j for j, q in enumerate(got) if hollow(q, 2.02 * res)})
    if left is None:
        return drawn, got
    drawn = [p for i, p in enumerate(drawn) if i not in left[0]]
    got = [q for j, q in enumerate(got) if j not in left[1]]
    return [fit(p, q) for p, q in zip(drawn, got)], got


def add_twins(rng, doc):
    """Macros that differ from an existing one in a single value, flashed after it: definitions that are easily taken for each other."""
    cmds = doc["cmds"]
    ams = [c for c in cmds if c[0] == "am" and any(b[0] == "pr" for b in c[2])]
    if not ams:
        return
    top = max([c[1] for c in cmds if c[0] == "ad"] or [10])
    for n in range(rng.choice((1, 1, 2))):
        am = rng.choice(ams)
        body = json.loads(json.dumps(am[2]))
        pr = rng.choice([b for b in body if b[0] == "pr"])
        lits = [k for k, e in enumerate(pr[2]) if e[0] == "n"]
        if not lits:
            continue
        k = rng.choice(lits)
        how = rng.random()
        if how < 0.25 and pr[1] in (2, 20, 21, 5, 4):
            # the same shape turned the other way: often the same extents
            if pr[1] in (2, 20) and rng.random() < 0.7:
                # symmetric about both axes, as a centered rectangle
                pr[1], pr[2] = 21, [["n", "1"], ["n", "0.0%d" % rng.randint(20, 90)], ["n", "0.0%d" % rng.randint(20, 90)], ["n", "0"], ["n", "0"], ["n", rng.choice(("30", "20.5", "10", "75"))]]
                am[2][:] = json.loads(json.dumps(body))
            e = pr[2][-1]
            if e[0] == "n" and not float(e[1]):
                e[1] = rng.choice(("30", "20.5", "10", "75"))
                am[2][:] = json.loads(json.dumps(body))
            pr[2][-1] = e[1] if e[0] == "neg" else ["neg", e]
            k = None
        elif how < 0.4 and pr[1] == 5:
            pr[2][1] = ["n", str(rng.choice([n for n in range(3, 13) if pr[2][1] != ["n", str(n)]]))]
            k = None
        elif how < 0.5 and pr[1] == 4 and pr[2][1][0] == "n":
            # one corner more or less
            n = int(float(pr[2][1][1]))
            at = 2 * rng.randint(1, n) + 2
            if n > 3 and rng.random() < 0.5 and at < 2 * n + 2:
                del pr[2][at:at + 2]
                n -= 1
            else:
                pr[2][at:at] = [["n", "%.4f" % rng.uniform(0, 0.1)], ["n", "%.4f" % rng.uniform(0, 0.1)]]
                n += 1
            pr[2][1] = ["n", str(n)]
            k = None
        if k is not None:
            e = pr[2][k]
            v = float(e[1])
            if k == 0 and pr[1] != 7:
                e[1] = "0" if v else "1"
            elif pr[1] == 4 and k == 1 or pr[1] == 5 and k == 1:
                continue
            elif pr[1] == 4 and 1 < k < len(pr[2]) - 1:
                m = (k, k + len(pr[2]) - 5) if k in (2, 3) else (k, k - len(pr[2]) + 5) if k >= len(pr[2]) - 3 else (k,)
                for q in m:
                    pr[2][q] = ["n", "%.6f" % (v + rng.choice((0.0001, 0.001, 0.01)))]
            elif k == len(pr[2]) - 1 and pr[1] not in (1,):
                e[1] = "%g" % (v + rng.choice((180, 90, 7, 72)))
            else:
                e[1] = "%.6f" % (v + rng.choice((0.0001, 0.001, 0.01)))
        name = am[1] + "t%d" % n
        uses = [c for c in cmds if c[0] == "ad" and c[2] == am[1]]
        for u in uses[:2] or [["ad", 0, 0, ["0.1"] * 4]]:
            if top >= 990:
                return
            top += 1
            new = [["ad", top, name, list(u[3])]]
            if not any(c[0] == "am" and c[1] == name for c in cmds):
                new.insert(0, ["am", name, body])
            cmds += new
            for _ in range(rng.randint(1, 2)):
                d = rng.choice([top] + [c[1] for c in uses])
                cmds += [["sel", d], ["fl", rng.randint(0, 30), rng.randint(0, 30)], ["sel", top], ["fl", rng.randint(0, 30), rng.randint(0, 30)]]


class C14(Base):
    id = "C14"
    runs = {"quick": 12000, "thorough": 300000}
    rule = ("one to three seeded layers (with seeded conversions and shifts), their objects drawn into one or two Gerber-writing contexts (own units, formats and zero rules) "
            "in a seeded interleaving, with repeated and skipped objects, objects that cannot be expressed and dumps in between; every dump is stored under simulated "
            "storage, read back and compared with the objects drawn so far; non-trivial: at least one object was dumped")
    measure = "distinct (object kinds drawn, context settings, step kinds, verdicts) signatures"
    real = REAL + ["gerber.render.rs274x_backend", "gerber.render.render", "gerber.am_statements"]
    stub = ["raw file (simulated)"]
    assumptions = ["half a file unit of tolerance per coordinate (one for arc centres); six decimals for the contours of macros", "an arc whose chord or radius vanishes at the written resolution is not compared",
                   "a draw without length that repeats the end of the draw before it, with the same aperture and polarity, may be left out"]

    def generate(self, rng, tier, i):
        docs, pre = [], []
        for _ in range(rng.choice((1, 1, 2, 3))):
            kw = {"small": 1} if rng.random() < 0.7 else {}
            if rng.random() < 0.6:
                kw["n"] = rng.randint(1, 10)
            docs.append(ghist.gen_doc(rng, **kw))
            if rng.random() < 0.4:
                before = json.dumps(docs[-1])
                try:
                    add_twins(rng, docs[-1])
                    gdoc.ref(docs[-1])
                except Exception:
                    docs[-1] = json.loads(before)
            pre.append(ghist.gen_ops(rng, ["inch", "metric", "offset", "query"], 0, 3))
        ctxs = []
        for _ in range(rng.choice((1, 1, 1, 2))):
            c = {"doc": rng.randrange(len(docs)), "settings": None, "flash": int(rng.random() < 0.8), "close": int(rng.random() < 0.2)}
            if rng.random() < 0.6:
                c["settings"] = dict(ghist.gen_settings(rng, None), unit=rng.choice(("inch", "metric", None, None)))
            ctxs.append(c)
        queues = []
        for c in range(len(ctxs)):
            for d in rng.sample(range(len(docs)), rng.randint(1, len(docs))):
                n = rng.choice((4, 10, 10, 30))
                a = rng.choice((0, 0, 0, rng.randint(0, 20)))
                q = [["draw", c, d, a + k] for k in range(n)]
                k = rng.random()
                if k < 0.15:
                    rng.shuffle(q)
                elif k < 0.3:
                    q = [q[rng.randrange(n)] for _ in range(n)]
                queues.append(q)
        steps = []
        while queues:
            q = rng.choice(queues)
            for _ in range(rng.choice((1, 1, 3, 100))):
                if q:
                    steps.append(q.pop(0))
                    k = rng.random()
                    if k < 0.02:
                        steps.append(["dump", rng.randrange(len(ctxs))])
                    elif k < 0.04:
                        steps.append(["bad", rng.randrange(len(ctxs)), rng.choice(BAD), rng.randint(0, 6)])
                    elif k < 0.05:
                        d = rng.randrange(len(docs))
                        steps.append(["edit", d, ghist.gen_ops(rng, ["inch", "metric", "offset"], 1, 1)[0]])
            queues = [x for x in queues if x]
        for st in steps:
            if st[0] == "draw" and rng.random() < 0.05:
                st.append("bare")
        return {"docs": docs, "pre": pre, "ctxs": ctxs, "steps": steps}

    def execute(self, sc, ctx):
        from gerber.cam import FileSettings
        from gerber.render.rs274x_backend import Rs274xContext
        docs = []
        for d, ops in zip(sc["docs"], sc["pre"]):
            doc = ghist.load(gdoc.text(d), ctx.scratch)
            for o in ops:
                self.edit(doc, o)
            docs.append(doc)
        if not docs:
            raise Invalid("no document")
        cs = []
        for c in sc["ctxs"]:
            doc = docs[c["doc"] % len(docs)]
            st = c["settings"]
            if st is None:
                settings = doc.settings
            else:
                settings = FileSettings("absolute", st["unit"] or doc.units, st["zs"], tuple(st["fmt"]))
            x = Rs274xContext(settings)
            x.condensed_flash = bool(c["flash"])
            x.explicit_region_move_end = bool(c["close"])
            cs.append([x, settings.units, tuple(settings.format), [], "yes"])
        if not cs:
            raise Invalid("no context")
        kinds = set()
        for step in sc["steps"]:
            if step[0] == "edit":
                self.edit(docs[step[1] % len(docs)], step[2])
                continue
            c = cs[step[1] % len(cs)]
            if step[0] == "dump":
                self.dump(c, ctx)
            elif step[0] == "bad":
                ctx.fault("inexpressible:" + step[2])
                obj = bad_object(step[2], c[1], step[3])
                try:
                    c[0].render(obj)
                except (ValueError, NotImplementedError, TypeError):
                    continue
                raise Violation("dropped", "an object that a Gerber cannot express (%s) was drawn without an error" % step[2])
            else:
                ps = docs[step[2] % len(docs)].primitives
                if not ps:
                    continue
                p = ps[step[3] % len(ps)]
                u = docs[step[2] % len(docs)].units
                s = canon.scale_of(u)
                want = canon.prim(p, s)
                kinds.add(want[0])
                if len(step) > 4:
                    # an object that does not know what macro it came from
                    q = copy.deepcopy(p)
                    if hasattr(q, "stmt"):
                        q.stmt = None
                    if want[0] == "region":
                        # segments made by a program, which leave the polarity to their region
                        for e in q.primitives:
                            e.level_polarity = None
                    elif q.level_polarity == "dark":
                        q.level_polarity = None
                    c[0].render(q)
                else:
                    c[0].render(p)
                if canon.prim(p, s) != want:
                    raise Violation("source", "drawing changed the object: %r became %r" % (want, canon.prim(p, s)))
                v = verdict([p], c[2], s / canon.scale_of(c[1]))
                if v == "no" or c[4] == "no":
                    c[4] = "no"
                elif v == "edge":
                    c[4] = "edge"
                c[3].append(want)
        for c in cs:
            self.dump(c, ctx)
            ctx.sig += [c[1], c[2], c[4]]
        ctx.sig += [sorted(kinds), [s[0] for s in sc["steps"] if s[0] != "draw"], len(docs)]

    def edit(self, doc, o):
        if o[0] == "inch":
            doc.to_inch()
        elif o[0] == "metric":
            doc.to_metric()
        elif o[0] == "offset":
            x, y, _, _ = ghist.mm_offset(doc, o)
            doc.offset(x, y)
        elif o[0] == "query":
            ghist.query(doc, o[1], o[2])

    def dump(self, c, ctx):
        import gerber
        x, units, fmt, drawn, v = c
        ctx.stat("dump:" + v)
        try:
            text = x.dump().getvalue()
        except ValueError as e:
            if v == "yes":
                raise Violation("refused", "dump refused although every number fits %s: %s" % (fmt, e))
            return
        if v == "no":
            raise Violation("overflow", "a coordinate does not fit format %s but no error was raised" % (fmt,))
        if x.dump().getvalue() != text:
            raise Violation("unstable", "dumping twice gives different text")
        well_defined(text, "dump")
        if v == "edge":
            return
        if drawn:
            ctx.nontrivial = True
        path = os.path.join(ctx.scratch, "regenerated.gbr")
        world.put(path, text)
        try:
            back = gerber.read(path)
        except Exception as e:
            raise Violation("unreadable", "the regenerated file cannot be read: %s: %s" % (type(e).__name__, e))
        if back.units != units:
            raise Violation("units", "regenerated in %s, read back in %s" % (units, back.units))
        got = canon.prims(back)
        res = 10.0 ** -fmt[1] * canon.scale_of(units)
        d = ghist.diff_saved(drawn, got, res, shape=SHAPE)
        if d:
            d = ghist.diff_saved(*align(drawn, got, res), res, shape=SHAPE)
        if d:
            raise Violation("regenerated", d)
        ctx.log(len(text), len(got))


CHECK = C14()
