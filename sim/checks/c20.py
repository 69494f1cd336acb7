"""C20: a shape answers for what it is now, whatever was asked or changed before."""
import copy
import math
import sys

from .. import canon, gdoc
from ..core import Violation
from .base import Base

INCH = 25.4
# kind -> (lengths and points that scale with the unit, other attributes)
SHAPES = {
    "Circle": (("position", "diameter", "hole_diameter"), ()),
    "Ellipse": (("position", "width", "height"), ("rotation",)),
    "Rectangle": (("position", "width", "height", "hole_diameter"), ("rotation",)),
    "Diamond": (("position", "width", "height"), ("rotation",)),
    "ChamferRectangle": (("position", "width", "height", "chamfer"), ("corners", "rotation")),
    "RoundRectangle": (("position", "width", "height", "radius"), ("corners", "rotation")),
    "Obround": (("position", "width", "height", "hole_diameter"), ("rotation",)),
    "Polygon": (("position", "radius", "hole_diameter"), ("sides", "rotation")),
    "RoundButterfly": (("position", "diameter"), ()),
    "SquareButterfly": (("position", "side"), ()),
    "Donut": (("position", "inner_diameter", "outer_diameter"), ("shape",)),
    "SquareRoundDonut": (("position", "inner_diameter", "outer_diameter"), ()),
    "Drill": (("position", "diameter"), ()),
    "Slot": (("start", "end", "diameter"), ()),
    "Line": (("start", "end"), ("aperture",)),
    "Arc": (("start", "end", "center"), ("direction", "aperture", "quadrant_mode")),
    "Region": ((), ("primitives",)),
    "Outline": ((), ("primitives",)),
}
QUERIES = ("bounding_box", "vertices", "segments", "bounding_box_no_aperture", "axis_aligned_width", "axis_aligned_height", "lower_left", "upper_right", "radius",
           "hole_radius", "diameter", "orientation", "angle", "sweep_angle", "start_angle", "end_angle", "width", "height", "flashed",
           "subshapes")
# what two shapes of a kind must have in common to be the same in two places
LIKE = {
    "Line": ("start", "end"),
    "Circle": ("diameter", "hole_diameter", "position"),
    "Rectangle": ("width", "height", "rotation", "hole_diameter", "position"),
    "Polygon": ("sides", "radius", "rotation", "hole_diameter", "position"),
    "Outline": ("primitives",),
}
ANGLES = (0, 0, 30, 45, 90, 120.5, 180, 225, 270, -45, 359)


def build(m, k=None):
    """A new shape from a description."""
    from gerber import primitives as P
    kind, d, unit = m["kind"], m["attr"], m["unit"]
    a = {n: thaw(n, v, unit) for n, v in d.items()}
    kw = {"units": unit}
    if "rotation" in a:
        kw["rotation"] = a["rotation"]
    if kind in ("Region", "Outline"):
        return getattr(P, kind)(a["primitives"], **kw)
    names = SHAPES[kind][0] + tuple(n for n in SHAPES[kind][1] if n != "rotation")
    if kind == "Donut":
        return P.Donut(a["position"], a["shape"], a["inner_diameter"], a["outer_diameter"], **kw)
    for n in names:
        kw[n] = a[n]
    return getattr(P, kind)(**kw)


def thaw(name, v, unit):
    from gerber import primitives as P
    if name == "primitives":
        return [build({"kind": s["kind"], "attr": s["attr"], "unit": unit}) for s in v]
    if name == "aperture":
        if v[0] == "circle":
            return P.Circle((0.0, 0.0), v[1], units=unit)
        # where an aperture was last used must not matter
        return P.Rectangle((v[1], -v[2]), v[1], v[2], units=unit)
    return tuple(v) if isinstance(v, list) and name != "corners" else v


def scaled(name, v, f):
    if name == "primitives":
        return [{"kind": s["kind"], "attr": {n: scaled(n, x, f) if n in SHAPES[s["kind"]][0] or n == "aperture" else x for n, x in s["attr"].items()}} for s in v]
    if name == "aperture":
        return [v[0]] + [f(x) for x in v[1:]]
    return [f(x) for x in v] if isinstance(v, list) else f(v)


def moved(m, dx, dy):
    for n in ("position", "start", "end", "center"):
        if n in m["attr"]:
            m["attr"][n] = [m["attr"][n][0] + dx, m["attr"][n][1] + dy]
    for s in m["attr"].get("primitives", []):
        moved(s, dx, dy)


def turn(p, a, c):
    t = math.radians(a)
    x, y = p[0] - c[0], p[1] - c[1]
    return [c[0] + x * math.cos(t) - y * math.sin(t), c[1] + x * math.sin(t) + y * math.cos(t)]


def corners_of(m):
    """The corners of a shape made of straight sides, or None."""
    a, kind = m["attr"], m["kind"]
    if kind == "Outline":
        return [s["attr"]["start"] for s in a["primitives"]]
    if kind not in ("Rectangle", "Diamond", "ChamferRectangle", "Polygon"):
        return None
    (x, y), r = a["position"], a["rotation"]
    if kind == "Polygon":
        return [turn([x + a["radius"], y], r + 360.0 * k / a["sides"], [x, y]) for k in range(a["sides"])]
    w, h = a["width"] / 2, a["height"] / 2
    if kind == "Rectangle":
        pts = [[x + i * w, y + j * h] for i in (1, -1) for j in (1, -1)]
    elif kind == "Diamond":
        pts = [[x + w, y], [x - w, y], [x, y + h], [x, y - h]]
    else:
        pts = []
        for (i, j), cut in zip(((1, 1), (-1, 1), (-1, -1), (1, -1)), a["corners"]):
            c = a["chamfer"]
            pts += [[x + i * (w - c), y + j * h], [x + i * w, y + j * (h - c)]] if cut else [[x + i * w, y + j * h]]
    return [turn(p, r, [x, y]) for p in pts]


def box_of(m):
    """(exact extents or None, smallest extents or None)"""
    a, kind = m["attr"], m["kind"]
    if kind in ("Region", "Outline"):
        bs = [plain_box(s) for s in a["primitives"]]
        if None in bs:
            return None, None
        return [[min(b[0][0] for b in bs), max(b[0][1] for b in bs)], [min(b[1][0] for b in bs), max(b[1][1] for b in bs)]], None
    if kind in ("Line", "Arc", "Slot"):
        b = plain_box(m)
        if b is None:
            return None, None
        if kind == "Slot":
            w = h = a["diameter"] / 2
        elif a["aperture"][0] == "circle":
            w = h = a["aperture"][1] / 2
        else:
            w, h = a["aperture"][1] / 2, a["aperture"][2] / 2
        return [[b[0][0] - w, b[0][1] + w], [b[1][0] - h, b[1][1] + h]], None
    x, y = a["position"]
    rot = a.get("rotation", 0)
    c, s = abs(math.cos(math.radians(rot))), abs(math.sin(math.radians(rot)))
    least = None
    if kind in ("Circle", "RoundButterfly", "Drill"):
        w = h = a["diameter"] / 2
    elif kind == "Polygon":
        w = h = a["radius"]
    elif kind == "SquareButterfly":
        w = h = a["side"] / 2
    elif kind == "SquareRoundDonut":
        w = h = a["outer_diameter"] / 2
    elif kind == "Donut":
        w = h = a["outer_diameter"] / 2
        if a["shape"] == "hexagon":
            w *= math.sqrt(3) / 2
    elif kind == "Ellipse":
        p, q = a["width"] / 2, a["height"] / 2
        w, h = math.hypot(p * c, q * s), math.hypot(p * s, q * c)
    else:
        p, q = a["width"] / 2, a["height"] / 2
        w, h = p * c + q * s, p * s + q * c
        if kind != "Rectangle" and min(c, s) > 1e-9:
            # extents of a turned shape may be those of the rectangle around it
            if kind == "Diamond":
                u, v = max(p * c, q * s), max(p * s, q * c)
            elif kind == "Obround":
                e, r = abs(p - q), min(p, q)
                u, v = (e * c + r, e * s + r) if p > q else (e * s + r, e * c + r)
            elif kind == "RoundRectangle":
                r = min(a["radius"], p, q)
                u, v = (p - r) * c + (q - r) * s + r, (p - r) * s + (q - r) * c + r
            else:
                pts = corners_of(m)
                return [[x - w, x + w], [y - h, y + h]], [[min(t[0] for t in pts), max(t[0] for t in pts)], [min(t[1] for t in pts), max(t[1] for t in pts)]]
            least = [[x - u, x + u], [y - v, y + v]]
    return [[x - w, x + w], [y - h, y + h]], least


def plain_box(m):
    a = m["attr"]
    if m["kind"] == "Arc":
        if a["quadrant_mode"] != "multi-quadrant" and a["start"] == a["end"]:
            return None
        return gdoc.arc_box(a["start"], a["end"], a["center"], a["direction"] == "clockwise")
    return [sorted((a["start"][0], a["end"][0])), sorted((a["start"][1], a["end"][1]))]


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def ask(p, q):
    if not hasattr(type(p), q):
        return "none"
    try:
        v = getattr(p, q)
        if q == "subshapes":
            return [sorted([c.position[0], c.position[1], c.diameter] for k, c in v.items() if k != "rectangle"),
                    [list(v["rectangle"].position), v["rectangle"].width, v["rectangle"].height]]
        return plain(v)
    except NotImplementedError:
        return "none"


def interrupted(p, q, n, ctx):
    """Ask with an allocation failing at the n-th line of the library; True if it did."""
    left = [n]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                raise MemoryError("injected")
        return local

    def trace(frame, event, arg):
        return local if "/gerber/" in frame.f_code.co_filename else None
    sys.settrace(trace)
    try:
        getattr(p, q, None)
    except MemoryError:
        return True
    except NotImplementedError:
        pass
    finally:
        sys.settrace(None)
    return False


class C20(Base):
    id = "C20"
    runs = {"quick": 20000, "thorough": 600000}
    rule = ("seeded shapes of every class x seeded histories of changes of any attribute, moves, unit conversions, copies, comparisons, queries and queries that a failing "
            "allocation cuts short; after every step every answer is compared with that of a shape built afresh with the present values and extents and corners with an "
            "independent geometry; non-trivial: a change after a query")
    measure = "distinct (class, sequence of operations) signatures"
    real = ["gerber.primitives", "gerber.utils"]
    stub = []
    assumptions = ["extents of a turned diamond, obround, chamfered or rounded rectangle may be those of the turned rectangle around it",
                   "an operation that changes a shape is not itself cut short"]

    # ------------------------------------------------------------ generation
    def generate(self, rng, tier, i):
        shapes = [self.shape(rng) for _ in range(rng.choice((1, 1, 2, 3)))]
        ops = []
        for _ in range(rng.randint(2, 12)):
            k = rng.randrange(len(shapes))
            ops.append(self.op(rng, k, shapes[k]))
        return {"shapes": shapes, "ops": ops}

    def num(self, rng, a=0.05, b=3.0):
        return rng.choice((1.0, 0.5, round(rng.uniform(a, b), rng.choice((1, 3, 6))) or a))

    def point(self, rng):
        return [rng.choice((0.0, round(rng.uniform(-5, 5), 3), round(rng.uniform(-5, 5), 3))) for _ in "xy"]

    def value(self, rng, kind, name, attr):
        if name in ("position", "start", "end", "center"):
            return self.point(rng)
        if name == "rotation":
            return rng.choice(ANGLES)
        if name == "corners":
            return [rng.random() < 0.6 for _ in range(4)]
        if name == "sides":
            return rng.randint(3, 9)
        if name == "direction":
            return rng.choice(("clockwise", "counterclockwise"))
        if name == "quadrant_mode":
            return rng.choice(("multi-quadrant", "multi-quadrant", "single-quadrant"))
        if name == "aperture":
            return ["circle", self.num(rng)] if kind == "Arc" or rng.random() < 0.5 else ["rectangle", self.num(rng), self.num(rng)]
        if name == "shape":
            return rng.choice(("round", "square", "hexagon", "octagon"))
        if name in ("chamfer", "radius") and kind in ("ChamferRectangle", "RoundRectangle"):
            return self.num(rng, 0.01, 0.2) * 0.05
        if name == "hole_diameter":
            return rng.choice((0.0, 0.02))
        if name == "inner_diameter":
            return 0.01 * self.num(rng)
        return self.num(rng)

    def shape(self, rng, kind=None):
        kind = kind or rng.choice(sorted(SHAPES))
        attr = {}
        if kind in ("Region", "Outline"):
            n = rng.randint(2, 5)
            pts = [self.point(rng) for _ in range(n)]
            segs = []
            for k in range(n):
                p, q = pts[k], pts[(k + 1) % n]
                if kind == "Region" and rng.random() < 0.3:
                    a = {"start": p, "end": q, "center": self.point(rng), "direction": rng.choice(("clockwise", "counterclockwise")), "aperture": ["circle", 0.0],
                         "quadrant_mode": "multi-quadrant"}
                    segs.append({"kind": "Arc", "attr": a})
                else:
                    segs.append({"kind": "Line", "attr": {"start": p, "end": q, "aperture": ["circle", 0.0]}})
            attr["primitives"] = segs
        else:
            for n in SHAPES[kind][0] + SHAPES[kind][1]:
                attr[n] = self.value(rng, kind, n, attr)
        return {"kind": kind, "attr": attr, "unit": rng.choice(("inch", "metric"))}

    def op(self, rng, k, m):
        r = rng.random()
        names = [n for n in SHAPES[m["kind"]][0] + SHAPES[m["kind"]][1] if n not in ("shape", "primitives")]
        if r < 0.3 and names:
            n = rng.choice(names)
            return ["set", k, n, self.value(rng, m["kind"], n, m["attr"])]
        if r < 0.42:
            return ["move", k, round(rng.uniform(-3, 3), 2), rng.choice((0, round(rng.uniform(-3, 3), 2)))]
        if r < 0.55:
            return [rng.choice(("inch", "metric")), k]
        if r < 0.6:
            return ["copy", k]
        if r < 0.64:
            return ["same", k]
        if r < 0.68 and m["kind"] in LIKE:
            n = rng.choice([None, None] + list(LIKE[m["kind"]]))
            return ["like", k, self.point(rng), n, self.value(rng, m["kind"], n, m["attr"]) if n else None]
        if r < 0.78:
            return ["cut", k, rng.choice(QUERIES[:5]), rng.choice((1, 2, 3, 5, 8, 13, 30, rng.randint(1, 60)))]
        return ["ask", k, rng.choice(QUERIES)]

    # ------------------------------------------------------------- execution
    def execute(self, sc, ctx):
        models = sc["shapes"]
        objs = [build(m) for m in models]
        ctx.sig += [[m["kind"] for m in models], [o[:2] + o[2:3] * (o[0] in ("set", "ask")) for o in sc["ops"]]]
        asked = set()
        for n, o in enumerate(sc["ops"]):
            if o[1] >= len(models):
                continue
            m, p = models[o[1]], objs[o[1]]
            what = "%s after operation %d (%s)" % (m["kind"], n, " ".join(str(x) for x in [o[0]] + o[2:]))
            if o[0] == "set":
                if o[2] not in m["attr"]:
                    continue
                a = dict(m["attr"], **{o[2]: o[3]})
                if a.get("inner_diameter", -1) >= a.get("outer_diameter", 0) or 2 * a.get("chamfer", 0) > min(a.get("width", 1), a.get("height", 1)):
                    continue
                m["attr"] = a
                setattr(p, o[2], thaw(o[2], o[3], m["unit"]))
            elif o[0] == "move":
                moved(m, o[2], o[3])
                p.offset(o[2], o[3])
            elif o[0] in ("inch", "metric"):
                (p.to_inch if o[0] == "inch" else p.to_metric)()
                if m["unit"] != o[0]:
                    f = (lambda v: v / INCH) if o[0] == "inch" else (lambda v: v * INCH)
                    m["attr"] = {a: scaled(a, v, f) if a in SHAPES[m["kind"]][0] + ("aperture", "primitives") else v for a, v in m["attr"].items()}
                    m["unit"] = o[0]
            elif o[0] == "copy":
                # carry on with a copy; the one it was taken from must not notice
                models.append(copy.deepcopy(m))
                objs.append(p)
                objs[o[1]] = copy.deepcopy(p)
            elif o[0] == "same":
                q = copy.deepcopy(p)
                ask(p, "bounding_box"), ask(p, "vertices"), ask(p, "segments")
                if not p == q or p != q:
                    raise Violation("equal", "%s: a shape is no longer equal to its copy after its extents were asked for" % what)
                q.offset(1.0, 0.0)
                if p == q:
                    raise Violation("equal", "%s: a shape equals its moved copy" % what)
            elif o[0] == "like":
                self.like(p, m, o, what)
            elif o[0] == "cut":
                if interrupted(p, o[2], o[3], ctx):
                    ctx.fault("ENOMEM@query")
                    if ctx.nontrivial is False and asked:
                        ctx.nontrivial = True
            else:
                got = ask(p, o[2])
                asked.add(o[1])
                ctx.log("ask", o[2], got)
                self.one(p, build(m), m, o[2], what)
            if o[0] in ("set", "move", "inch", "metric") and asked:
                ctx.nontrivial = True
            # only now and then ask everything: what was kept must survive until somebody asks
            if o[0] in ("ask", "cut") and (n + o[1]) % 3 == 0:
                self.audit(objs, models, "operation %d" % n)
        self.audit(objs, models, "the last operation")

    def like(self, p, m, o, what):
        """Is a shape elsewhere, perhaps with another size, recognised as the same or as another one?"""
        t = copy.deepcopy(m)
        n = o[3]
        if n == "primitives":
            # one corner less
            segs = t["attr"]["primitives"]
            if len(segs) < 3 or any(s["kind"] != "Line" for s in segs):
                return
            if o[4] > 0.9:
                # or another contour added
                a, b = segs[0]["attr"]["start"], [segs[0]["attr"]["start"][0] + o[4], segs[0]["attr"]["start"][1]]
                segs += [{"kind": "Line", "attr": {"start": x, "end": y, "aperture": ["circle", 0.0]}} for x, y in ((a, b), (b, a))]
            else:
                cut = segs.pop()
                segs[-1]["attr"]["end"] = cut["attr"]["end"]
        elif n:
            t["attr"][n] = copy.deepcopy(o[4])
        a, b = (copy.deepcopy(x["attr"]) for x in (m, t))
        if m["kind"] in ("Rectangle", "Polygon"):
            # turns that make no difference
            for x in (a, b):
                turn = 180.0 if m["kind"] == "Rectangle" else 360.0 / x["sides"]
                x["rotation"] = x["rotation"] % turn
        d = canon.diff(a, b, 1e-9)
        if not d and canon.diff(m["attr"], t["attr"], 0):
            return      # as good as the same: either answer will do
        if d and not canon.diff(a, b, 1e-4) or (m["kind"] == "Rectangle" and n == "rotation" and a["width"] == a["height"]):
            return      # too close to tell
        moved(t, -o[2][0], -o[2][1])
        q = build(t)
        for x, y, off in ((p, q, o[2]), (q, p, [-o[2][0], -o[2][1]])):
            got = x.equivalent(y, tuple(off))
            if bool(got) != (d is None):
                raise Violation("equivalent", "%s: %r and the same %s taken for %s" % (what, m["attr"], "with %s %r" % (n, o[4]) if n else "moved", "the same" if got else "different"))

    def audit(self, objs, models, when):
        for p, m in zip(objs, models):
            what = "%s after %s" % (m["kind"], when)
            if p.units != m["unit"]:
                raise Violation("units", "%s: in %s instead of %s" % (what, p.units, m["unit"]))
            fresh = build(m)
            for q in QUERIES:
                self.one(p, fresh, m, q, what)
            for n in SHAPES[m["kind"]][0]:
                d = canon.diff(plain(getattr(p, n)), plain(thaw(n, m["attr"][n], m["unit"])), 1e-9)
                if d:
                    raise Violation("value", "%s: %s %s" % (what, n, d))

    def one(self, p, fresh, m, q, what):
        a, b = ask(p, q), ask(fresh, q)
        d = canon.diff(a, b, 1e-9)
        if d:
            raise Violation("stale", "%s: %s is not that of an identical new shape: %s" % (what, q, d))
        if a == "none" or a is None:
            return
        if q == "bounding_box":
            full, least = box_of(m)
            if full is None:
                return
            if least is None:
                d = canon.diff(a, full, 1e-9)
                if d:
                    raise Violation("extents", "%s: %r cover %s" % (what, m["attr"], d))
            else:
                for k in (0, 1):
                    if not (full[k][0] - 1e-9 <= a[k][0] <= least[k][0] + 1e-9 and least[k][1] - 1e-9 <= a[k][1] <= full[k][1] + 1e-9):
                        raise Violation("extents", "%s: %r covers %r, stated %r" % (what, m["attr"], least, a))
        elif q == "vertices":
            want = corners_of(m)
            if want is not None and (len(want) != len(a) or any(min(math.hypot(t[0] - u[0], t[1] - u[1]) for u in a) > 1e-7 for t in want)):
                raise Violation("corners", "%s: corners of %r are %r, stated %r" % (what, m["attr"], want, a))
            if m["kind"] == "Line" and m["attr"]["aperture"][0] == "rectangle":
                (x, y), (u, v), (_, w, h) = m["attr"]["start"], m["attr"]["end"], m["attr"]["aperture"]
                area = abs(sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(a, a[1:] + a[:1]))) / 2
                d = canon.diff(area, w * h + abs(u - x) * h + abs(v - y) * w, 1e-7) or canon.diff([[f(t[k] for t in a) for f in (min, max)] for k in (0, 1)], box_of(m)[0], 1e-9)
                if d:
                    raise Violation("corners", "%s: outline of %r is %r: %s" % (what, m["attr"], a, d))
        elif q == "segments":
            n = len(p.vertices)
            if len(a) != n * (n - 1) // 2:
                raise Violation("segments", "%s: %d segments between %d corners" % (what, len(a), n))
        else:
            want = self.stated(m, q, p)
            d = want is not None and canon.diff(a, want, 1e-9)
            if d:
                raise Violation("measure", "%s: %s of %r: %s" % (what, q, m["attr"], d))

    def stated(self, m, q, p):
        """What a measure has to be, or None if it is not judged here."""
        a, kind = m["attr"], m["kind"]
        if q == "flashed":
            return kind not in ("Line", "Arc", "Region", "Slot", "Drill", "Outline") if kind not in ("Slot", "Drill", "Outline") else None
        if q in ("lower_left", "upper_right", "axis_aligned_width", "axis_aligned_height"):
            b = plain(p.bounding_box)
            return {"lower_left": [b[0][0], b[1][0]], "upper_right": [b[0][1], b[1][1]], "axis_aligned_width": b[0][1] - b[0][0], "axis_aligned_height": b[1][1] - b[1][0]}[q]
        if q == "bounding_box_no_aperture":
            return plain_box(m) if kind in ("Line", "Arc") else plain(p.bounding_box)
        if q == "radius":
            if kind == "Arc":
                return math.hypot(a["start"][0] - a["center"][0], a["start"][1] - a["center"][1])
            return a["diameter"] / 2 if "diameter" in a else a.get("radius")
        if q == "diameter":
            return 2 * a["radius"] if kind == "Polygon" else a.get("diameter")
        if q == "subshapes":
            if a["rotation"]:
                return None
            (x, y), w, h = a["position"], a["width"], a["height"]
            if h > w:
                return [sorted([x, y + k * (h - w) / 2, w] for k in (1, -1)), [[x, y], w, h - w]]
            return [sorted([x + k * (w - h) / 2, y, h] for k in (1, -1)), [[x, y], w - h, h]]
        if q == "hole_radius":
            return a["hole_diameter"] / 2 if a.get("hole_diameter") else None
        if q == "angle":
            return math.atan2(a["end"][1] - a["start"][1], a["end"][0] - a["start"][0])
        if kind == "Arc" and q in ("start_angle", "end_angle"):
            e = a[q.split("_")[0]]
            t = getattr(p, q)
            want = math.atan2(e[1] - a["center"][1], e[0] - a["center"][0])
            # whole turns do not matter
            return want + round((t - want) / (2 * math.pi)) * 2 * math.pi
        if kind == "Arc" and q == "sweep_angle":
            t = [math.atan2(a[e][1] - a["center"][1], a[e][0] - a["center"][0]) for e in ("start", "end")]
            want = (t[1] - t[0]) * (1 if a["direction"] == "counterclockwise" else -1)
            return want + round((p.sweep_angle - want) / (2 * math.pi)) * 2 * math.pi
        return None


CHECK = C20()
