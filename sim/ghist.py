"""Histories of a loaded Gerber document: observation in physical units, edits, queries, saves and reloads."""
import itertools
import math
import os

from . import canon, gdoc, ggen, world
from .core import Violation, Invalid

# ------------------------------------------------------------------ observation
LENGTHS = ("radius", "hole_radius", "diameter", "axis_aligned_width", "axis_aligned_height", "width", "height")
POINTS = ("upper_right", "lower_left")
ANGLES = ("angle", "start_angle", "end_angle", "sweep_angle")
DIRS = [(math.cos(k * math.pi / 8 + 0.05), math.sin(k * math.pi / 8 + 0.05)) for k in range(16)]


def support(points):
    """Support function of a point set in 16 directions: a description of its hull that does not depend on vertex order."""
    return [max(x * a + y * b for x, y in points) for a, b in DIRS]


def details(p, s):
    """Derived geometry of one object, in mm: a list of [name, value]."""
    n = type(p).__name__
    out = [["box", canon.box(p.bounding_box, s)], ["box0", canon.box(p.bounding_box_no_aperture, s)]]
    if n in ("AMGroup", "Region", "Outline"):
        if n != "Region":
            out.append(["sub", [details(q, s) for q in p.primitives]])
        return out
    for a in LENGTHS:
        if hasattr(type(p), a):
            v = getattr(p, a)
            out.append([a, None if v is None else v * s])
    for a in POINTS:
        if hasattr(type(p), a):
            v = getattr(p, a)
            out.append([a, [v[0] * s, v[1] * s]])
    if n in ("Line", "Arc"):
        # a line of no length has no direction
        zero = n == "Line" and (abs(p.start[0] - p.end[0]) + abs(p.start[1] - p.end[1])) * s < 1e-5
        for a in ANGLES:
            if hasattr(type(p), a):
                v = getattr(p, a)
                out.append([a, None if zero else [math.cos(v), math.sin(v)]])
    if n in ("Rectangle", "Polygon", "Line"):
        v = p.vertices
        if v is not None:
            out.append(["vertices", support([(x * s, y * s) for x, y in v])])
            if n != "Line":
                out.append(["corners", len(v)])
            seg = p.segments
            if seg and n != "Line":
                out.append(["segments", len(seg)])
    if n == "Obround":
        sub = p.subshapes
        out.append(["subshapes", [[k, canon.prim(sub[k], s)] for k in sorted(sub)]])
    return out


def shift_details(d, dx, dy):
    out = []
    for name, v in d:
        if name in ("box", "box0"):
            v = [[v[0][0] + dx, v[0][1] + dx], [v[1][0] + dy, v[1][1] + dy]]
        elif name == "sub":
            v = [shift_details(q, dx, dy) for q in v]
        elif name in POINTS:
            v = [v[0] + dx, v[1] + dy]
        elif name == "vertices":
            v = [x + dx * a + dy * b for x, (a, b) in zip(v, DIRS)]
        elif name == "subshapes":
            v = [[k, canon.shift(q, dx, dy)] for k, q in v]
        out.append([name, v])
    return out


def params(doc):
    """Parameters of the document that have no effect on the objects but are part of its text: physical meaning."""
    s = canon.scale_of(doc.units)
    out = []
    for st in doc.statements:
        n = type(st).__name__
        if n == "OFParamStmt":
            out.append(["OF", canon._num(st.a, s), canon._num(st.b, s)])
        elif n == "SFParamStmt":
            out.append(["SF", st.a, st.b])
        elif n in ("IRParamStmt", "MIParamStmt", "ASParamStmt", "IPParamStmt", "INParamStmt", "LNParamStmt"):
            out.append([n[:2]] + [getattr(st, a) for a in ("angle", "a", "b", "mode", "ip", "name") if hasattr(st, a)])
        elif n in ("UnknownStmt", "DeprecatedStmt"):
            out.append([n, st.line])
    return out


MACRO_LENGTHS = {1: (2, 3, 4), 2: (2, 3, 4, 5, 6), 20: (2, 3, 4, 5, 6), 21: (2, 3, 4, 5), 22: (2, 3, 4, 5), 5: (3, 4, 5), 6: (1, 2, 3, 4, 5, 7, 8), 7: (1, 2, 3, 4, 5)}


def macros(doc):
    """What the macro apertures of a document just read are made of (drawn or not), lengths in mm."""
    from gerber.am_eval import eval_macro
    s = canon.scale_of(doc.units)
    bodies, out = {}, []
    for st in doc.statements:
        n = type(st).__name__
        if n == "AMParamStmt":
            bodies[st.name] = st
        elif n == "ADParamStmt" and st.shape in bodies:
            shapes = []
            for line in eval_macro(bodies[st.shape].instructions, st.modifiers[0] if st.modifiers else ()):
                v = line.strip(" *").split(",")
                if v[0].startswith("0"):
                    continue
                v = [float(x) for x in v]
                code = int(v[0])
                lens = range(3, len(v) - 1) if code == 4 else MACRO_LENGTHS.get(code, ())
                shapes.append([code, [x * s if k in lens else x for k, x in enumerate(v)]])
            out.append([st.d, shapes])
    return out


def observe(doc, full=True):
    """Everything a caller can see of the document, in mm."""
    s = canon.scale_of(doc.units)
    o = {"prims": canon.prims(doc), "n": len(doc.primitives), "comments": list(doc.comments)}
    b = doc.bounds
    o["bounds"] = None if abs(b[0][0]) >= 1000000 or abs(b[1][0]) >= 1000000 else canon.box(b, s)
    if o["bounds"] is not None:
        o["size"] = [doc.size[0] * s, doc.size[1] * s]
    if full:
        o["details"] = [details(p, s) for p in doc.primitives]
        if doc.primitives:
            o["bbox"] = canon.box(doc.bounding_box, s)
        o["params"] = params(doc)
        o["apertures"] = sorted_apertures(doc, s)
        o["units"] = [getattr(p, "units", None) == doc.units for p in doc.primitives]
    return o


def sorted_apertures(doc, s):
    aps = doc.apertures
    aps = list(aps.values()) if isinstance(aps, dict) else list(aps)
    return [canon.aperture(a, s) for a in aps]


def shift_obs(o, dx, dy):
    r = dict(o)
    r["prims"] = [canon.shift(p, dx, dy) for p in o["prims"]]
    if o["bounds"] is not None:
        r["bounds"] = canon.shift_box(o["bounds"], dx, dy)
    if "details" in o:
        r["details"] = [shift_details(d, dx, dy) for d in o["details"]]
        if "bbox" in o:
            r["bbox"] = canon.shift_box(o["bbox"], dx, dy)
    return r


def compare_obs(got, want, tol, what):
    if got["n"] != want["n"]:
        raise Violation("count", "%s: %d objects instead of %d" % (what, got["n"], want["n"]))
    for k in ("prims", "bounds", "size", "comments", "details", "bbox", "params", "apertures", "units"):
        if k in want:
            if k == "details":
                for i, (a, b) in enumerate(zip(got[k], want[k])):
                    d = diff_details(a, b, tol, "[%d]" % i)
                    if d:
                        raise Violation("details", "%s: object %d (%s): %s" % (what, i, want["prims"][i][0], d))
                continue
            d = canon.diff(got.get(k), want[k], 2e-4 if k == "params" else tol, k)
            if d:
                raise Violation(k, "%s: %s" % (what, d))


def diff_details(a, b, tol, path):
    if len(a) != len(b):
        return "%s: different attributes %r / %r" % (path, [x[0] for x in a], [x[0] for x in b])
    for (na, va), (nb, vb) in zip(a, b):
        if na != nb:
            return "%s: attribute %s / %s" % (path, na, nb)
        if na == "sub":
            for i, (x, y) in enumerate(zip(va, vb)):
                d = diff_details(x, y, tol, path + ".sub[%d]" % i)
                if d:
                    return d
            if len(va) != len(vb):
                return path + ": parts differ"
            continue
        if na in ANGLES and (va is None or vb is None):
            continue
        d = canon.diff(va, vb, 1e-4 if na in ANGLES else tol * 4, path + "." + na)
        if d:
            return d
    return None


# ------------------------------------------------------------------ queries
def queries():
    return ["bounds", "bounding_box", "size", "comments", "details", "str", "boxes", "vertices", "settings", "segments", "eq"]


def query(doc, name, k=0):
    ps = doc.primitives
    p = ps[k % len(ps)] if ps else None
    if name == "bounds":
        doc.bounds
    elif name == "bounding_box":
        if ps:
            doc.bounding_box
    elif name == "size":
        doc.size
    elif name == "comments":
        doc.comments
    elif name == "details":
        if p is not None:
            details(p, 1.0)
    elif name == "str":
        for s in doc.statements:
            str(s)
    elif name == "boxes":
        for q in ps:
            q.bounding_box
            q.bounding_box_no_aperture
    elif name in ("vertices", "segments"):
        for q in ps:
            if type(q).__name__ in ("Line", "Rectangle", "Polygon", "Circle", "Obround", "Arc", "Region"):
                getattr(q, name)
    elif name == "settings":
        str(doc.settings)
        doc.settings["units"]
    elif name == "eq":
        if p is not None:
            p == ps[(k + 1) % len(ps)]


# ------------------------------------------------------------------ saving
def arcs_of(doc):
    for p in doc.primitives:
        n = type(p).__name__
        if n == "Arc":
            yield p
        elif n == "Region":
            for q in p.primitives:
                if type(q).__name__ == "Arc":
                    yield q


def rounded(v):
    return sorted(set((round(v - 0.02), round(v + 0.02))))


def savable(doc, fmt):
    """-> "yes" | "no" (some number does not fit) | "edge" (too close to call, or an arc that the resolution cannot hold)."""
    res = 10.0 ** -fmt[1]
    lim = 10 ** (fmt[0] + fmt[1])
    vals = []
    b = doc.bounds
    for lo, hi in b:
        if abs(lo) < 1000000:
            vals += [lo, hi]
    verdict = "yes"
    for a in arcs_of(doc):
        i, j = a.center[0] - a.start[0], a.center[1] - a.start[1]
        vals += [i, j]
        g = lambda p: (round(p[0] / res), round(p[1] / res))
        s, e = g(a.start), g(a.end)
        same = abs(a.start[0] - a.end[0]) < 1e-12 and abs(a.start[1] - a.end[1]) < 1e-12
        if a.quadrant_mode == "single-quadrant":
            d = "cw" if a.direction == "clockwise" else "ccw"
            # a number halfway between two file units may be written as either
            for t in itertools.product(*[rounded(v / res) for v in a.start + a.end + (i, j)]):
                try:
                    gdoc.single_ok(t[0], t[1], ["ar", d] + list(t[2:]))
                except Invalid:
                    verdict = "edge"
                    break
        elif not same and abs(s[0] - e[0]) + abs(s[1] - e[1]) < 4:
            verdict = "edge"
        if math.hypot(i, j) / res < 3:
            verdict = "edge"
    over = [abs(v) / res for v in vals]
    if any(v > lim + 0.001 for v in over):
        return "no"
    if any(v > lim - 1 for v in over):
        return "edge"
    return verdict


def diff_saved(a, b, res, path="", shape=4e-6):
    """Canonical objects before / after a save: coordinates within half a file unit (one for arc centres), the rest equal."""
    h, c, z = 0.51 * res + 1e-6, 1.02 * res + 1e-6, 2e-6
    if len(a) != len(b):
        return "%s: %d objects became %d" % (path, len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        p = "%s[%d] %s" % (path, i, x[0])
        if x[0] != y[0] or len(x) != len(y):
            return "%s: %r became %r" % (p, x, y)
        t = x[0]
        if t == "line":
            d = canon.diff(x[1:3], y[1:3], h, p) or canon.diff(x[3:], y[3:], shape if len(x) > 3 and x[3][0] == "macro" else z, p)
        elif t == "arc":
            d = canon.diff(x[1:3], y[1:3], h, p) or canon.diff(x[3], y[3], c, p + " centre") or canon.diff(x[4:], y[4:], shape if len(x) > 5 and x[5][0] == "macro" else z, p)
        elif t == "macro":
            d = canon.diff(x[1], y[1], h, p) or canon.diff(x[3:], y[3:], z, p)
            if not d:
                # shape relative to the flash position
                sx = [canon.shift(q, -x[1][0], -x[1][1]) for q in x[2]]
                sy = [canon.shift(q, -y[1][0], -y[1][1]) for q in y[2]]
                d = canon.diff(sx, sy, shape, p)
        elif t == "region":
            d = diff_saved(x[1], y[1], res, p) or canon.diff(x[2:], y[2:], z, p)
        else:
            d = canon.diff(x[1], y[1], h, p) or canon.diff(x[2:], y[2:], z, p)
        if d:
            return d
    return None


def compare_saved(mem, got, res, what):
    d = diff_saved(mem["prims"], got["prims"], res)
    if d:
        raise Violation("reload", "%s: %s" % (what, d))
    if mem["bounds"] is not None:
        d = canon.diff(mem["bounds"], got["bounds"], 0.51 * res + 1e-6, "bounds")
        if d:
            raise Violation("reload-bounds", "%s: %s" % (what, d))
    if mem["comments"] != got["comments"]:
        raise Violation("reload-comments", "%s: comments %r became %r" % (what, mem["comments"], got["comments"]))
    if "params" in mem:
        d = canon.diff(mem["params"], got["params"], 3e-4, "parameter")
        if d:
            raise Violation("reload-params", "%s: %s" % (what, d))


# ------------------------------------------------------------------ generation helpers
def gen_doc(rng, **kw):
    return ggen.gen(rng, **kw)


def gen_settings(rng, unit):
    fmt = rng.choice(([2, 4], [2, 5], [2, 6], [3, 4], [3, 6], [4, 4], [4, 6], [3, 3]))
    return {"fmt": fmt, "zs": rng.choice(("leading", "trailing"))}


def gen_ops(rng, kinds, lo=1, hi=8, k=None):
    """kinds: list of op names with weights by repetition."""
    out = []
    for _ in range(rng.randint(lo, hi)):
        o = rng.choice(kinds)
        if o == "offset":
            v = lambda: rng.choice((0, 0, rng.randint(-400, 400), rng.randint(-9, 9), rng.randint(-20000, 20000)))
            out.append(["offset", v(), v(), rng.choice((10, 100, 1000))])
        elif o == "query":
            out.append(["query", rng.choice(queries()), rng.randint(0, 30)])
        else:
            out.append([o])
    return out


def load(text, scratch, plan=None, name="board.gtl"):
    import gerber
    path = os.path.join(scratch, name)
    world.put(path, text)
    return gerber.read(path)


def mm_offset(doc, op):
    """(x, y) in the document's current units for an ["offset", x, y, div] op given in 1/div mm, and the same in mm."""
    dx, dy = op[1] / float(op[3]), op[2] / float(op[3])
    s = canon.scale_of(doc.units)
    return dx / s, dy / s, dx, dy
