"""Canonical physical form (millimetres) of what the library holds, read through public attributes only."""
import math

from .core import Violation


def scale_of(units):
    if units in ("inch", "IN"):
        return 25.4
    if units in ("metric", "MM"):
        return 1.0
    raise Violation("units", "document has units %r" % (units,))


def _pt(p, s):
    return None if p is None else [p[0] * s, p[1] * s]


def _num(v, s):
    return 0.0 if v is None else v * s


def _hole(p, s):
    return [_num(p.hole_diameter, s), _num(p.hole_width, s), _num(p.hole_height, s)]


def aperture(a, s):
    """Shape of an aperture used by a draw (no position)."""
    n = type(a).__name__
    if n == "Circle":
        return ["circle", a.diameter * s] + _hole(a, s)
    if n in ("Rectangle", "Obround"):
        return [n.lower(), a.width * s, a.height * s, a.rotation] + _hole(a, s)
    if n == "Polygon":
        return ["polygon", a.sides, a.radius * s, a.rotation] + _hole(a, s)
    if n == "AMGroup":
        return ["macro", [prim(q, s) for q in a.primitives]]
    return [n]


def segment(p, s):
    """A contour segment (aperture irrelevant)."""
    if type(p).__name__ == "Arc":
        return ["arc", _pt(p.start, s), _pt(p.end, s), _pt(p.center, s), p.direction]
    return ["line", _pt(p.start, s), _pt(p.end, s)]


def prim(p, s):
    n = type(p).__name__
    pol = getattr(p, "level_polarity", None)
    if n == "Line":
        return ["line", _pt(p.start, s), _pt(p.end, s), aperture(p.aperture, s), pol]
    if n == "Arc":
        return ["arc", _pt(p.start, s), _pt(p.end, s), _pt(p.center, s), p.direction, aperture(p.aperture, s), pol]
    if n == "Circle":
        return ["circle", _pt(p.position, s), p.diameter * s] + _hole(p, s) + [pol]
    if n in ("Rectangle", "Obround"):
        return [n.lower(), _pt(p.position, s), p.width * s, p.height * s, p.rotation] + _hole(p, s) + [pol]
    if n == "Polygon":
        return ["polygon", _pt(p.position, s), p.sides, p.radius * s, p.rotation] + _hole(p, s) + [pol]
    if n == "AMGroup":
        return ["macro", _pt(p.position, s), [prim(q, s) for q in p.primitives], pol]
    if n == "Outline":
        return ["outline", cyclic([_pt(q.end, s) for q in p.primitives]), pol]
    if n == "Region":
        return ["region", [segment(q, s) for q in p.primitives], pol]
    if n == "Drill":
        return ["drill", _pt(p.position, s), _num(p.diameter, s)]
    if n == "Slot":
        return ["slot", _pt(p.start, s), _pt(p.end, s), _num(p.diameter, s)]
    return [n, pol]


def cyclic(points):
    """Rotate a closed polygon's vertex list to a canonical starting vertex (ties are decided by value, not order)."""
    if not points:
        return points
    q = [(round(x, 6), round(y, 6)) for x, y in points]
    k = min(range(len(q)), key=lambda i: q[i:] + q[:i])
    return points[k:] + points[:k]


def prims(doc):
    s = scale_of(doc.units)
    return [prim(p, s) for p in doc.primitives]


def box(b, s):
    return [[b[0][0] * s, b[0][1] * s], [b[1][0] * s, b[1][1] * s]]


def boxes(doc):
    s = scale_of(doc.units)
    return [box(p.bounding_box, s) for p in doc.primitives]


def diff(a, b, tol, path=""):
    """First difference between two canonical values, or None."""
    if isinstance(a, bool) or isinstance(b, bool):
        return None if a == b else "%s: %r != %r" % (path, a, b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return None if (a != a and b != b) else "%s: %r != %r" % (path, a, b)
        if abs(a - b) <= tol:
            return None
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return "%s: %r != %r" % (path, sorted(a), sorted(b))
        for k in sorted(a):
            d = diff(a[k], b[k], tol, "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %d elements != %d elements" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if isinstance(x, (list, tuple)) and x and x[0] == "outline" and isinstance(y, (list, tuple)) and y and y[0] == "outline":
                d = diff_outline(x, y, tol, "%s[%d]" % (path, i))
            else:
                d = diff(x, y, tol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if a == b else "%s: %r != %r" % (path, a, b)


def diff_outline(a, b, tol, path):
    """Closed polygons compare equal under rotation of the vertex list."""
    pa, pb = a[1], b[1]
    if len(pa) != len(pb) or a[2:] != b[2:]:
        return "%s: outlines differ: %r != %r" % (path, a, b)
    n = len(pa)
    if diff(pa, pb, tol) is None:
        return None
    for k in range(1, n):
        if abs(pa[0][0] - pb[k][0]) <= tol and abs(pa[0][1] - pb[k][1]) <= tol:
            if diff(pa, pb[k:] + pb[:k], tol) is None:
                return None
    return "%s: outlines differ: %r != %r" % (path, pa, pb)


def shift(c, dx, dy):
    """The canonical form moved by (dx, dy) millimetres."""
    t = c[0]
    mv = lambda p: None if p is None else [p[0] + dx, p[1] + dy]
    if t == "line":
        return [t, mv(c[1]), mv(c[2])] + c[3:]
    if t == "arc":
        return [t, mv(c[1]), mv(c[2]), mv(c[3])] + c[4:]
    if t in ("circle", "rectangle", "obround", "polygon", "drill"):
        return [t, mv(c[1])] + c[2:]
    if t == "slot":
        return [t, mv(c[1]), mv(c[2])] + c[3:]
    if t == "macro":
        return [t, mv(c[1]), [shift(q, dx, dy) for q in c[2]]] + c[3:]
    if t == "outline":
        return [t, [mv(p) for p in c[1]]] + c[2:]
    if t == "region":
        return [t, [shift(q, dx, dy) for q in c[1]]] + c[2:]
    return c


def shift_box(b, dx, dy):
    return [[b[0][0] + dx, b[0][1] + dx], [b[1][0] + dy, b[1][1] + dy]]
