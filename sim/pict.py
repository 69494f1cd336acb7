"""What a picture has to show: canonical objects (mm, see canon) -> the colour of a point well inside or well outside of them.

No code is shared with the renderer: every shape is judged by the distance of a point to its outline.
"""
import math

from .gdoc import rot


def seg_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = dx * dx + dy * dy
    t = 0.0 if n == 0 else max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / n))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def rect_depth(p, c, w, h):
    dx, dy = w / 2.0 - abs(p[0] - c[0]), h / 2.0 - abs(p[1] - c[1])
    if dx >= 0 and dy >= 0:
        return min(dx, dy)
    return -math.hypot(min(dx, 0), min(dy, 0))


def poly_depth(p, pts):
    """Depth in a closed contour; None where it overlaps itself."""
    wind, d = 0, None
    for i in range(len(pts)):
        a, b = pts[i - 1], pts[i]
        q = seg_dist(p, a, b)
        if d is None or q < d:
            d = q
        if (a[1] <= p[1]) != (b[1] <= p[1]):
            s = (b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])
            if b[1] > a[1] and s > 0:
                wind += 1
            elif b[1] < a[1] and s < 0:
                wind -= 1
    if d is None:
        return -1e9
    if wind == 0:
        return -d
    return d if abs(wind) == 1 else None


def hull(pts):
    pts = sorted(set((x, y) for x, y in pts))
    if len(pts) < 3:
        return pts

    def half(ps):
        out = []
        for q in ps:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (q[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (q[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(q)
        return out
    a, b = half(pts), half(pts[::-1])
    return a[:-1] + b[:-1]


def arc_points(p, q, c, cw):
    r = math.hypot(p[0] - c[0], p[1] - c[1])
    a0, a1 = math.atan2(p[1] - c[1], p[0] - c[0]), math.atan2(q[1] - c[1], q[0] - c[0])
    if abs(p[0] - q[0]) < 1e-9 and abs(p[1] - q[1]) < 1e-9:
        sw = 2 * math.pi
    else:
        sw = ((a0 - a1) if cw else (a1 - a0)) % (2 * math.pi)
    n = max(4, int(sw * 12) + 1)
    s = -1 if cw else 1
    return [[c[0] + r * math.cos(a0 + s * sw * k / n), c[1] + r * math.sin(a0 + s * sw * k / n)] for k in range(n + 1)]


class Shape(object):
    """Something a point can be inside of; depth(p) in mm, None: not judged."""

    veil = None         # (point, size of a pixel in mm) -> whether something unspecified may be there

    def __init__(self, box, depth):
        self.box = box
        self.depth = depth


def bbox(pts, r=0.0):
    xs, ys = [q[0] for q in pts], [q[1] for q in pts]
    return [min(xs) - r, max(xs) + r, min(ys) - r, max(ys) + r]


def with_hole(depth, c, hole, turned=False):
    d, w, h = hole
    if d > 0:
        return lambda p: min_(depth(p), math.hypot(p[0] - c[0], p[1] - c[1]) - d / 2.0)
    if w > 0 and h > 0:
        if turned:
            def f(p):
                r = math.hypot(p[0] - c[0], p[1] - c[1])
                if r < min(w, h) / 2.0:
                    return r - min(w, h) / 2.0
                if r <= math.hypot(w, h) / 2.0:
                    return None
                return min_(depth(p), r - math.hypot(w, h) / 2.0)
            return f
        return lambda p: min_(depth(p), -rect_depth(p, c, w, h))
    return depth


def min_(a, b):
    return None if a is None or b is None else min(a, b)


def capsule(a, b, r):
    return Shape(bbox([a, b], r), lambda p: r - seg_dist(p, a, b))


def poly(pts):
    pts = [list(q) for q in pts]
    if not pts:
        return Shape([1, 0, 1, 0], lambda p: -1e9)
    return Shape(bbox(pts), lambda p: poly_depth(p, pts))


def unsure(s):
    """A shape whose outside is known, but not what is in it."""
    def f(p):
        d = s.depth(p)
        return d if d is not None and d < 0 else None
    return Shape(s.box, f)


def shape(o):
    """[(shape, 'dark'|'clear'), ...] of a canonical object; several for macros, whose parts are painted in turn."""
    t = o[0]
    if t == "circle":
        c, r = o[1], o[2] / 2.0
        return [(Shape(bbox([c], r), with_hole(lambda p: r - math.hypot(p[0] - c[0], p[1] - c[1]), c, o[3:6])), "dark")]
    if t == "drill":
        c, r = o[1], o[2] / 2.0
        return [(Shape(bbox([c], r), lambda p: r - math.hypot(p[0] - c[0], p[1] - c[1])), "dark")]
    if t == "testpoint":
        # a dot of 15 mil; the name of the net is written beside it, in letters of 13 pixels
        c, r, n = o[1], 0.381 / 2.0, len(o[2])
        s = Shape(bbox([c], r), lambda p: r - math.hypot(p[0] - c[0], p[1] - c[1]))

        def veil(p, px):
            x, y = p[0] - c[0] - 0.381, p[1] - c[1] - 0.381
            return n and -4 * px <= x <= (12 * n + 8) * px and -10 * px <= y <= 18 * px
        s.veil = veil
        return [(s, "dark")]
    if t == "slot":
        return [(capsule(o[1], o[2], o[3] / 2.0), "dark")]
    if t == "rectangle":
        c, w, h = o[1], o[2], o[3]
        return [(Shape([c[0] - w / 2, c[0] + w / 2, c[1] - h / 2, c[1] + h / 2], with_hole(lambda p: rect_depth(p, c, w, h), c, o[5:8])), "dark")]
    if t == "obround":
        c, w, h = o[1], o[2], o[3]
        d = ((w - h) / 2.0, 0.0) if w > h else (0.0, (h - w) / 2.0)
        s = capsule((c[0] - d[0], c[1] - d[1]), (c[0] + d[0], c[1] + d[1]), min(w, h) / 2.0)
        return [(Shape(s.box, with_hole(s.depth, c, o[5:8])), "dark")]
    if t == "polygon":
        c, n, r, a = o[1:5]
        s = poly([rot((c[0] + r, c[1]), a + 360.0 * k / n, c) for k in range(n)])
        return [(Shape(s.box, with_hole(s.depth, c, o[5:8], a % 180 != 0)), "dark")]
    if t == "line":
        ap = o[3]
        if ap[0] == "circle":
            s = capsule(o[1], o[2], ap[1] / 2.0)
            return [(unsure(s) if any(ap[2:5]) else s, "dark")]
        if ap[0] == "rectangle":
            w, h = ap[1] / 2.0, ap[2] / 2.0
            s = poly(hull([(q[0] + i * w, q[1] + j * h) for q in o[1:3] for i in (1, -1) for j in (1, -1)]))
            return [(unsure(s) if any(ap[4:7]) else s, "dark")]
        return [(unsure(capsule(o[1], o[2], 1e6)), "dark")]
    if t == "arc":
        ap = o[5]
        pts = arc_points(o[1], o[2], o[3], o[4] == "clockwise")
        if ap[0] != "circle":
            return [(unsure(capsule(o[1], o[2], 1e6)), "dark")]
        r = ap[1] / 2.0
        s = Shape(bbox(pts, r), lambda p: r - min(seg_dist(p, pts[k], pts[k + 1]) for k in range(len(pts) - 1)))
        return [(unsure(s) if any(ap[2:5]) else s, "dark")]
    if t == "region":
        pts = [o[1][0][1]]
        for g in o[1]:
            pts += [g[2]] if g[0] == "line" else arc_points(g[1], g[2], g[3], g[4] == "clockwise")
        return [(poly(pts), "dark")]
    if t == "outline":
        return [(poly(o[1]), "dark")]
    if t == "macro":
        return [(shape(q)[0][0], q[-1]) for q in o[2]]
    raise ValueError(t)


def inside(s, p, m):
    """1 well inside, 0 well outside, None too near the outline."""
    if s.veil is not None and s.veil(p, m / 2.0):
        return None
    b = s.box
    if not (b[0] - m <= p[0] <= b[1] + m and b[2] - m <= p[1] <= b[3] + m):
        return 0
    d = s.depth(p)
    if d is None or -m <= d <= m:
        return None
    return 1 if d > 0 else 0


def paint(state, c, dark):
    """Coverage after an object that covers c of a point was painted (or erased)."""
    if c == 0:
        return state
    v = 1 if dark else 0
    if c == 1 or state == v:
        return v
    return None


class Layer(object):
    def __init__(self, objects, color, alpha, invert=False, mirror=False):
        self.objects = [(o[-1] if o[-1] in ("dark", "clear") else "dark", shape(o)) for o in objects]
        self.color, self.alpha, self.invert, self.mirror = tuple(color), alpha, invert, mirror

    def cover(self, p, m):
        state = 0
        for pol, parts in self.objects:
            if len(parts) == 1 and parts[0][1] == "dark":
                c = inside(parts[0][0], p, m)
            else:
                c = 0
                for s, q in parts:
                    c = paint(c, inside(s, p, m), q == "dark")
            state = paint(state, c, pol == "dark")
        if self.invert and state is not None:
            state = 1 - state
        return state

    def boxes(self):
        return [s.box for _, parts in self.objects for s, _ in parts]


class Picture(object):
    """bounds [[x0, x1], [y0, y1]] in mm, ppm: pixels per mm."""

    def __init__(self, bounds, ppm, bg, bg_alpha=1.0):
        self.bounds, self.ppm, self.bg, self.bg_alpha = bounds, ppm, tuple(bg), bg_alpha
        self.layers = []

    def size(self):
        return [(b[1] - b[0]) * self.ppm for b in self.bounds]

    def point(self, i, j):
        return (self.bounds[0][0] + (i + 0.5) / self.ppm, self.bounds[1][1] - (j + 0.5) / self.ppm)

    def pixel(self, p):
        return (int((p[0] - self.bounds[0][0]) * self.ppm), int((self.bounds[1][1] - p[1]) * self.ppm))

    def color(self, p, margin=2.0):
        """Premultiplied (r, g, b, a) expected at p, or None."""
        m = margin / self.ppm
        c = [v * self.bg_alpha for v in self.bg] + [self.bg_alpha]
        for l in self.layers:
            q = p
            if l.mirror:
                q = (self.bounds[0][0] + self.bounds[0][1] - p[0], p[1])
            k = l.cover(q, m)
            if k is None:
                if l.alpha == 0:
                    continue
                return None
            if k:
                c = [v * l.alpha + w * (1 - l.alpha) for v, w in zip(l.color + (1.0,), c)]
        return c

    def samples(self, rng, n, w, h):
        """Pixels worth looking at: anywhere, and in and around every object."""
        out = [(rng.randrange(w), rng.randrange(h)) for _ in range(n // 3)]
        boxes = [(b, l.mirror) for l in self.layers for b in l.boxes()]
        rng.shuffle(boxes)
        for k in range(n - len(out)):
            if not boxes:
                break
            b, mir = boxes[k % len(boxes)]
            ex = 3.0 / self.ppm
            f = rng.random()
            if f < 0.3:
                p = ((b[0] + b[1]) / 2.0, (b[2] + b[3]) / 2.0)
            else:
                p = (rng.uniform(b[0] - ex, b[1] + ex), rng.uniform(b[2] - ex, b[3] + ex))
            if mir:
                p = (self.bounds[0][0] + self.bounds[0][1] - p[0], p[1])
            i, j = self.pixel(p)
            if 0 <= i < w and 0 <= j < h:
                out.append((i, j))
        return out
