"""RS-274X documents: abstract form (JSON), generator, text serialiser and reference interpreter.

The reference interpreter works on the abstract form and shares no code with the library.

doc = {"fmt": [i, d], "zero": "L"|"T"|"D", "unit": "IN"|"MM", "style": {...}, "cmds": [...]}
Coordinates are integers in units of 10^-d file units.

commands
  ["cm", text]                         comment
  ["raw", text]                        deprecated / attribute parameter without effect on the image
  ["am", name, body]                   macro definition; body: ["c", text] | ["eq", n, expr] | ["pr", code, [expr...]]
  ["ad", d, shape, [decimal strings]]  aperture definition (shape C R O P or a macro name)
  ["sel", d]                           aperture selection
  ["mv", x, y] ["ln", x, y] ["fl", x, y]   move / linear draw / flash; x or y None: modal (omitted)
  ["ar", "cw"|"ccw", x, y, i, j]       circular draw, true (signed) centre offset
  ["lp", "D"|"C"]
  ["q", "S"|"M"]
  ["rg", [[[x, y], [seg...]]...]]      region: contours of ["ln", x, y] / ["ar", dir, x, y, i, j] / ["q", S|M]
  ["u", "IN"|"MM"]                     legacy G70/G71 restating the unit in force
expr: ["n", "0.5"] | ["v", k] | ["+"|"-"|"*"|"/", a, b] | ["neg", a(, 1: never in parentheses)] | ["p", a]
"""
import math

from .core import Invalid

ZERO_TEXT = {"L": "L", "T": "T", "D": "D"}


# ------------------------------------------------------------------ numbers
def num(n, fmt, zero, pad):
    i, d = fmt
    neg = n < 0
    t = str(abs(n))
    width = i + d
    if len(t) > width:
        raise Invalid("number does not fit")
    full = t.rjust(width, "0")
    if zero == "L":
        t = full if pad == 1 else t
    elif zero == "T":
        t = full if pad == 1 else (full.rstrip("0") or "0")
    else:
        t = full
    return ("-" if neg else "+" if pad == 2 else "") + t


# ------------------------------------------------------------------ macro expressions
def ev(e, env):
    k = e[0]
    if k == "n":
        return float(e[1])
    if k == "v":
        return env.get(e[1], 0.0)
    if k == "neg":
        return -ev(e[1], env)
    if k == "p":
        return ev(e[1], env)
    a, b = ev(e[1], env), ev(e[2], env)
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":
        if b == 0:
            raise Invalid("division by zero")
        return a / b
    raise Invalid("expr")


PREC = {"+": 1, "-": 1, "*": 2, "/": 2}


def etext(e, mul="x"):
    k = e[0]
    if k == "n":
        return e[1]
    if k == "v":
        return "$%d" % e[1]
    if k == "neg":
        t = etext(e[1], mul)
        return "-" + (t if e[1][0] in ("n", "v", "p") else "(" + t + ")")
    if k == "p":
        return "(" + etext(e[1], mul) + ")"
    p = PREC[k]
    a, b = etext(e[1], mul), etext(e[2], mul)
    if e[1][0] in PREC and PREC[e[1][0]] < p:
        a = "(" + a + ")"
    if e[2][0] in PREC and PREC[e[2][0]] <= p or e[2][0] == "neg" and len(e[2]) < 3:
        b = "(" + b + ")"
    return a + (mul if k == "*" else k) + b


# ------------------------------------------------------------------ serialiser
def body_lines(body, style):
    out = []
    for b in body:
        if b[0] == "c":
            out.append("0 " + b[1] + "*")
        elif b[0] == "eq":
            out.append("$%d=%s*" % (b[1], etext(b[2], style.get("mul", "x"))))
        else:
            out.append(",".join([str(b[1])] + [etext(e, style.get("mul", "x")) for e in b[2]]) + "*")
    return out


def blocks(doc, ends=None):
    """The document as a list of text blocks (no line ends), header included.  ends: filled with the number of blocks up to the end of each command."""
    fmt, zero, st = doc["fmt"], doc["zero"], doc.get("style", {})
    pad = st.get("pad", 0)
    n = lambda v: num(v, fmt, zero, 2 if st.get("plus") else pad)
    g = lambda k: ("G0%d" if st.get("g0", 1) else "G%d") % k
    dd = lambda k: ("D0%d" if st.get("d0", 1) else "D%d") % k
    out = []
    fs = "%%FS%s%sX%d%dY%d%d*%%" % (zero, "A", fmt[0], fmt[1], fmt[0], fmt[1])
    mo = "%%MO%s*%%" % doc["unit"]
    if st.get("head_comment"):
        out.append("G04 " + st["head_comment"] + "*")
    out += [mo, fs] if st.get("mo_first") else [fs, mo]
    st_interp = None           # interpolation the reader is in
    last_op = None
    quad = "M"
    region = False

    def xy(x, y):
        return ("" if x is None else "X" + n(x)) + ("" if y is None else "Y" + n(y))

    def coord(prefix, body, op):
        nonlocal last_op
        modal = st.get("modal") and last_op == op and (op == 1 or st["modal"] == 2) and (not region or st.get("rg_modal") == 2) and body
        last_op = op
        out.append(prefix + body + ("" if modal else dd(op)) + "*")

    def seg(s, x0, y0):
        nonlocal st_interp, quad
        state = region and not st.get("rg_modal")      # whether the interpolation is stated again in any case
        if s[0] == "q":
            quad = s[1]
            out.append("G74*" if s[1] == "S" else "G75*")
        elif s[0] == "ln":
            pre = "" if (st_interp == 1 and not st.get("g_always") and not state) else g(1)
            if pre and st.get("g_split"):
                out.append(pre + "*")
                pre = ""
            st_interp = 1
            coord(pre, xy(s[1], s[2]), 1)
        else:
            code = 2 if s[1] == "cw" else 3
            i, j = s[4], s[5]
            if quad == "S":
                i, j = abs(i), abs(j)
            pre = g(code)
            if st_interp == code and not state and not st.get("g_always"):
                pre = ""
            elif st.get("g_split"):
                out.append(pre + "*")
                pre = ""
            # readers fall back to lines after an arc of a contour
            st_interp = None if region else code
            ij = ("" if (i == 0 and st.get("omit0")) else "I" + n(i)) + ("" if (j == 0 and st.get("omit0")) else "J" + n(j))
            coord(pre, xy(s[2], s[3]) + ij, 1)

    ends = [] if ends is None else ends
    for c in doc["cmds"]:
        if c is not doc["cmds"][0]:
            ends.append(len(out))
        k = c[0]
        if k == "cm":
            out.append(("G04 " if st.get("g0", 1) else "G4 ") + c[1] * (c[2] if len(c) > 2 else 1) + "*")
        elif k == "raw":
            out.append(c[1] + "*" if c[1] in ("G90", "M01") else "%" + c[1] + "*%")
        elif k == "am":
            lines = body_lines(c[2], st)
            sep = "\n" if st.get("am_lines") else ""
            out.append("%%AM%s*%s%s%%" % (c[1], sep, sep.join(lines)))
        elif k == "ad":
            out.append("%%ADD%d%s%s*%%" % (c[1], c[2], ("," + "X".join(c[3])) if c[3] else ""))
        elif k == "sel":
            out.append(("G54" if st.get("g54") else "") + "D%d*" % c[1])
        elif k == "lp":
            out.append("%%LP%s*%%" % c[1])
        elif k == "q":
            quad = c[1]
            out.append("G74*" if c[1] == "S" else "G75*")
        elif k == "u":
            out.append("G70*" if c[1] == "IN" else "G71*")
        elif k == "mv":
            coord("", xy(c[1], c[2]), 2)
        elif k == "fl":
            coord("", xy(c[1], c[2]), 3)
        elif k in ("ln", "ar"):
            seg(c, None, None)
        elif k == "rg":
            out.append("G36*")
            region = True
            for (p, segs) in c[1]:
                coord("", xy(p[0], p[1]), 2)
                for s in segs:
                    seg(s, None, None)
            out.append("G37*")
            region = False
            if not st.get("rg_modal"):
                st_interp = None
        else:
            raise Invalid("command %r" % (k,))
    if doc["cmds"]:
        ends.append(len(out))
    if st.get("multi"):
        # several parameters in one %...% block
        merged, at = [], []
        for b in out:
            if merged and b.startswith(("%AD", "%LP", "%MO", "%FS")) and merged[-1].startswith(("%AD", "%LP", "%MO", "%FS")) \
                    and not b.startswith("%FS"):
                merged[-1] = merged[-1][:-1] + b[1:]
            else:
                merged.append(b)
            at.append(len(merged))
        out = merged
        ends[:] = [at[e - 1] for e in ends]
    if not doc.get("noeof"):
        out.append("M02*" if st.get("m0", 1) else "M2*")
    return out


def text(doc):
    """Serialise; style.join decides whether blocks are separated by line ends."""
    st = doc.get("style", {})
    bl = blocks(doc)
    if st.get("join") == "one":          # everything after the header on one line
        k = next(i for i, b in enumerate(bl) if b.startswith("%"))
        s = "\n".join(bl[:k] + [""]) + "".join(bl[k:]) + "\n" if k else "".join(bl) + "\n"
    elif st.get("join") == "blank":
        s = "\n\n".join(bl) + "\n"
    else:
        s = "\n".join(bl) + "\n"
    eol = st.get("eol", "\n")
    return s.replace("\n", eol) if eol != "\n" else s


def marks(doc):
    """[(offset just after the command in text(doc), objects it has produced so far)] for each command; commands of which only a part survives produce nothing."""
    ends = []
    bl = blocks(doc, ends)
    s = text(doc)
    eol = doc.get("style", {}).get("eol", "\n")
    pos, at = 0, []
    for b in bl:
        b = b.replace("\n", eol)
        pos = s.index(b, pos) + len(b)
        at.append(pos)
    return list(zip([at[e - 1] for e in ends], ref(doc)["counts"]))


# ------------------------------------------------------------------ reference interpreter
def ref_aperture(shape, mods, macros):
    m = [float(x) for x in mods]
    if shape == "C":
        hole = _hole(m[1:])
        return ["circle", None, m[0]] + hole
    if shape in ("R", "O"):
        return ["rectangle" if shape == "R" else "obround", None, m[0], m[1], 0.0] + _hole(m[2:])
    if shape == "P":
        return ["polygon", None, int(m[1]), m[0] / 2.0, m[2] if len(m) > 2 else 0.0] + _hole(m[3:])
    if shape not in macros:
        raise Invalid("undefined macro")
    if not macros[shape]:
        raise Invalid("empty macro")
    return ["macro", None, ref_macro(macros[shape], m)]


def _hole(m):
    if len(m) == 0:
        return [0.0, 0.0, 0.0]
    if len(m) == 1:
        return [m[0], 0.0, 0.0]
    return [0.0, m[0], m[1]]


def rot(p, deg, c=(0.0, 0.0)):
    a = math.radians(deg)
    x, y = p[0] - c[0], p[1] - c[1]
    return [c[0] + x * math.cos(a) - y * math.sin(a), c[1] + x * math.sin(a) + y * math.cos(a)]


def ref_macro(body, params):
    env = {i + 1: v for i, v in enumerate(params)}
    out = []
    for b in body:
        if b[0] == "c":
            continue
        if b[0] == "eq":
            env[b[1]] = ev(b[2], env)
            continue
        code, v = b[1], [ev(e, env) for e in b[2]]
        pol = "dark"
        if code in (1, 2, 20, 21, 4, 5):
            pol = "dark" if v[0] == 1 else "clear"
        if code == 1:
            out.append(["circle", [v[2], v[3]], v[1], 0.0, 0.0, 0.0, pol])
        elif code == 5:
            if not 3 <= int(v[1]) <= 12:
                raise Invalid("polygon vertices")
            c = rot((v[2], v[3]), v[5])
            out.append(["polygon", c, int(v[1]), v[4] / 2.0, v[5], 0.0, 0.0, 0.0, pol])
        elif code == 4:
            n = int(v[1])
            pts = [[v[2 + 2 * i], v[3 + 2 * i]] for i in range(n + 1)]
            if len(v) != 2 + 2 * (n + 1) + 1 or pts[0] != pts[-1]:
                raise Invalid("outline")
            out.append(["outline", [rot(p, v[-1]) for p in pts[1:]], pol])
        elif code == 21:
            w, h, cx, cy, r = v[1] / 2, v[2] / 2, v[3], v[4], v[5]
            pts = [(cx - w, cy + h), (cx - w, cy - h), (cx + w, cy - h), (cx + w, cy + h)]
            out.append(["outline", [rot(p, r) for p in pts], pol])
        elif code in (2, 20):
            w, (x0, y0, x1, y1), r = v[1] / 2, v[2:6], v[6]
            l = math.hypot(x1 - x0, y1 - y0)
            if l == 0:
                raise Invalid("vector line of no length")
            ux, uy = (x1 - x0) / l, (y1 - y0) / l
            nx, ny = -uy * w, ux * w
            pts = [(x0 + nx, y0 + ny), (x0 - nx, y0 - ny), (x1 - nx, y1 - ny), (x1 + nx, y1 + ny)]
            out.append(["outline", [rot(p, r) for p in pts], pol])
        elif code == 7:
            cx, cy, od, idm, gap, r = v
            out += ref_thermal(cx, cy, od, idm, gap, r)
        elif code in (6, 22):
            continue                      # not drawn by the library (DESIGN 2)
        else:
            raise Invalid("macro primitive %r" % code)
    return out


def ref_thermal(cx, cy, od, idm, gap, r):
    if not (0 < gap < idm / math.sqrt(2)) or idm >= od:
        raise Invalid("thermal")
    ri, ro = idm / 2, od / 2
    ai, ao = math.asin(gap / 2 / ri), math.asin(gap / 2 / ro)
    out = []
    for q in range(4):
        pts = []
        for k in range(11):
            a = ai + (math.pi / 2 - 2 * ai) * k / 10
            pts.append((cx + ri * math.cos(a), cy + ri * math.sin(a)))
        for k in range(10, -1, -1):
            a = ao + (math.pi / 2 - 2 * ao) * k / 10
            pts.append((cx + ro * math.cos(a), cy + ro * math.sin(a)))
        pts = [rot(p, 90 * q, (cx, cy)) for p in pts]
        pts = [rot(p, r) for p in pts]
        out.append(["outline", pts[1:] + pts[:1], "dark"])
    return out


def scale(c, s):
    """Scale lengths of a reference object (angles, counts and labels untouched)."""
    t = c[0]
    p = lambda q: None if q is None else [q[0] * s, q[1] * s]
    if t == "line":
        return [t, p(c[1]), p(c[2])] + ([scale_ap(c[3], s), c[4]] if len(c) > 3 else [])
    if t == "arc":
        return [t, p(c[1]), p(c[2]), p(c[3]), c[4]] + ([scale_ap(c[5], s), c[6]] if len(c) > 5 else [])
    if t == "circle":
        return [t, p(c[1]), c[2] * s] + [h * s for h in c[3:6]] + c[6:]
    if t in ("rectangle", "obround"):
        return [t, p(c[1]), c[2] * s, c[3] * s, c[4]] + [h * s for h in c[5:8]] + c[8:]
    if t == "polygon":
        return [t, p(c[1]), c[2], c[3] * s, c[4]] + [h * s for h in c[5:8]] + c[8:]
    if t == "macro":
        return [t, p(c[1]), [scale(q, s) for q in c[2]]] + c[3:]
    if t == "outline":
        return [t, [p(q) for q in c[1]]] + c[2:]
    if t == "region":
        return [t, [scale(q, s) for q in c[1]]] + c[2:]
    raise Invalid(t)


def scale_ap(a, s):
    """Aperture of a draw: same, without position."""
    z = scale(a, s)
    if z[0] == "macro":
        return ["macro", z[2]]
    return [z[0]] + z[2:]


def ref(doc):
    """-> {"objects": canonical objects in mm, "bounds": [[x0,x1],[y0,y1]] mm or None, "boxes": [box or None]}"""
    from .canon import shift
    s = 25.4 if doc["unit"] == "IN" else 1.0
    k = 10.0 ** -doc["fmt"][1]
    macros, aps = {}, {}
    cur = None
    x = y = None
    pol = "dark"
    out, bx = [], []
    xs, ys = [], []
    quad = "M"

    def at(cx, cy):
        nonlocal x, y
        if cx is not None:
            x = cx
            xs.append(cx)
        if cy is not None:
            y = cy
            ys.append(cy)
        if x is None or y is None:
            raise Invalid("no current point")
        return [x * k, y * k]

    counts = []
    for c in doc["cmds"]:
        if c is not doc["cmds"][0]:
            counts.append(len(out))
        t = c[0]
        if t == "am":
            macros[c[1]] = c[2]
        elif t == "ad":
            aps[c[1]] = ref_aperture(c[2], c[3], macros)
        elif t == "sel":
            if c[1] not in aps:
                raise Invalid("undefined aperture")
            cur = c[1]
        elif t == "lp":
            pol = "dark" if c[1] == "D" else "clear"
        elif t == "q":
            quad = c[1]
        elif t == "u":
            if c[1] != doc["unit"]:
                raise Invalid("unit change")
        elif t == "mv":
            at(c[1], c[2])
        elif t == "fl":
            if cur is None:
                raise Invalid("flash without aperture")
            p = at(c[1], c[2])
            a = aps[cur]
            if a[0] == "macro":
                o = ["macro", p, [shift(q, p[0], p[1]) for q in a[2]], pol]
            else:
                o = [a[0], p] + a[2:] + [pol]
            out.append(scale(o, s))
            bx.append(box_of(out[-1]))
        elif t in ("ln", "ar"):
            if cur is None or x is None:
                raise Invalid("draw without aperture or point")
            p = [x * k, y * k]
            a = aps[cur]
            if t == "ln":
                q = at(c[1], c[2])
                o = ["line", p, q, a, pol]
            else:
                if quad == "S":
                    single_ok(x, y, c)
                ctr = [(x + c[4]) * k, (y + c[5]) * k]
                q = at(c[2], c[3])
                o = ["arc", p, q, ctr, "clockwise" if c[1] == "cw" else "counterclockwise", a, pol]
            out.append(scale(o, s))
            bx.append(box_of(out[-1], quad))
        elif t == "rg":
            for (st, segs) in c[1]:
                p = at(st[0], st[1])
                con, full = [], None
                for g in segs:
                    if g[0] == "q":
                        quad = g[1]
                        continue
                    if g[0] == "ln":
                        q = at(g[1], g[2])
                        con.append(["line", p, q])
                    else:
                        if quad == "S":
                            single_ok(x, y, g)
                        ctr = [(x + g[4]) * k, (y + g[5]) * k]
                        q = at(g[2], g[3])
                        con.append(["arc", p, q, ctr, "clockwise" if g[1] == "cw" else "counterclockwise"])
                        full = quad if p == q else full
                    p = q
                if con:
                    out.append(scale(["region", con, pol], s))
                    bx.append(box_of(out[-1], full or quad))
    b = None
    if xs and ys:
        b = [[min(xs) * k * s, max(xs) * k * s], [min(ys) * k * s, max(ys) * k * s]]
    counts.append(len(out))
    return {"objects": out, "bounds": b, "boxes": bx, "unit": doc["unit"], "counts": counts}


def sweep_deg(dx0, dy0, dx1, dy1, cw):
    a0, a1 = math.degrees(math.atan2(dy0, dx0)), math.degrees(math.atan2(dy1, dx1))
    return ((a0 - a1) if cw else (a1 - a0)) % 360.0


def single_ok(x, y, c):
    """Single-quadrant arcs must have exactly one plausible centre."""
    ex = x if c[2] is None else c[2]
    ey = y if c[3] is None else c[3]
    if (ex, ey) == (x, y):
        raise Invalid("zero-length single-quadrant arc")
    cand = {}
    for sx in (1, -1):
        for sy in (1, -1):
            i, j = abs(c[4]) * sx, abs(c[5]) * sy
            d0 = math.hypot(i, j)
            d1 = math.hypot(ex - x - i, ey - y - j)
            sw = sweep_deg(-i, -j, ex - x - i, ey - y - j, c[1] == "cw")
            cand[(i, j)] = (abs(d0 - d1), sw)
    e, sw = cand.pop((c[4], c[5]))
    if e > 1.5 or not 1.0 < sw <= 90.0000001:
        raise Invalid("single-quadrant sweep")
    for e2, sw2 in cand.values():
        if (sw2 <= 91 or sw2 > 359.9) and e2 < 8 + 4 * e:
            raise Invalid("ambiguous single-quadrant centre")


# ------------------------------------------------------------------ reference extents (mm)
def seg_box(o):
    if o[0] == "line":
        (x0, y0), (x1, y1) = o[1], o[2]
        return [[min(x0, x1), max(x0, x1)], [min(y0, y1), max(y0, y1)]]
    return arc_box(o[1], o[2], o[3], o[4] == "clockwise")


def arc_box(p, q, c, cw):
    """Exact box of an arc, or None where an end lies (numerically) on an axis direction."""
    r = math.hypot(p[0] - c[0], p[1] - c[1])
    full = abs(p[0] - q[0]) < 1e-12 and abs(p[1] - q[1]) < 1e-12
    pts = [p, q]
    if full:
        pts += [(c[0] + r, c[1]), (c[0] - r, c[1]), (c[0], c[1] + r), (c[0], c[1] - r)]
    else:
        a0 = math.degrees(math.atan2(p[1] - c[1], p[0] - c[0])) % 360
        a1 = math.degrees(math.atan2(q[1] - c[1], q[0] - c[0])) % 360
        for a in (a0, a1):
            if min(a % 90, 90 - a % 90) < 1e-4:
                return None
        for k in range(4):
            a = 90.0 * k
            off = ((a0 - a) if cw else (a - a0)) % 360
            tot = ((a0 - a1) if cw else (a1 - a0)) % 360
            if off <= tot:
                pts.append((c[0] + r * math.cos(math.radians(a)), c[1] + r * math.sin(math.radians(a))))
    xs, ys = [t[0] for t in pts], [t[1] for t in pts]
    return [[min(xs), max(xs)], [min(ys), max(ys)]]


def box_of(o, quad="M"):
    """Extent of a reference object in mm, or None if not claimed."""
    t = o[0]
    if t == "circle":
        r = o[2] / 2
        return [[o[1][0] - r, o[1][0] + r], [o[1][1] - r, o[1][1] + r]]
    if t in ("rectangle", "obround"):
        w, h = o[2] / 2, o[3] / 2
        return [[o[1][0] - w, o[1][0] + w], [o[1][1] - h, o[1][1] + h]]
    if t in ("line", "arc"):
        if t == "arc" and quad == "S" and o[1] == o[2]:
            return None
        b = seg_box(o)
        a = o[3] if t == "line" else o[5]
        if b is None:
            return None
        if a[0] == "circle":
            w = h = a[1] / 2
        elif a[0] == "rectangle" and t == "line":
            w, h = a[1] / 2, a[2] / 2
        else:
            return None
        return [[b[0][0] - w, b[0][1] + w], [b[1][0] - h, b[1][1] + h]]
    if t == "region":
        if quad == "S" and any(g[0] == "arc" and g[1] == g[2] for g in o[1]):
            return None
        bs = [seg_box(g) for g in o[1]]
        if any(b is None for b in bs):
            return None
        return [[min(b[0][0] for b in bs), max(b[0][1] for b in bs)], [min(b[1][0] for b in bs), max(b[1][1] for b in bs)]]
    return None
