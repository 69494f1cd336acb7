"""Seeded generator of RS-274X documents (see gdoc)."""
import json
import math

from .core import Invalid
from . import gdoc

RAWS = ["LNTop_Layer", "INBoard 1.2", "IPPOS", "ASAXBY", "MIA0B0", "OFA0B0", "SFA1.0B1.0", "IR0", "INpanel, rev B (2x2)", "LNTop, left",
        "OFA0.5B-0.25", "SFA2.0B0.5", "IR90", "MIA1B0", "ASAYBX", "TF.FileFunction,Copper,L1,Top",
        "TA.AperFunction,ViaPad", "TO.N,GND", "TD", "G90", "TF.CreationDate,2016-02-23T15:59:51+01:00", "TO.P,U1,3", "TF.MD5,6ab9e892830469cdff7e3e346331d404", "LNgr\u00f6n", "INa;b"]
COMMENTS = ["hello", "D01 X100Y100 not a command", "G36 is mentioned", "", "Created by tool v1.0, 2020-01-01T00:00:00", "width = 0.5",
            "M02", "unit: mm", "Gr\u00f6\u00dfe 5 \u00b5m"]
NAMES = ["MAC1", "THERM80", "RR_2", "_m", "Pad.A", "OC8", "RECT-1", "PP9", "CC", "Circ2", "ROUND", "PTRI", "T", "_"]


def dec(rng, lo, hi, places=4):
    v = rng.uniform(lo, hi)
    t = "%.*f" % (rng.choice((2, 3, places, places)), v)
    if rng.random() < 0.3 and "." in t:
        t = t.rstrip("0").rstrip(".") or "0"
    if rng.random() < 0.1 and t.startswith("0."):
        t = t[1:]
    if float(t) <= 0:
        t = "0.5"
    return t


class G(object):
    def __init__(self, rng, opts=None):
        self.r = rng
        self.o = opts or {}
        o = self.o
        self.unit = o.get("unit") or rng.choice(("IN", "MM"))
        if o.get("fmt"):
            self.fmt = list(o["fmt"])
        elif self.unit == "IN":
            self.fmt = rng.choice(([2, 4], [2, 5], [2, 6], [3, 4], [2, 3], [1, 6], [3, 6], [4, 6]))
        else:
            self.fmt = rng.choice(([3, 3], [4, 4], [3, 4], [3, 5], [4, 5], [4, 6], [3, 6], [2, 4], [2, 6]))
        self.zero = rng.choice("LLLTTD") if not o.get("zero") else o["zero"]
        d = self.fmt[1]
        lim = 10 ** (sum(self.fmt)) - 1
        if o.get("small"):
            # fits the format in either unit, with room for shifts
            lim = min(lim, 10 ** (sum(self.fmt)) // 60 if self.unit == "IN" else lim // 2)
        want = {"IN": 6.0, "MM": 150.0}[self.unit]
        self.lim = max(40, min(lim, int(want * 10 ** d)))
        if rng.random() < 0.1:
            self.lim = max(40, lim)
        if o.get("span"):
            # a document of about this many millimetres
            self.lim = max(40, min(self.lim, int(o["span"] / {"IN": 25.4, "MM": 1.0}[self.unit] * 10 ** d)))
        self.neg = rng.random() < 0.6
        self.grid = rng.choice((1, 1, 1, 5, 10, 100))
        self.pts = []
        self.x = self.y = None
        self.cur = None
        self.aps = {}
        self.macros = {}
        self.macro_binds = {}
        self.recent = []
        self.mods = []
        self.quad = "M"
        self.cmds = []
        self.sizes = {"IN": (0.004, 0.3), "MM": (0.1, 7.0)}[self.unit]

    # -------------------------------------------------------------- coordinates
    def c(self):
        r = self.r
        k = r.random()
        if k < 0.04:
            v = 0
        elif k < 0.10:
            v = self.lim
        elif k < 0.2:
            v = r.randint(0, min(self.lim, 12))
        else:
            v = r.randint(0, self.lim)
            if self.grid > 1:
                v -= v % self.grid
        if self.neg and r.random() < 0.4:
            v = -v
        return v

    def xy(self):
        r = self.r
        if self.pts and r.random() < 0.15:
            return r.choice(self.pts)
        p = (self.c(), self.c())
        if self.x is not None and r.random() < 0.2:
            p = (self.x, p[1]) if r.random() < 0.5 else (p[0], self.y)
        self.pts.append(p)
        return p

    def modal(self, x, y):
        """Possibly omit a coordinate that does not change."""
        r = self.r
        ox = x if self.x is None or x != self.x or r.random() < 0.4 else None
        oy = y if self.y is None or y != self.y or r.random() < 0.4 else None
        if ox is None and oy is None and not self.o.get("allow_bare", 1):
            ox = x
        self.x, self.y = x, y
        return ox, oy

    def arc(self):
        """Signed-offset arc from the current point: [dir, x, y, i, j] or None."""
        r = self.r
        if self.x is None:
            return None
        d = r.choice(("cw", "ccw"))
        R = r.randint(max(3, self.lim // 2000), max(4, self.lim // 4))
        a0 = r.choice((r.uniform(0, 360), r.choice((0, 90, 180, 270))))
        i, j = -int(round(R * math.cos(math.radians(a0)))), -int(round(R * math.sin(math.radians(a0))))
        if (i, j) == (0, 0):
            return None
        if self.quad == "S":
            sw = r.choice((90.0, 90.0, r.uniform(5, 85), r.uniform(5, 85)))
        else:
            sw = r.choice((360.0, 180.0, 90.0, 270.0, r.uniform(3, 357), r.uniform(3, 357), r.uniform(3, 357)))
        cx, cy = self.x + i, self.y + j
        if sw == 360.0:
            ex, ey = self.x, self.y
        elif sw in (90.0, 180.0, 270.0):
            vx, vy = -i, -j
            for _ in range(int(sw // 90)):
                vx, vy = (vy, -vx) if d == "cw" else (-vy, vx)
            ex, ey = cx + vx, cy + vy
        else:
            b = math.atan2(-j, -i) + math.radians(-sw if d == "cw" else sw)
            rr = math.hypot(i, j)
            ex, ey = int(round(cx + rr * math.cos(b))), int(round(cy + rr * math.sin(b)))
            if (ex, ey) == (self.x, self.y):
                return None
        top = 10 ** sum(self.fmt) - 1
        if self.o.get("small"):
            top = self.lim * 2
        if max(abs(ex), abs(ey), abs(i), abs(j)) > top:
            return None
        if not self.neg and min(ex, ey) < 0:
            return None
        c = [d, ex, ey, i, j]
        if self.quad == "S":
            try:
                gdoc.single_ok(self.x, self.y, ["ar"] + c)
            except Invalid:
                return None
        return c

    # -------------------------------------------------------------- macros
    def lit(self, v):
        return ["n", v]

    def dlit(self, lo=None, hi=None):
        a, b = self.sizes
        if lo is None and hi is None:
            # coincidences (equal sizes, permuted parameters) are as interesting as fresh values
            if self.recent and self.r.random() < 0.2:
                return self.r.choice(self.recent[-8:])
            self.recent.append(dec(self.r, a, b))
            return self.recent[-1]
        return dec(self.r, lo if lo is not None else a, hi if hi is not None else b)

    def slit(self):
        """signed length"""
        e = ["n", self.dlit()]
        return ["neg", e] if self.r.random() < 0.4 else e

    def expr(self, binds, positive, depth=2):
        """A random expression whose value is sane under every binding."""
        r = self.r
        for _ in range(20):
            e = self._expr(len(binds[0]) if binds else 0, depth)
            try:
                vals = [gdoc.ev(e, {i + 1: v for i, v in enumerate(b)}) for b in (binds or [[]])]
            except (Invalid, OverflowError):
                continue
            a, b = self.sizes
            if positive and all(a / 2 <= v <= 3 * b for v in vals):
                return e
            if not positive and all(abs(v) <= 3 * b for v in vals):
                return e
        return ["n", self.dlit()]

    def _expr(self, nv, depth):
        r = self.r
        k = r.random()
        if depth == 0 or k < 0.25:
            if nv and r.random() < 0.7:
                return ["v", r.randint(1, nv)]
            return ["n", self.dlit()]
        if k < 0.33:
            return ["neg", self._expr(nv, depth - 1)] + ([1] if r.random() < 0.4 else [])
        if k < 0.42:
            return ["p", self._expr(nv, depth - 1)]
        op = r.choice("+-*/")
        b = self._expr(nv, depth - 1) if op in "+-" else ["n", r.choice(("2", "0.5", "1.5", "4", "0.25", "3"))]
        a = self._expr(nv, depth - 1)
        if op in "*" and r.random() < 0.4:
            a, b = b, a
        return [op, a, b]

    def macro_body(self, binds):
        r = self.r
        body = []
        prims = self.o.get("am_prims") or (1, 1, 4, 5, 21, 20, 2, 7)
        par = bool(binds and binds[0]) and not self.o.get("am_literal")
        binds = [list(b) for b in binds] or [[]]
        L = lambda: self.expr(binds, True) if (par or len(binds[0])) and r.random() < 0.6 else ["n", self.dlit()]
        nv = len(binds[0])
        lit = self.o.get("am_literal")

        def zero():
            z = ["n", r.choice(("0", "0", "0", "0.0", "0.", "00"))]
            return ["neg", z] if r.random() < 0.15 else z

        # (a variable nobody has set is 0: an optional parameter which is left out)
        S = lambda: (self.expr(binds, False) if par and r.random() < 0.4 else
                     ["v", nv + r.randint(1, 3)] if not lit and r.random() < self.o.get("unset", 0.06) else
                     (zero() if r.random() < 0.4 else self.slit()))
        A = lambda: ["n", r.choice(("0", "0", "45", "90", "30.5", "15"))] if r.random() < 0.8 else ["neg", ["n", "22.5"]]
        if r.random() < 0.25:
            body.append(["c", r.choice(("a comment", "thermal relief", "x=1", "0,1,2", "$1 is the width"))])
        if not lit and r.random() < (0.4 if par else self.o.get("unset", 0.1)):
            e = self.expr(binds, True)
            k = len(binds[0]) + 1
            body.append(["eq", k, e])
            for b in binds:
                b.append(gdoc.ev(e, {i + 1: v for i, v in enumerate(b)}))
        first = True
        for _ in range(r.randint(1, 3)):
            code = r.choice(prims)
            exp = ["n", "1"] if first or r.random() < 0.75 else ["n", "0"]
            first = False
            if code == 1:
                body.append(["pr", 1, [exp, L(), S(), S()]])
            elif code == 5:
                n = ["n", str(r.randint(3, 12))]
                off = r.random() < 0.3
                body.append(["pr", 5, [exp, n] + ([S(), S()] if off else [["n", "0"], ["n", "0"]]) + [L(), A()]])
            elif code == 4:
                n = r.randint(3, 6)
                pts = []
                for _ in range(n):
                    pts += [S(), S()]
                if r.random() < 0.5:
                    # ordinary polygon around the origin
                    pts = []
                    R = float(self.dlit())
                    for i in range(n):
                        for v in (R * math.cos(2 * math.pi * i / n), R * math.sin(2 * math.pi * i / n)):
                            e = ["n", "%.4f" % abs(v)]
                            pts.append(["neg", e] if v < 0 and (float(e[1]) or r.random() < 0.2) else e)
                body.append(["pr", 4, [exp, ["n", str(n)]] + pts + pts[:2] + [A()]])
            elif code == 21:
                off = r.random() < 0.3
                body.append(["pr", 21, [exp, L(), L()] + ([S(), S()] if off else [["n", "0"], ["n", "0"]]) + [A()]])
            elif code in (2, 20):
                body.append(["pr", code, [exp, L(), S(), S(), S(), S(), A()]])
            elif code == 7:
                od = float(self.dlit()) + self.sizes[0] * 4
                off = r.random() < 0.3
                body.append(["pr", 7, ([S(), S()] if off else [["n", "0"], ["n", "0"]]) +
                             [["n", "%.4f" % od], ["n", "%.4f" % (od * 0.7)], ["n", "%.4f" % (od * r.uniform(0.1, 0.4))],
                              A()]])
        if self.o.get("am_extra") and r.random() < 0.4:
            # shapes that are kept and converted but not drawn
            if r.random() < 0.5:
                body.append(["pr", 22, [["n", "1"], L(), L(), S(), S(), A()]])
            else:
                body.append(["pr", 6, [S(), S(), L(), L(), L(), ["n", str(r.randint(1, 5))], L(), L(), A()]])
        return body

    def add_macro(self):
        r = self.r
        name = r.choice([n for n in NAMES if n not in self.macros] or ["M%d" % r.randint(1, 999)])
        if self.macros and r.random() < 0.12 and not self.o.get("no_redef"):
            # the same name again, as in files put together from several
            name = r.choice(sorted(self.macros))
        nuse = r.choice((1, 1, 2, 3)) if not self.o.get("am_single") else 1
        np = r.randint(0, 3) if not self.o.get("np") else r.choice(self.o["np"])
        binds = [[self.dlit() for _ in range(np)] for _ in range(nuse)]
        for k in range(1, nuse):
            if r.random() < 0.4:
                binds[k] = list(binds[0])
                r.shuffle(binds[k])
        if nuse > 1 and np and r.random() < 0.15:
            # parameters that are left out are 0
            k = r.randrange(1, nuse)
            binds[k] = binds[k][:r.randrange(np)]
        twin = None
        if self.macros and not self.o.get("am_literal") and r.random() < 0.3:
            other = r.choice(sorted(self.macros))
            twin = self.twin(self.macros[other])
            np, binds = self.macro_binds[other]
            binds = [list(b) for b in binds]
        for _ in range(10):
            body, twin = twin, None
            body = body or self.macro_body([[float(x) for x in b] + [0.0] * (np - len(b)) for b in binds])
            try:
                for b in binds:
                    if not gdoc.ref_macro(body, [float(x) for x in b]):
                        raise Invalid("empty")
                break
            except Invalid:
                body = [["pr", 1, [["n", "1"], ["n", self.dlit()], ["n", "0"], ["n", "0"]]]]
        self.macros[name] = body
        self.macro_binds[name] = (np, binds)
        self.cmds.append(["am", name, body])
        for b in binds:
            self.add_ad(name, b)

    def twin(self, body):
        """Almost the same macro, often of the same extents."""
        r = self.r
        body = json.loads(json.dumps(body))
        ps = [b for b in body if b[0] == "pr"]
        for _ in range(r.choice((1, 1, 1, 2))):
            b = r.choice(ps)
            code, e = b[1], b[2]
            k = r.random()
            if k < 0.25:
                # turned the other way
                e[-1] = e[-1][1] if e[-1][0] == "neg" else ["-", ["n", "180"], e[-1]] if code != 1 and (r.random() < 0.5 or e[-1][0] not in "nv") else ["neg", e[-1]]
            elif k < 0.5 and code == 5:
                e[1] = ["n", str(r.randint(3, 12))]
            elif k < 0.6 and len(ps) > 1:
                body.remove(b)
                ps.remove(b)
            elif k < 0.75:
                new = json.loads(json.dumps(b))
                body.append(new)
                ps.append(new)
            elif code not in (6, 7) and b is not ps[0]:
                e[0] = ["n", "0" if e[0] == ["n", "1"] else "1"]
            elif code == 21:
                e[1], e[2] = e[2], e[1]
            elif code in (1, 5):
                e[2], e[3] = e[3], e[2]
        return body

    def dcode(self):
        r = self.r
        for _ in range(50):
            d = r.choice((r.randint(10, 30), r.randint(10, 30), r.randint(10, 999)))
            if d not in self.aps or r.random() < 0.05 and not self.o.get("no_redef"):
                return d
        return max(self.aps) + 1

    def add_ad(self, shape=None, mods=None):
        r = self.r
        if shape is None:
            shape = r.choice(self.o.get("shapes") or "CCCRROP")
            a, b = self.sizes
            wide = self.o.get("wide_holes")
            hole = r.random() < (0.6 if wide else 0.25) and not self.o.get("no_holes")
            if wide:
                a = b / 16
            if shape == "C":
                mods = [dec(r, a * 4 if hole else a, b)]
                if r.random() < 0.03 and not self.o.get("no_zero"):
                    mods = ["0"]
                    hole = False
            elif shape in "RO":
                mods = [dec(r, a * 4 if hole else a, b), dec(r, a * 4 if hole else a, b)]
            else:
                mods = [dec(r, a * 4, b), str(r.randint(3, 12))]
                if hole or r.random() < 0.5:
                    mods.append(r.choice(("0", "0", "45", "22.5", "-30", "90.0")))
            if hole and wide:
                # holes large enough to be seen in a picture
                lim = min(float(v) for v in (mods[:2] if shape in "RO" else mods[:1])) * (0.4 if shape == "P" else 0.7)
                mods += [dec(r, lim / 2, lim)] if r.random() < 0.4 else [dec(r, lim / 2, lim), dec(r, lim / 2, lim)]
            elif hole:
                mods += [dec(r, a / 2, a * 1.5)] if r.random() < 0.6 else [dec(r, a / 2, a * 1.5), dec(r, a / 2, a * 1.5)]
            old = [m for s, m in self.mods if s == shape]
            if old and r.random() < 0.2:
                mods = list(r.choice(old))
                if shape in "RO" and r.random() < 0.6:
                    mods[:2] = mods[1::-1]
                elif len(mods) == {"C": 3, "R": 4, "O": 4, "P": 5}[shape] and r.random() < 0.6:
                    mods[-2:] = mods[:-3:-1]
            self.mods.append((shape, mods))
        d = self.dcode()
        self.aps[d] = shape
        self.cmds.append(["ad", d, shape, mods])
        return d

    # -------------------------------------------------------------- body
    def select(self, ok):
        """Make a suitable aperture current; False if there is none."""
        r = self.r
        if self.cur is not None and self.aps[self.cur] in ok and r.random() < 0.6:
            return True
        c = [d for d in sorted(self.aps) if self.aps[d] in ok]
        if not c:
            return False
        self.cur = r.choice(c)
        self.cmds.append(["sel", self.cur])
        return True

    def noise(self):
        r = self.r
        k = r.random()
        if k < 0.5:
            self.cmds.append(["cm", r.choice(COMMENTS)])
        elif k < 0.9:
            self.cmds.append(["raw", r.choice(self.o.get("raws") or RAWS)])
        else:
            self.cmds.append(["u", self.unit])

    def step(self):
        r, o = self.r, self.o
        k = r.random()
        if k < 0.22:
            if self.select([s for s in set(self.aps.values()) if s not in o.get("no_flash", ())]):
                x, y = self.xy()
                self.cmds.append(["fl"] + list(self.modal(x, y)))
        elif k < 0.34:
            x, y = self.xy()
            self.cmds.append(["mv"] + list(self.modal(x, y)))
        elif k < 0.56:
            if self.x is not None and self.select(o.get("line_shapes") or "CCCRR"):
                for _ in range(r.randint(1, 3)):
                    x, y = self.xy()
                    if o.get("no_zero_draw") and (x, y) == (self.x, self.y):
                        continue
                    self.cmds.append(["ln"] + list(self.modal(x, y)))
        elif k < 0.68:
            if self.select("C"):
                a = self.arc()
                if a:
                    ox, oy = self.modal(a[1], a[2])
                    self.cmds.append(["ar", a[0], ox, oy, a[3], a[4]])
        elif k < 0.80 and not o.get("no_region"):
            self.region()
        elif k < 0.86 and not o.get("no_lp"):
            self.cmds.append(["lp", r.choice("DC")])
        elif k < 0.89 and not o.get("no_single"):
            self.quad = r.choice("SM")
            self.cmds.append(["q", self.quad])
        elif k < 0.95 and not o.get("no_noise"):
            self.noise()
        elif k < 0.98:
            if not o.get("ad_first"):
                self.add_ad()
        elif not o.get("no_macro") and not o.get("ad_first"):
            self.add_macro()

    def region(self):
        r = self.r
        cons = []
        for _ in range(r.choice((1, 1, 1, 2, 3))):
            x, y = self.xy()
            start = (x, y)
            p = list(self.modal(x, y))
            segs = []
            for _ in range(r.randint(1, 6) if r.random() < 0.97 or self.o.get("no_big") else r.randint(20, 90)):
                if r.random() < 0.04 and not self.o.get("no_single"):
                    self.quad = r.choice("SM")
                    segs.append(["q", self.quad])
                if r.random() < 0.25 and not self.o.get("no_region_arc"):
                    a = self.arc()
                    if a:
                        full = (a[1], a[2]) == (self.x, self.y)
                        if full and any(g[0] != "q" for g in segs):
                            continue
                        ox, oy = self.modal(a[1], a[2])
                        segs.append(["ar", a[0], ox, oy, a[3], a[4]])
                        if full:
                            break
                else:
                    x, y = self.xy()
                    if any(g[0] != "q" for g in segs) and r.random() < 0.06 and not self.o.get("no_zero_draw"):
                        x, y = self.x, self.y
                    elif (x, y) == (self.x, self.y):
                        continue
                    segs.append(["ln"] + list(self.modal(x, y)))
            if (self.x, self.y) != start:
                segs.append(["ln"] + list(self.modal(*start)))
            if segs:
                cons.append([p, segs])
        if cons:
            self.cmds.append(["rg", cons])

    def doc(self):
        r, o = self.r, self.o
        if r.random() < 0.5:
            self.quad = "M"
            self.cmds.append(["q", "M"])
        if r.random() < 0.3 and not o.get("no_noise"):
            self.noise()
        for _ in range(r.randint(1, 4) if r.random() < 0.98 or o.get("no_big") else r.randint(15, 60)):
            if r.random() < o.get("p_macro", 0.25) and not o.get("no_macro"):
                self.add_macro()
            else:
                self.add_ad()
        # well-defined modal state before anything is drawn
        x, y = self.xy()
        self.x = self.y = None
        self.cmds.append(["mv"] + list(self.modal(x, y)))
        for _ in range(r.choice((1, 3, 6, 10, 20, 40)) if not o.get("n") else o["n"]):
            self.step()
        if o.get("flash_all"):
            for d in sorted(self.aps):
                self.cmds += [["sel", d], ["fl"] + list(self.xy())]
        style = {}
        for k, p in (("pad", 0.25), ("g0", 0.8), ("d0", 0.8), ("mo_first", 0.3), ("modal", 0.3), ("g_always", 0.3), ("g_split", 0.15),
                     ("omit0", 0.3), ("plus", 0.08), ("multi", 0.08), ("am_lines", 0.6), ("g54", 0.2), ("m0", 0.85)):
            style[k] = int(r.random() < p)
        if r.random() < 0.2:
            style["head_comment"] = r.choice(("Layer: Top", "Generated", "G04 nested", "100 % test"))
            if "%" in style["head_comment"]:
                style["head_comment"] = "Layer"
        if style["modal"] and r.random() < 0.4:
            style["modal"] = 2
        style["rg_modal"] = r.choice((0, 0, 1, 2))
        style["join"] = r.choice(("line", "line", "line", "one", "blank"))
        style["mul"] = r.choice("xxX")
        style["eol"] = r.choice(("\n", "\n", "\r\n", "\r\n", "\r"))
        return {"fmt": self.fmt, "zero": self.zero, "unit": self.unit, "style": style, "cmds": self.cmds}


def gen(rng, **opts):
    """A document that its own reference accepts."""
    for _ in range(50):
        d = G(rng, opts).doc()
        try:
            gdoc.text(d)
            gdoc.ref(d)
        except Invalid:
            continue
        return d
    raise RuntimeError("generator cannot satisfy the reference")
