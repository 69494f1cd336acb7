"""Seeded generator of Excellon drill documents."""
from . import xdoc
from .core import Invalid

FMTS = ([2, 4], [2, 4], [2, 5], [3, 3], [3, 3], [3, 4], [4, 4], [4, 2], [2, 6], [3, 5])


def dia(rng, unit):
    k = rng.random()
    if unit == "IN":
        v = rng.choice((0.0236, 0.0354, 0.04, 0.126, 0.012, 0.02, 0.1, rng.randint(5, 250) / 1000.0, rng.randint(50, 2500) / 10000.0))
    else:
        v = rng.choice((0.3, 0.6, 0.9, 1.0, 3.2, 2.54, rng.randint(1, 60) / 10.0, rng.randint(10, 600) / 100.0, rng.randint(100, 6000) / 1000.0))
    t = "%.5f" % v if k < 0.2 else "%g" % v
    if "." not in t:
        t += ".0"
    if k > 0.8 and t.startswith("0."):
        t = t[1:]
    return t


def gen(rng, small=False, n=None, guess=False, allow_holes=True):
    for _ in range(200):
        d = attempt(rng, small, n, guess, allow_holes)
        try:
            xdoc.ref(dict(d, dec=1) if guess else d)
            xdoc.text(d)
            return d
        except Invalid:
            continue
    raise AssertionError("generator")


def attempt(rng, small, n, guess, allow_holes):
    unit = rng.choice(("IN", "MM"))
    zero = rng.choice("LT")
    dec = int(rng.random() < 0.25)
    style = {"pad": rng.choice((0, 0, 0, 1, 2)), "eol": rng.choice(("\n", "\n", "\r\n", "\r")), "last": int(rng.random() < 0.9),
             "blank": int(rng.random() < 0.1), "t2": int(rng.random() < 0.7)}
    zl = {"L": "TZ", "T": "LZ"}[zero]
    head, late = [], []
    fmt = list(rng.choice(FMTS))
    # how the units, the zero suppression and the number format are declared
    how = rng.choice(("ff", "ff", "digits", "digits", "fmat", "mm"))
    if how == "fmat" and unit == "MM":
        how = "digits"
    if how == "digits":
        fmt = rng.choice(([2, 4], [3, 3], [4, 2]))
        head.append(["unit", unit, zl, fmt])
    elif how == "fmat":
        fmt = rng.choice(([2, 4], [2, 4], [1, 5]))
        head += [["fmat", fmt[0]], ["unit", unit, zl, None]]
        if rng.random() < 0.5:
            head.reverse()
    elif how == "ff":
        head += [["ff"] + fmt, ["unit", unit, zl, None]]
        if rng.random() < 0.4:
            head.reverse()
    elif how == "mm":
        if not guess:
            dec = 1
        head.append(["mm", unit])
        if guess:
            fmt, zero = [2, 4], rng.choice("LT")
    if dec and rng.random() < 0.5:
        head = [["unit", unit, rng.choice((zl, None)), None]] if rng.random() < 0.5 else [["mm", unit]]
        if unit == "IN" and rng.random() < 0.3:
            head = []
        fmt = [3, rng.choice((2, 3, 4))]
    decl = list(head)
    nt = rng.choice((1, 1, 2, 2, 3, 4, 6)) if rng.random() < 0.98 else rng.randint(10, 39)
    numbers = list(range(1, nt + 1))
    if rng.random() < 0.2:
        numbers = sorted(rng.sample(range(1, 40), nt))
    if rng.random() < 0.1:
        rng.shuffle(numbers)
    kind = rng.random()
    tds, sel = [], list(numbers)
    if kind < 0.08 and not guess and allow_holes:
        tds = [["hole", t, "%f" % (rng.randint(80, 2000) / 10.0) if rng.random() < 0.5 else "%d" % rng.randint(8, 200),
                rng.choice(("PLATED", "NON_PLATED", "OPTIONAL")), "MILS", rng.randint(0, 1)] for t in numbers]
        for t in tds:
            if rng.random() < 0.4:
                t[4], t[2] = "MM", "%f" % (rng.randint(20, 600) / 100.0)
    elif kind > 0.94:
        tds = []
        sel = [t for t in numbers if t < 40]
    else:
        for t in numbers:
            ex = []
            if rng.random() < 0.35:
                for a in rng.sample("FSBHZ", rng.randint(1, 3)):
                    v = rng.choice(("0", "00", "20", "65", "200", "1.5", "33.25", "4")) if a != "Z" else rng.choice(("0.5", "-0.25", "0.1"))
                    ex.append([a, v])
            tds.append(["td", t, dia(rng, unit), ex, rng.randint(0, 3)])
        if rng.random() < 0.06:
            tds.append(["td", numbers[0], dia(rng, unit), [], 0])
        if rng.random() < 0.08:
            sel.append(max(numbers) + rng.randint(1, 3))
    lines = decl + tds
    k = rng.random()
    if k < 0.12:
        lines = tds + decl
    elif k < 0.2:
        cut = rng.randint(0, len(tds))
        lines = tds[:cut] + decl + tds[cut:]
    for extra in ([["ici", rng.choice(("OFF", "OFF", "ON"))], ["unk", "VER,1"], ["unk", "ATC,ON"], ["unk", "DETECT,ON"], ["cm", " a comment, X1Y2"],
                   ["cm", "HEADER: "], ["cm", "INCH,LZ"]]):
        if rng.random() < 0.07:
            lines.insert(rng.randint(0, len(lines)), extra)
    if rng.random() < 0.12:
        at = [i for i, c in enumerate(lines) if c[0] == "td"]
        lines.insert(rng.choice(at) if at else 0, ["type", rng.choice(("PLATED", "NON_PLATED"))])
    cmds = []
    if rng.random() < 0.12:
        cmds.append(["%"])
    elif rng.random() < 0.15:
        cmds.append(["cm", "DRILL file {Pcbnew}"])
    cmds.append(["M48"])
    in_header = len(numbers) == 1 and numbers[0] == 1 and tds and rng.random() < 0.1
    late = []
    if rng.random() < 0.1 and decl and all(c[0] in ("unit", "mm") for c in decl):
        late = decl
        lines = [c for c in lines if c not in decl]
    cmds += lines
    if not in_header:
        cmds.append(["%"] if rng.random() < 0.7 else ["M95"])
    cmds += late
    for c, p in ((["g90"], 0.2), (["g05"], 0.2), (["unk", "G93X0Y0"], 0.03)):
        if rng.random() < p and not in_header:
            cmds.append(c)
    body(rng, cmds, unit, fmt, dec, sel, small, n, in_header, bool(any(c == ["ici", "ON"] for c in lines) and ["g90"] not in cmds))
    return {"unit": unit, "fmt": fmt, "zero": zero, "dec": dec, "style": style, "cmds": cmds}


def body(rng, cmds, unit, fmt, dec, sel, small, n, in_header, inc):
    u = 10 ** fmt[1]
    lim = min(10 ** sum(fmt) - 1, int((5.0 if unit == "IN" else 120.0) * u))
    if dec:
        lim = int((5.0 if unit == "IN" else 150.0) * u)
    if small:
        lim = min(lim, int((1.5 if unit == "IN" else 40.0) * u))
    neg = rng.random() < 0.25
    grid = rng.choice((1, 1, u // 100 or 1, u // 20 or 1, u // 4 or 1))
    pos = [0, 0]

    def coord(k):
        if rng.random() < 0.06:
            return 0
        v = rng.randint(0, lim) // grid * grid
        if rng.random() < 0.15:
            v = min(max(pos[k] + rng.randint(-3, 3) * grid, 0), lim)
        return -v if neg and rng.random() < 0.4 else v

    def target(must=False):
        x, y = coord(0), coord(1)
        k = rng.random()
        if not must and k < 0.15:
            x = None
        elif not must and k < 0.3:
            y = None
        return x, y

    def go(x, y):
        out = []
        for k, v in enumerate((x, y)):
            if v is None:
                out.append(None)
                continue
            out.append(v - pos[k] if inc else v)
            pos[k] = v
        return out
    total = n if n is not None else rng.choice((1, 3, 6, 10, 20, 30))
    first = True
    done = 0
    order = list(sel)
    routing = False
    if rng.random() < 0.3:
        order += [rng.choice(sel) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.1:
        order = order[:max(1, len(order) // 2)]
    for t in order:
        if not in_header:
            if not first and rng.random() < 0.05:
                if routing:
                    cmds.append(["g05"])
                    routing = False
                cmds.append(["m00"])
            else:
                if not (first and t == 1 and rng.random() < 0.06):
                    cmds.append(["t", t, rng.choice((1, 1, 1, 0, 3 if t < 100 else 1, 2))])
        first = False
        if rng.random() < 0.06:
            cmds.append(rng.choice((["f", rng.randint(1, 200)], ["cm", "drilling"], ["unk", "G40"], ["unk", "G42"])))
        if rng.random() < 0.06 and not in_header:
            inc = not inc
            cmds.append(["ici", "ON" if inc else "OFF"] if rng.random() < 0.5 or inc else ["g90"])
        for _ in range(max(1, total // len(order))):
            k = rng.random()
            if in_header:
                k *= 0.7
            if routing and k < 0.86:
                # back from routing, only after the tool was changed perhaps
                cmds.append(["g05"])
                routing = False
            if k < 0.66:
                cmds.append(["xy"] + go(*target(done == 0)))
            elif k < 0.78:
                x, y = go(*target(rng.random() < 0.7))
                z, w = go(*target(rng.random() < 0.7))
                if not inc:
                    # a missing end coordinate is that of the start
                    if z is None and x is not None:
                        pos[0] = x
                    if w is None and y is not None:
                        pos[1] = y
                cmds.append(["g85", x, y, z, w])
            elif k < 0.86 and cmds[-1][0] == "xy":
                c = rng.randint(1, 4)
                dx, dy = rng.choice((None, rng.randint(-50, 200) * grid)), rng.randint(-50, 200) * grid
                if abs(pos[0] + c * (dx or 0)) > lim or abs(pos[1] + c * dy) > lim:
                    continue
                pos[0] += c * (dx or 0)
                pos[1] += c * dy
                cmds.append(["r", c, dx, dy])
            elif k < 0.96:
                cmds.append(["g0"] + go(*target(True)) + [int(rng.random() < 0.15)])
                if rng.random() < 0.1:
                    cmds.append(["xy"] + go(*target()))
                if rng.random() < 0.12:
                    # moved with the tool up
                    cmds.append(["g1"] + go(*target()) + [0])
                    if rng.random() < 0.4:
                        cmds.append(["xy"] + go(*target()))
                down = False
                for _ in range(rng.choice((1, 1, 2))):
                    cmds.append(["m15"])
                    cmds.append(["g1"] + go(*target()) + [int(rng.random() < 0.15)])
                    for _ in range(rng.choice((0, 0, 1, 2))):
                        cmds.append(["xy"] + go(*target()) if rng.random() < 0.6 else ["g1"] + go(*target()) + [0])
                    if rng.random() < 0.12:
                        # leaving routing lifts the tool
                        down = True
                        break
                    cmds.append([rng.choice(("m16", "m16", "m17"))])
                    if rng.random() < 0.3:
                        cmds.append(["g1"] + go(*target()) + [0])
                    elif rng.random() < 0.5:
                        break
                    if rng.random() < 0.5:
                        cmds.append(["g0"] + go(*target(True)) + [0])
                if not down and rng.random() < 0.15:
                    routing = True
                else:
                    cmds.append(["g05"])
                    routing = False
            else:
                cmds.append(["cm", rng.choice(("x", "hole", " T01"))])
            done += 1
    if rng.random() < 0.15 and not in_header:
        cmds.append(["t", 0, rng.choice((0, 1))])
    if rng.random() < 0.9:
        cmds.append(["m30", None, None] if rng.random() < 0.85 else ["m30", 0, 0])
