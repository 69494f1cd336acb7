"""Excellon drill documents: abstract form (JSON), text serialiser and reference interpreter (shares no code with the library).

doc = {"unit": "IN"|"MM", "fmt": [i, d], "zero": "L"|"T" (the zeros that are suppressed), "dec": 0|1, "style": {...}, "cmds": [...]}
Coordinates are integers in units of 10^-d file units; with "dec" they are written with a decimal point.

header  ["M48"] ["%"] ["M95"] ["unit", u, "LZ"|"TZ"|None, fmt|None] ["mm", u] ["fmat", 1|2] ["ff", i, d] ["cm", text] ["type", "PLATED"|"NON_PLATED"]
        ["hole", n, size, plating, "MILS"|"MM", form] ["td", n, diameter, [[letter, text]...], where] ["ici", "ON"|"OFF"] ["g90"] ["unk", text]
body    ["t", n, form] ["m00"] ["xy", x, y] ["r", n, dx, dy] ["g85", x, y, x, y] ["g0", x, y, split] ["g1", x, y, split]
        ["m15"] ["m16"] ["m17"] ["g05"] ["f", n] ["m30", x, y]
"""
import math

from .core import Invalid

MM = {"IN": 25.4, "MM": 1.0}


def num(n, doc):
    d = doc["fmt"][1]
    pad = doc["style"].get("pad", 0)
    sign = "-" if n < 0 else "+" if pad == 2 else ""
    if doc.get("dec"):
        t = str(abs(n)).rjust(d + 1, "0")
        a, b = t[:len(t) - d], t[len(t) - d:]
        if pad == 1:
            return sign + a + "." + b
        b = b.rstrip("0")
        if pad == 0 and a == "0" and b:
            a = ""
        return sign + a + "." + b
    w = sum(doc["fmt"])
    full = str(abs(n)).rjust(w, "0")
    if len(full) > w:
        raise Invalid("number does not fit")
    if pad == 1:
        return sign + full
    t = full.lstrip("0") if doc["zero"] == "L" else full.rstrip("0")
    return sign + (t or "0")


def pt(x, y, doc, empty=False):
    s = ""
    if x is not None:
        s += "X" + num(x, doc)
    if y is not None:
        s += "Y" + num(y, doc)
    if not s and not empty:
        raise Invalid("no coordinate")
    return s


def marks(doc):
    """[(offset just after the command's last line in text(doc), holes and slots so far)] for each command."""
    ends = []
    t = text(doc, ends)
    return list(zip(ends, ref(doc)["counts"]))


def text(doc, ends=None):
    out = []
    num_lines = []
    for c in doc["cmds"]:
        if c is not doc["cmds"][0]:
            num_lines.append(len(out))
        k = c[0]
        if k in ("M48", "%", "M95"):
            out.append(k)
        elif k == "unit":
            s = {"IN": "INCH", "MM": "METRIC"}[c[1]]
            if c[2]:
                s += "," + c[2]
            if c[3]:
                s += "," + "0" * c[3][0] + "." + "0" * c[3][1]
            out.append(s)
        elif k == "mm":
            out.append({"IN": "M72", "MM": "M71"}[c[1]])
        elif k == "fmat":
            out.append("FMAT,%d" % c[1])
        elif k == "ff":
            out.append(";FILE_FORMAT=%d:%d" % (c[1], c[2]))
        elif k == "type":
            out.append(";TYPE=" + c[1])
        elif k == "cm":
            out.append(";" + c[1] * (c[2] if len(c) > 2 else 1))
        elif k == "hole":
            out.append(";%sHolesize %d. = %s Tolerance = +0.000000/-0.000000 %s %s Quantity = 7" % (
                "T%02d " % c[1] if c[5] else " ", c[1], c[2], c[3], c[4]))
        elif k == "td":
            parts = ["%s%s" % (a, b) for a, b in c[3]]
            parts.insert(min(c[4], len(parts)), "C" + c[2])
            out.append("T" + ("%02d" % c[1] if doc["style"].get("t2", 1) else str(c[1])) + "".join(parts))
        elif k == "ici":
            out.append("ICI," + c[1])
        elif k == "g90":
            out.append("G90")
        elif k == "unk":
            out.append(c[1])
        elif k == "t":
            out.append({0: "T%d", 1: "T%02d", 2: "T%03d", 3: "T%02d%02d"}[c[2]] % ((c[1], c[1]) if c[2] == 3 else c[1]))
        elif k == "xy":
            out.append(pt(c[1], c[2], doc))
        elif k == "r":
            out.append("R%d" % c[1] + pt(c[2], c[3], doc))
        elif k == "g85":
            out.append(pt(c[1], c[2], doc) + "G85" + pt(c[3], c[4], doc))
        elif k in ("g0", "g1"):
            out += [k.upper()[0] + "0" + k[1] + "\0" + pt(c[1], c[2], doc)] if not c[3] else [k.upper()[0] + "0" + k[1], pt(c[1], c[2], doc)]
            out[-1] = out[-1].replace("\0", "")
        elif k in ("m15", "m16", "m17", "m00", "g05"):
            out.append(k.upper())
        elif k == "f":
            out.append("F%02d" % c[1])
        elif k == "m30":
            out.append("M30" + pt(c[1], c[2], doc, True))
        else:
            raise Invalid(k)
    st = doc["style"]
    eol = st.get("eol", "\n")
    num_lines.append(len(out))
    if ends is not None:
        ends[:] = [len(eol.join(out[:n])) for n in num_lines]
    return eol.join(out) + (eol if st.get("last", 1) else "") + "\n" * st.get("blank", 0)


def value(t, fmt, zero):
    """Numeric value of a tool parameter."""
    if "." in t:
        return float(t)
    if fmt is None or zero is None:
        raise Invalid("format not declared yet")
    w = sum(fmt)
    if len(t) > w:
        raise Invalid("too long")
    t = t.rjust(w, "0") if zero == "L" else t.ljust(w, "0")
    return int(t) / 10.0 ** fmt[1]


def ref(doc, partial=False):
    """-> {"hits": [["drill", tool, [x, y], dia] | ["slot", tool, kind, a, b, dia]], "tools": {...}, "bounds": ...}, in mm."""
    s = MM[doc["unit"]]
    u = s * 10.0 ** -doc["fmt"][1]
    cmds = doc["cmds"]
    ffs = [c for c in cmds if c[0] == "ff"]
    units = [c for c in cmds if c[0] == "unit"]
    # what a reader knows from the start
    fmt = list(ffs[0][1:]) if len(ffs) == 1 else None
    zero = {"LZ": "T", "TZ": "L", None: "L"}[units[0][2]] if len(units) == 1 else None
    unit = "IN"
    if doc.get("given"):
        # the settings the caller passes
        unit, fmt, zero = doc["given"]["unit"], list(doc["given"]["fmt"]), doc["given"]["zero"]
    ext = dict((n, t) for n, t in doc.get("ext") or [])
    state, inc, pos, down, active = "INIT", False, [0, 0], False, None
    tools, order, comments = {}, [], {}
    hits = []
    plated = None
    ended = False
    if doc.get("given"):
        inc = bool(doc["given"].get("inc"))
    if any(c[0] == "type" for c in cmds) and any(c[0] == "hole" for c in cmds):
        raise Invalid("plating stated twice")

    def check():
        if ended:
            raise Invalid("after the end")
        if unit != doc["unit"]:
            raise Invalid("units not declared")
        if not doc.get("dec") and (fmt is None or list(fmt) != list(doc["fmt"]) or zero != doc["zero"]):
            raise Invalid("format not declared")

    def move(x, y):
        for k, v in enumerate((x, y)):
            if v is not None:
                pos[k] = pos[k] + v if inc else v

    def use(n):
        if n in tools:
            return tools[n]
        for table in (comments, ext):
            if n in table:
                tools[n] = dict(table[n])
                order.append(n)
                return tools[n]
        return None

    def tool():
        nonlocal active
        if active is None:
            if use(1) is None:
                raise Invalid("no tool")
            active = 1
        return active

    def xy():
        return [pos[0] * u, pos[1] * u]

    counts = []
    for c in cmds:
        if c is not cmds[0]:
            counts.append(len(hits))
        k = c[0]
        if k == "M48":
            state = "HEADER"
        elif k == "%":
            state = {"HEADER": "DRILL", "INIT": "HEADER"}.get(state, state)
        elif k == "M95":
            state = {"HEADER": "DRILL"}.get(state, state)
        elif k in ("unit", "mm"):
            if hits or (unit != doc["unit"] and c[1] != doc["unit"]) or (c[1] != doc["unit"]):
                raise Invalid("units changed")
            unit = c[1]
            if k == "unit":
                zero = {"LZ": "T", "TZ": "L", None: "L"}[c[2]]
                if c[3]:
                    fmt = list(c[3])
        elif k == "fmat":
            fmt = [c[1], 6 - c[1]]
        elif k == "ff":
            fmt = list(c[1:])
        elif k == "cm":
            if "HEADER:" in c[1]:
                state = "HEADER"
        elif k == "type":
            plated = {"PLATED": "plated", "NON_PLATED": "nonplated"}[c[1]]
        elif k == "hole":
            state = "HEADER"
            comments[c[1]] = {"dia": float(c[2]) * (0.0254 if c[4] == "MILS" else 1.0), "par": {},
                              "plated": {"PLATED": "plated", "NON_PLATED": "nonplated", "OPTIONAL": "optional"}[c[3]]}
            if c[1] in tools:
                raise Invalid("comment after definition")
        elif k == "td":
            if state != "HEADER":
                raise Invalid("definition outside the header")
            par = {}
            for a, b in c[3]:
                par[a] = value(b, fmt, zero) * (s if a == "Z" else 1000 if a == "S" else 1)
            if c[1] not in tools:
                order.append(c[1])
            p = plated
            if p is None and c[1] in ext:
                p = ext[c[1]]["plated"]
            elif p is None and c[1] in comments:
                p = comments[c[1]]["plated"]
            if hits:
                raise Invalid("definition after holes")
            tools[c[1]] = {"dia": float(c[2]) * s, "par": par, "plated": p}
        elif k == "ici":
            inc = c[1] == "ON"
        elif k == "g90":
            inc = False
        elif k == "t":
            if state == "HEADER" or ended:
                raise Invalid("selection in the header")
            if c[1] != 0:
                if use(c[1]) is None:
                    check()
                    tools[c[1]] = {"dia": (16 + 8 * c[1]) / 1000.0 * 25.4, "par": {}, "plated": plated}
                    order.append(c[1])
                active = c[1]
        elif k == "m00":
            if state != "DRILL" or active is None or use(active + 1) is None:
                raise Invalid("no next tool")
            active += 1
        elif k == "xy":
            check()
            if state == "INIT" or (state in ("ROUT",) and down):
                raise Invalid("state")
            a = xy()
            move(c[1], c[2])
            if state in ("DRILL", "HEADER"):
                n = tool()
                hits.append(["drill", n, xy(), tools[n]["dia"]])
            elif state == "LINEAR" and down:
                n = tool()
                hits.append(["slot", n, "rout", a, xy(), tools[n]["dia"]])
        elif k == "r":
            check()
            if state != "DRILL" or active is None:
                raise Invalid("state")
            for _ in range(c[1]):
                pos[0] += c[2] or 0
                pos[1] += c[3] or 0
                hits.append(["drill", active, xy(), tools[active]["dia"]])
        elif k == "g85":
            check()
            if state not in ("DRILL", "HEADER"):
                raise Invalid("state")
            move(c[1], c[2])
            a = xy()
            move(c[3], c[4])
            n = tool()
            hits.append(["slot", n, "g85", a, xy(), tools[n]["dia"]])
        elif k in ("g0", "g1"):
            check()
            if state == "INIT" or state == "HEADER" or (k == "g0" and down):
                raise Invalid("state")
            a = xy()
            move(c[1], c[2])
            state = "ROUT" if k == "g0" else "LINEAR"
            if k == "g1" and down:
                n = tool()
                hits.append(["slot", n, "rout", a, xy(), tools[n]["dia"]])
        elif k == "m15":
            down = True
            if state not in ("ROUT", "LINEAR"):
                raise Invalid("state")
        elif k in ("m16", "m17"):
            down = False
        elif k == "g05":
            down = False
            if state in ("INIT", "HEADER"):
                raise Invalid("state")
            state = "DRILL"
        elif k == "m30":
            ended = True
    if not partial:
        if unit != doc["unit"]:
            raise Invalid("units not declared")
    xs, ys = [], []
    for h in hits:
        r = h[-1] / 2.0
        for p in (h[3:5] if h[0] == "slot" else [h[2]]):
            xs += [p[0] - r, p[0] + r]
            ys += [p[1] - r, p[1] + r]
    counts.append(len(hits))
    return {"counts": counts, "hits": hits, "tools": tools, "order": order, "bounds": [[min(xs), max(xs)], [min(ys), max(ys)]] if hits else None}


def path_lengths(hits):
    """Per tool: the way from the origin through all its holes, along its slots."""
    out, at = {}, {}
    for h in hits:
        for p in (h[3:5] if h[0] == "slot" else [h[2]]):
            q = at.get(h[1], [0.0, 0.0])
            out[h[1]] = out.get(h[1], 0.0) + math.hypot(p[0] - q[0], p[1] - q[1])
            at[h[1]] = p
    return out
