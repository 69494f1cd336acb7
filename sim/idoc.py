"""IPC-D-356A netlists: document model, text, reference reading and generator.

doc = {"recs": [...], "style": {...}}
  ["C", text]
  ["P", name, value]                      JOB, UNITS, NNAMEn, anything
  ["tr", op, net, id, pin|None, opts]      opts: mid, dia, plated, acc, x, y, rx, ry, rot, sm, opt; absent keys are blank; nothing is written after the last one present
  ["378", net, layer, [ax, ay|None], [[[x|None, y|None], ...], ...], cuts]
  ["379", net, [nets], cuts]
  ["389", type, [[x|None, y|None], ...], cuts]
  ["x", line]                              a record the library does not read
  ["999"]
cuts: token indices after which a continuation record begins.
"""
from .core import Invalid

ACCESS = ["both", "top", "layer2", "layer3", "layer4", "layer5", "layer6", "layer7", "bottom"]
FEATURE = {"1": "through-hole", "2": "smt", "6": "non-plated-tooling-hole"}
SM = ["none", "primary side", "secondary side", "both"]


def num(v, width, style):
    """A fixed-width field."""
    if style == "zero":
        s = "%0*d" % (width - 1, abs(v))
        s = ("-" if v < 0 else " ") + s
    elif style == "plus":
        s = "%s%0*d" % ("-" if v < 0 else "+", width - 1, abs(v))
    else:
        s = str(v).rjust(width)
    if len(s) != width:
        raise Invalid("number too long")
    return s


def nonneg(v, width, style):
    s = "%0*d" % (width, v) if style != "space" else str(v).rjust(width)
    if len(s) != width:
        raise Invalid("number too long")
    return s


def tr_text(r, style):
    _, op, net, rid, pin, o = r
    if len(net) > 14:
        raise Invalid("net name too long")
    s = (op + net).ljust(20)
    if len(rid) > 6:
        if pin is None or "-" in rid:
            raise Invalid("long designator without pin")
        s += rid
        if len(rid) > 13:
            raise Invalid("designator too long")
    else:
        s += rid.ljust(6)
    s += "-" + pin.ljust(4) if pin is not None else "     " if len(rid) <= 6 else ""
    s += "M" if o.get("mid") else " "
    s += "D" + nonneg(o["dia"], 4, style) if o.get("dia") is not None else "     "
    s += "P" if o.get("plated") else ("U" if o.get("dia") is not None else " ")
    s += "A%02d" % o["acc"]
    s += "X" + num(o["x"], 7, style) + "Y" + num(o["y"], 7, style)
    tail = ""
    tail += "X" + nonneg(o["rx"], 4, style) if o.get("rx") is not None else "     "
    tail += "Y" + nonneg(o["ry"], 4, style) if o.get("ry") is not None else "     "
    tail += "R" + nonneg(o["rot"], 3, style) if o.get("rot") is not None else "    "
    tail += " "
    tail += "S%d" % o["sm"] if o.get("sm") is not None else "  "
    tail += o["opt"].ljust(5)[:5] if o.get("opt") else ""
    return s + tail.rstrip() if not style_pad(style) else s + tail


def style_pad(style):
    return False


def pt(p):
    s = ("X%d" % p[0] if p[0] is not None else "") + ("Y%d" % p[1] if p[1] is not None else "")
    if not s:
        raise Invalid("empty point")
    return s


def tokens(first, toks, cuts):
    """First line and continuation lines."""
    out, cur = [], first
    for k, t in enumerate(toks):
        cur += (" " if not cur.endswith(" ") else "") + t
        if k + 1 in cuts and k + 1 < len(toks):
            out.append(cur)
            cur = "0" + first[1:3] + " " * 19
    out.append(cur)
    return out


def lines(doc):
    st = doc["style"]
    num_style = st.get("num", "space")
    out = []
    for r in doc["recs"]:
        k = r[0]
        if k == "C":
            out.append([("C  " + r[1]).rstrip()])
        elif k == "P":
            out.append(["P  %s %s" % (r[1], r[2])])
        elif k == "tr":
            out.append([tr_text(r, num_style) + (" " * st.get("pad", 0))])
        elif k == "378":
            first = ("378" + r[1].ljust(14) + " L%02d " % r[2])
            toks = [pt(r[3])]
            for n, sh in enumerate(r[4]):
                t = [pt(p) for p in sh]
                if not t:
                    raise Invalid("empty conductor")
                if n + 1 < len(r[4]):
                    t[-1] += "*" if st.get("star", 1) else " *"
                toks += t
            out.append(tokens(first, toks, r[5]))
        elif k == "379":
            if not r[2] or " " in "".join([r[1]] + r[2]):
                raise Invalid("adjacency")
            out.append(tokens("379" + r[1], r[2], r[3]))
        elif k == "389":
            out.append(tokens(("389" + r[1]).ljust(22), [pt(p) for p in r[2]], r[3]))
        elif k == "x":
            out.append([r[1]])
        elif k == "999":
            out.append(["999"])
        else:
            raise Invalid("record")
    return out


def text(doc):
    e = doc["style"].get("eol", "\n")
    return e.join(l for ls in lines(doc) for l in ls) + (e if doc["style"].get("last", 1) else "")


def ends(doc):
    """Offset just behind the text of each record."""
    e = doc["style"].get("eol", "\n")
    pos, out = 0, []
    for ls in lines(doc):
        pos += sum(len(l) for l in ls) + len(e) * (len(ls) - 1)
        out.append(pos)
        pos += len(e)
    return out


def ref(doc):
    """What the netlist says: list of records as observe() returns them."""
    lines(doc)
    scale, unit, angle = 1e-4, "inch", "degrees"
    names = {}
    out = []

    def name(n):
        return names.get(n, n)

    def walk(ps):
        x = y = 0
        res = []
        for p in ps:
            x = p[0] if p[0] is not None else x
            y = p[1] if p[1] is not None else y
            res.append([x * scale, y * scale])
        return res
    for r in doc["recs"]:
        k = r[0]
        if k == "C":
            out.append(["comment", r[1].strip()])
        elif k == "P":
            v = " ".join(r[2].split())
            if r[1] == "UNITS":
                scale, unit, angle = {"CUST": (1e-4, "inch", "degrees"), "CUST 0": (1e-4, "inch", "degrees"), "CUST 1": (1e-3, "metric", "degrees"),
                                      "CUST 2": (1e-4, "inch", "radians")}[v]
            if r[1].startswith("NNAME"):
                names[r[1]] = v
            out.append(["parameter", r[1], v])
        elif k == "tr":
            o = r[5]
            d = {"feature": FEATURE[r[1][1]], "net": name(r[2]), "id": r[3], "pin": r[4] or None, "location": "middle" if o.get("mid") else "end",
                 "plated": bool(o.get("plated")), "access": ACCESS[o["acc"]], "x": o["x"] * scale, "y": o["y"] * scale}
            if o.get("dia") is not None:
                d["hole"] = o["dia"] * scale
            for a in ("rx", "ry"):
                if o.get(a) is not None:
                    d[a] = o[a] * scale
            if o.get("rot") is not None:
                import math
                d["rot"] = o["rot"] if angle == "degrees" else math.degrees(o["rot"])
            if o.get("sm") is not None:
                d["sm"] = SM[o["sm"]]
            if o.get("opt"):
                d["opt"] = o["opt"].ljust(5)[1:5].rstrip()
            out.append(["record", d])
        elif k == "378":
            ap = [v * scale if v is not None else None for v in r[3]]
            out.append(["conductor", name(r[1]), r[2], ap, [walk(sh) for sh in r[4]]])
        elif k == "379":
            out.append(["adjacency", name(r[1]), [name(n) for n in r[2]]])
        elif k == "389":
            out.append(["outline", r[1], walk(r[2])])
        elif k == "999":
            out.append(["end"])
    return {"unit": unit, "angle": angle, "recs": out}


def derived(recs):
    """Net and component lists that follow from the records."""
    trs = [r[1] for r in recs if r[0] == "record"]
    adj = [r for r in recs if r[0] == "adjacency"]
    nets = {}
    for n in set(t["net"] for t in trs) - {""}:
        a = set()
        for _, net, others in adj:
            if net == n:
                a |= set(others)
            elif n in others:
                a.add(net)
        nets[n] = sorted(a)
    comps = sorted(set(t["id"] for t in trs) - {"VIA", ""})
    return {"nets": [[n, nets[n]] for n in sorted(nets)], "components": comps, "vias": sum(t["id"] == "VIA" for t in trs)}


def observe(n):
    """The same shape from a loaded netlist."""
    from gerber import ipc356 as m
    out = []
    for s in n.statements:
        if isinstance(s, m.IPC356_Comment):
            out.append(["comment", s.comment])
        elif isinstance(s, m.IPC356_Parameter):
            out.append(["parameter", s.parameter, s.value])
        elif isinstance(s, m.IPC356_TestRecord):
            d = {"feature": s.feature_type, "net": s.net_name, "id": s.id, "pin": s.pin, "location": s.location, "plated": getattr(s, "plated", None),
                 "access": getattr(s, "access", None), "x": s.x_coord, "y": s.y_coord}
            for a, b in (("hole", "hole_diameter"), ("rx", "rect_x"), ("ry", "rect_y"), ("rot", "rect_rotation"), ("sm", "soldermask_info"), ("opt", "optional_info")):
                v = getattr(s, b, None)
                if v is not None and v != "":
                    d[a] = v.rstrip() if a == "opt" else v
            out.append(["record", d])
        elif isinstance(s, m.IPC356_Conductor):
            out.append(["conductor", s.net_name, s.layer, list(s.aperture), [[list(p) for p in sh] for sh in s.shapes]])
        elif isinstance(s, m.IPC356_Adjacency):
            out.append(["adjacency", s.net, list(s.adjacent_nets)])
        elif isinstance(s, m.IPC356_Outline):
            out.append(["outline", s.type, [list(p) for p in s.points]])
        elif isinstance(s, m.IPC356_EndOfFile):
            out.append(["end"])
        else:
            out.append(["?", repr(s)])
    return out


def observe_derived(n):
    nets = [[x.name, sorted(x.adjacent_nets)] for x in n.nets if x.name]
    return {"nets": sorted(nets), "components": sorted(c for c in n.components if c), "vias": len(n.vias)}


def observe_points(n):
    return [[list(p.position), p.net_name, p.layer] for p in n.primitives]


# ------------------------------------------------------------------ generator
NETS = ["GND", "VCC", "N$1", "N$2", "+5V", "-12V", "A", "DMX-", "DMX+", "PIC_RX", "NET 1", "X1", "Y2", "D0", "/RST", "3V3", "CLK-IN", "14CHARSLONGNET"]
IDS = ["R1", "R2", "C10", "U1", "U12", "J3", "LED1", "CON123", "VIA", "VIA", "MP1", "A", "IC-1", "VIA1", "VIAS"]
LONG = ["CONNECTOR", "COMMUNICATN", "SWITCH1"]
PINS = ["1", "2", "12", "A1", "+", "-", "M2", "1234", "K"]


def gen(rng, n=None):
    recs = []
    style = {"num": rng.choice(("space", "zero", "plus")), "eol": rng.choice(("\n", "\n", "\r\n", "\r")), "last": rng.choice((1, 1, 0)), "pad": rng.choice((0, 0, 0, 1, 9)),
             "star": int(rng.random() < 0.7)}
    for _ in range(rng.randint(0, 2)):
        recs.append(["C", rng.choice(("", "IPC-D-356 generated", "317 not a record", "P  UNITS CUST 1", "999"))])
    recs.append(["P", "JOB", rng.choice(("board", "EAGLE 7.1 NETLIST, DATE: 2/20/15", "a  b"))])
    unit = rng.choice(("CUST 0", "CUST 0", "CUST", "CUST 1", "CUST 1", "CUST 2", None))
    if unit:
        if rng.random() < 0.1:
            # set, then set again
            recs.append(["P", "UNITS", rng.choice(("CUST 0", "CUST", "CUST 1", "CUST 2"))])
        recs.append(["P", "UNITS", unit])
    if rng.random() < 0.5:
        recs.append(["P", "DIM", "N"])
    if rng.random() < 0.3:
        recs.append(["P", "VER", "IPC-D-356A"])
    nets = rng.sample(NETS, rng.randint(1, 6))
    alias = []
    for k in range(rng.choice((0, 0, 1, 2, 11))):
        a = "NNAME%d" % (k + 1)
        alias.append(a)
        recs.append(["P", a, rng.choice(("A_REALLY_LONG_NET_NAME_%d" % k, "LONG NAME WITH SPACES %d" % k))])
    pool = nets + alias
    lim = 999999
    neg = rng.random() < 0.5

    def coord(big=lim):
        v = rng.choice((0, 1, rng.randint(0, 99), rng.randint(0, 30000), rng.randint(0, 30000), big if rng.random() < 0.1 else 7))
        return -v if neg and rng.random() < 0.4 else v

    def point(first=False):
        k = rng.random()
        p = [coord(), coord()]
        if not first and k < 0.25:
            p[0] = None
        elif not first and k < 0.5:
            p[1] = None
        return p

    def cuts(m):
        return sorted(set(rng.randint(1, max(1, m)) for _ in range(rng.choice((0, 0, 1, 2)))))
    used = []
    late = rng.random() < 0.25
    for _ in range(n if n is not None else rng.choice((1, 2, 4, 8, 15, 30))):
        k = rng.random()
        if late and rng.random() < 0.2:
            # a name variable given (another) value between the records
            a = rng.choice(alias) if alias and rng.random() < 0.7 else "NNAME%d" % (len(alias) + 1)
            recs.append(["P", a, "GIVEN_LATER_ON_%d" % len(recs)])
            if a not in alias:
                alias.append(a)
                pool.append(a)
        if k < 0.72:
            op = rng.choice(("317", "317", "327", "327", "367"))
            net = rng.choice(pool) if rng.random() < 0.9 else ""
            rid = rng.choice(IDS) if rng.random() < 0.92 else rng.choice(LONG)
            pin = rng.choice(PINS) if len(rid) > 6 or (rid != "VIA" and rng.random() < 0.8) else rng.choice((None, None, ""))
            o = {"acc": rng.randint(0, 8) if op == "327" else 0, "x": coord(), "y": coord(), "plated": int(rng.random() < 0.6)}
            if rng.random() < 0.2:
                o["mid"] = 1
            if op != "327" or rng.random() < 0.1:
                o["dia"] = rng.choice((24, 150, 1, 9999, rng.randint(1, 999)))
            for a, m in (("rx", 9999), ("ry", 9999), ("rot", 359), ("sm", 3)):
                if rng.random() < 0.75:
                    o[a] = rng.choice((0, m, rng.randint(0, m)))
            if rng.random() < 0.1:
                o["opt"] = rng.choice((" ABC", " 12"))
            recs.append(["tr", op, net, rid, pin, o])
            used.append(net)
        elif k < 0.8:
            shapes = [[point(i == 0) for i in range(rng.randint(1, 5))] for _ in range(rng.randint(1, 3))]
            recs.append(["378", rng.choice(pool), rng.randint(1, 12), [rng.randint(1, 500), rng.choice((None, None, rng.randint(1, 500)))], shapes,
                         cuts(sum(map(len, shapes)))])
        elif k < 0.88 and len([x for x in pool if " " not in x]) > 1:
            p = [x for x in pool if " " not in x]
            a = rng.choice(p)
            others = [rng.choice([x for x in p if x != a]) for _ in range(rng.randint(1, 4))]
            recs.append(["379", a, list(dict.fromkeys(others)), cuts(4)])
        elif k < 0.95:
            pts = [point(i == 0) for i in range(rng.randint(1, 8))]
            recs.append(["389", rng.choice(("BOARD_EDGE", "PANEL_EDGE", "SCORE_LINE", "OTHER_FAB")), pts, cuts(len(pts))])
        elif k < 0.98:
            recs.append(["C", rng.choice(("note", "  indented", "C"))])
        else:
            recs.append(["x", rng.choice(("", "309 future", "   ", "388"))])
    if rng.random() < 0.85:
        recs.append(["999"])
    return {"recs": recs, "style": style}
