"""Programs: a document and a list of calls on it, and everything these calls return.

A program sees nothing but its own documents, so what it returns may not depend on anything else: on other threads (C10), on what its process did
before, on the process's hash seed and random identifiers (C11)."""
import json
import os

from . import canon, gdoc, ghist, idoc, norm, world, xdoc, xhist
from .core import Invalid

CLASSES = ("gtl", "gbl", "gts", "gbs", "gto", "g2", "gko")
THEMES = ("default", "OSH Park", "Blue", "Transparent Copper", "Transparent Multilayer")
STRANGE = ("0", "9", "-", "*", "%", "X", "D03*", "G01*", "G37*", "G36*", "\n", ",", "M48\n", "T1\n", "R2X1\n", "%SRX2Y2I1J1*%", "%IPNEG*%", "%OFA1B2*%", "%LPC*%", "G91*", "M71\n", "\u00e9")
GOPS = ["obs", "query", "query", "inch", "metric", "offset", "save", "reload", "copy", "regen", "am"]
XOPS = ["obs", "query", "query", "inch", "metric", "offset", "save", "reload", "copy", "tool", "report"]
NOPS = ["obs", "points", "derived", "parts"]


def gen_render(rng):
    return ["render", rng.choice(THEMES), rng.choice((20, 40)), rng.choice(("mem", "png", "svg", "cam", "each"))]


def gen(rng, render=0.1, shared=False, n=None, focus=None):
    k = rng.random()
    n = n or rng.choice((1, 2, 3, 5))
    kw = {}
    if focus == "macro":
        k, kw = 0, {"p_macro": 1, "flash_all": 1, "np": (0, 0, 0, 1, 2), "unset": 0.3}
        n, render = rng.choice((0, 1)), 0
    elif focus == "guess":
        k, n, render = 0.6, rng.choice((0, 1)), 0
    if k < 0.55:
        doc = ghist.gen_doc(rng, span=rng.choice((10, 40)), n=rng.choice((1, 2, 4, 8)), **kw)
        ops = ghist.gen_ops(rng, ["obs", "query"] if shared else GOPS, n, n)
        p = {"kind": "gerber", "doc": doc, "ext": rng.choice(CLASSES)}
    elif k < 0.8:
        doc = xhist.gen_doc(rng, small=1, n=rng.randint(1, 6), guess=focus == "guess" or rng.random() < 0.3)
        ops = xhist.gen_ops(rng, ["obs", "query"] if shared else XOPS, n, n)
        p = {"kind": "drill", "doc": doc, "ext": "drl"}
    elif k < 0.92 or shared:
        doc = idoc.gen(rng, n=rng.choice((1, 3, 6)))
        return {"kind": "netlist", "doc": doc, "ext": "ipc", "load": rng.choice(("read", "read", "loads", "layer")), "ops": [[rng.choice(NOPS)] for _ in range(n)]}
    else:
        files = {}
        for e in rng.sample(("gtl", "gbl", "gts", "gbs", "gto", "g2", "g3", "drl"), rng.randint(1, 4)):
            files["board." + e] = {"kind": "drill", "doc": xhist.gen_doc(rng, small=1, n=2)} if e == "drl" else {"kind": "gerber", "doc": ghist.gen_doc(rng, unit="MM", span=10, n=rng.choice((1, 2)))}
        return {"kind": "board", "files": files, "ops": [[rng.choice(("stack", "views", "obs"))] for _ in range(n)] + ([gen_render(rng)] if rng.random() < render else [])}
    if rng.random() < 0.15:
        # whatever the library makes of a strange or damaged document, it makes it everywhere
        p["mangle"] = [[rng.randint(0, 5000), rng.choice(("del", "ins", "set", "cut")), rng.choice(STRANGE)] for _ in range(rng.choice((1, 1, 2, 5)))]
        render = 0
    p["load"] = "read" if shared else rng.choice(("read", "read", "loads", "layer"))
    if p["kind"] == "drill" and not shared and rng.random() < 0.3:
        p["load"], p["side"] = "side", gen_side(rng, p["doc"])
    if rng.random() < render:
        ops.insert(rng.randint(0, len(ops)), gen_render(rng))
    p["ops"] = ops + [["obs"]] if focus else ops
    return p


def gen_side(rng, doc):
    """Texts of a settings file and of a tool table, complete or not."""
    from .checks.c19 import settings_text, gen_table, table_text
    g = {"unit": doc["unit"] if rng.random() < 0.8 else rng.choice(("IN", "MM")), "fmt": doc["fmt"], "inc": int(rng.random() < 0.2)}
    lines = settings_text(g, {"lead": rng.randint(0, 2), "turn": rng.randint(0, 3), "tail": rng.randint(0, 3)}).splitlines()
    table = gen_table(rng, [k for k in range(1, 6) if rng.random() < 0.7] or [1], doc["unit"])
    rows = table_text(table)[0].splitlines()
    for x in (lines, rows):
        while x and rng.random() < 0.25:
            k = rng.randrange(len(x))
            x[k:k + 1] = rng.choice(([], [], [x[k][:len(x[k]) // 2]], [x[k], x[k]]))
    return {"settings": "\n".join(lines) + "\n", "form": table["form"], "table": rng.choice((None, "\n".join(rows) + "\n", "\n".join(rows) + "\n"))}


def leaves(x, path=()):
    """Where the numbers of a document's commands are."""
    if isinstance(x, list):
        for k, y in enumerate(x):
            for q in leaves(y, path + (k,)):
                yield q
    elif (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, str) and x[-1:].isdigit()):
        yield path


def twin(rng, p):
    """The same program on a document that differs in one or two numbers: whatever is remembered of the one is wrong for the other."""
    q = json.loads(json.dumps(p))
    if p["kind"] not in ("gerber", "drill"):
        return q
    if p["kind"] == "drill" and rng.random() < 0.5:
        # the same header, another body
        body = [k for k, c in enumerate(q["doc"]["cmds"]) if c[0] in ("xy", "g85")]
        for k in sorted(rng.sample(body, len(body) // 2), reverse=True):
            del q["doc"]["cmds"][k]
    for _ in range(rng.choice((1, 1, 2, 6))):
        old = json.loads(json.dumps(q["doc"]["cmds"]))
        ls = list(leaves(old))
        if not ls:
            break
        path = rng.choice(ls)
        x = q["doc"]["cmds"]
        for k in path[:-1]:
            x = x[k]
        v = x[path[-1]]
        if isinstance(v, int):
            x[path[-1]] = v + rng.choice((1, -1, 10, 1000, -1000, v))
        else:
            x[path[-1]] = v[:-1] + str((int(v[-1]) + rng.randint(1, 9)) % 10)
        try:
            check(q)
            source(q)
        except Exception:
            q["doc"]["cmds"] = old
    return q


def source(p):
    text = {"gerber": gdoc, "drill": xdoc, "netlist": idoc}[p["kind"]].text(p["doc"])
    for pos, how, new in p.get("mangle") or ():
        k = pos % (len(text) + 1)
        text = {"del": text[:k] + text[k + 1:], "ins": text[:k] + new + text[k:], "set": text[:k] + new + text[k + 1:], "cut": text[:k] + text[k + 17:]}[how]
    return world.calm(text) if p.get("mangle") else text


def check(p):
    """Outside the domain?"""
    if p["kind"] == "gerber":
        gdoc.ref(p["doc"])


class Run(object):
    """One execution of a program in a directory of its own."""

    def __init__(self, p, d, doc=None):
        self.p = p
        self.d = d
        self.out = []
        self.doc = doc
        self.layer = None
        os.makedirs(d, exist_ok=True)
        if doc is not None:
            return
        if p["kind"] == "board":
            for name, f in sorted(p["files"].items()):
                world.put(os.path.join(d, name), source(f))
        else:
            self.path = os.path.join(d, "board." + p["ext"])
            world.put(self.path, source(p))

    def load(self):
        import gerber
        from gerber import layers, pcb
        p = self.p
        if p["kind"] == "board":
            self.doc = pcb.PCB.from_directory(self.d)
        elif p["load"] == "layer":
            self.layer = layers.load_layer(self.path)
            self.doc = self.layer.cam_source
        elif p["load"] == "loads":
            with open(self.path) as f:
                data = f.read()
            self.doc = gerber.loads(data, self.path)
        elif p["load"] == "side":
            from gerber import excellon, excellon_settings, excellon_tool
            settings, tools = excellon_settings.loads(p["side"]["settings"]), None
            self.out.append(["settings", str(settings)])
            if p["side"]["table"] is not None:
                tools = (excellon_tool.loads_rep if p["side"]["form"] == "report" else excellon_tool.loads)(p["side"]["table"], settings)
                self.out.append(["tools", [[n, xhist.tool(t, canon.scale_of(settings.units))] for n, t in tools.items()]])
            with open(self.path) as f:
                data = f.read()
            self.doc = excellon.loads(data, self.path, settings=settings, tools=tools)
        else:
            self.doc = gerber.read(self.path)

    def run(self):
        """All of it; a failing call is a result like any other."""
        for o in ([["load"]] if self.doc is None else []) + self.p["ops"]:
            self.step(o)
        return self.out

    def step(self, o):
        try:
            if o[0] == "load":
                self.load()
                r = None
            elif self.doc is None:
                r = "not loaded"
            else:
                r = getattr(self, self.p["kind"])(o)
        except Invalid:
            raise
        except Exception as e:
            r = "%s: %s" % (type(e).__name__, str(e).replace(self.d, ""))
        self.out.append([o[0], r])

    # ------------------------------------------------------------------ calls
    def gerber(self, o, doc=None):
        from gerber import operations
        doc = doc if doc is not None else self.doc
        k = o[0]
        if k == "obs":
            return ghist.observe(doc)
        if k == "query":
            return ghist.query(doc, o[1], o[2])
        if k == "am":
            return ghist.sorted_apertures(doc, 1.0) + [s.to_gerber(doc.settings) for s in doc.statements if type(s).__name__ == "AMParamStmt"]
        if k == "regen":
            from gerber.render.rs274x_backend import Rs274xContext
            c = Rs274xContext(doc.settings)
            for q in doc.primitives:
                c.render(q)
            return norm.text(c.dump())
        return self.common(o, operations)

    def drill(self, o):
        from gerber import operations
        doc = self.doc
        k = o[0]
        if k == "obs":
            return xhist.observe(doc)
        if k == "query":
            return [xhist.query(doc, o[1], o[2]), doc.hit_count(), doc.path_length() if doc.hits else 0]
        if k == "tool":
            return xhist.edit_tool(doc, o)
        if k == "report":
            return doc.report().replace(self.d + os.sep, "")
        return self.common(o, operations)

    def common(self, o, operations):
        doc = self.doc
        k = o[0]
        if k == "inch":
            doc.to_inch()
        elif k == "metric":
            doc.to_metric()
        elif k == "offset":
            x, y, _, _ = ghist.mm_offset(doc, o)
            doc.offset(x, y)
        elif k == "copy":
            self.doc = operations.offset(operations.to_inch(doc), 0.5, 0.25)
            self.layer = None
        elif k in ("save", "reload"):
            path = os.path.join(self.d, "saved." + self.p["ext"])
            doc.write(path)
            with open(path, "rb") as f:
                data = f.read()
            if k == "reload":
                import gerber
                self.doc = gerber.read(path)
                self.layer = None
            return data.decode("utf-8")
        elif k == "render":
            return self.render(o)
        return None

    def netlist(self, o):
        k = o[0]
        doc = self.doc
        if k == "obs":
            return idoc.observe(doc)
        if k == "points":
            return idoc.observe_points(doc)
        if k == "derived":
            return idoc.observe_derived(doc)
        return [len(doc.comments), len(doc.parameters), len(doc.outlines), len(doc.adjacency_records), repr(doc.units), str(doc.settings)]

    def board(self, o):
        k = o[0]
        doc = self.doc
        if k == "stack":
            return [[l.layer_class, os.path.basename(l.filename), len(l.primitives)] for l in doc.layers]
        if k == "views":
            return [[l.layer_class for l in v] for v in (doc.top_layers, doc.bottom_layers, doc.drill_layers, doc.copper_layers)] + [doc.layer_count, doc.board_bounds]
        if k == "obs":
            return [[canon.prims(l.cam_source), l.bounds] for l in doc.layers]
        return self.render(o)

    def render(self, o):
        from gerber.layers import PCBLayer
        from gerber.render.cairo_backend import GerberCairoContext
        from gerber.render.theme import THEMES
        ls = self.doc.layers if self.p["kind"] == "board" else [self.layer or PCBLayer.from_cam(self.doc)]
        ls = [l for l in ls if l.bounds is not None and len(l.primitives)]
        if not ls:
            return "nothing to draw"
        c = GerberCairoContext()
        if o[3] == "cam":
            doc = ls[0].cam_source
            b = doc.bounding_box
            c.scale = (o[2] / max(b[0][1] - b[0][0], b[1][1] - b[1][0]),) * 2
            doc.render(c)
            return c.dump_str()
        if o[3] == "each":
            b = ls[0].bounds
            c.scale = (o[2] / max(b[0][1] - b[0][0], b[1][1] - b[1][0]),) * 2
            for l in ls:
                c.render_layer(l)
            return c.dump_str()
        path = os.path.join(self.d, "picture." + ("svg" if o[3] == "svg" else "png"))
        c.render_layers(ls, path, theme=THEMES[o[1]], max_width=o[2], max_height=o[2])
        if o[3] == "mem":
            return c.dump_str()
        with open(path, "rb") as f:
            data = f.read()
        if o[3] == "svg":
            return norm.svg(data)
        return data


def shape(p):
    return [p["kind"], p.get("load"), [o[0] for o in p["ops"]]]
