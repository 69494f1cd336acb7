"""C12: a render shows exactly the layers asked for, and a drawing context can be used again."""
import contextlib
import io
import os
import random
import re

from .. import canon, gdoc, ghist, idoc, pict, world, xdoc, xhist
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL
from .c07 import KINDS, norm_svg

EXT = {"top": "gtl", "bottom": "gbl", "topmask": "gts", "bottommask": "gbs", "topsilk": "gto", "bottomsilk": "gbo", "toppaste": "gtp",
       "bottompaste": "gbp", "internal": "g2", "outline": "gko", "drill": "drl", "ipc_netlist": "ipc"}
CLASSES = ("top", "bottom", "topmask", "bottommask", "topsilk", "bottomsilk", "outline", "internal", "internal", "toppaste")
THEME_NAMES = ("default", "OSH Park", "Blue", "Transparent Copper", "Transparent Multilayer")
SIDES = {"default", "OSH Park", "Blue"}
MM = {"IN": 25.4, "MM": 1.0}
NAMES = ("out.png", "out.png", "OUT.PNG", "picture", "out.svg", "a.b.SVG")


def gen_settings(rng):
    return {"color": [rng.choice((0.0, 1.0, round(rng.random(), 2))) for _ in range(3)], "alpha": rng.choice((1.0, 1.0, 0.5, round(rng.random(), 2))),
            "invert": int(rng.random() < 0.25), "mirror": int(rng.random() < 0.25)}


def gen_theme(rng):
    if rng.random() < 0.6:
        return rng.choice(THEME_NAMES)
    t = {c: gen_settings(rng) for c in EXT if c not in ("internal", "ipc_netlist") and c not in ("toppaste", "bottompaste", "outline") and rng.random() < 0.6}
    for s in t.values():
        s["alpha"] = s["alpha"] or 1.0
    t["background"] = dict(gen_settings(rng), invert=0, mirror=0)
    t["internal"] = [dict(gen_settings(rng)) for _ in range(rng.randint(1, 3))]
    return t


def make(s):
    from gerber.render import RenderSettings
    return RenderSettings(color=tuple(s["color"]), alpha=s["alpha"], invert=bool(s["invert"]), mirror=bool(s["mirror"]))


def make_theme(t):
    from gerber.render import theme
    if isinstance(t, str):
        return theme.THEMES[t]
    return theme.Theme(name="own", **{k: [make(x) for x in v] if k == "internal" else make(v) for k, v in t.items()})


class Source(object):
    """A document on disk, its layer, and what the layer has to show (mm)."""

    def __init__(self, k, d, ctx):
        from gerber.layers import load_layer
        self.cls = d["cls"]
        self.kind = d["kind"]
        self.unit = d["doc"]["unit"]
        if self.kind == "netlist":
            nd = {"recs": [["P", "JOB", "x"], ["P", "UNITS", {"IN": "CUST 0", "MM": "CUST 1"}[self.unit]]] + [
                ["tr", "327", name, "R1", "1", {"acc": acc, "x": x, "y": y}] for x, y, name, acc in d["doc"]["pts"]] + [["999"]], "style": {}}
            text = idoc.text(nd)
            u = MM[self.unit] * {"IN": 1e-4, "MM": 1e-3}[self.unit]
            self.points = [{"acc": p[3]} for p in d["doc"]["pts"]]
            self.objects = [["testpoint", [x * u, y * u], name] for x, y, name, acc in d["doc"]["pts"]]
            ref = {"bounds": None}
        elif self.kind == "drill":
            text = xdoc.text(d["doc"])
            ref = xdoc.ref(d["doc"])
            self.objects = [["slot", h[3], h[4], h[5]] if h[0] == "slot" else ["drill", h[2], h[3]] for h in ref["hits"]]
        else:
            text = gdoc.text(d["doc"])
            ref = gdoc.ref(d["doc"])
            self.objects = ref["objects"]
        self.bounds = ref["bounds"]
        path = os.path.join(ctx.scratch, "d%d" % k, "board." + EXT[self.cls])
        world.put(path, text)
        self.layer = load_layer(path)
        if self.layer.layer_class != self.cls:
            raise Invalid("layer class")
        self.version = 0

    def edit(self, o):
        doc = self.layer.cam_source
        if self.kind == "netlist":
            return idoc.observe_derived(doc)
        self.version += 1
        if o[0] == "inch":
            doc.to_inch()
            self.unit = "IN"
        elif o[0] == "metric":
            doc.to_metric()
            self.unit = "MM"
        elif o[0] == "offset":
            x, y, dx, dy = ghist.mm_offset(doc, o)
            doc.offset(x, y)
            self.objects = [canon.shift(q, dx, dy) for q in self.objects]
            if self.bounds:
                self.bounds = canon.shift_box(self.bounds, dx, dy)
        elif o[0] == "query":
            (xhist if self.kind == "drill" else ghist).query(doc, o[1], o[2])


class Pic(object):
    """A drawing context and the model of the picture it holds."""

    def __init__(self, scale):
        from gerber.render.cairo_backend import GerberCairoContext
        self.real = GerberCairoContext(scale=scale)
        self.scale = scale
        self.clear()

    def clear(self):
        self.model = None        # pict.Picture
        self.calls = []          # what a fresh context has to be told: (layers, versions, function of the context)
        self.internal = 0


class Skip(Exception):
    """An operation outside the domain, which is left out."""


def svg_paints(root):
    """[((r, g, b), opacity, mask)] of an SVG made of nothing but painted sheets, masks being (width, height, stride, data); else None."""
    import base64
    import cairocffi
    ids = {}
    for tag in ("image", "mask"):
        for e in root.getElementsByTagName(tag):
            ids[e.getAttribute("id")] = e
    out = []
    try:
        for e in root.childNodes:
            if e.nodeType != e.ELEMENT_NODE or e.tagName == "defs":
                continue
            mask = None
            if e.tagName == "g":
                m = re.match(r"url\(#(.*)\)$", e.getAttribute("mask"))
                use = ids[m.group(1)].getElementsByTagName("use")
                inner = [c for c in e.childNodes if c.nodeType == c.ELEMENT_NODE]
                if len(use) != 1 or len(inner) != 1:
                    return None
                i, e = ids[use[0].getAttribute("xlink:href")[1:]], inner[0]
                if i.tagName != "image" or float(i.getAttribute("x")) or float(i.getAttribute("y")) or i.getAttribute("transform"):
                    return None
                im = cairocffi.ImageSurface.create_from_png(io.BytesIO(base64.b64decode(i.getAttribute("xlink:href").split(",", 1)[1])))
                if im.get_format() != cairocffi.FORMAT_ARGB32 or (im.get_width(), im.get_height()) != (float(i.getAttribute("width")), float(i.getAttribute("height"))):
                    return None
                mask = (im.get_width(), im.get_height(), im.get_stride(), bytes(im.get_data()))
            if e.tagName != "rect" or e.getAttribute("transform"):
                return None
            m = re.match(r"rgb\((.*)%, (.*)%, (.*)%\)$", e.getAttribute("fill"))
            out.append((tuple(float(v) / 100 for v in m.groups()), float(e.getAttribute("fill-opacity") or 1), mask))
    except (AttributeError, KeyError, IndexError, ValueError):
        return None     # made in another way: not judged
    return out


class C12(Base):
    id = "C12"
    runs = {"quick": 6000, "thorough": 150000}
    rule = ("seeded layers (Gerber and drill, both units), drawn by one or two drawing contexts in a seeded sequence of render_layer / render_layers / clear / dump "
            "(PNG, SVG, memory) with failing dumps, failing temporary files and interrupted drawings in between, under built-in, own and explicit colour settings; "
            "sampled pixels are compared with the described shapes, and every picture with the one of a fresh context; non-trivial: a picture with at least one object")
    measure = "distinct (operation kinds, layer classes, settings, fault kinds) signatures"
    real = REAL + ["gerber.render.cairo_backend", "gerber.render.theme", "gerber.layers", "libcairo"]
    stub = ["raw file (simulated)", "creation of temporary files (fault seam)", "libcairo's own file output is routed through the simulated file"]
    assumptions = ["a pixel is judged only when it is more than two pixels away from every outline that matters", "colours within 3/255 (plus 1/255 for each layer)", "SVG identifiers (process-wide counter of libcairo) are normalised",
                   "pictures of 3 to 900 pixels per side"]
    run_limit = 90

    def generate(self, rng, tier, i):
        unit = rng.choice(("IN", "MM"))
        mixed = rng.random() < 0.25
        span = rng.choice((6, 12, 20, 30))
        docs = []
        for _ in range(rng.choice((1, 2, 2, 3, 4))):
            u = rng.choice(("IN", "MM")) if mixed else unit
            if rng.random() < 0.2:
                for _ in range(40):
                    d = xhist.gen_doc(rng, small=1, n=rng.randint(1, 8))
                    if d["unit"] == u:
                        break
                docs.append({"kind": "drill", "cls": "drill", "doc": d})
            else:
                docs.append({"kind": "gerber", "cls": rng.choice(CLASSES), "doc": ghist.gen_doc(rng, unit=u, span=span, n=rng.choice((1, 3, 5, 8, 12)), wide_holes=int(rng.random() < 0.3))})
        b = None
        try:
            for d in docs:
                r = (xdoc if d["kind"] == "drill" else gdoc).ref(d["doc"])
                b = b or r["bounds"]
        except Invalid:
            pass
        ext = max([v[1] - v[0] for v in b] + [1.0]) if b else 10.0
        k = MM[docs[0]["doc"]["unit"]]
        if b and rng.random() < 0.15:
            u = unit if not mixed else rng.choice(("IN", "MM"))
            f = {"IN": 393.7, "MM": 1000.0}[u]
            docs.insert(rng.randint(1, len(docs)), {"kind": "netlist", "cls": "ipc_netlist", "doc": {"unit": u, "pts": [
                [int(rng.uniform(*b[0]) * f), int(rng.uniform(*b[1]) * f), rng.choice(("GND", "VCC", "A", "N$1", "")), rng.choice((0, 1, 8, 1, 8, 2))] for _ in range(rng.choice((1, 2, 4)))]}})
        scales = [round(rng.choice((60, 120, 200)) / ext * k, 3) for _ in range(2)]
        ops = []
        nc = rng.choice((1, 1, 1, 2))
        for _ in range(rng.choice((2, 4, 6, 10))):
            c, l = rng.randrange(nc), rng.randrange(len(docs))
            q = rng.random()
            if q < 0.42:
                op = ["render", c, l, gen_settings(rng) if rng.random() < 0.6 else None, None, None]
                if rng.random() < 0.3:
                    op[4] = [rng.choice((0, 0, 10, 50, -20)) for _ in range(4)]
                if rng.random() < 0.15:
                    op[5] = rng.choice(("mktemp", "boom", "dump"))
                    op.append(rng.randint(0, 5))
                elif rng.random() < 0.15:
                    # the picture so far is wanted in a file
                    op[5] = rng.choice(("named", "named", "told"))
                    op.append(rng.choice(NAMES))
            elif q < 0.6:
                op = ["layers", c, [rng.randrange(len(docs)) for _ in range(rng.randint(1, 4))], gen_theme(rng), rng.choice((60, 150, 200)), rng.choice((60, 150, 200)), None]
                if rng.random() < 0.2:
                    op[6] = rng.choice(("mktemp", "open", "write"))
            elif q < 0.68:
                op = ["clear", c]
            elif q < 0.83:
                op = ["dump", c, rng.choice(NAMES), None]
                if rng.random() < 0.3:
                    op[3] = {"op": rng.choice(("open", "write", "close")), "n": rng.choice((1, 1, 2)), "kind": rng.choice(KINDS)}
            elif q < 0.88:
                op = ["svg", c]
            elif q < 0.94:
                op = ["edit", l, ghist.gen_ops(rng, ["inch", "metric", "offset", "query"], 1, 1)[0]]
            else:
                op = ["cam", c, l, int(rng.random() < 0.3), rng.choice((0, 0, 1, 2))]
            ops.append(op)
        return {"docs": docs, "scales": scales, "ops": ops, "pick": rng.randint(0, 10 ** 6)}

    # ------------------------------------------------------------------ running
    def execute(self, sc, ctx):
        self.rng = random.Random(sc["pick"])
        os.chdir(ctx.scratch)
        src = [Source(k, d, ctx) for k, d in enumerate(sc["docs"])]
        if not src:
            raise Invalid("no layer")
        pics = [Pic(s) for s in sc["scales"]]
        self.src, self.pics, self.ctx = src, pics, ctx
        for op in sc["ops"]:
            k = op[0]
            if k == "edit":
                src[op[1] % len(src)].edit(op[2])
                continue
            try:
                self.perform(pics[op[1] % len(pics)], op)
            except Skip:
                ctx.stat("operations left out (picture size)")
                continue
            ctx.sig.append([k, op[5] if k == "render" else op[6] if k == "layers" else op[2:] if k == "dump" else 0])
        for p in pics:
            self.look(p, "at the end")
        ctx.sig.append([d["cls"] for d in sc["docs"]])

    def perform(self, p, op):
        k = op[0]
        if k == "clear":
            p.real.clear()
            p.clear()
        elif k == "render":
            self.render(p, op)
        elif k == "layers":
            self.layers(p, op)
        elif k == "dump":
            self.dump(p, op[2], op[3])
        elif k == "svg":
            self.svg(p)
        elif k == "cam":
            self.cam(p, op)

    def settings(self, p, s, theme=None):
        """The settings a layer has to be drawn with: (color, alpha, invert, mirror)."""
        from gerber.render import theme as themes
        t = theme if theme is not None else "default"
        d = make_theme(t)
        if s.cls == "internal":
            seq = d._internal if not isinstance(t, dict) else [make(x) for x in t["internal"]]
            if not seq:
                raise Invalid("no colours")
            r = seq[p.internal % len(seq)]
            p.internal += 1
        elif isinstance(t, dict) and s.cls in t:
            r = make(t[s.cls])
        else:
            r = getattr(d, s.cls, None)
            if r is None:
                return ((0.0, 0.0, 0.0), 1.0, False, False)
            if isinstance(t, str) and t in SIDES:
                if s.cls.endswith("mask") and not r.invert:
                    raise Violation("theme", "theme %s: %s is not drawn inverted" % (t, s.cls))
                if s.cls.startswith("bottom") != bool(r.mirror):
                    raise Violation("theme", "theme %s: %s is %smirrored" % (t, s.cls, "" if r.mirror else "not "))
        return (r.color, r.alpha, r.invert, r.mirror)

    def fits(self, bounds, ppm):
        if bounds is None or not all(3 <= (b[1] - b[0]) * ppm <= 900 for b in bounds):
            raise Skip()

    def render(self, p, op):
        from gerber.render import RenderSettings, theme
        s = self.src[op[2] % len(self.src)]
        fault = op[5]
        k = MM[s.unit]
        first = not p.calls
        kw = {}
        bounds = s.bounds
        if op[4] is not None and bounds is not None:
            e = [v * (b[1] - b[0]) / 100.0 for v, b in zip(op[4], bounds * 2)]
            bounds = [[bounds[0][0] - e[0], bounds[0][1] + e[2]], [bounds[1][0] - e[1], bounds[1][1] + e[3]]]
            kw["bounds"] = tuple(tuple(v / k for v in b) for b in bounds)
        if first:
            self.fits(bounds, p.scale / k)
        if op[3] is not None:
            kw["settings"] = make(op[3])
        if fault == "boom":
            # the caller's own callback gives up in the middle of the layer
            n = [op[6]]

            def boom(prim):
                n[0] -= 1
                if n[0] < 0:
                    raise KeyError("boom")
            p.real.pre_render_primitive = boom
        name = "layer.png" if fault == "dump" else op[6] if fault in ("named", "told") else None
        w = world.World(self.ctx.scratch, {"faults": [{"op": "write" if fault == "dump" else "mktemp", "n": 1, "kind": "ENOSPC"}] if fault in ("dump", "mktemp") else []})
        err = None
        with w:
            try:
                if fault == "told":
                    with contextlib.redirect_stdout(io.StringIO()):
                        p.real.render_layer(s.layer, filename=name, verbose=True, **kw)
                else:
                    p.real.render_layer(s.layer, filename=name, **kw)
            except (KeyError, OSError) as e:
                err = e
        w.close()
        self.ctx.world_done(w)
        if fault == "boom":
            del p.real.pre_render_primitive
            if err is not None:
                self.ctx.fault("interrupted")
                p.real.clear()
                p.clear()
                return
        if err is not None and not w.fired:
            raise Violation("failed", "rendering failed without a fault: %s: %s" % (type(err).__name__, err))
        if err is None and w.fired:
            raise Violation("silent", "rendering went well although %s" % (w.fired[0],))
        if err is not None and fault == "mktemp":
            p.clear()
            return
        if first:
            p.clear()
            bg = theme.THEMES["default"].background
            p.model = pict.Picture(bounds, p.scale / k, bg.color, bg.alpha)
        st = self.settings(p, s) if op[3] is None else tuple([tuple(op[3]["color"])] + [op[3][n] for n in ("alpha", "invert", "mirror")])
        self.add(p, s, st)
        kw["settings"] = RenderSettings(*st)
        p.calls.append(([s], [s.version], lambda f: f.render_layer(s.layer, **kw)))
        if name and err is None:
            self.saved(name, p)

    def add(self, p, s, st):
        p.model.layers.append(pict.Layer(s.objects, *st))
        if s.objects:
            self.ctx.nontrivial = True

    def layers(self, p, op):
        ls = [self.src[k % len(self.src)] for k in op[2]]
        u = ls[0].unit
        k = MM[u]
        bs = [l.bounds for l in ls if l.bounds is not None]
        if not bs:
            raise Skip()
        b = [[min(v[a][0] for v in bs), max(v[a][1] for v in bs)] for a in (0, 1)]
        W, H = op[4], op[5]
        want = min(W * k / (b[0][1] - b[0][0] or 1e-9), H * k / (b[1][1] - b[1][0] or 1e-9))     # pixels per unit
        t = make_theme(op[3])
        self.fits(b, want / k / (1 if want < 1 else 2))
        fault = op[6]
        w = world.World(self.ctx.scratch, {"faults": [{"op": fault, "n": 1, "kind": "ENOSPC"}] if fault else []})
        err = None
        with w:
            try:
                p.real.render_layers([l.layer for l in ls], "layers.png", theme=t, max_width=W, max_height=H)
            except OSError as e:
                err = e
        w.close()
        self.ctx.world_done(w)
        p.clear()
        p.scale = p.real.scale[0]          # fitted to these layers, whether they could be drawn or not
        if err is not None and not w.fired:
            raise Violation("failed", "rendering failed without a fault: %s: %s" % (type(err).__name__, err))
        if err is None and w.fired:
            raise Violation("silent", "rendering went well although %s" % (w.fired[0],))
        if err is not None and fault == "mktemp":
            return
        scale = p.real.scale[0]
        if scale > want * (1 + 1e-9) or scale < want * (1 - 1e-9) - 1 or scale <= 0:
            raise Violation("scale", "layers of %.4g x %.4g units are drawn at %r pixels per unit; %d x %d pixels were asked for" % (
                (b[0][1] - b[0][0]) / k, (b[1][1] - b[1][0]) / k, scale, W, H))
        bg = make_theme(op[3]).background if isinstance(op[3], str) else make(op[3]["background"])
        p.model = pict.Picture(b, scale / k, bg.color, bg.alpha)
        for l in ls:
            self.add(p, l, self.settings(p, l, op[3]))
        p.internal = 0
        p.calls.append((ls, [l.version for l in ls], lambda f: f.render_layers([l.layer for l in ls], "fresh.png", theme=t, max_width=W, max_height=H)))
        if err is None:
            self.saved("layers.png", p)
            self.look(p, "render_layers")

    def cam(self, p, op):
        """The documents' own render method, on a context of its own."""
        from gerber.render.cairo_backend import GerberCairoContext
        s = self.src[op[2] % len(self.src)]
        if not s.objects:
            raise Skip()
        if s.kind == "netlist":
            return self.netlist(p, s, op)
        doc = s.layer.cam_source
        k = MM[s.unit]
        b = canon.box(doc.bounding_box, k)
        how = op[4] if len(op) > 4 else 0
        if how == 2:
            return self.bare(s, doc, b, k, bool(op[3]))
        self.fits(b, p.scale / k)
        c = GerberCairoContext(scale=p.scale)
        c.color, c.background_color, c.alpha = (1.0, 0.5, 0.0), (0.0, 0.0, 1.0), 0.75
        if how:
            w = world.World(self.ctx.scratch, {})
            with w:
                doc.render(c, invert=bool(op[3]), filename="cam.png")
            w.close()
            if world.get(os.path.join(self.ctx.scratch, "cam.png")) != c.dump_str():
                raise Violation("saved", "the picture saved by render() of the document is not the one drawn")
        else:
            doc.render(c, invert=bool(op[3]))
        m = pict.Picture(b, p.scale / k, (0.0, 0.0, 1.0), 1.0)
        m.layers.append(pict.Layer(s.objects, (1.0, 0.5, 0.0), 0.75, bool(op[3])))
        self.pixels(m, c.dump_str(), "render() of the document")

    def bare(self, s, doc, b, k, invert):
        """No context given: 300 pixels per unit, copper on black."""
        self.fits(b, 300.0 / k)
        self.ctx.stat("pictures without a context")
        w = world.World(self.ctx.scratch, {})
        with w:
            doc.render(invert=invert, filename="bare.png")
        w.close()
        m = pict.Picture(b, 300.0 / k, (0.0, 0.0, 0.0), 1.0)
        m.layers.append(pict.Layer(s.objects, (0.7215, 0.451, 0.200), 1.0, invert))
        self.pixels(m, world.get(os.path.join(self.ctx.scratch, "bare.png")), "render() without a context")

    def netlist(self, p, s, op):
        """The test points of one side, drawn into a layer of the caller's."""
        from gerber.render.cairo_backend import GerberCairoContext
        bs = [q.bounds for q in self.src if q.bounds is not None]
        if not bs:
            raise Skip()
        k = MM[s.unit]
        self.fits(bs[0], p.scale / k)
        side = ("both", "top", "bottom")[op[2] % 3]
        c = GerberCairoContext(scale=p.scale)
        c.units = s.layer.cam_source.units
        c.invert = bool(op[3])
        c.set_bounds(tuple(tuple(v / k for v in b) for b in bs[0]))
        c.paint_background()
        c.new_render_layer()
        s.layer.cam_source.render(c, layer=side)
        c.flatten((1.0, 0.5, 0.0), 0.75)
        m = pict.Picture(bs[0], p.scale / k, (0.0, 0.0, 0.0), 1.0)
        accs = [{0: "both", 1: "top", 8: "bottom"}.get(t["acc"]) for t in s.points]
        m.layers.append(pict.Layer([o for o, a in zip(s.objects, accs) if a is not None and (side == "both" or a in (side, "both"))], (1.0, 0.5, 0.0), 0.75, bool(op[3])))
        self.pixels(m, c.dump_str(), "render(%s) of a netlist" % side)

    # ------------------------------------------------------------------ looking
    def dump(self, p, name, fault):
        if p.model is None:
            return
        w = world.World(self.ctx.scratch, {"faults": [fault] if fault else []})
        err = None
        with w:
            try:
                p.real.dump(name)
            except OSError as e:
                err = e
        w.close()
        self.ctx.world_done(w)
        if err is not None and not w.fired:
            raise Violation("failed", "dump failed without a fault: %s" % err)
        if err is None and w.fired:
            raise Violation("silent", "dump went well although %s" % (w.fired[0],))
        if err is None:
            self.saved(name, p)
        self.look(p, "after dump to " + name)

    def saved(self, name, p):
        data = world.get(os.path.join(self.ctx.scratch, name))
        if name.lower().endswith(".svg"):
            f = self.fresh(p)
            if f is not None:
                f.dump("fresh.svg")
                if norm_svg(data) != norm_svg(world.get(os.path.join(self.ctx.scratch, "fresh.svg"))):
                    raise Violation("reuse", "the SVG differs from that of a fresh context for the same layers")
            self.svg_ok(p, data)
        elif data != p.real.dump_str():
            raise Violation("saved", "the saved picture %s is not the one in memory" % name)

    def svg(self, p):
        if p.model is None:
            return
        a = p.real.dump_svg_str()
        if isinstance(a, str):
            a = a.encode("utf-8")
        self.svg_ok(p, a)
        f = self.fresh(p)
        if f is not None:
            f.dump("fresh.svg")
            if norm_svg(a) != norm_svg(world.get(os.path.join(self.ctx.scratch, "fresh.svg"))):
                raise Violation("svg", "dump_svg_str differs from the SVG of a fresh context for the same layers")
        self.look(p, "after dump_svg_str")

    def svg_ok(self, p, data):
        import xml.dom.minidom
        try:
            r = xml.dom.minidom.parseString(data).documentElement
        except Exception as e:
            raise Violation("svg", "the SVG (%d bytes) is not well formed: %s" % (len(data or b""), e))
        box = [float(v) for v in r.getAttribute("viewBox").split()]
        if r.tagName != "svg" or len(box) != 4 or max(abs(a - b) for a, b in zip(box[2:], p.model.size())) > 1.001:
            raise Violation("svg", "the SVG is %r, the picture %r" % (box, p.model.size()))
        paints = svg_paints(r)
        if paints is None:
            return
        import cairocffi
        self.ctx.stat("SVG compared with the picture")
        im = cairocffi.ImageSurface.create_from_png(io.BytesIO(p.real.dump_str()))
        w, h, stride, buf = im.get_width(), im.get_height(), im.get_stride(), im.get_data()
        for k in range(60):
            x, y = (k * 7919 + 13) * 31 % w, (k * 104729 + 7) * 17 % h
            q = [0.0] * 4
            for rgb, a, mask in paints:
                if mask is not None:
                    if mask[0] != w or mask[1] != h:
                        return
                    a *= mask[3][y * mask[2] + 4 * x + 3] / 255.0
                q = [c * a * 255 + v * (1 - a) for c, v in zip(rgb, q)] + [a * 255 + q[3] * (1 - a)]
            o = y * stride + 4 * x
            have = [buf[o + 2], buf[o + 1], buf[o], buf[o + 3]]
            have = [v if isinstance(v, int) else ord(v) for v in have]
            if im.get_format() == cairocffi.FORMAT_RGB24:
                have[3] = 255
            if any(abs(a - b) > 3 + len(paints) for a, b in zip(q, have)):
                raise Violation("svg", "the SVG shows %r at (%d, %d), the picture %r" % ([round(v) for v in q], x, y, have))

    def fresh(self, p):
        from gerber.render.cairo_backend import GerberCairoContext
        if not p.calls or any(s.version != v for ss, vs, _ in p.calls for s, v in zip(ss, vs)):
            return None
        f = GerberCairoContext(scale=p.scale)
        for _, _, call in p.calls:
            call(f)
        return f

    def look(self, p, what):
        if p.model is None:
            return
        data = p.real.dump_str()
        if p.real.dump(None) != data:
            raise Violation("unstable", "%s: dump(None) and dump_str() differ" % what)
        f = self.fresh(p)
        if f is not None:
            if f.dump_str() != data:
                raise Violation("reuse", "%s: the picture differs from that of a fresh context for the same layers" % what)
        self.pixels(p.model, data, what)

    def pixels(self, m, data, what):
        import cairocffi
        im = cairocffi.ImageSurface.create_from_png(io.BytesIO(data))
        w, h = im.get_width(), im.get_height()
        if max(abs(a - b) for a, b in zip((w, h), m.size())) > 1.001:
            raise Violation("size", "%s: the picture has %d x %d pixels instead of %r" % (what, w, h, m.size()))
        buf, stride = im.get_data(), im.get_stride()
        opaque = im.get_format() == cairocffi.FORMAT_RGB24
        n = 0
        for i, j in m.samples(self.rng, 120, w, h):
            pt = m.point(i, j)
            want = m.color(pt)
            if want is None or not (2 <= i < w - 2 and 2 <= j < h - 2):
                continue
            n += 1
            at = j * stride + 4 * i
            px = [bytes(buf[at + 2:at + 3])[0], bytes(buf[at + 1:at + 2])[0], bytes(buf[at:at + 1])[0], 255 if opaque else bytes(buf[at + 3:at + 4])[0]]
            if max(abs(a - 255 * b) for a, b in zip(px, want)) > 3 + len(m.layers):
                raise Violation("pixel", "%s: pixel (%d, %d) of %d x %d, at %.4f, %.4f mm, is %r instead of %r" % (
                    what, i, j, w, h, pt[0], pt[1], px, [int(round(255 * v)) for v in want]))
        self.ctx.stat("pixels judged", n)
        self.ctx.log(w, h, n)


CHECK = C12()
