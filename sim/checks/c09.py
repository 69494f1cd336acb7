"""C09: loading a board directory gives the same stack whatever the listing order."""
import os

from .. import canon, gdoc, ghist, idoc, world, xdoc, xhist
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL

# the naming conventions documented in gerber/layers.py: class -> (extensions, names)
TABLE = {
    "outline": ("gko outline", "BDR border outline Edge.Cuts"),
    "toppaste": ("gtp tm toppaste", "sp01 toppaste F.Paste pst"),
    "topsilk": ("gto sst plc ts skt topsilk", "sst01 topsilk silk F.SilkS"),
    "topmask": ("gts stc tmk smt tr topmask", "sm01 cmask tmask topmask F.Mask"),
    "top": ("gtl cmp top", "art01 top GTL layer1 F.Cu"),
    "internal": ("in g1 g2 g3 g4 g5 g6 gt1 gt2 gt3 gt4", "gp1 gp2 gp3 In1.Cu In2.Cu In3.Cu In4.Cu group3 group4 internal"),
    "bottom": ("gbl sld bot sol bottom", "art02 bottom bot GBL layer2 B.Cu"),
    "bottommask": ("gbs sts bmk smb br bottommask", "sm bmask botmask bottommask B.Mask"),
    "bottomsilk": ("gbo ssb pls bs skb bottomsilk", "bsilk ssb botsilk bottomsilk B.SilkS"),
    "bottompaste": ("gbp bm bottompaste", "sp02 botpaste bottompaste B.Paste"),
    "drawing": ("fab", "assembly fabrication"),
}
RANK = ["outline", "toppaste", "topsilk", "topmask", "top", "internal", "bottom", "bottommask", "bottomsilk", "bottompaste", "drill", "drawing"]
BASES = ["board", "main-pcb", "demo", "proj_a", "rev2", "b1", "My Board", "PCB", "x.y"]
LOCS = ["a", "board7/out", "2021/rev3", "gerber v2", "top.gtl", "in1/g2", "drill"]
JUNK = ("text", "binary", "empty", "utf16", "hidden", "os", "dir", "header", "torn", "unnamed", "netlist", "badnumber", "nul", "readme", "damaged", "damaged", "damaged")


def number(name):
    """The number of an internal layer, by its extension or the end of its name."""
    stem, ext = os.path.splitext(name)
    for part in (ext, os.path.splitext(stem)[1] if stem.lower().endswith(".cu") else "", stem):
        d = "".join(c for c in part if c.isdigit())
        if part is stem:
            tail = ""
            for c in reversed(stem if not stem.lower().endswith(".cu") else stem[:-3]):
                if c.isdigit():
                    tail = c + tail
                elif tail:
                    break
            d = tail
        if d:
            return int(d)
    return 0


def board_name(files):
    """The name all layers share (less a trailing word for their class), if it is plain what it is; None if the directory gives the name; 0 if not judged."""
    stems = set()
    for name, cls in files:
        stem = os.path.splitext(name)[0]
        head, word = os.path.splitext(stem)
        words = ["drill"] if cls == "drill" else " ".join(TABLE[cls]).split()
        if word[1:] in words:
            stem = head
        elif word.upper() == word != word.lower() or "drill" in word.lower():
            return 0
        stems.add(stem)
    return stems.pop() if len(stems) == 1 else None


def stack(pcb):
    """What a caller sees of the stack, per layer: class, file, contents."""
    out = []
    for l in pcb.layers:
        s = canon.scale_of(l.cam_source.units)
        name = type(l.cam_source).__name__
        if name == "ExcellonFile":
            content = [xhist.hit(h, s) for h in l.cam_source.hits]      # (damage may have left a tool without a size)
        elif name == "IPCNetlist":
            content = []
        else:
            content = canon.prims(l.cam_source)
            if len(l.primitives) != len(content):
                raise Violation("contents", "layer %s lists %d objects, its file %d" % (os.path.basename(l.filename), len(l.primitives), len(content)))
        out.append([l.layer_class, os.path.basename(l.filename), content])
    return out


class C09(Base):
    id = "C09"
    runs = {"quick": 3500, "thorough": 150000}
    rule = ("seeded board directories (layers named by extension, KiCad or plain convention, drills, duplicates, junk: text, binary, empty, torn, hidden and OS files, "
            "directories, netlists) loaded from seeded locations under seeded listing orders, first with faults on single files, storage operations or the listing, "
            "then undisturbed; every stack is compared with the files read on their own and with each other; non-trivial: at least two layers")
    measure = "distinct (layer classes, junk kinds, fault kinds) signatures"
    real = ["gerber.pcb", "gerber.layers", "gerber.common", "gerber.utils (listdir)", "gerber.rs274x", "gerber.excellon", "gerber.ipc356"]
    stub = ["directory listing order (simulated)", "raw file (simulated)"]
    assumptions = ["files of class 'unknown' and netlists are not part of the stack", "the number of an internal layer is the one in its extension or at the end of its name"]

    def generate(self, rng, tier, i):
        files = []
        used = set()

        def put(name, kind, extra):
            if name.lower() not in used:
                used.add(name.lower())
                files.append([name, kind] + extra)

        base = rng.choice(BASES)
        style = rng.choice(("ext", "ext", "name", "plain", "mixed", "dotted"))
        classes = [c for c in TABLE if rng.random() < 0.6]
        classes += [rng.choice(sorted(TABLE)) for _ in range(rng.choice((0, 0, 1, 2)))]
        classes += ["internal"] * rng.choice((0, 0, 1, 2, 3))
        for c in classes:
            exts, names = [x.split() for x in TABLE[c]]
            st = style if style != "mixed" else rng.choice(("ext", "name", "plain", "dotted"))
            if st == "ext":
                name = "%s.%s" % (base, rng.choice(exts))
            elif st == "dotted":
                name = "%s.%s.gbr" % (base.replace(" ", "_"), rng.choice([x for x in names if "." not in x]))
            elif st == "name":
                name = "%s-%s.gbr" % (base.replace(" ", "_"), rng.choice(names))
            else:
                name = "%s.%s" % (rng.choice(names), rng.choice(("gbr", "ger", "pho")))
            if rng.random() < 0.15:
                name = name.upper()
            put(name, "gerber", [c, ghist.gen_doc(rng, n=rng.randint(1, 4))])
        for _ in range(rng.choice((0, 1, 1, 2))):
            put(rng.choice(("%s.drl", "%s.txt", "%s-NPTH.drl", "%s-PTH.drl", "%s.xln", "%s.drill.txt")) % base, "drill", [xhist.gen_doc(rng, n=rng.randint(1, 4))])
        for _ in range(rng.choice((0, 1, 2, 4))):
            k = rng.choice(JUNK)
            if k == "hidden":
                put("." + base + ".gtl", k, [])
            elif k == "os":
                put(rng.choice(("Thumbs.db", ".DS_Store", "ethumbs.db")), k, [])
            elif k == "unnamed":
                put(rng.choice(("notes.gbr", "panel.ger", "zz.pho")), k, [])
            elif k == "netlist":
                put(base + ".ipc", k, [])
            elif k == "damaged":
                g = rng.choice(("gerber", "drill", "netlist"))
                doc = ghist.gen_doc(rng, n=rng.randint(1, 6)) if g == "gerber" else xhist.gen_doc(rng, n=rng.randint(1, 6)) if g == "drill" else idoc.gen(rng, n=4)
                hurt = [[rng.randint(0, 9999), rng.choice((rng.randint(32, 126), rng.randint(32, 126), rng.choice(list(b"XYDMGT*%,.-+0123456789\n")), rng.randint(0, 255)))] for _ in range(rng.choice((1, 1, 2, 5)))]
                put("%s_%d.%s" % (base, rng.randint(0, 9), rng.choice(("gbl", "gtl", "drl", "ipc", "g1", "xyz"))), k, [g, doc, hurt])
            elif k == "readme":
                put(rng.choice(("README", "readme.md", "board.zip", "picture.png")), k, [])
            else:
                ext = rng.choice([e for c in TABLE for e in TABLE[c][0].split()] + ["txt", "drl", "md"])
                put("%s_%s.%s" % (base, k, ext), k, [rng.randint(0, 999)])
        names = [f[0] for f in files]
        loads = []
        for _ in range(rng.choice((2, 2, 3))):
            loads.append({"order": rng.choice((None, rng.randint(1, 10 ** 6), rng.randint(1, 10 ** 6))), "loc": rng.randrange(2), "faults": [], "rel": int(rng.random() < 0.4)})
            if rng.random() < 0.1:
                loads[-1]["name"] = rng.choice(("Given", base, "a.b"))
        if rng.random() < 0.6:
            f = {"kind": rng.choice(("EIO", "EACCES", "EMFILE", "ENOENT", "ESTALE"))}
            k = rng.random()
            if k < 0.1:
                f.update(op="list", n=1)
            elif k < 0.6 and names:
                f.update(op=rng.choice(("open", "read", "read")), n=rng.choice((1, 1, 2, 3)), path=rng.choice(names), sticky=int(rng.random() < 0.3))
            else:
                f.update(op="any", n=rng.randint(1, 4 * len(files) + 2), sticky=int(rng.random() < 0.2))
            loads[0]["faults"] = [f]
        return {"files": files, "locs": rng.sample(LOCS, 2), "loads": loads, "plan": world.gen_delivery(rng)}

    def content(self, f):
        if f[1] == "gerber":
            gdoc.ref(f[3])
            return gdoc.text(f[3])
        if f[1] == "drill":
            xdoc.ref(f[2])
            return xdoc.text(f[2])
        if f[1] == "damaged":
            data = bytearray({"gerber": gdoc.text, "drill": xdoc.text, "netlist": idoc.text}[f[2]](f[3]).encode())
            for pos, c in f[4]:
                if data:
                    data[pos % len(data)] = c
            return world.calm(bytes(data))
        ok = "%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.01*%\nD10*\nX0Y0D02*\nX100Y100D01*\nM02*\n"
        k = f[1]
        n = f[2] if len(f) > 2 else 0
        return {"text": "Board made by us\nX100Y100\n", "binary": bytes(bytearray((i * 37 + n) % 256 for i in range(300))), "empty": "",
                "utf16": ok.encode("utf-16"), "hidden": ok, "os": b"\0\1\2\xff\xfe", "header": "%FSLAX24Y24*%\n%MOIN*%\ngarbage here\n*&^%$*\n",
                "torn": ok[:n % len(ok)], "unnamed": ok, "netlist": "P  JOB x\nP  UNITS CUST 1\n317GND             VIA         D  24PA00X  14900Y   1450\n999\n",
                "badnumber": "%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.0.1X*%\nD10*\nX12-3Y0D01*\nM02*\n", "nul": ok.replace("\n", "\0\n"),
                "readme": b"\x89PNG\r\n\x1a\n\xff\xff"}[k]

    def execute(self, sc, ctx):
        import gerber
        from gerber.pcb import PCB
        want = {}
        sure = set()
        os.chdir(ctx.scratch)
        for f in sc["files"]:
            data = None if f[1] == "dir" else self.content(f)
            for loc in sc["locs"]:
                p = os.path.join(ctx.scratch, loc, "brd", f[0])
                if data is None:
                    os.makedirs(p)
                else:
                    world.put(p, data)
            if f[1] == "gerber":
                want[f[0]] = [f[2], canon.prims(gerber.loads(data.replace("\r\n", "\n").replace("\r", "\n")))]
            elif f[1] == "drill":
                want[f[0]] = ["drill", xhist.observe(gerber.loads(data.replace("\r\n", "\n").replace("\r", "\n")))["hits"]]
            elif f[1] in ("hidden", "os"):
                sure.add(f[0])
        if not sc["files"]:
            raise Invalid("no files")
        ctx.sig += [sorted(w[0] for w in want.values()), sorted(set(f[1] for f in sc["files"]) - {"gerber", "drill"}),
                    [(x["op"], x["kind"]) for l in sc["loads"] for x in l["faults"]]]
        ctx.nontrivial = len(want) > 1
        junk = {f[0] for f in sc["files"]} - set(want)
        first = None
        for n, l in enumerate(sc["loads"]):
            what = "load %d" % n
            w = world.World(ctx.scratch, dict(sc.get("plan") or {}, faults=l["faults"], order=l["order"]))
            d = os.path.join(ctx.scratch, sc["locs"][l["loc"] % len(sc["locs"])], "brd")
            if l["rel"]:
                os.chdir(os.path.dirname(d))
                d = "brd"
            pcb = None
            with w:
                try:
                    pcb = PCB.from_directory(d, l["name"]) if l.get("name") else PCB.from_directory(d)
                except Exception as e:
                    ctx.log("error", type(e).__name__)
                    if not w.fired:
                        raise Violation("refused:" + type(e).__name__, "%s: the directory was refused: %s: %s" % (what, type(e).__name__, str(e)[:200]))
                    if not isinstance(e, OSError):
                        raise Violation("fault-error:" + type(e).__name__, "%s: a storage fault surfaced as %s: %s" % (what, type(e).__name__, str(e)[:200]))
            w.close()
            ctx.world_done(w)
            os.chdir(ctx.scratch)
            if pcb is None:
                continue
            hurt = {x[2] for x in w.fired}
            if any(x[1] == "list" for x in w.fired):
                raise Violation("listing", "%s: the listing failed but the board was loaded" % what)
            got = stack(pcb)
            self.verify(got, want, junk, sure, hurt, what)
            self.views(pcb, what)
            if n == len(sc["loads"]) - 1:
                self.again(pcb, d, sc, what)
            ctx.log([g[:2] for g in got], pcb.name)
            self.named(pcb.name, l.get("name"), sc["files"], hurt, what)
            if not hurt:
                if first is None:
                    first = (got, pcb.name, what, l.get("name"))
                else:
                    if [g[:2] for g in got] != [g[:2] for g in first[0]]:
                        raise Violation("order", "the stack depends on listing order or location: %r in %s, %r in %s" % (
                            [g[:2] for g in first[0]], first[2], [g[:2] for g in got], what))
                    if pcb.name != first[1] and not l.get("name") and not first[3]:
                        raise Violation("name", "the board's name depends on listing order or location: %r, %r" % (first[1], pcb.name))

    def named(self, name, given, files, hurt, what):
        """The board has the name it was given, that of its layers, or that of the directory."""
        if given:
            if name != given:
                raise Violation("board-name", "%s: the board is called %r, not %r" % (what, name, given))
        elif not hurt and all(f[1] in ("gerber", "drill") for f in files):
            w = board_name([[f[0], f[2] if f[1] == "gerber" else "drill"] for f in files])
            if w != 0 and name != (w or "brd"):
                raise Violation("board-name", "%s: the board is called %r, not %r" % (what, name, w or "brd"))

    def verify(self, got, want, junk, sure, hurt, what):
        seen = {}
        for c, name, content in got:
            seen[name] = seen.get(name, 0) + 1
            if seen[name] > 1:
                raise Violation("twice", "%s: %s is in the stack twice" % (what, name))
            if name in want:
                if c != want[name][0]:
                    raise Violation("class", "%s: %s has class %s instead of %s" % (what, name, c, want[name][0]))
                d = canon.diff(content, want[name][1], 1e-9)
                if d:
                    raise Violation("contents", "%s: %s differs from the file read on its own: %s" % (what, name, d))
            elif name not in junk or name in sure:
                raise Violation("invented", "%s: %s is in the stack" % (what, name))
        for name in want:
            if name not in seen and name not in hurt:
                raise Violation("missing", "%s: %s is not in the stack" % (what, name))
        ranks = []
        for c, name, _ in got:
            ranks.append([RANK.index(c) if c in RANK else 99, number(name) if c == "internal" else 0])
        if ranks != sorted(ranks):
            raise Violation("stacking", "%s: layers are not in physical order: %r" % (what, [g[:2] for g in got]))

    def again(self, pcb, d, sc, what):
        """The same layers put together by hand, in another order."""
        from gerber.layers import load_layer, load_layer_data, sort_layers
        from gerber.pcb import PCB
        d = os.path.join(os.getcwd(), sc["locs"][sc["loads"][-1]["loc"] % len(sc["locs"])], "brd")
        ls = []
        for k, l in enumerate(pcb.layers):
            p = os.path.join(d, os.path.basename(l.filename))
            one = load_layer(p) if k % 2 else load_layer_data(world.get(p).decode("utf-8").replace("\r\n", "\n").replace("\r", "\n"), p)
            if one.layer_class != l.layer_class or len(one.primitives) != len(l.primitives):
                raise Violation("one-layer", "%s: %s loaded on its own has class %s, %d objects; in the stack %s, %d" % (
                    what, os.path.basename(p), one.layer_class, len(one.primitives), l.layer_class, len(l.primitives)))
            ls.insert(k * 7 % (len(ls) + 1), one)
        key = lambda l: [RANK.index(l.layer_class), number(os.path.basename(l.filename)) if l.layer_class == "internal" else 0]
        hand = PCB(ls, "hand")
        if [key(l) for l in hand.layers] != [key(l) for l in pcb.layers]:
            raise Violation("by-hand", "%s: the same layers given in another order are stacked differently" % what)
        up = [key(l) for l in sort_layers(ls, from_top=False)]
        board = [k for k in [key(l) for l in pcb.layers] if RANK[k[0]] not in ("drill", "drawing")]
        if up != board[::-1] + [k for k in [key(l) for l in pcb.layers] if RANK[k[0]] in ("drill", "drawing")]:
            raise Violation("from-bottom", "%s: the stack from the bottom is not the reverse of that from the top: %r" % (what, up))

    def views(self, pcb, what):
        """The selections of the stack agree with the stack."""
        cl = [l.layer_class for l in pcb.layers]
        ids = [id(l) for l in pcb.layers]

        def sub(layers, *classes):
            return [id(l) for l in layers if l.layer_class in classes]
        if [id(l) for l in pcb.drill_layers] != sub(pcb.layers, "drill"):
            raise Violation("views", "%s: drill_layers" % what)
        if [id(l) for l in pcb.copper_layers] != list(reversed(sub(pcb.layers, "top", "bottom", "internal"))):
            raise Violation("views", "%s: copper_layers" % what)
        if pcb.layer_count != len(sub(pcb.layers, "top", "bottom", "internal")) or len(pcb) != len(ids):
            raise Violation("views", "%s: layer counts" % what)
        for side, name, cs in (("top", "top_layers", ("top", "topmask", "topsilk")), ("bottom", "bottom_layers", ("bottom", "bottommask", "bottomsilk"))):
            ls = getattr(pcb, name)
            drills = sub(pcb.layers, "drill")
            got = [id(l) for l in ls]
            if sorted(got) != sorted(sub(pcb.layers, *cs) + drills):
                raise Violation("views", "%s: %s does not hold exactly the layers of that side and the drills" % (what, name))
            order = [l.layer_class for l in ls if l.layer_class != "drill"]
            if order != sorted(order, key=cs.index):
                raise Violation("views", "%s: %s is not ordered from the copper outwards: %r" % (what, name, order))
            k = [l.layer_class for l in ls]
            if cl.count(side) == 1 and drills and k[:1 + len(drills)] != [side] + ["drill"] * len(drills):
                raise Violation("views", "%s: drills do not follow the copper in %s: %r" % (what, name, k))
        o = pcb.outline_layer
        if (o is None) != ("outline" not in cl) or o is not None and id(o) != sub(pcb.layers, "outline")[0]:
            raise Violation("views", "%s: outline_layer" % what)
        b = pcb.board_bounds
        src = ([l for l in pcb.layers if l.layer_class == "outline"] or [l for l in pcb.layers if l.layer_class == "top"] or [None])[0]
        if src is None and b is not None or src is not None and b != src.cam_source.bounds:
            raise Violation("views", "%s: board_bounds" % what)


CHECK = C09()
