"""C18: the rendering command line produces what was asked for, or fails visibly."""
import contextlib
import io
import os
import runpy
import struct
import sys

from .. import gdoc, ghist, world, xdoc, xhist
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL
from .c09 import RANK, TABLE, number
from .c12 import THEME_NAMES

CLASSES = ("top", "topmask", "topsilk", "bottom", "bottommask", "bottomsilk", "outline", "internal", "toppaste", "bottompaste", "drawing")
SIDES = {"top": ("top", "topmask", "topsilk"), "bottom": ("bottom", "bottommask", "bottomsilk")}
KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS")
BROKEN = {"missing": None, "empty": b"", "prose": b"Board made by us\nX100Y100\n", "binary": bytes(bytearray((i * 37 + 11) % 256 for i in range(300))),
          "undefined": b"%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.01*%\nD33*\nX0Y0D02*\nX100Y100D01*\nM02*\n"}
OUTS = (None, None, "", "out", "picture", "a.b", "sub/pic", "out.png", "nowhere/pic", "Board 1")


class C18(Base):
    id = "C18"
    runs = {"quick": 1500, "thorough": 60000}
    rule = ("seeded boards (a directory of layers, or files named on the command line in a seeded order) drawn by seeded sequences of command lines (output name, theme, size, "
            "spelling of the options) started in one process, with missing, unreadable and damaged inputs, refused or failing output, full disks and crashes; status, files "
            "touched and every picture are compared with the layers drawn through the library; non-trivial: a picture with at least two layers")
    measure = "distinct (mode, layer classes, options, broken inputs, faults) signatures"
    real = REAL + ["gerber.__main__", "gerber.pcb", "gerber.layers", "gerber.render.cairo_backend", "gerber.render.theme", "argparse", "libcairo"]
    stub = ["raw file and listing (simulated)", "libcairo's own file output is routed through the simulated file", "process exit (SystemExit and uncaught exceptions observed)"]
    assumptions = ["files of a directory which cannot be read are left out, as PCB.from_directory documents; files named on the command line must be readable",
                   "a board without any layer for one of its pictures may be refused"]
    run_limit = 90

    # ------------------------------------------------------------------ scenarios
    def generate(self, rng, tier, i):
        unit = rng.choice(("IN", "MM"))
        mixed = rng.random() < 0.2
        span = rng.choice((6, 12, 20))
        base = rng.choice(("board", "demo_a", "My Board"))
        style = rng.choice(("ext", "ext", "name"))
        files = []
        used = set()
        cl = [c for c in CLASSES if rng.random() < 0.55] + ["internal"] * rng.choice((0, 0, 1, 2, 3)) + ["drill"] * rng.choice((0, 1, 1, 2))
        for c in cl or ["top", "drill"]:
            u = rng.choice(("IN", "MM")) if mixed else unit
            if c == "drill":
                name = base + rng.choice((".drl", "-NPTH.drl", ".txt"))
                for _ in range(40):
                    d = xhist.gen_doc(rng, small=1, n=rng.randint(1, 5))
                    if d["unit"] == u:
                        break
            else:
                exts, names = [x.split() for x in TABLE[c]]
                name = "%s.%s" % (base, rng.choice(exts)) if style == "ext" else "%s-%s.gbr" % (base.replace(" ", "_"), rng.choice(names))
                d = ghist.gen_doc(rng, unit=u, span=span, n=rng.choice((1, 2, 4, 6)))
            if name.lower() not in used:
                used.add(name.lower())
                files.append([name, c, d])
        rng.shuffle(files)
        runs = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            r = {"dir": int(rng.random() < 0.45), "pick": [rng.randrange(len(files)) for _ in range(rng.choice((1, 2, 2, 3, 5)))],
                 "out": rng.choice(OUTS), "theme": rng.choice((None,) + THEME_NAMES), "w": rng.choice((None, 40, 90, 150, 220)), "h": rng.choice((None, 40, 90, 150, 220)),
                 "style": rng.randint(0, 5), "verbose": int(rng.random() < 0.15), "entry": rng.randrange(2), "rel": rng.randrange(3), "broken": [], "fault": None, "order": rng.choice((None, rng.randint(1, 9999)))}
            if r["w"] is None and r["h"] is None and rng.random() < 0.9:
                r["w"] = 120
            if rng.random() < 0.3:
                r["broken"] = [[rng.choice(sorted(BROKEN)), rng.randrange(6)]]
            if rng.random() < 0.35:
                f = {"kind": rng.choice(KINDS + ("crash",))}
                k = rng.random()
                if k < 0.35:
                    f.update(op="any", n=rng.randint(1, 30), sticky=int(rng.random() < 0.2))
                elif k < 0.6:
                    f.update(op=rng.choice(("open", "read", "list")), n=rng.choice((1, 1, 2, 3, 4)))
                else:
                    f.update(op=rng.choice(("open", "write", "write", "close")), n=rng.choice((1, 1, 2)), out=rng.randrange(3))
                r["fault"] = f
            runs.append(r)
        return {"files": files, "runs": runs, "junk": rng.choice(([], [], ["README.md"], [".hidden.gtl", "Thumbs.db"]))}

    # ------------------------------------------------------------------ expectations
    def pictures(self, sc, r, hurt):
        """name of the picture -> (layers in drawing order (file names), theme); the stacking rules are those of the documentation."""
        out = r["out"] or "out"
        theme = r["theme"] or "default"
        if not r["dir"]:
            return {out + ".png": ([sc["files"][k % len(sc["files"])][0] for k in r["pick"]], theme)}
        have = sorted([f for f in sc["files"] if f[0] not in hurt], key=lambda f: f[0])

        def of(*cs):
            return [f[0] for c in cs for f in have if f[1] == c]
        drills = of("drill")
        inner = [n for n in sorted(of("internal"), key=number)]
        edge = of("outline")[:1]
        res = {}
        for side in ("top", "bottom"):
            copper = of(side)
            res["%s.%s.png" % (out, side)] = (edge + copper + drills + of(*SIDES[side][1:]), theme)
        res[out + ".copper.png"] = (edge + of("bottom") + inner[::-1] + of("top") + drills, "Transparent Multilayer")
        return res

    def argv(self, sc, r, d):
        a = []
        s = r["style"]
        if r["out"]:
            a.append(["--outfile", r["out"]] if s % 2 else ["-o", r["out"]])
        if r["theme"]:
            a.append(["--theme=" + r["theme"]] if s % 3 else ["-t", r["theme"]])
        if r["w"]:
            a.append(["--width", str(r["w"])])
        if r["h"]:
            a.append(["--height=%d" % r["h"]])
        if s == 4:
            a.append(["-b", "cairo"])
        if r["verbose"]:
            a.append(["-v"])
        if s % 2:
            a.reverse()
        names = [d] if r["dir"] else [os.path.join(d, sc["files"][k % len(sc["files"])][0]) for k in r["pick"]]
        opts = [x for o in a for x in o]
        if r["out"] == "":
            return ["gerber-render"] + names + opts + ["-o"]      # the name is optional: as if it was not given
        return ["gerber-render"] + (names + opts if s < 3 else opts + ["--"] + names if s == 5 else opts + names)

    # ------------------------------------------------------------------ running
    def execute(self, sc, ctx):
        if not sc["files"] or not sc["runs"]:
            raise Invalid("nothing to draw")
        texts = {}
        for f in sc["files"]:
            m = xdoc if f[1] == "drill" else gdoc
            m.ref(f[2])
            texts[f[0]] = m.text(f[2])
        for n, r in enumerate(sc["runs"]):
            self.one(sc, r, texts, ctx, "run %d" % n)
            ctx.sig.append([r["dir"], r["out"], r["theme"], [b[0] for b in r["broken"]], (r["fault"] or {}).get("kind"), (r["fault"] or {}).get("op")])
        ctx.sig.append(sorted(f[1] for f in sc["files"]))

    def one(self, sc, r, texts, ctx, what):
        root = ctx.scratch
        os.chdir(root)
        board = os.path.join(root, "in", "brd")
        for n, t in texts.items():
            world.put(os.path.join(board, n), t)
        for n in sc["junk"]:
            world.put(os.path.join(board, n), b"\x89PNG junk")
        work = os.path.join(root, "work")
        if not os.path.isdir(os.path.join(work, "sub")):
            os.makedirs(os.path.join(work, "sub"))
        world.put(os.path.join(work, "other.png"), b"other")
        world.put(os.path.join(work, "out.svg"), b"svg")
        os.chdir(work)
        d = {0: board, 1: os.path.join("..", "in", "brd"), 2: os.path.join("..", "in", "brd") + os.sep}[r["rel"]]
        # inputs which are not readable
        broken = {}
        for kind, k in r["broken"]:
            name = sc["files"][k % len(sc["files"])][0]
            broken[name] = kind
            if BROKEN[kind] is None:
                os.unlink(os.path.join(board, name)) if os.path.exists(os.path.join(board, name)) else None
            else:
                world.put(os.path.join(board, name), BROKEN[kind])
        used = {f for ls, _ in self.pictures(sc, r, ()).values() for f in ls}
        fatal = {n: k for n, k in broken.items() if n in used} if not r["dir"] else {}
        faults = []
        if r["fault"]:
            f = dict(r["fault"])
            if "out" in f:
                names = sorted(self.pictures(sc, r, ()))
                f["path"] = os.path.basename(names[f.pop("out") % len(names)])
            faults = [f]
        before = world.snapshot(root)
        w = world.World(root, {"faults": faults, "order": r["order"]})
        argv = self.argv(sc, r, d)
        status, err = self.start(w, argv, r["entry"])
        w.close()
        ctx.world_done(w)
        os.chdir(work)
        after = world.snapshot(root)
        want = self.pictures(sc, r, ())
        names = {os.path.normpath(os.path.join("work", n)) for n in want}
        ctx.log(what, status, type(err).__name__ if err else None, sorted(set(n for n in after if after[n] != before.get(n))))
        for n in sorted(set(before) | set(after)):
            if before.get(n) != after.get(n) and n not in names:
                raise Violation("collateral", "%s: %s was %s" % (what, n, "changed" if n in before and n in after else "removed" if n in before else "created"))
        if status == "crash":
            return
        if fatal and status == 0:
            raise Violation("silent", "%s: success although %s is %s" % (what, sorted(fatal)[0], fatal[sorted(fatal)[0]]))
        outs = {os.path.basename(n) for n in want}
        if status == 0 and any(x[2] in outs or x[1] in ("mktemp", "list") for x in w.fired):
            raise Violation("silent", "%s: success although %s of %s failed (%s)" % (what, w.fired[0][1], w.fired[0][2], w.fired[0][0]))
        # an input struck by a fault was either left out of the board, or read all the same (the fault hit an attempt that did not matter)
        struck = sorted({x[2] for x in w.fired} & set(texts)) if r["dir"] and status == 0 else []
        views = [set(struck), set()] + [{n} for n in struck if len(struck) > 1]
        bad = None
        for v in views[:1 if not struck else 6]:
            try:
                self.judge(sc, r, v | set(broken), work, board, status, bool(w.fired or fatal), err, argv, what, ctx)
                break
            except Violation as e:
                bad = bad or e
        else:
            raise bad
        ctx.stat("status 0" if status == 0 else "status not 0")

    def judge(self, sc, r, hurt, work, board, status, excused, err, argv, what, ctx):
        """Everything a finished program left behind, given the inputs it could not read."""
        root = ctx.scratch
        want = self.pictures(sc, r, hurt if r["dir"] else ())
        expect = {}
        refused = None
        for n in sorted(want):
            try:
                expect[n] = self.draw(board, want[n], r, root)
            except Exception as e:
                refused = refused or (n, e)
        if "nowhere/" in (r["out"] or ""):
            refused = refused or (sorted(want)[0], "there is no such directory")
        if status == 0:
            for n in sorted(want):
                got = world.get(os.path.join(work, n))
                if n not in expect:
                    if want[n][0]:
                        raise Violation("silent", "%s: success although %s cannot be drawn: %s" % (what, n, refused[1]))
                    continue
                if got is None:
                    raise Violation("missing", "%s: success, but there is no %s" % (what, n))
                size = struct.unpack(">II", got[16:24]) if got[:4] == b"\x89PNG" else None
                if size is None:
                    raise Violation("format", "%s: %s is not a PNG" % (what, n))
                if size[0] > (r["w"] or 1920) + 1 or size[1] > (r["h"] or 1080) + 1:
                    raise Violation("size", "%s: %s has %dx%d pixels, at most %dx%d were asked for" % ((what, n) + size + (r["w"] or 1920, r["h"] or 1080)))
                if got != expect[n]:
                    raise Violation("picture", "%s: %s is not the picture of %s in theme %s" % (what, n, want[n][0], want[n][1]))
            if any(len(v[0]) > 1 for v in want.values()):
                ctx.nontrivial = True
        elif not excused and refused is None:
            raise Violation("failed", "%s: %s failed (status %s): %s: %s" % (what, " ".join(argv), status, type(err).__name__, err))

    def start(self, w, argv, entry):
        """The program, in this process: status as the shell would see it."""
        keep = sys.argv
        sys.argv = list(argv)
        import gerber.__main__ as program
        try:
            with w, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                if entry:
                    sys.argv[0] = program.__file__
                    runpy.run_module("gerber", run_name="__main__")
                    return 0, None
                sys.exit(program.main())         # what the installed script does
        except world.SimCrash:
            return "crash", None
        except SystemExit as e:
            return (0 if e.code is None else e.code if isinstance(e.code, int) else 1), None
        except Exception as e:
            return 1, e
        finally:
            sys.argv = keep

    def draw(self, board, want, r, root):
        """The picture the library makes of these layers."""
        from gerber.layers import load_layer
        from gerber.render.cairo_backend import GerberCairoContext
        from gerber.render.theme import THEMES
        layers = [load_layer(os.path.join(board, n)) for n in want[0]]
        tmp = os.path.join(root, "reference.png")
        c = GerberCairoContext()
        try:
            c.render_layers(layers, tmp, theme=THEMES[want[1]], max_width=r["w"] or 1920, max_height=r["h"] or 1080)
            return world.get(tmp)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)


CHECK = C18()
