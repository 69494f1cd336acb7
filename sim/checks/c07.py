"""C07: a save that fails or crashes is reported, local, and can be retried."""
import os
import re

from .. import alloc, canon, gdoc, ghist, world, xdoc, xhist
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL

KINDS = ("EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EPERM")


def norm_svg(data):
    """Identifiers in SVGs come from a process-wide counter of libcairo."""
    seen = {}

    def f(m):
        return b"#" + seen.setdefault(m.group(0), b"%d" % len(seen))
    return re.sub(rb"(?:surface|source|mask|clip|image|pattern|filter|linear|radial|glyph|symbol|compositing-group|clip-path)-?\d+", f, data or b"")


class Doc(object):
    """A document and the way it is saved; everything derived from the scenario only."""

    def __init__(self, sc, ctx, name):
        self.kind = sc["kind"]
        self.dir = ctx.scratch
        h = self.h = xhist if self.kind in ("drill", "report") else ghist
        text = xdoc.text(sc["doc"]) if h is xhist else gdoc.text(sc["doc"])
        if h is xhist:
            xdoc.ref(sc["doc"])
        self.name = name
        self.doc = h.load(text, ctx.scratch, name=name)
        for o in sc["ops"]:
            self.edit(o)
        self.pic = None
        if self.kind in ("png", "svg"):
            from gerber.render import GerberCairoContext
            from gerber.layers import PCBLayer
            b = self.doc.bounds
            s = canon.scale_of(self.doc.units)
            if not self.doc.primitives or not all(2 < (hi - lo) * s < 60 for lo, hi in b):
                raise Invalid("picture size")
            c = self.pic = GerberCairoContext(scale=30)
            c.render_layer(PCBLayer.from_cam(self.doc), filename=("x.svg" if self.kind == "svg" else None))

    def edit(self, o):
        d = self.doc
        if o[0] == "inch":
            d.to_inch()
        elif o[0] == "metric":
            d.to_metric()
        elif o[0] == "offset":
            x, y, _, _ = ghist.mm_offset(d, o)
            d.offset(x, y)
        elif o[0] == "query":
            self.h.query(d, o[1], o[2])
        elif o[0] == "tool":
            xhist.edit_tool(d, o)

    def save(self, path):
        if self.kind == "report":
            self.doc.report(path)
        elif self.kind == "drill" and path == self.name:
            # where it was read from
            self.doc.write()
        elif self.pic is not None:
            self.pic.dump(path)
        else:
            self.doc.write(path)

    def observe(self):
        return self.h.observe(self.doc)

    def same(self, other, what):
        a, b = self.observe(), other.observe()
        self.h.compare_obs(a, b, 0, what)
        if self.doc.units != other.doc.units or str(self.doc.settings) != str(other.doc.settings):
            raise Violation("memory", "%s: the document's settings changed" % what)


class C07(Base):
    id = "C07"
    runs = {"quick": 9000, "thorough": 250000}
    rule = ("seeded documents (Gerber, drill, drill report, PNG and SVG pictures) with seeded edits, saved over an old file while one or two attempts meet a fault at a "
            "seeded storage operation (error, refused open, short write, full disk, crash with torn content); then the retry, or the restarted process, on working "
            "storage; non-trivial: a fault fired during a save")
    measure = "distinct (document kind, fault kind, operation hit, attempt) signatures"
    real = REAL + ["gerber.render.cairo_backend", "libcairo (PNG encoder, SVG writer)", "io buffering and text layers"]
    stub = ["raw file (simulated)", "libcairo's own file output is routed through the simulated file"]
    assumptions = ["a save refused at open, or refused because a number does not fit, leaves the old file; after a failed write the destination may hold any leading part",
                   "SVG identifiers (process-wide counter of libcairo) are normalised"]
    run_limit = 90

    def generate(self, rng, tier, i):
        kind = rng.choice(("gerber",) * 5 + ("drill",) * 4 + ("report", "png", "svg"))
        kw = {"small": 1} if rng.random() < 0.5 or kind in ("png", "svg") else {}
        if rng.random() < 0.6:
            kw["n"] = rng.randint(1, 8)
        edits = ["inch", "metric", "offset", "query"]
        if kind in ("drill", "report"):
            doc = xhist.gen_doc(rng, **kw)
            ops = xhist.gen_ops(rng, edits + ["tool"], 0, 3)
        else:
            doc = ghist.gen_doc(rng, **kw)
            ops = ghist.gen_ops(rng, edits, 0, 3)
        if rng.random() < 0.08:
            # far outside what the number format can hold
            ops.append(["offset", 3000000, 10, 1])
        attempts = []
        for _ in range(rng.choice((1, 1, 1, 2))):
            k = rng.random()
            a = {"at": rng.choice((0, 999, rng.randint(0, 999), rng.randint(0, 999), rng.randint(0, 999)))}
            if k < 0.2:
                a["fault"] = "full"
            elif k < 0.32:
                a["fault"] = "ENOMEM"
                a["line"] = alloc.gen_line(rng)
            elif k < 0.5:
                a["fault"] = "crash"
                a["keep"] = rng.choice(("all", "torn", "torn", "old", "empty"))
                a["cut"] = rng.randint(0, 999)
            else:
                a["fault"] = rng.choice(KINDS)
                a["sticky"] = int(rng.random() < 0.3)
                if rng.random() < 0.3:
                    a["op"] = rng.choice(("open", "close"))
            if kind == "report" and rng.random() < 0.2:
                # a tool of which the size is not known
                a = {"at": 0, "fault": "slip", "tool": rng.randint(0, 5)}
            attempts.append(a)
        return {"kind": kind, "doc": doc, "ops": ops, "attempts": attempts, "plan": world.gen_delivery(rng, True),
                "dest": rng.choice(("old", "old", "new", "self")), "between": rng.choice(([], [], [["inch"]], [["metric"], ["query", "bounds", 0]])), "old": rng.choice((0, 10, 100000))}

    def reads_same(self, sc, ctx, a, b):
        """The library got over the failure by itself, say by declaring what could not be determined."""
        if sc["kind"] != "drill" or not a or not b:
            return False
        hits = [xhist.observe(xhist.load(x.decode(), ctx.scratch, name="re.drl"))["hits"] for x in (a, b)]
        os.unlink(os.path.join(ctx.scratch, "re.drl"))
        return canon.diff(hits[0], hits[1], 1e-9) is None

    def execute(self, sc, ctx):
        kind = sc["kind"]
        ext = {"gerber": "gtl", "drill": "drl", "report": "txt", "png": "png", "svg": "svg"}[kind]
        src = "board.gtl" if kind in ("gerber", "png", "svg") else "board.drl"
        os.chdir(ctx.scratch)
        for n, data in (("other.gtl", b"G04 other*\nM02*\n"), ("notes.txt", b"notes"), ("out.bak", b"backup")):
            world.put(os.path.join(ctx.scratch, n), data)
        d = Doc(sc, ctx, src)
        twin = Doc(sc, ctx, src)
        dest = src if sc["dest"] == "self" and kind in ("gerber", "drill") else "out." + ext
        full = os.path.join(ctx.scratch, dest)
        if sc["dest"] == "old" and dest != src:
            world.put(full, b"old content\n" * sc["old"])
        source = world.get(os.path.join(ctx.scratch, src))
        norm = norm_svg if kind == "svg" else (lambda b: b)
        # what an undisturbed save gives, and how many storage operations it takes
        plan = dict(sc.get("plan") or {})
        old = world.get(full)
        ref, nops, byte_count, refused = self.clean_save(twin, dest, full, plan, ctx, old)
        for k, a in enumerate(sc["attempts"]):
            before = world.snapshot(ctx.scratch)
            p = dict(plan)
            at = 1 + a["at"] * nops // 1000
            if a["fault"] == "full":
                p["capacity"] = a["at"] * max(byte_count, 1) // 1000
            elif a["fault"] == "slip":
                self.slip(d, a["tool"], dest, full, "attempt %d" % (k + 1), ctx)
                continue
            elif a["fault"] != "ENOMEM":
                p["faults"] = [{"op": a.get("op", "any"), "n": 1 if a.get("op") else at, "kind": a["fault"], "sticky": a.get("sticky", 0)}]
            w = world.World(ctx.scratch, p)
            err = crashed = nomem = None
            with w:
                try:
                    if a["fault"] == "ENOMEM":
                        nomem = alloc.cut_short(lambda: d.save(dest), a["line"], ctx)
                        if nomem == "raised":
                            raise MemoryError()
                    else:
                        d.save(dest)
                except world.SimCrash:
                    crashed = True
                except Exception as e:
                    err = e
            w.close()
            after_op = w.log[:]
            ctx.world_done(w)
            fired = w.fired[0] if w.fired else ("ENOMEM", "line", "") if nomem else None
            where = "attempt %d (%s)" % (k + 1, "%s at %s" % fired[:2] if fired else "no fault")
            ctx.sig.append([kind, fired[:2] if fired else None, bool(refused), sc["dest"]])
            if fired:
                ctx.nontrivial = True
            if refused:
                if err is None and not crashed:
                    raise Violation("accepted", "%s: the same document was refused before (%s)" % (where, refused))
                if world.get(full) != before.get(dest):
                    raise Violation("destroyed", "%s: a document that cannot be written destroyed the old file" % where)
            elif err is None and not crashed:
                if nomem == "kept" and self.reads_same(sc, ctx, ref, world.get(full)):
                    pass
                elif norm(world.get(full)) != norm(ref):
                    raise Violation("silent", "%s: the save reported success but the file holds %d of %d bytes%s" % (
                        where, len(world.get(full) or b""), len(ref), "" if fired else " (no fault was injected)"))
            elif not fired:
                raise Violation("refused", "%s: the save failed without a fault: %s: %s" % (where, type(err).__name__, err))
            if err is not None and fired and fired[1] == "open" and self.is_dest(fired, dest):
                if world.get(full) != before.get(dest):
                    raise Violation("destroyed", "%s: the destination could not be opened, yet it changed" % where)
            if crashed:
                keep = a.get("keep", "all")

                def left(path, o, n):
                    if keep == "all":
                        return n
                    if keep == "old":
                        return o
                    if keep == "empty":
                        return b""
                    return n[:len(n) * a["cut"] // 1000]
                w.power_loss(left)
            now = world.snapshot(ctx.scratch)
            for n in sorted(set(before) | set(now)):
                if n != dest and before.get(n) != now.get(n) and not (crashed and n not in before):
                    raise Violation("collateral", "%s: file %s was changed" % (where, n))
            for n in set(now) - set(before) - {dest}:
                os.unlink(os.path.join(ctx.scratch, n))
            if crashed:
                # a new process: only the disk is left
                world.put(os.path.join(ctx.scratch, src), source)
                d = Doc(sc, ctx, src)
                twin = Doc(sc, ctx, src)
                if dest == src:
                    world.put(full, now.get(dest) or b"")
            elif d.pic is None:
                d.same(twin, where)
        if d.pic is None:
            for o in sc["between"]:
                d.edit(o)
                twin.edit(o)
        ref, _, _, refused = self.clean_save(twin, dest, full, plan, ctx, world.get(full))
        w = world.World(ctx.scratch, plan)
        with w:
            try:
                d.save(dest)
            except Exception as e:
                w.close()
                if refused:
                    return
                raise Violation("retry", "saving again on working storage failed: %s: %s" % (type(e).__name__, e))
        w.close()
        ctx.world_done(w)
        if refused:
            raise Violation("accepted", "the retry accepted a document that was refused before")
        got = world.get(full)
        if norm(got) != norm(ref):
            raise Violation("retry-bytes", "saving again gives other bytes than an undisturbed save (%d / %d bytes)" % (len(got or b""), len(ref)))
        if d.pic is None:
            d.same(twin, "after the retry")
        ctx.log("ok", len(got) if kind != "svg" else 0)

    def slip(self, d, n, dest, full, where, ctx):
        """A report that cannot be put together is refused before the file is touched."""
        tools = [t for _, t in sorted(d.doc.tools.items())]
        if not tools:
            return
        t = tools[n % len(tools)]
        size, t.diameter = t.diameter, None
        before = world.snapshot(ctx.scratch)
        ctx.fault("unusable tool")
        ctx.nontrivial = True
        try:
            d.save(dest)
        except Exception:
            if world.snapshot(ctx.scratch) != before:
                raise Violation("destroyed", "%s: a report that cannot be put together destroyed the old one" % where)
        else:
            if before.get(dest) is None:
                os.unlink(full)
            else:
                world.put(full, before[dest])
        t.diameter = size

    def is_dest(self, fired, dest):
        return fired[2] == dest

    def clean_save(self, twin, dest, full, plan, ctx, old):
        w = world.World(ctx.scratch, plan)
        err = None
        with w:
            try:
                twin.save(dest)
            except ValueError as e:
                err = str(e)
        w.close()
        ref = world.get(full)
        n = sum(v for k, v in w.ops.items())
        size = len(ref or b"")
        if err and (ref or None) != (old or None):
            raise Violation("destroyed", "a document that cannot be written destroyed the old file: %s" % err)
        if old is None:
            if os.path.exists(full):
                os.unlink(full)
        else:
            world.put(full, old)
        return ref, max(n, 1), size, err


CHECK = C07()
