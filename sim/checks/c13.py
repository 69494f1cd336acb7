"""C13: a file that includes others reads as if their text stood in its place."""
import os

from .. import canon, gdoc, ggen, ghist, world
from ..core import Violation, Invalid
from .base import Base
from .c05 import REAL

LIMIT = 10
NAMES = ("a.gbr", "b.inc", "part 1.txt", "c", "d-e.gbr", "x_y.gbr")
DIRS = ("", "", "", "inc", "inc/deep", "lib", "..")


def blocks_of(doc):
    return gdoc.blocks(doc)


class C13(Base):
    id = "C13"
    runs = {"quick": 9000, "thorough": 250000}
    rule = ("seeded Gerber documents cut into trees of files included from each other (nested, repeated, in other directories, with decoys of the same name in the "
            "current and in the top directory), read from seeded current directories by absolute or relative path; missing, unreadable, failing and self-including files, each "
            "followed by the repaired read; the image and the saved bytes must equal those of the flattened text; non-trivial: at least one include")
    measure = "distinct (include tree shape, current directory, path form, fault) signatures"
    real = REAL + ["io buffering and text layers"]
    stub = ["raw file (simulated)"]
    assumptions = ["nesting up to the library's limit of 10; deeper nesting must be an error"]

    def generate(self, rng, tier, i):
        kw = {"n": rng.randint(1, 12)} if rng.random() < 0.6 else {}
        doc = ghist.gen_doc(rng, **kw)
        doc["style"]["join"] = ""
        bl = blocks_of(doc)
        head = next(k for k, b in enumerate(bl) if b.startswith("%FS"))
        main = [["b", b] for b in bl]
        files = {}
        end = len(main) - (0 if doc.get("noeof") else 1)
        cur, cur_dir, lo, hi = main, "top", head + 1, end
        # the top file declares the format, so that its type can be told; everything else may move
        depth = 0
        todo = [(main, "top", head + 1, end)]
        for _ in range(rng.choice((1, 1, 2, 3, 4, 6))):
            cur, cur_dir, lo, hi = rng.choice(todo)
            if hi - lo < 1:
                continue
            a = rng.randint(lo, hi - 1)
            b = rng.randint(a, min(hi, a + rng.choice((1, 3, 8, 30))))
            d = rng.choice(DIRS)
            sub = os.path.normpath(os.path.join(cur_dir, d))
            if sub.startswith("..") or sub == ".":
                sub, d = cur_dir, ""
            name = rng.choice(NAMES)
            full = os.path.join(sub, name)
            if full in files or (sub, name) == ("top", "main.gbr"):
                continue
            files[full] = [list(x) if x[0] == "b" else ["if", os.path.relpath(os.path.join(cur_dir, x[1]), sub)] for x in cur[a:b]]
            cur[a:b] = [["if", os.path.join(d, name)]]
            # positions of the other candidates in the same file have moved
            todo = [t if t[0] is not cur else (cur, cur_dir, lo, hi - (b - a) + 1) for t in todo]
            todo.append((files[full], sub, 0, len(files[full])))
        # the same file included again
        if files and rng.random() < 0.35:
            for f in sorted(files):
                where = rng.choice(todo)
                k = rng.randint(where[2], len(where[0]) if where[0] is not main else end)
                rel = os.path.relpath(f, where[1])
                where[0].insert(min(k, len(where[0])), ["if", rel])
                if rng.random() < 0.6:
                    break
        leaves = [f for f in sorted(files) if not any(x[0] == "if" for x in files[f])]
        if leaves and rng.random() < 0.12:
            # one included as often as a step and repeat would
            leaf = rng.choice(leaves)
            at = [(w, k) for w in [main] + [files[f] for f in sorted(files)] for k, x in enumerate(w)
                  if x[0] == "if" and os.path.basename(x[1]) == os.path.basename(leaf)]
            if at:
                w, k = rng.choice(at)
                w[k:k] = [list(w[k]) for _ in range(rng.choice((3, 9, 10, 11, 25)))]
        if rng.random() < 0.06:
            # a chain as deep as allowed, or one too deep
            n = rng.choice((LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2))
            k = rng.randint(head + 1, min(head + 4, len(main)))
            chain = ["top/ch%d" % j for j in range(n)]
            for j, f in enumerate(chain):
                files[f] = [["if", "ch%d" % (j + 1)]] if j + 1 < n else [["b", "G04 bottom*"]]
            main.insert(k, ["if", "ch0"])
        if files and rng.random() < 0.06:
            f = rng.choice(sorted(files))
            files[f].insert(rng.randint(0, len(files[f])), ["if", rng.choice((os.path.basename(f), os.path.relpath("top/main.gbr", os.path.dirname(f))))])
        sc = {"main": main, "files": files, "unit": doc["unit"], "fmt": doc["fmt"], "cwd": rng.choice(("top", ".", "elsewhere", "top/inc")), "path": rng.choice(("abs", "rel")),
              "entry": rng.choice(("read", "rs274x.read", "loads")), "plan": world.gen_delivery(rng), "decoys": int(rng.random() < 0.5),
              "last": rng.choice((1, 1, 0)), "eol": rng.choice(("\n", "\n", "\r\n")), "faults": [], "join": rng.choice((None, None, ""))}
        k = rng.random()
        if files and k < 0.3:
            f = rng.choice(sorted(files))
            sc["faults"] = [{"op": rng.choice(("open", "open", "read")), "n": rng.choice((1, 1, 1, 2)), "kind": rng.choice(("EACCES", "ENOENT", "EMFILE", "EIO")),
                             "path": os.path.basename(f)}]
        elif files and k < 0.42:
            sc["missing"] = rng.choice(sorted(files))
        return sc

    # ---- flattened text, computed here
    def flatten(self, sc):
        files = dict(sc["files"])
        files["top/main.gbr"] = sc["main"]
        out, opened = [], []

        def go(f, depth):
            if f not in files:
                raise KeyError(f)
            opened.append(f)
            if len(opened) > 3000:
                raise RecursionError()
            for x in files[f]:
                if x[0] == "b":
                    out.append(x[1])
                else:
                    if depth >= LIMIT:
                        raise RecursionError()
                    go(os.path.normpath(os.path.join(os.path.dirname(f), x[1])), depth + 1)
        go("top/main.gbr", 0)
        return out, opened

    def body(self, items, sc, last, joined=False):
        e = sc["eol"]
        return (sc["join"] if joined and sc.get("join") is not None else e).join([(x[1] if x[0] == "b" else "%%IF%s*%%" % x[1]).replace("\n", e) for x in items]) + (e if last else "")

    def execute(self, sc, ctx):
        import gerber
        import gerber.rs274x
        root = ctx.scratch
        if not any(x[0] == "b" and x[1].startswith("%FS") for x in sc["main"]):
            raise Invalid("no format")
        for d in ("top", "top/inc", "elsewhere"):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f, items in sc["files"].items():
            world.put(os.path.join(root, f), self.body(items, sc, sc["last"], True))
        world.put(os.path.join(root, "top/main.gbr"), self.body(sc["main"], sc, 1))
        if sc["decoys"]:
            for n in set(os.path.basename(f) for f in sc["files"]):
                for d in ("elsewhere", ".", "top", "top/inc"):
                    p = os.path.normpath(os.path.join(root, d, n))
                    if not os.path.exists(p) and os.path.relpath(p, root) not in sc["files"]:
                        world.put(p, "%LPC*%\nX1Y1D03*\n")
        expect_err = None
        try:
            flat, opened = self.flatten(sc)
        except RecursionError:
            expect_err, flat, opened = "too deep", None, None
        except KeyError as e:
            raise Invalid("dangling include %s" % e)
        cwd = os.path.join(root, sc["cwd"])
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)
        path = os.path.join(root, "top/main.gbr")
        if sc["path"] == "rel":
            path = os.path.relpath(path, cwd)
        plan = dict(sc.get("plan") or {})
        ctx.nontrivial = bool(sc["files"])
        ctx.sig += [self.shape(sc), sc["cwd"], sc["path"], sc["entry"], [f["kind"] for f in sc["faults"]], bool(sc.get("missing")), expect_err]

        def load():
            if sc["entry"] == "read":
                return gerber.read(path)
            if sc["entry"] == "rs274x.read":
                return gerber.rs274x.read(path)
            with open(path) as f:
                data = f.read()
            return gerber.loads(data, path)

        want = None
        if flat is not None:
            try:
                want = gerber.loads("\n".join(flat) + "\n")
                ghist.observe(want)
            except Exception:
                # the parts were put together into something that is not a Gerber (undefined aperture...)
                raise Invalid("flat text not readable")
        if sc.get("missing") and opened and sc["missing"] in opened:
            p = os.path.join(root, sc["missing"])
            data = world.get(p)
            os.unlink(p)
            self.attempt(load, root, plan, [], ctx, want, "an included file is missing", must_fail=True)
            world.put(p, data)
        if sc["faults"]:
            self.attempt(load, root, plan, sc["faults"], ctx, want, "an included file cannot be read", must_fail=expect_err)
        self.attempt(load, root, plan, [], ctx, want, "read", must_fail=expect_err)
        if expect_err:
            # the next read is unaffected
            world.put(os.path.join(root, "top/plain.gbr"), "%FSLAX24Y24*%\n%MOMM*%\n%ADD10C,1*%\nD10*\nX0Y0D03*\nM02*\n")
            got = gerber.read(os.path.join(root, "top/plain.gbr"))
            if len(got.primitives) != 1:
                raise Violation("aftermath", "after a refused include loop the next file has %d objects instead of 1" % len(got.primitives))

    def shape(self, sc):
        f = lambda items: "".join("i" if x[0] == "if" else "b" for x in items)[:40]
        import re
        return [re.sub("b+", "b", f(sc["main"]))] + sorted(re.sub("b+", "b", f(v)) for v in sc["files"].values())

    def attempt(self, load, root, plan, faults, ctx, want, what, must_fail=None):
        w = world.World(root, dict(plan, faults=faults))
        got = None
        with w:
            try:
                got = load()
            except Exception as e:
                ctx.log("error", type(e).__name__)
                err = e
        w.close()
        ctx.world_done(w)
        if must_fail is True:
            ctx.fault("missing include")
        if got is None:
            if must_fail or w.fired:
                return
            raise Violation("refused:" + type(err).__name__, "%s: refused although every included file is there: %s: %s" % (what, type(err).__name__, err))
        if must_fail:
            raise Violation("accepted", "%s: no error (%s)" % (what, must_fail))
        a, b = ghist.observe(got), ghist.observe(want)
        if got.units != want.units:
            raise Violation("units", "%s: units %s instead of %s" % (what, got.units, want.units))
        ghist.compare_obs(a, b, 2e-9, what)
        ctx.log(a["n"])
        outs = []
        for d in (got, want):
            p = os.path.join(root, "saved.gbr")
            try:
                d.write(p)
                outs.append(world.get(p))
            except ValueError:
                outs.append("refused")
        if outs[0] != outs[1]:
            raise Violation("saved", "%s: saving gives other bytes than saving the flattened document" % what)


CHECK = C13()
