"""Histories of a loaded drill document: observation in mm, edits, queries, saves."""
import math
import os

from . import canon, world, xdoc, xgen
from .core import Violation
from .ghist import mm_offset  # noqa: same vector convention as for Gerbers

TOOL = (("feed", "feed_rate"), ("retract", "retract_rate"), ("rpm", "rpm"), ("max", "max_hit_count"))


def hit(h, s):
    d = None if h.tool.diameter is None else h.tool.diameter * s
    if hasattr(h, "slot_type"):
        kind = {h.TYPE_ROUT: "rout", h.TYPE_G85: "g85"}.get(h.slot_type)
        return ["slot", h.tool.number, kind, [h.start[0] * s, h.start[1] * s], [h.end[0] * s, h.end[1] * s], d]
    return ["drill", h.tool.number, [h.position[0] * s, h.position[1] * s], d]


def tool(t, s):
    r = {"number": t.number, "dia": None if t.diameter is None else t.diameter * s, "plated": t.plated, "hits": t.hit_count,
         "depth": None if t.depth_offset is None else t.depth_offset * s}
    for k, a in TOOL:
        r[k] = getattr(t, a)
    return r


def observe(doc):
    s = canon.scale_of(doc.units)
    ps = doc.primitives
    o = {"hits": [hit(h, s) for h in doc.hits], "tools": [[n, tool(t, s)] for n, t in doc.tools.items()], "n": len(doc.hits),
         "prims": [canon.prim(p, s) for p in ps], "hboxes": [canon.box(h.bounding_box, s) for h in doc.hits],
         "pboxes": [canon.box(p.bounding_box, s) for p in ps], "bounds": None}
    for t in doc.tools.values():
        u = t.settings.units if t.settings is not None else doc.units
        if u != doc.units:
            raise Violation("tool-units", "tool %r in %s, document in %s" % (t.number, u, doc.units))
    o["counts"] = doc.hit_count()
    o["counts"] = [[n, o["counts"][n]] for n in sorted(o["counts"])]
    if doc.hits:
        o["bounds"] = canon.box(doc.bounds, s)
        o["bbox"] = canon.box(doc.bounding_box, s)
    return o


def shift_hit(h, dx, dy):
    return [[v[0] + dx, v[1] + dy] if isinstance(v, list) else v for v in h]


def shift_obs(o, dx, dy):
    r = dict(o)
    r["hits"] = [shift_hit(h, dx, dy) for h in o["hits"]]
    r["prims"] = [shift_hit(h, dx, dy) for h in o["prims"]]
    r["hboxes"] = [canon.shift_box(b, dx, dy) for b in o["hboxes"]]
    r["pboxes"] = [canon.shift_box(b, dx, dy) for b in o["pboxes"]]
    for k in ("bounds", "bbox"):
        if r.get(k):
            r[k] = canon.shift_box(o[k], dx, dy)
    return r


def compare_obs(got, want, tol, what, but=()):
    for k in ("n", "hits", "tools", "prims", "hboxes", "pboxes", "bounds", "bbox", "counts"):
        if k in want and k not in but:
            d = canon.diff(got.get(k), want[k], tol, k)
            if d:
                raise Violation(k, "%s: %s" % (what, d))


def compare_ref(doc, ref, what, tol=2e-7):
    """Loaded document against the reference interpreter."""
    o = observe(doc)
    d = canon.diff(o["hits"], ref["hits"], tol, "hit")
    if d:
        raise Violation("hits", "%s: holes and slots differ from those described: %s" % (what, d))
    if sorted(doc.tools) != sorted(ref["tools"]):
        raise Violation("tools", "%s: tools %r instead of %r" % (what, sorted(doc.tools), sorted(ref["tools"])))
    for n, t in o["tools"]:
        w = ref["tools"][n]
        exp = {"number": n, "dia": w["dia"], "plated": w["plated"], "hits": sum(1 for h in ref["hits"] if h[1] == n), "depth": w["par"].get("Z"),
               "feed": w["par"].get("F"), "retract": w["par"].get("B"), "rpm": w["par"].get("S"), "max": w["par"].get("H")}
        d = canon.diff(t, exp, tol, "tool %d" % n)
        if d:
            raise Violation("tools", "%s: %s" % (what, d))
    d = canon.diff(o["bounds"], ref["bounds"], tol * 5, "bounds")
    if d:
        raise Violation("bounds", "%s: %s" % (what, d))
    for i, (h, p, hb, pb) in enumerate(zip(o["hits"], o["prims"], o["hboxes"], o["pboxes"])):
        r = h[-1] / 2.0
        pts = h[3:5] if h[0] == "slot" else [h[2]]
        box = [[min(q[0] for q in pts) - r, max(q[0] for q in pts) + r], [min(q[1] for q in pts) - r, max(q[1] for q in pts) + r]]
        d = canon.diff(hb, box, 1e-6, "extents of hole %d" % i) or canon.diff(pb, box, 1e-6, "extents of drawn hole %d" % i) or \
            canon.diff(p, [h[0]] + pts + [h[-1]], tol, "drawn hole %d" % i)
        if d:
            raise Violation("drawn", "%s: %s" % (what, d))
    return o


# ------------------------------------------------------------------ queries
def queries():
    return ["bounds", "bounding_box", "primitives", "hit_count", "path_length", "report", "str", "eq", "settings", "boxes"]


def query(doc, name, k=0, scratch=None):
    if name in ("bounds", "bounding_box"):
        getattr(doc, name)
    elif name == "primitives":
        for p in doc.primitives:
            p.bounding_box, str(p), repr(p)
    elif name == "hit_count":
        doc.hit_count()
        doc.hit_count(1)
    elif name == "path_length":
        doc.path_length()
        doc.path_length(1)
    elif name == "report":
        doc.report()
        if scratch:
            doc.report(os.path.join(scratch, "report.txt"))
    elif name == "str":
        for s in doc.statements:
            str(s)
        for t in doc.tools.values():
            repr(t)
        str(doc)
    elif name == "eq":
        ts = list(doc.tools.values())
        if ts:
            ts[0] == ts[-1], ts[0].equivalent(ts[-1])
    elif name == "settings":
        str(doc.settings)
        doc.settings["units"], doc.format, doc.zeros, doc.zero_suppression, doc.notation
    elif name == "boxes":
        for h in doc.hits:
            h.bounding_box


# ------------------------------------------------------------------ saving
def savable(doc):
    """-> "yes" | "no" | "edge": whether every coordinate fits the document's number format."""
    fmt = doc.format
    lim = 10 ** (fmt[0] + fmt[1])
    m = 0
    for h in doc.hits:
        for p in ((h.start, h.end) if hasattr(h, "slot_type") else (h.position,)):
            m = max(m, abs(p[0]) * 10 ** fmt[1], abs(p[1]) * 10 ** fmt[1])
    return "no" if m > lim + 0.001 else "edge" if m > lim - 1.001 else "yes"


def by_tool(o):
    d = {}
    for h in o["hits"]:
        d.setdefault(h[1], []).append(h)
    return d


def compare_saved(mem, got, res, what, dres=None):
    """The holes of each tool in their order; positions and sizes up to half a file unit."""
    tol = 0.51 * res + 1e-7
    a, b = by_tool(mem), by_tool(got)
    for n in sorted(set(a) | set(b)):
        x, y = a.get(n, []), b.get(n, [])
        if len(x) != len(y):
            raise Violation("reload", "%s: tool %s: %d holes became %d" % (what, n, len(x), len(y)))
        d = canon.diff(y, x, tol, "T%s" % n)
        if d:
            raise Violation("reload", "%s: %s" % (what, d))
    x, y = dict((n, t) for n, t in mem["tools"]), dict((n, t) for n, t in got["tools"])
    for n in sorted(set(x) | set(y)):
        if n not in x or n not in y:
            if n in x and not x[n]["hits"]:
                pass
            raise Violation("reload-tools", "%s: tool %s %s" % (what, n, "lost" if n in x else "appeared"))
        for k in x[n]:
            u, v = x[n][k], y[n][k]
            if k in ("number", "hits", "plated") or u is None or v is None:
                ok = u == v
            else:
                t = tol if k in ("dia", "depth") else 0.51 * (dres or res) * (1000 if k == "rpm" else 1) + 1e-6
                ok = abs(u - v) <= t
            if not ok:
                raise Violation("reload-tools", "%s: tool %s: %s %r became %r" % (what, n, k, u, v))
    if mem["bounds"] is not None:
        d = canon.diff(got["bounds"], mem["bounds"], 2 * tol, "bounds")
        if d:
            raise Violation("reload-bounds", "%s: %s" % (what, d))


# ------------------------------------------------------------------ generation helpers
def gen_doc(rng, **kw):
    return xgen.gen(rng, **kw)


def gen_ops(rng, kinds, lo=1, hi=8):
    out = []
    for _ in range(rng.randint(lo, hi)):
        o = rng.choice(kinds)
        if o == "offset":
            v = lambda: rng.choice((0, 0, rng.randint(-400, 400), rng.randint(-9, 9), rng.randint(0, 20000)))
            out.append(["offset", v(), v(), rng.choice((10, 100, 1000))])
        elif o == "query":
            out.append(["query", rng.choice(queries()), rng.randint(0, 30)])
        elif o == "tool":
            ch = {}
            for k in rng.sample(("diameter", "diameter", "feed_rate", "retract_rate", "rpm", "max_hit_count", "depth_offset"), rng.choice((1, 1, 2))):
                ch[k] = {"diameter": rng.choice((rng.randint(10, 6000) / 1000.0, rng.randint(1, 60) / 10.0)),
                         "feed_rate": rng.randint(1, 99), "retract_rate": rng.randint(1, 99), "rpm": 1000 * rng.randint(1, 90),
                         "max_hit_count": rng.randint(1, 99), "depth_offset": rng.randint(-20, 20) / 10.0}[k]
                if k not in ("diameter", "depth_offset") and rng.random() < 0.15:
                    ch[k] = 0
            out.append(["tool", rng.randint(0, 9), ch])
        else:
            out.append([o])
    return out


def edit_tool(doc, op):
    """Apply ["tool", k, changes] (lengths in mm) through update_tool; -> the tool's number or None."""
    ns = list(doc.tools)
    if not ns:
        return None
    n = ns[op[1] % len(ns)]
    s = canon.scale_of(doc.units)
    kw = {}
    for k, v in op[2].items():
        kw[k] = v / s if k in ("diameter", "depth_offset") else v
    doc.update_tool(n, **kw)
    return n


def expect_edit(o, n, changes):
    """The observation after update_tool(n, changes)."""
    r = dict(o)
    r["tools"] = [[m, dict(t)] for m, t in o["tools"]]
    names = dict((a, k) for k, a in TOOL)
    names.update({"diameter": "dia", "depth_offset": "depth"})
    for m, t in r["tools"]:
        if m == n:
            for k, v in changes.items():
                t[names[k]] = v
    if "diameter" in changes:
        d = changes["diameter"]
        r["hits"] = [h[:-1] + [d] if h[1] == n else h for h in o["hits"]]
        r["prims"] = [p[:-1] + [d] if h[1] == n else p for h, p in zip(o["hits"], o["prims"])]

        def box(h):
            pts = h[3:5] if h[0] == "slot" else [h[2]]
            q = h[-1] / 2.0
            return [[min(p[0] for p in pts) - q, max(p[0] for p in pts) + q], [min(p[1] for p in pts) - q, max(p[1] for p in pts) + q]]
        r["hboxes"] = [box(h) for h in r["hits"]]
        r["pboxes"] = [box(h) for h in r["hits"]]
        if r["bounds"]:
            bs = r["hboxes"]
            r["bounds"] = r["bbox"] = [[min(b[0][0] for b in bs), max(b[0][1] for b in bs)], [min(b[1][0] for b in bs), max(b[1][1] for b in bs)]]
    return r


def load(text, scratch, name="board.drl"):
    import gerber
    # a relative name: the drill report quotes it, and its length must not depend on where the scratch directory is
    os.chdir(scratch)
    world.put(os.path.join(scratch, name), text)
    return gerber.read(name)
