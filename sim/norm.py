"""Outputs with what may legitimately differ between processes taken out."""
import re

IDS = re.compile(rb"(?:surface|source|mask|clip|image|pattern|filter|linear|radial|glyph|symbol|compositing-group|clip-path)-?\d+")


def svg(data):
    """Identifiers in SVGs come from a process-wide counter of libcairo."""
    seen = {}

    def f(m):
        return b"#" + seen.setdefault(m.group(0), b"%d" % len(seen))
    return IDS.sub(f, data or b"")


def text(s):
    return s.getvalue() if hasattr(s, "getvalue") else s
