"""Failing allocations: a MemoryError at a chosen line of the library's code."""
import math
import sys


def cut_short(fn, n, ctx):
    """Run fn(); its n-th line of library code fails to get memory.  
    -> None: that line was not reached, "raised": the caller got the error, "kept": it did not."""
    left = [n]

    def local(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] == 0:
                raise MemoryError("injected")
        return local

    def trace(frame, event, arg):
        return local if "/gerber/" in frame.f_code.co_filename else None
    res = "kept"
    sys.settrace(trace)
    try:
        fn()
    except Exception:
        if left[0] > 0:
            raise
        res = "raised"
    finally:
        sys.settrace(None)
        if left[0] <= 0:
            ctx.fault("ENOMEM@line")
    return res if left[0] <= 0 else None


def gen_line(rng, top=3000):
    return int(round(10 ** rng.uniform(0, math.log10(top))))
