"""Processes for C11: an interpreter which has imported the library and forks a process for each request.

    python -m sim.child VARIANT       requests and answers are JSON lines on stdin / stdout

A request is {"programs": [...], "steps": [...], "dir": ..., "uuid": n}; a step is
    ["run", k]            program k from beginning to end
    ["both", k, l]        programs k and l call by call in turn
    ["fault", k, faults]  program k while its storage fails (nothing it returns counts)
    ["stop", k, n]        program k given up after n calls, its documents still referenced
    ["gc"]                collect garbage
The answer is [[k, results], ...] of all the programs that ran undisturbed."""
import gc
import json
import os
import shutil
import signal
import sys
import uuid
import random


def set_clock(offset):
    """Every process has its own idea of the time (the offset may be years)."""
    import time
    real, local, gm, fmt, asc = time.time, time.localtime, time.gmtime, time.strftime, time.ctime
    now = lambda: real() + offset
    if offset == 0:
        return
    time.time = now
    time.time_ns = lambda: int(now() * 1e9)
    time.localtime = lambda t=None: local(now() if t is None else t)
    time.gmtime = lambda t=None: gm(now() if t is None else t)
    time.strftime = lambda f, t=None: fmt(f, time.localtime() if t is None else t)
    time.ctime = lambda t=None: asc(now() if t is None else t)


def perform(req):
    from . import prog, world
    ps = req["programs"]
    out = []
    held = []
    n = [0]

    def start(k):
        n[0] += 1
        if req["same"] and st[0] != "both":
            # one directory for all: files are replaced by others of the same names
            d = os.path.join(req["dir"], "here")
            if os.path.isdir(d):
                shutil.rmtree(d)
            return prog.Run(ps[k], d)
        return prog.Run(ps[k], os.path.join(req["dir"], "s%d" % n[0]))

    def calls(r):
        return ([["load"]] if r.doc is None else []) + r.p["ops"]
    rng = random.Random(req["uuid"])
    random.seed(req["uuid"])
    set_clock(req["clock"])
    os.chdir(req["dir"])
    for st in req["steps"]:
        w = world.World(req["dir"], {"faults": st[2]} if st[0] == "fault" else {})
        w.uuid_rng = rng
        if st[0] == "gc":
            gc.collect()
            continue
        with w:
            rs = [(k % len(ps), start(k % len(ps))) for k in (st[1:3] if st[0] == "both" else st[1:2])]
            if st[0] == "both":
                todo = [list(calls(r)) for _, r in rs]
                while any(todo):
                    for (k, r), t in zip(rs, todo):
                        if t:
                            r.step(t.pop(0))
            elif st[0] == "stop":
                r = rs[0][1]
                for o in calls(r)[:st[2]]:
                    r.step(o)
                held.append(r)
            else:
                rs[0][1].run()
        w.close()
        if st[0] in ("run", "both"):
            for k, r in rs:
                out.append([k, r.out])
    return out


def plain(x):
    if isinstance(x, (bytes, bytearray)):
        return {"bytes": x.decode("latin-1")}
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return [[str(k), plain(x[k])] for k in sorted(x, key=str)]
    if isinstance(x, (set, frozenset)):
        return sorted(plain(y) for y in x)
    if isinstance(x, float):
        return repr(x)
    if x is None or isinstance(x, (str, int, bool)):
        return x
    return repr(x)


def serve(variant):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from . import world
    world.install()
    if variant == 1:
        # other modules first
        import gerber.pcb
        import gerber.render.cairo_backend
    elif variant == 2:
        import gerber.ipc356
        import gerber.excellon
    from .checks.base import Base
    Base().setup()
    if variant:
        # these have a history which all of their processes share (and which makes them faster)
        import shutil
        import tempfile
        from . import prog
        rng = random.Random("warm %d" % variant)
        d = tempfile.mkdtemp(prefix="verif-sim-")
        try:
            ps = [prog.gen(rng) for _ in range(25)]
            perform({"programs": ps, "steps": [["run", k] for k in range(25)], "uuid": variant, "clock": 0, "same": 0, "dir": d})
        finally:
            os.chdir("/")
            shutil.rmtree(d)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = open(os.devnull, "w")
    for line in sys.stdin:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                signal.alarm(100)
                try:
                    a = json.dumps({"ok": plain(perform(json.loads(line)))})
                except Exception as e:
                    a = json.dumps({"error": "%s: %s" % (type(e).__name__, e)})
                with os.fdopen(w, "w") as f:
                    f.write(a)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r) as f:
            a = f.read()
        os.waitpid(pid, 0)
        out.write((a or json.dumps({"error": "the process died"})) + "\n")
        out.flush()


if __name__ == "__main__":
    serve(int(sys.argv[1]))
