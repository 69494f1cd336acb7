"""Scenario execution, seeded search, shrinking, replay and evidence."""
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken.  kind: short stable label used to recognise the same violation while shrinking."""

    def __init__(self, kind, msg):
        super(Violation, self).__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg


class Invalid(Exception):
    """The scenario is outside the property's domain (only ever produced while shrinking)."""


class SimHang(BaseException):
    pass


class Ctx(object):
    """What one run reports."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.h = hashlib.sha256()
        self.nlog = 0
        self.faults = {}
        self.stats = {}
        self.sig = []
        self.nontrivial = False
        self.keep_log = None

    def log(self, *a):
        line = repr(a)
        self.h.update(line.encode("utf-8", "replace"))
        self.nlog += 1
        if self.keep_log is not None:
            self.keep_log.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def world_done(self, w):
        for ev in w.log:
            self.log(*ev)
        for f in w.fired:
            self.fault(f[0] + "@" + f[1])
        self.stat("storage_ops", w.nops)


def rng_for(seed, cid, index):
    return random.Random("%d/%s/%d" % (seed, cid, index))


def dumps(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def _alarm(sig, frame):
    raise SimHang("no answer within the time limit")


RUN_LIMIT = 60


def run_one(check, scenario, scratch, keep_log=None):
    """-> dict(status, kind, msg, digest, ctx)"""
    from . import world
    world.wipe(scratch)
    ctx = Ctx(scratch)
    ctx.keep_log = keep_log
    cwd = os.getcwd()
    status, kind, msg = "ok", None, None
    old_out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(check, "run_limit", RUN_LIMIT), 5)
    try:
        check.execute(json.loads(dumps(scenario)), ctx)
    except Violation as e:
        status, kind, msg = "violation", e.kind, e.msg
    except Invalid as e:
        status, msg = "invalid", str(e)
    except SimHang as e:
        status, kind, msg = "violation", "hang", str(e)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = tb[-1]
        status, kind = "violation", "exception:" + type(e).__name__
        msg = "unexpected %s: %s at %s:%d" % (type(e).__name__, e, os.path.basename(where.filename), where.lineno)
        if keep_log is not None:
            keep_log.append(traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout.close()
        sys.stdout = old_out
        os.chdir(cwd)
        world._current = None
        sys.settrace(None)
    ctx.log("end", status, kind)
    return {"status": status, "kind": kind, "msg": msg, "digest": ctx.h.hexdigest(), "ctx": ctx}


# ---------------------------------------------------------------------------- workers
def _send(fd, obj):
    data = pickle.dumps(obj, 2)
    data = struct.pack("<I", len(data)) + data
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def worker(check, seed, tier, indices, fd, scratch, deadline, rehash):
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    agg = {"runs": 0, "invalid": 0, "nontrivial": 0, "faults": {}, "stats": {}, "sigs": set(), "sample": [], "digests": {}}
    done = []
    t_last = time.time()
    try:
        for i in indices:
            if time.time() > deadline:
                agg["timed_out"] = 1
                break
            sc = check.generate(rng_for(seed, check.id, i), tier, i)
            r = run_one(check, sc, scratch)
            ctx = r["ctx"]
            agg["runs"] += 1
            if r["status"] == "invalid":
                agg["invalid"] += 1
                agg.setdefault("invalid_msg", r["msg"])
            else:
                if ctx.nontrivial:
                    agg["nontrivial"] += 1
                _merge(agg["faults"], ctx.faults)
                _merge(agg["stats"], ctx.stats)
                if ctx.nontrivial:
                    agg["sigs"].add(hashlib.md5(repr(ctx.sig).encode()).digest()[:8])
                if len(agg["sample"]) < 1 and ctx.nontrivial:
                    agg["sample"].append({"index": i, "scenario": sc, "log_digest": r["digest"][:16]})
            if i in rehash:
                agg["digests"][i] = r["digest"]
            if r["status"] == "violation":
                _send(fd, ("violation", i, sc, r["kind"], r["msg"], list(done)))
                break
            done.append(i)
        agg["sigs"] = list(agg["sigs"])
        _send(fd, ("done", agg))
    except BaseException as e:
        try:
            _send(fd, ("crash", traceback.format_exc()))
        except BaseException:
            pass
    os._exit(0)


def search(check, seed, tier, runs, limit, workers, base):
    start = time.time()
    deadline = start + limit
    # the corpus (runs numbered negatively) first, then seeds
    idx = list(range(runs))
    rehash = set(idx[:getattr(check, "recheck", 24)])
    pipes = {}
    for w in range(workers):
        r, wfd = os.pipe()
        scratch = os.path.join(base, "w%d" % w)
        os.mkdir(scratch)
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for other in pipes:
                os.close(other)
            worker(check, seed, tier, idx[w::workers], wfd, scratch, deadline, rehash)
        os.close(wfd)
        pipes[r] = [pid, b""]
    total = {"runs": 0, "invalid": 0, "nontrivial": 0, "faults": {}, "stats": {}, "sigs": set(), "sample": [], "digests": {}}
    viol = []
    crashes = []
    open_fds = set(pipes)
    hard = deadline + 90
    while open_fds:
        rd, _, _ = select.select(list(open_fds), [], [], 1.0)
        for fd in rd:
            data = os.read(fd, 1 << 16)
            if not data:
                open_fds.discard(fd)
                os.close(fd)
                continue
            st = pipes[fd]
            st[1] += data
            while len(st[1]) >= 4:
                n = struct.unpack("<I", st[1][:4])[0]
                if len(st[1]) < 4 + n:
                    break
                msg = pickle.loads(st[1][4:4 + n])
                st[1] = st[1][4 + n:]
                if msg[0] == "violation":
                    viol.append(msg[1:])
                    deadline = min(deadline, time.time() + 2)
                elif msg[0] == "done":
                    a = msg[1]
                    for k in ("runs", "invalid", "nontrivial"):
                        total[k] += a[k]
                    _merge(total["faults"], a["faults"])
                    _merge(total["stats"], a["stats"])
                    total["sigs"].update(a["sigs"])
                    total["sample"] += a["sample"]
                    total["digests"].update(a["digests"])
                    if a.get("timed_out"):
                        total["timed_out"] = 1
                    if a.get("invalid_msg"):
                        total["invalid_msg"] = a["invalid_msg"]
                elif msg[0] == "crash":
                    crashes.append(msg[1])
        if viol and time.time() > deadline or time.time() > hard:
            break
    for fd in pipes:
        try:
            os.kill(pipes[fd][0], signal.SIGKILL)
        except OSError:
            pass
    for fd in pipes:
        try:
            os.waitpid(pipes[fd][0], 0)
        except OSError:
            pass
    total["wall"] = time.time() - start
    return total, sorted(viol, key=lambda v: v[0]), crashes


# ---------------------------------------------------------------------------- shrinking
def _get(x, path):
    for p in path:
        x = x[p]
    return x


def _with_list(sc, path, value):
    sc = json.loads(dumps(sc))
    if not path:
        return value
    _get(sc, path[:-1])[path[-1]] = value
    return sc


def all_lists(x, path=()):
    """Paths of all lists whose elements may be dropped (lists of lists/dicts)."""
    out = []
    if isinstance(x, dict):
        for k in sorted(x):
            out += all_lists(x[k], path + (k,))
    elif isinstance(x, list):
        if x and all(isinstance(e, (list, dict)) for e in x):
            out.append(path)
        for i, e in enumerate(x):
            out += all_lists(e, path + (i,))
    return out


def shrink(check, scenario, kind, scratch, limit):
    t_end = time.time() + limit
    tries = [0]

    def fails(sc):
        if time.time() > t_end:
            return False
        tries[0] += 1
        r = run_one(check, sc, scratch)
        return r["status"] == "violation" and r["kind"] == kind

    def ddmin(sc, path):
        lst = _get(sc, path)
        n = len(lst)
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            changed = False
            while i < len(lst):
                cand = lst[:i] + lst[i + size:]
                c = _with_list(sc, path, cand)
                if fails(c):
                    sc, lst, changed = c, cand, True
                else:
                    i += size
                if time.time() > t_end:
                    return sc
            if size == 1 and not changed:
                break
            size = max(1, size // 2) if size > 1 else (1 if changed else 0)
        return sc

    cur = json.loads(dumps(scenario))
    for _ in range(6):
        before = dumps(cur)
        for path in sorted(all_lists(cur), key=lambda p: (len(p), str(p))):
            try:
                lst = _get(cur, path)
            except (KeyError, IndexError, TypeError):
                continue
            if isinstance(lst, list) and lst:
                cur = ddmin(cur, path)
        simp = getattr(check, "simplify", None)
        progress = simp is not None
        while progress and time.time() < t_end:
            progress = False
            for cand in simp(json.loads(dumps(cur))):
                if dumps(cand) != dumps(cur) and fails(cand):
                    cur = cand
                    progress = True
                    break
        if dumps(cur) == before or time.time() > t_end:
            break
    return cur, tries[0]


def forked(fn, timeout):
    """Run fn() in a forked child and return its (picklable) result, or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _send(w, fn())
        except BaseException:
            try:
                _send(w, ("__crash__", traceback.format_exc()))
            except BaseException:
                pass
        os._exit(0)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    while True:
        rd, _, _ = select.select([r], [], [], max(0.0, end - time.time()))
        if not rd:
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        buf += data
    os.close(r)
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    if len(buf) < 4:
        return None
    n = struct.unpack("<I", buf[:4])[0]
    if len(buf) < 4 + n:
        return None
    return pickle.loads(buf[4:4 + n])


def replay_doc(doc, check, base):
    """Execute a replay document; returns the last result (and its log)."""
    scratch = tempfile.mkdtemp(prefix="verif-sim-", dir=base)
    for sc in doc.get("prelude", ()):
        run_one(check, sc, scratch)
    log = []
    r = run_one(check, doc["scenario"], scratch, keep_log=log)
    return r, log


def fresh_replay(path, hashseed="0", timeout=300):
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    try:
        p = subprocess.run([sys.executable, "-m", "sim.main", "--replay", path, "--machine"], cwd=VERIF, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    for line in p.stdout.decode("utf-8", "replace").splitlines():
        if line.startswith("REPLAY "):
            return json.loads(line[7:])
    return None
