"""The simulated environment: storage, directory listings, temporary files and identifiers.

Every path under ``World.root`` is served by a simulated raw file placed under the real ``io`` buffering and text
layers, so that the code under test meets arbitrary chunking, short reads and writes, errors, full disks and crashes
while it runs unmodified.  Everything outside the root goes to the real functions untouched.

A world's behaviour is a pure function of its ``plan`` (plain JSON):

  chunk    list of positive ints, cycled: how many bytes one raw read delivers
  wchunk   list of positive ints, cycled: how many bytes one raw write accepts
  buf      buffer size of the buffered layer
  wt       text layer writes through (one buffered write per f.write) if true
  order    seed of the listing permutation
  faults   list of {"op": open|read|write|close|list|any|rename|unlink|mktemp, "n": k, "kind": K[, "path": basename][, "sticky": 1]}
           K: EIO ENOSPC EACCES EMFILE ENOENT EROFS EISDIR crash
  capacity total bytes all writes together may use before ENOSPC (partial acceptance)
"""
import builtins
import errno
import io
import os
import random
import re
import tempfile
import uuid

_real_open = builtins.open
_real_io_open = io.open
_real_listdir = os.listdir
_real_scandir = os.scandir
_real_rename = os.rename
_real_replace = os.replace
_real_remove = os.remove
_real_unlink = os.unlink
_real_uuid4 = uuid.uuid4
_real_uuid1 = uuid.uuid1
_real_mkstemp = tempfile.mkstemp
_real_NTF = tempfile.NamedTemporaryFile
_real_TF = tempfile.TemporaryFile

ERR = {k: getattr(errno, k) for k in
       ("EIO", "ENOSPC", "EACCES", "EMFILE", "ENOENT", "EROFS", "EISDIR", "EPERM", "ESTALE", "ETIMEDOUT")}

_current = None


class SimCrash(BaseException):
    """The simulated process dies here (power loss / kill -9)."""


class SimFault(OSError):
    """An injected storage error (an ordinary OSError as far as the code under test can tell)."""


class World(object):
    def __init__(self, root, plan=None):
        self.root = os.path.realpath(root)
        self.set_plan(plan)
        self.log = []
        self.ops = {}
        self.nops = 0
        self.fired = []
        self.dead = False
        self.closed = False
        self.used = 0
        self.handles = []
        self.touched = {}        # path -> content before the first write of this world (None: absent)
        self.synced = {}         # path -> bytes guaranteed durable
        self.uuid_rng = random.Random(1)
        self.sched_hook = None   # called at each storage operation by the thread scheduler

    def set_plan(self, plan):
        plan = plan or {}
        self.plan = plan
        self.chunk = plan.get("chunk") or [1 << 20]
        self.wchunk = plan.get("wchunk") or [1 << 20]
        self.buf = plan.get("buf") or 8192
        self.wt = bool(plan.get("wt"))
        self.order = plan.get("order")
        self.faults = [dict(f) for f in plan.get("faults", ())]
        self.capacity = plan.get("capacity")
        self.ops = {}
        self.nops = 0
        self.used = 0

    # ------------------------------------------------------------------ storage operations
    def op(self, kind, path, detail=""):
        if self.closed:
            return
        if self.sched_hook is not None:
            self.sched_hook(kind)
        if self.dead:
            raise SimCrash("dead")
        name = os.path.basename(path)
        n = self.ops[kind] = self.ops.get(kind, 0) + 1
        self.nops += 1
        self.log.append((kind, name, detail))
        for f in self.faults:
            if f.get("done") and not f.get("sticky"):
                continue
            if f.get("path") not in (None, name):
                continue
            if f.get("in") is not None and "/%s/" % f["in"] not in path:
                continue
            if f["op"] == "any":
                hit = self.nops >= f["n"] if f.get("sticky") else self.nops == f["n"]
            elif f["op"] == kind:
                if f.get("path") is not None or f.get("in") is not None:
                    c = f["c"] = f.get("c", 0) + 1
                else:
                    c = n
                hit = c >= f["n"] if f.get("sticky") else c == f["n"]
            else:
                continue
            if not hit:
                continue
            f["done"] = 1
            self.fired.append((f["kind"], kind, name))
            self.log.append(("FAULT", f["kind"], kind))
            if f["kind"] == "crash":
                self.dead = True
                raise SimCrash("%s #%d on %s" % (kind, n, name))
            e = ERR[f["kind"]]
            raise SimFault(e, os.strerror(e), path)

    def note_write(self, path):
        if path not in self.touched:
            try:
                with _real_open(path, "rb") as f:
                    self.touched[path] = f.read()
            except OSError:
                self.touched[path] = None

    def crash_now(self):
        self.dead = True

    def power_loss(self, keep):
        """Apply a crash to the disk.  keep: None = everything handed to the OS survives; otherwise a function
        (path, old, new) -> surviving content (None: file absent)."""
        self.dead = True
        if keep is None:
            return
        for path, old in sorted(self.touched.items()):
            try:
                with _real_open(path, "rb") as f:
                    new = f.read()
            except OSError:
                continue
            left = keep(path, old, new)
            if left is None:
                _real_remove(path)
            else:
                with _real_open(path, "wb") as f:
                    f.write(left)

    def close(self):
        """End of this process's life: anything still buffered in leaked handles is gone."""
        self.closed = True
        for raw in self.handles:
            raw.kill()
        self.handles = []

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    # ------------------------------------------------------------------ activation
    def __enter__(self):
        global _current
        self._prev = _current
        _current = self
        return self

    def __exit__(self, *a):
        global _current
        _current = self._prev
        return False


class SimRaw(io.RawIOBase):
    def __init__(self, world, path, flags, readable, writable, append=False):
        self.world = world
        self.path = path
        self.name = path
        self.r = readable
        self.w = writable
        self.fd = os.open(path, flags, 0o666)
        self.alive = True
        self.ri = self.wi = 0
        world.handles.append(self)

    def kill(self):
        if self.alive:
            self.alive = False
            try:
                os.close(self.fd)
            except OSError:
                pass

    def readable(self):
        return self.r

    def writable(self):
        return self.w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        if not self.alive:
            return 0
        self.world.op("read", self.path)
        c = self.world.chunk
        n = min(len(b), c[self.ri % len(c)])
        self.ri += 1
        data = os.read(self.fd, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        if not self.alive:
            return len(b)
        w = self.world
        if w.dead or w.closed:
            return len(b)
        # (the names inside an SVG come from a counter of the whole process)
        w.op("write", self.path, "svg" if self.path.lower().endswith(".svg") else len(b))
        c = w.wchunk
        n = min(len(b), c[self.wi % len(c)])
        self.wi += 1
        if w.capacity is not None:
            room = w.capacity - w.used
            if room <= 0 and n > 0:
                w.fired.append(("full", "write", os.path.basename(self.path)))
                w.log.append(("FAULT", "full", "write"))
                raise SimFault(errno.ENOSPC, os.strerror(errno.ENOSPC), self.path)
            n = min(n, room)
        n = os.write(self.fd, b[:n])
        w.used += n
        return n

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        if self.alive and not self.world.dead:
            self.world.op("write", self.path, "truncate")
            os.ftruncate(self.fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                if self.alive and self.w and not self.world.dead and not self.world.closed:
                    self.world.op("close", self.path)
            finally:
                self.kill()
                super(SimRaw, self).close()

    def __del__(self):
        # a leaked handle: nothing it still buffers ever reaches the disk
        self.kill()


def sim_open(world, path, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
    m = mode.replace("U", "")
    if "U" in mode and "r" not in m:
        m = "r" + m
    binary = "b" in m
    m = m.replace("b", "").replace("t", "")
    plus = "+" in m
    base = m.replace("+", "")
    readable = base == "r" or plus
    writable = base in "wax" or plus
    world.op("open", path, base)
    flags = os.O_RDWR if (readable and writable) else (os.O_WRONLY if writable else os.O_RDONLY)
    if writable:
        world.note_write(path)
        if base == "w":
            flags |= os.O_CREAT | os.O_TRUNC
        elif base == "a":
            flags |= os.O_CREAT | os.O_APPEND
        elif base == "x":
            flags |= os.O_CREAT | os.O_EXCL
    if not writable and os.path.isdir(path):
        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
    raw = SimRaw(world, path, flags | getattr(os, "O_CLOEXEC", 0), readable, writable)
    if binary and buffering == 0:
        return raw
    if readable and writable:
        b = io.BufferedRandom(raw, world.buf)
    elif writable:
        b = io.BufferedWriter(raw, world.buf)
    else:
        b = io.BufferedReader(raw, world.buf)
    if binary:
        return b
    t = io.TextIOWrapper(b, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1),
                         write_through=world.wt)
    try:
        t.mode = mode
    except AttributeError:
        pass
    return t


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    w = _current
    if w is not None and not isinstance(file, int):
        p = w.inside(file)
        if p is not None:
            return sim_open(w, p, mode, buffering, encoding, errors, newline)
    if "U" in mode:
        mode = mode.replace("U", "") or "r"
        if "r" not in mode:
            mode = "r" + mode
    return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)


def _permute(world, names):
    names = sorted(names)
    if world.order is not None:
        random.Random(world.order).shuffle(names)
    return names


def _listdir(path="."):
    w = _current
    if w is not None and not isinstance(path, int):
        p = w.inside(path)
        if p is not None:
            w.op("list", p)
            return _permute(w, _real_listdir(p))
    return _real_listdir(path)


class _Scan(object):
    def __init__(self, entries):
        self.it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(path="."):
    w = _current
    if w is not None and not isinstance(path, int):
        p = w.inside(path)
        if p is not None:
            w.op("list", p)
            entries = {e.name: e for e in _real_scandir(path)}
            return _Scan([entries[n] for n in _permute(w, entries)])
    return _real_scandir(path)


def _mk2(real, kind):
    def f(src, dst, *a, **k):
        w = _current
        if w is not None:
            p, q = w.inside(src), w.inside(dst)
            if p or q:
                w.op("rename", q or p)
                for z in (p, q):
                    if z:
                        w.note_write(z)
        return real(src, dst, *a, **k)
    return f


def _mk1(real):
    def f(path, *a, **k):
        w = _current
        if w is not None:
            p = w.inside(path)
            if p:
                w.op("unlink", p)
                w.note_write(p)
        return real(path, *a, **k)
    return f


def _uuid4():
    w = _current
    if w is None:
        return _real_uuid4()
    return uuid.UUID(int=w.uuid_rng.getrandbits(128), version=4)


def _uuid1(*a, **k):
    return _uuid4() if _current is not None else _real_uuid1(*a, **k)


def _NTF(*a, **k):
    if _current is not None:
        _current.op("mktemp", "(temporary)")
    return _real_NTF(*a, **k)


def install():
    if builtins.open is _open:
        return
    builtins.open = _open
    io.open = _open
    os.listdir = _listdir
    os.scandir = _scandir
    os.rename = _mk2(_real_rename, "rename")
    os.replace = _mk2(_real_replace, "rename")
    os.remove = _mk1(_real_remove)
    os.unlink = _mk1(_real_unlink)
    uuid.uuid4 = _uuid4
    uuid.uuid1 = _uuid1
    tempfile.NamedTemporaryFile = _NTF


def install_cairo():
    """Route libcairo's own file output through the simulated storage."""
    import cairocffi
    S = cairocffi.Surface
    if getattr(S, "_sim", False):
        return
    real_png = S.write_to_png

    def write_to_png(self, target=None):
        w = _current
        if w is not None and target is not None and not hasattr(target, "write"):
            p = w.inside(target)
            if p is not None:
                data = real_png(self)
                with _open(p, "wb") as f:
                    f.write(data)
                return None
        return real_png(self, target)
    S.write_to_png = write_to_png
    S._sim = True


def calm(data):
    """Damage may have turned a repeat count into millions: keep it a count a machine can follow."""
    if isinstance(data, bytes):
        return re.sub(rb"R([0-9]{3})[0-9]+", rb"R\1", data)
    return re.sub("R([0-9]{3})[0-9]+", r"R\1", data)


# helpers for harness code: touch the disk without passing through the simulator
def put(path, data):
    if isinstance(data, str):
        data = data.encode("utf-8")
    d = os.path.dirname(path)
    if not os.path.isdir(d):
        os.makedirs(d)
    with _real_open(path, "wb") as f:
        f.write(data)


def get(path):
    try:
        with _real_open(path, "rb") as f:
            return f.read()
    except OSError:
        return None


def snapshot(root, sub=""):
    out = {}
    for e in _real_scandir(os.path.join(root, sub)):
        rel = os.path.join(sub, e.name)
        if e.is_dir(follow_symlinks=False):
            out.update(snapshot(root, rel))
        else:
            out[rel] = get(os.path.join(root, rel))
    return out


def wipe(root):
    """Empty a scratch directory (only ever called on a directory this harness created)."""
    assert "verif-sim-" in root, root
    for e in _real_scandir(root):
        if e.is_dir(follow_symlinks=False):
            wipe(e.path)
            os.rmdir(e.path)
        else:
            _real_unlink(e.path)


def gen_bulk(rng, cmds, sc, lo):
    """Make a document large enough for block-wise readers: long comments between its commands, and a fault somewhere in the middle."""
    for _ in range(rng.randint(1, 3)):
        cmds.insert(rng.randint(lo, len(cmds)), ["cm", rng.choice(("filler ", "x", "0,1 ")), rng.choice((700, 5000, 20000, 40000))])
    sc["plan"] = {"buf": rng.choice((512, 4096, 8192, 65536))}
    if rng.random() < 0.5:
        sc["plan"]["chunk"] = [rng.choice((100, 512, 1000, 4096, 8192)) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.6:
        sc["faults"] = [{"op": "read", "n": rng.choice((2, 5, 9, 17, 33, rng.randint(1, 60), rng.randint(1, 300))), "kind": rng.choice(("EIO", "EIO", "ESTALE", "ETIMEDOUT"))}]


def gen_delivery(rng, writes=False):
    """A fault-free delivery plan: chunking only."""
    p = {}
    k = rng.random()
    if k < 0.25:
        p["chunk"] = [1]
    elif k < 0.6:
        p["chunk"] = [rng.choice((1, 2, 3, 5, 7, 16, 31, 64, 100, 512)) for _ in range(rng.randint(1, 4))]
    p["buf"] = rng.choice((1, 2, 3, 7, 16, 61, 256, 512, 4096, 8192))
    if writes:
        if rng.random() < 0.5:
            p["wchunk"] = [rng.choice((1, 2, 3, 5, 16, 50, 200)) for _ in range(rng.randint(1, 3))]
        p["wt"] = int(rng.random() < 0.5)
    return p
