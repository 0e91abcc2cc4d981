"""The simulated operating system: file system, clock and process scheduler.

All file system calls the code under test makes below `root` go through here; the files
themselves live in a scratch directory.  A run has one or more nodes (simulated
processes).  Before every intercepted operation the running node parks and the seeded
scheduler decides who goes on, and the plan's faults decide what happens to the
operation.  After a node has been killed, nothing it does reaches the disk any more, and
what its user-space buffers still held is lost.
"""
import builtins
import datetime as _dt
import errno
import io
import os
import random
import sys
import threading
import time as _time

_real = dict(
    open=io.open, os_open=os.open, mkdir=os.mkdir, replace=os.replace, rename=os.rename,
    unlink=os.unlink, remove=os.remove, rmdir=os.rmdir, scandir=os.scandir,
    listdir=os.listdir, truncate=os.truncate, fsync=os.fsync, write=os.write,
    close=os.close, time=_time.time, time_ns=_time.time_ns, link=os.link,
    symlink=os.symlink, strftime=_time.strftime, localtime=_time.localtime,
    gmtime=_time.gmtime,
)


class Killed(BaseException):
    """The simulated process has been killed."""


class Stop(BaseException):
    """The run exceeded its step budget."""


class SimRaw(io.RawIOBase):
    def __init__(self, sim, path, fd, mode, node):
        super().__init__()
        self.sim, self.path, self.fd, self.mode, self.node = sim, path, fd, mode, node
        self.name = path
        self._r = "r" in mode or "+" in mode
        self._w = any(c in mode for c in "wax+")

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        caller = sys._getframe(1).f_globals.get("__name__", "")
        if caller.startswith(("numpy", "shutil")):
            raise io.UnsupportedOperation("fileno")
        return self.fd

    def isatty(self):
        return False

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.sim.op("truncate", self.path, self.node)
        os.ftruncate(self.fd, size)
        return size

    def readinto(self, b):
        self.sim.rfault(self.sim.op("read", self.path, self.node, mut=False), self.path)
        data = os.read(self.fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        b = bytes(b)
        if self.node is not None and self.node.dead:
            return len(b)
        n = self.sim.write_op(self.path, b, self.fd, self.node)
        return n

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                fd, self.fd = self.fd, -1
                self.sim.fds.pop(fd, None)
                try:
                    _real["close"](fd)
                except OSError:
                    pass


class Node:
    def __init__(self, idx, name):
        self.idx, self.name = idx, name
        self.n_mut = 0
        self.n_ops = 0
        self.dead = False
        self.result = None
        self.error = None
        self.done = False
        self.go = threading.Semaphore(0)
        self.thread = None
        self.sticky = None
        self.pending = (None, None)
        self.hold = 0
        self.seen = set()


class Sim:
    """faults: list of dicts {node, at, kind, frac, sticky, path}. kinds: kill, enospc, eio, short,
    vanish (on read-open)."""

    def __init__(self, root, seed=0, faults=(), clock0=1.7e9, ticks=(0.25,), list_seed=None,
                 bufsize=None, max_ops=200000, trace=False, raw_reads=False):
        self.root = os.path.realpath(root)
        self.rng = random.Random(f"sched:{seed}")
        self.list_seed = list_seed
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f.get("node", 0), f["at"]), []).append(f)
        self.clock = clock0
        self.ticks = list(ticks) or [0.0]
        self.nclock = 0
        self.fired = {}
        self.oplog = []
        self.trace = trace
        self.raw_reads = raw_reads
        self.tick = threading.Semaphore(0)
        self.nodes = []
        self.multi = False
        self.local = threading.local()
        self.main = Node(0, "main")
        self.active = False
        self.bufsize = bufsize
        self.fds = {}
        self.max_ops = max_ops
        self.n_total = 0
        self.on_op = None
        self.switches = 0
        self.meetings = 0
        self.nlist = {}
        self.lists_permuted = 0
        self.schedule = []
        self.forced = None

    # ---- helpers
    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def node(self):
        return getattr(self.local, "node", None) or self.main

    def rel(self, p):
        return os.path.relpath(p, self.root)

    def op(self, kind, path, node=None, mut=True):
        """Accounts for one operation; parks, then applies faults. Returns the fault or None."""
        node = node or self.node()
        if node.dead:
            raise Killed()
        if self.multi and getattr(self.local, "node", None) is node:
            node.pending = (kind if mut else "read", path)
            self._park(node)
        node.n_ops += 1
        self.n_total += 1
        if self.n_total > self.max_ops:
            raise Stop()
        if self.on_op is not None:
            cb, self.on_op = self.on_op, None
            self.active = False
            try:
                cb(self, node, kind, path)
            finally:
                self.active = True
                self.on_op = cb
        if self.trace or mut:
            self.oplog.append((node.idx, kind, self.rel(path)))
        if not mut:
            f = None
            for f_ in self.faults.get((node.idx, "r:%d" % node.n_ops), ()):
                f = f_
            return f
        k = node.n_mut
        node.n_mut += 1
        fault = None
        for f in self.faults.get((node.idx, k), ()):
            fault = f
        if fault is None and node.sticky is not None:
            if node.sticky["left"] > 0:
                node.sticky["left"] -= 1
                fault = node.sticky
            else:
                node.sticky = None
        if fault is None:
            return None
        kd = fault["kind"]
        if fault.get("sticky") and node.sticky is None:
            node.sticky = dict(kind=kd, frac=0.0, left=int(fault["sticky"]))
        if kind == "write":
            return fault                       # handled by write_op
        self.fired[kd] = self.fired.get(kd, 0) + 1
        if kd == "kill":
            node.dead = True
            raise Killed()
        if kd == "short":
            return None
        raise OSError(errno.ENOSPC if kd == "enospc" else errno.EIO,
                      os.strerror(errno.ENOSPC if kd == "enospc" else errno.EIO), path)

    def rfault(self, f, path):
        """Raises what a fault on a reading operation asks for."""
        if f is None:
            return
        self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1
        e = errno.ENOENT if f["kind"] == "vanish" else errno.EIO
        raise OSError(e, os.strerror(e), str(path))

    def write_op(self, path, b, fd, node):
        node = node or self.node()
        f = self.op("write", path, node)
        if f is None:
            n = 0
            while n < len(b):
                n += _real["write"](fd, b[n:])
            return n
        kd = f["kind"]
        self.fired[kd] = self.fired.get(kd, 0) + 1
        n = min(int(f.get("frac", 0.0) * len(b)), len(b))
        if kd == "short":
            n = max(1, n) if len(b) else 0
        if n:
            _real["write"](fd, b[:n])
        if kd == "kill":
            node.dead = True
            raise Killed()
        if kd == "short":
            return n
        if n and kd == "enospc":
            # POSIX: a partial write is reported as such; the next one fails
            if node.sticky is None:
                node.sticky = dict(kind=kd, frac=0.0, left=1)
            return n
        e = errno.ENOSPC if kd == "enospc" else errno.EIO
        raise OSError(e, os.strerror(e), path)

    # ---- scheduling of several nodes
    def _park(self, node):
        self.tick.release()
        node.go.acquire()
        if node.dead:
            raise Killed()

    def _meet(self, node, hold):
        """Hold a node that is about to change the file system until another one is about to change the same
        path (or all others are held or done, or its patience runs out): that is where they can collide."""
        kind, path = node.pending
        if kind in (None, "read", "wait", "write") or node.done:
            return
        met = [n for n in self.nodes if n.hold and n.pending[1] == path and n is not node]
        if met:
            for n in met:
                n.hold = 0
            self.meetings += 1
            return
        first = (kind, path) not in node.seen
        node.seen.add((kind, path))
        if self.rng.random() < (hold if first else hold / 8):
            node.hold = self.rng.choice([40, 400, 4000])

    def run_nodes(self, fns, policy="random", stick=0.0, forced=None, hold=0.0):
        """Run each fn as a node to completion, one at a time between operations."""
        self.nodes = [Node(i, f"n{i}") for i in range(len(fns))]
        self.multi = True
        forced = list(forced or [])

        def body(node, fn):
            self.local.node = node
            node.go.acquire()
            try:
                if node.dead:
                    raise Killed()
                node.result = fn()
            except Killed:
                node.error = "killed"
            except BaseException as e:  # noqa
                node.error = e
            node.done = True
            self.tick.release()

        for n, fn in zip(self.nodes, fns):
            n.thread = threading.Thread(target=body, args=(n, fn), daemon=True)
            n.thread.start()
        cur = None
        while True:
            live = [n for n in self.nodes if not n.done]
            if not live:
                break
            if forced:
                want = forced.pop(0)
                nxt = next((n for n in live if n.idx == want), live[0])
            elif hold:
                free = [n for n in live if not n.hold]
                if not free:
                    for n in live:
                        n.hold = 0
                    free = live
                if cur in free and self.rng.random() < stick:
                    nxt = cur
                else:
                    nxt = free[self.rng.randrange(len(free))]
                for n in live:
                    n.hold = max(0, n.hold - 1)
            elif cur is not None and not cur.done and self.rng.random() < stick:
                nxt = cur
            else:
                nxt = live[self.rng.randrange(len(live))]
            if cur is not None and nxt is not cur:
                self.switches += 1
            cur = nxt
            self.schedule.append(nxt.idx)
            nxt.go.release()
            self.tick.acquire()
            if hold:
                self._meet(cur, hold)
        for n in self.nodes:
            n.thread.join()
        self.multi = False
        return self.nodes

    # ---- clock
    def now(self):
        v = self.clock
        self.clock += self.ticks[self.nclock % len(self.ticks)]
        self.nclock += 1
        return v

    # ---- installation
    def __enter__(self):
        sim = self
        self.active = True

        def s_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                   closefd=True, opener=None):
            if not sim.active:
                return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            if isinstance(file, int) and file in sim.fds:
                p, preopened = sim.fds[file], file
            else:
                if isinstance(file, int):
                    return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
                p, preopened = sim.inside(file), None
            if p is None or opener is not None:
                return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
            writing = any(c in mode for c in "wax+")
            node = sim.node()
            base = mode.replace("b", "").replace("t", "")
            if preopened is None:
                f = sim.op("open" if writing else "ropen", p, node, mut=writing)
                if not writing:
                    sim.rfault(f, file)
                if not writing and not sim.multi and not sim.raw_reads:
                    return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
                flags = os.O_CLOEXEC
                if "+" in base:
                    flags |= os.O_RDWR
                elif base[0] == "r":
                    flags |= os.O_RDONLY
                else:
                    flags |= os.O_WRONLY
                if base[0] == "w":
                    flags |= os.O_CREAT | os.O_TRUNC
                elif base[0] == "a":
                    flags |= os.O_CREAT | os.O_APPEND
                elif base[0] == "x":
                    flags |= os.O_CREAT | os.O_EXCL
                if os.path.isdir(p):
                    raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), str(file))
                fd = _real["os_open"](p, flags, 0o666)
            else:
                fd = preopened
            raw = SimRaw(sim, p, fd, base, node)
            raw.name = file
            sim.fds[fd] = p
            if buffering == 0:
                return raw
            size = sim.bufsize or 8192
            if buffering > 1:
                size = buffering
            if "+" in base:
                buf = io.BufferedRandom(raw, size)
            elif writing:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, 65536)
            if "b" in mode:
                return buf
            return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=(buffering == 1))

        def s_os_open(path, flags, mode=0o777, *, dir_fd=None):
            p = sim.inside(path) if (sim.active and not isinstance(path, int)) else None
            if p is None:
                return _real["os_open"](path, flags, mode, dir_fd=dir_fd)
            w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            sim.op("open" if w else "ropen", p, mut=bool(w))
            fd = _real["os_open"](path, flags, mode, dir_fd=dir_fd)
            if w:
                sim.fds[fd] = p
            return fd

        def s_os_write(fd, data):
            if sim.active and fd in sim.fds:
                return sim.write_op(sim.fds[fd], bytes(data), fd, sim.node())
            return _real["write"](fd, data)

        def s_os_close(fd):
            sim.fds.pop(fd, None)
            return _real["close"](fd)

        def s_fsync(fd):
            if not isinstance(fd, int):
                fd = fd.fileno()
            if sim.active and fd in sim.fds:
                sim.op("fsync", sim.fds[fd])
                return None
            return _real["fsync"](fd)

        def one(name):
            real = _real[name]

            def f(path, *a, **k):
                p = sim.inside(path) if (sim.active and not isinstance(path, int)) else None
                if p is not None:
                    if name == "mkdir" and os.path.isdir(p):
                        sim.op("mkdir?", p, mut=False)
                    else:
                        sim.op(name, p)
                return real(path, *a, **k)
            return f

        def two(name):
            real = _real[name]

            def f(src, dst, *a, **k):
                p = sim.inside(dst) if sim.active else None
                if p is None and sim.active:
                    p = sim.inside(src)
                if p is not None:
                    sim.op(name, p)
                return real(src, dst, *a, **k)
            return f

        def order(names, p, key):
            names = sorted(names, key=key)
            if sim.list_seed is not None:
                c = 0
                r = random.Random(f"{sim.list_seed}:{sim.rel(p)}:{c}")
                r.shuffle(names)
                sim.lists_permuted += 1
            return names

        class ScanIter:
            def __init__(self, entries):
                self.e = iter(entries)

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.e)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

        def s_scandir(path="."):
            p = sim.inside(path) if (sim.active and not isinstance(path, int)) else None
            if p is None:
                return _real["scandir"](path)
            f = sim.op("list", p, mut=False)
            if f is not None and f["kind"] != "vanish":
                sim.rfault(f, p)
            with _real["scandir"](path) as it:
                ents = list(it)
            return ScanIter(order(ents, p, lambda e: e.name))

        def s_listdir(path="."):
            p = sim.inside(path) if (sim.active and not isinstance(path, int)) else None
            if p is None:
                return _real["listdir"](path)
            f = sim.op("list", p, mut=False)
            if f is not None and f["kind"] != "vanish":
                sim.rfault(f, p)
            return order(_real["listdir"](path), p, lambda n: n)

        def s_time():
            return sim.now() if sim.active else _real["time"]()

        def s_time_ns():
            return int(sim.now() * 1e9) if sim.active else _real["time_ns"]()

        def s_localtime(s=None):
            return _real["localtime"](sim.now() if s is None and sim.active else s)

        def s_gmtime(s=None):
            return _real["gmtime"](sim.now() if s is None and sim.active else s)

        def s_strftime(fmt, t=None):
            if t is None:
                t = s_localtime()
            return _real["strftime"](fmt, t)

        self._patches = [
            (builtins, "open", s_open), (io, "open", s_open), (os, "open", s_os_open),
            (os, "write", s_os_write), (os, "close", s_os_close), (os, "fsync", s_fsync),
            (os, "mkdir", one("mkdir")), (os, "unlink", one("unlink")),
            (os, "remove", one("remove")), (os, "rmdir", one("rmdir")),
            (os, "truncate", one("truncate")), (os, "replace", two("replace")),
            (os, "rename", two("rename")), (os, "link", two("link")),
            (os, "symlink", two("symlink")),
            (os, "scandir", s_scandir), (os, "listdir", s_listdir),
            (_time, "time", s_time), (_time, "time_ns", s_time_ns),
            (_time, "localtime", s_localtime), (_time, "gmtime", s_gmtime),
            (_time, "strftime", s_strftime),
        ]
        real_dt = _dt.datetime

        class Meta(type(real_dt)):
            def __instancecheck__(cls, o):
                return isinstance(o, real_dt)

        class SimDatetime(real_dt, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                return real_dt.fromtimestamp(sim.now(), tz or _dt.timezone.utc).replace(
                    tzinfo=tz) if tz is None else real_dt.fromtimestamp(sim.now(), tz)

            @classmethod
            def utcnow(cls):
                return real_dt.fromtimestamp(sim.now(), _dt.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()

        class DtShim:
            def __getattr__(self, k):
                return getattr(_dt, k)
        shim = DtShim()
        shim.datetime = SimDatetime
        saved_open = _real["open"]
        for mn, m in list(sys.modules.items()):
            if m is None or not (mn.startswith("quakemigrate")):
                continue
            for k, v in list(vars(m).items()):
                if v is real_dt:
                    self._patches.append((m, k, SimDatetime))
                elif v is _dt:
                    self._patches.append((m, k, shim))
                elif v is _time.time or v is _real["time"]:
                    self._patches.append((m, k, s_time))
                elif v is saved_open and k == "open":
                    self._patches.append((m, k, s_open))
        self._saved = [(o, k, getattr(o, k)) for o, k, _ in self._patches]
        for o, k, v in self._patches:
            setattr(o, k, v)
        return self

    def __exit__(self, *a):
        self.active = False
        for o, k, v in reversed(self._saved):
            setattr(o, k, v)
        return False
