"""The controller: simulated processes, their interleaving, faults, crashes.

One simulated process is one forked child of the pristine server (taupy
imported, never used).  Each system call of a child is a message; the
controller waits until every live child has one pending (or has ended) and
only then decides which of them is served.  So the order of all effects, and
every fault, is decided here.
"""
import errno
import hashlib
import os
import random
import select
import signal
import socket
import time as _time

from . import simos
from .simfs import SimFS, SimOSError, OpenFile

_fork, _kill, _waitpid, _exit = os.fork, os.kill, os.waitpid, os._exit
_monotonic = _time.monotonic


class HarnessFailure(Exception):
    pass


class Timeout(Exception):
    pass


class Proc(object):
    def __init__(self, idx, pid):
        self.idx, self.pid, self.world = idx, pid, None
        self.fds = {}
        self.next = simos.FD0
        self.results = []           # what the program reported
        self.status = "running"     # done, killed, harness
        self.error = None
        self.stdout = []
        self.fds[1] = OpenFile(None, os.O_WRONLY, "<stdout>", self.stdout)
        self.fds[2] = OpenFile(None, os.O_WRONLY, "<stderr>", [])
        self.counts = {}
        self.nops = 0
        self.mark = 0
        self.inherited = ()         # descriptors it was forked with
        self.parent = None          # (process, operation, which child)
        self.pidfd = None

    def new_fd(self, of):
        fd = self.next
        self.next += 1
        self.fds[fd] = of
        return fd

    def fd(self, fd):
        of = self.fds.get(fd)
        if of is None:
            raise SimOSError(errno.EBADF)
        return of

    def open_files(self):
        return sorted(of.path for fd, of in self.fds.items()
                      if fd > 2 and fd not in self.inherited)


ERR = {n: getattr(errno, n) for n in (
    "ENOSPC", "EIO", "EACCES", "EMFILE", "EROFS", "EPERM", "ENOMEM",
    "EDQUOT", "EPIPE", "ENOENT", "EFBIG", "ESTALE", "EBUSY", "ENFILE")}

# Metadata queries are not worth a fault of their own unless asked for.
INVISIBLE = ("emit", "stat")


def adopt_orphans():
    """Processes whose parents have ended become children of this one."""
    import ctypes
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


class World(object):
    """One simulated execution."""

    def __init__(self, fs, faults=(), seed=0, order=None, max_wall=60.0):
        self.fs = fs
        self.faults = [dict(f) for f in faults]
        self.rng = random.Random("world:%s" % seed)
        self.order_in = list(order) if order is not None else None
        self.order = []             # which process was served, in turn
        self.log = []               # the event log
        self.fired = {}
        self.fired_list = []
        self.procs = []
        self.crashed = None
        self.steps = 0
        self.max_wall = max_wall
        self.after_step = None      # invariant hook(world, proc, op, args)
        self.pid0 = 4242
        self.extern = None
        self.orphans = []
        self.stay = 0.5             # probability to keep serving one process

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        for p in self.procs:
            h.update(repr((p.idx, p.status, p.results)).encode())
        return h.hexdigest()

    # -- processes ------------------------------------------------------------
    def start(self, main, pid=None, env=None):
        """main(): runs in the child, returns nothing; reports by emit."""
        idx = len(self.procs)
        p = Proc(idx, pid or self.pid0 + idx)
        a, b = socket.socketpair()
        child = _fork()
        if child == 0:
            code = 0
            try:
                a.close()
                for q in self.procs:
                    if q.sock is not None:
                        q.sock.close()
                simos.attach(b, p.pid, env=env)
                try:
                    main()
                    simos.K.before_call = None
                    simos.K.raw_call("exit", "done", None)
                except simos.HarnessError as e:
                    simos.send(b, ("exit", ("harness", repr(e))))
                except BaseException as e:
                    import traceback
                    simos.send(b, ("exit", ("harness", "%r\n%s" % (
                        e, traceback.format_exc()))))
            finally:
                _exit(code)
        b.close()
        p.child, p.sock, p.world = child, a, self
        p.pending = None
        self.procs.append(p)
        return p

    def adopt(self, sock, popen, pid):
        """A process that is a fresh interpreter, not a fork."""
        p = Proc(len(self.procs), pid)
        p.child, p.sock, p.pending, p.world = None, sock, None, self
        p.popen = popen
        self.procs.append(p)
        return p

    def _reap(self, p):
        if p.sock is not None:
            p.sock.close()
            p.sock = None
        if p.child is not None:
            try:
                _kill(p.child, signal.SIGKILL)
            except OSError:
                pass
            try:
                _waitpid(p.child, 0)
            except OSError:
                pass
            p.child = None
        elif p.pidfd is not None:
            try:
                signal.pidfd_send_signal(p.pidfd, signal.SIGKILL)
            except OSError:
                pass
            os.close(p.pidfd)
            p.pidfd = None
            self.orphans.append(p.forked)
        elif getattr(p, "popen", None) is not None:
            p.popen.kill()
            p.popen.wait()
            p.popen = None

    def _fill(self, p, deadline):
        """Wait for the next request of `p`."""
        while p.pending is None and p.status == "running":
            left = deadline - _monotonic()
            if left <= 0 or not select.select([p.sock], [], [], left)[0]:
                raise Timeout("process %d made no system call" % p.idx)
            try:
                op, args = simos.recv(p.sock)
            except (EOFError, ConnectionError):
                p.status, p.error = "harness", "child vanished"
                break
            if op == "emit":
                # faults that hit this process since it last reported
                hits = [x[3] for x in self.fired_list[p.mark:]
                        if x[0] == p.idx]
                p.mark = len(self.fired_list)
                if hits:
                    args[0]["hits"] = hits
                p.results.append(args[0])
                simos.send(p.sock, ("ok", None))
            elif op == "extern":
                # somebody else changes a file, right now
                self.extern(args[0])
                self.log.append((p.idx, "extern", args[0].get("path")))
                simos.send(p.sock, ("ok", None))
            elif op == "fork":
                self._fork(p, args)
            elif op == "forked":
                q = self.procs[p.forking]
                q.forked = args[0]
                q.pidfd = os.pidfd_open(args[0])
                simos.send(p.sock, ("ok", None))
            elif op == "probe":
                simos.send(p.sock, ("ok", self._probe(p, args[0])))
            elif op == "exit":
                p.status, p.error = args
                self._close_all(p)
                if p.status == "done":
                    simos.send(p.sock, ("ok", None))
            else:
                p.pending = (op, args)
        if p.status != "running":
            self._reap(p)

    def _fork(self, p, args):
        """`p` becomes two; they share the files it has open."""
        adopt_orphans()
        fds = socket.recv_fds(p.sock, 1, 1)[1]
        q = Proc(len(self.procs), self.pid0 + len(self.procs))
        for fd, of in p.fds.items():
            if fd > 2:
                q.fds[fd] = of
        q.next = p.next
        q.inherited = frozenset(q.fds)
        q.parent = (p.idx,) + tuple(args)
        q.child, q.pending, q.world = None, None, self
        q.sock = socket.socket(fileno=fds[0])
        p.forking = q.idx
        self.procs.append(q)
        self.log.append((p.idx, "fork", q.idx))
        simos.send(p.sock, ("ok", q.pid))

    def _probe(self, p, what):
        if what == "open_files":
            return p.open_files()
        if what == "stdout":
            return b"".join(p.stdout)
        if what == "served":
            return self.steps
        raise HarnessFailure(what)

    # -- faults ---------------------------------------------------------------
    def _fault(self, p, op, args):
        c = p.counts
        c[op] = c.get(op, 0) + 1
        c["*"] = c.get("*", 0) + 1
        for f in self.faults:
            if f.get("p", 0) != p.idx and f.get("p") != "*":
                continue
            if f["op"] not in (op, "*"):
                continue
            if f.get("path"):
                if f["path"] not in self._path_of(p, op, args):
                    continue
                f["seen"] = f.get("seen", 0) + 1
                n = f["seen"]
            else:
                n = c[f["op"]]
            if n == f["n"] or (f.get("sticky") and n > f["n"]):
                return f
        return None

    def _path_of(self, p, op, args):
        if op in ("read", "write", "fsync", "close", "lseek", "ftruncate",
                  "fstat", "pread"):
            of = p.fds.get(args[0])
            return of.path if of is not None else ""
        return " ".join(a for a in args if isinstance(a, str))

    def _hit(self, f, p, op, what=None):
        what = what or f["f"]
        self.fired[what] = self.fired.get(what, 0) + 1
        self.fired_list.append([p.idx, op, p.counts.get(op), what])

    def _serve(self, p):
        op, args = p.pending
        p.pending = None
        self.steps += 1
        p.nops += 1
        f = self._fault(p, op, args)
        name = self._path_of(p, op, args)
        note = None
        reply = None
        if f is not None:
            kind = f["f"]
            note = kind
            if kind in ERR:
                if op == "write" and f.get("arg") and len(args[1]) > 1:
                    # part of it got through first
                    self._do(p, op, (args[0], args[1][:max(
                        1, int(len(args[1]) * f["arg"]))]))
                    note = kind + "-after-part"
                if op == "close":       # the descriptor is gone either way
                    self._do(p, op, args)
                self._hit(f, p, op)
                reply = ("err", (ERR[kind],
                                 name if op in ("open", "mkdir", "rename",
                                                "unlink", "stat", "listdir")
                                 else None))
            elif kind == "short" and op in ("read", "write"):
                self._hit(f, p, op)
                frac = f.get("arg", 0.5)
                if op == "read":
                    args = (args[0], max(1, int(args[1] * frac)))
                else:
                    args = (args[0], args[1][:max(1, int(len(args[1])
                                                         * frac))])
            elif kind == "eintr":
                self._hit(f, p, op)
                simos.send(p.sock, ("eintr", None))
            elif kind == "signal":
                self._hit(f, p, op)
                if f.get("after") or op == "close":
                    self._do(p, op, args)
                reply = ("signal", None)
            elif kind == "oom":
                if op == "close":
                    self._do(p, op, args)
                self._hit(f, p, op)
                reply = ("oom", None)
            elif kind in ("kill", "power"):
                if op == "write" and f.get("arg") is not None and \
                        len(args[1]) > 1:
                    self._do(p, op, (args[0], args[1][:max(
                        1, int(len(args[1]) * f["arg"]))]))
                    note = kind + "-torn"
                    self._hit(f, p, op, "torn-write")
                elif f.get("after"):
                    self._do(p, op, args)
                    note = kind + "-after"
                self._hit(f, p, op)
                self.log.append((p.idx, op, name, note))
                if kind == "kill":
                    self._die(p)
                else:
                    self.crashed = self.fs.power_loss(
                        random.Random("power:%s" % f.get("seed", 0)))
                    for q in self.procs:
                        if q.status == "running":
                            self._die(q)
                if self.after_step is not None:
                    self.after_step(self, p, op, args)
                return
            else:
                note = None
        if reply is None:
            reply = self._do(p, op, args)
        self.log.append((p.idx, op, name, note,
                         len(reply[1]) if op == "read" and reply[0] == "ok"
                         else (reply[1] if op == "write" else reply[0])))
        if self.after_step is not None:
            self.after_step(self, p, op, args)
        try:
            simos.send(p.sock, reply)
        except (BrokenPipeError, ConnectionError):
            p.status, p.error = "harness", "child vanished"

    def _die(self, p):
        p.status = "killed"
        self._close_all(p)
        p.pending = None
        self._reap(p)

    def _close_all(self, p):
        mine = list(p.fds.values())
        p.fds = {}
        for of in mine:
            self.fs.unlock(self, of)

    def _do(self, p, op, args):
        fn = getattr(self.fs, "sys_" + op, None)
        if fn is None:
            raise HarnessFailure("no such system call: %s" % op)
        try:
            return ("ok", fn(p, *args))
        except SimOSError as e:
            if e.eno == errno.ENOSPC:
                self.fired["disk-full"] = self.fired.get("disk-full", 0) + 1
                self.fired_list.append([p.idx, op, p.counts.get(op),
                                        "disk-full"])
            return ("err", (e.eno, e.path))

    # -- the loop ---------------------------------------------------------------
    def run(self):
        """Serve until every process has ended."""
        deadline = _monotonic() + self.max_wall
        last = None
        try:
            while True:
                for p in self.procs:
                    if p.status == "running" and p.pending is None:
                        self._fill(p, deadline)
                live = [p for p in self.procs if p.status == "running"]
                if not live:
                    break
                if len(live) == 1:
                    p = live[0]
                    if self.order_in:
                        self.order_in.pop(0)
                elif self.order_in is not None:
                    p = None
                    while self.order_in and p is None:
                        want = self.order_in.pop(0)
                        p = next((q for q in live if q.idx == want), None)
                    p = p or live[0]
                elif last in live and self.rng.random() < self.stay:
                    p = last
                else:
                    p = live[self.rng.randrange(len(live))]
                last = p
                self.order.append(p.idx)
                self._serve(p)
        finally:
            for p in self.procs:
                self._reap(p)
            for pid in self.orphans:
                try:                # ours now, unless its parent had it
                    _waitpid(pid, 0)
                except OSError:
                    pass
        for p in self.procs:
            if p.status == "harness":
                raise HarnessFailure(p.error)
        return self
