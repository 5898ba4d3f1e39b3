"""Interposition inside a simulated process.

install() replaces every door to the operating system that Python code can
use for files, time, process identity and randomness.  Requests travel over
`Kernel.call` to the controller, which owns the simulated disk, decides which
process runs next and injects faults.  install() runs in the pristine server,
before taupy is imported; the doors stay transparent until a simulated process
calls `attach`.
"""
import builtins
import errno as _errno
import io
import os
import pickle
import random
import socket
import stat as _stat
import struct
import sys
import threading
import time

FD0 = 10000                    # simulated descriptors start here

real = {n: getattr(os, n) for n in (
    "open", "read", "write", "close", "fsync", "fdatasync", "lseek",
    "ftruncate", "truncate", "stat", "lstat", "fstat", "mkdir", "rmdir",
    "rename", "replace", "unlink", "remove", "listdir", "scandir", "access",
    "chmod", "fchmod", "utime", "link", "symlink", "readlink", "getcwd",
    "getcwdb", "chdir", "getpid", "getppid", "urandom", "dup", "isatty",
    "sync", "pread", "pwrite", "sendfile", "fork", "system", "posix_fallocate",
    "umask", "statvfs", "register_at_fork")}
real_open = builtins.open
real_time = {n: getattr(time, n) for n in (
    "time", "time_ns", "monotonic", "monotonic_ns", "perf_counter",
    "perf_counter_ns", "process_time", "sleep", "thread_time")}


class HarnessError(BaseException):
    """The simulator cannot represent what the code did."""


class Kernel(object):
    """This process's end of the line to the controller."""
    sock = None
    cwd = "/sim"
    pid = 4242
    shift = 0               # the process number seen is pid - shift
    ticks = 0
    clock = 1000000000.0        # simulated time of day
    tick = 0.001                # how much each reading of a clock takes
    jumps = ()                  # [(reading, seconds)]: the clock is set
    before_call = None          # thread scheduler hook: preemption at syscalls
    ppid = 1
    umask = 0o022
    forked = False              # this process is a fork of a simulated one
    forking = None              # what is to be forked, while it is

    def call(self, op, *args):
        if self.before_call is not None:
            self.before_call(op)
        return self.raw_call(op, *args)

    def raw_call(self, op, *args):
        send(self.sock, (op, args))
        while True:
            kind, val = recv(self.sock)
            if kind == "ok":
                return val
            if kind == "err":
                eno, path = val
                raise OSError(eno, os.strerror(eno), path) \
                    if path is not None else OSError(eno, os.strerror(eno))
            if kind == "eintr":         # PEP 475: retried by the interpreter
                continue
            if kind == "signal":
                raise KeyboardInterrupt()
            if kind == "oom":
                raise MemoryError()
            raise HarnessError("bad reply %r" % (kind,))


def send(sock, msg):
    b = pickle.dumps(msg, 4)
    sock.sendall(struct.pack("!I", len(b)) + b)


def recv(sock):
    h = _exactly(sock, 4)
    return pickle.loads(_exactly(sock, struct.unpack("!I", h)[0]))


def _exactly(sock, n):
    out = b""
    while len(out) < n:
        b = sock.recv(n - len(out))
        if not b:
            raise EOFError("peer gone")
        out += b
    return out


K = Kernel()


def active():
    return K.sock is not None


def absp(path):
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not path:
        raise FileNotFoundError(_errno.ENOENT, os.strerror(_errno.ENOENT),
                                path)
    if not path.startswith("/"):
        path = K.cwd.rstrip("/") + "/" + path
    return os.path.normpath(path)


# --------------------------------------------------------------------------
class SimRaw(io.RawIOBase):
    """What io.FileIO is for a real descriptor."""

    def __init__(self, name, fd, readable, writable, closefd=True,
                 append=False):
        self.name, self._fd = name, fd
        self._r, self._w = readable, writable
        self._closefd = closefd
        if append:
            self.mode = "ab+" if readable else "ab"
        else:
            self.mode = "rb+" if readable and writable else (
                "rb" if readable else "wb")

    def fileno(self):
        self._check()
        return self._fd

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self):
        self._check()
        return self._r

    def writable(self):
        self._check()
        return self._w

    def seekable(self):
        self._check()
        return self._fd >= FD0

    def isatty(self):
        return False

    def readinto(self, b):
        self._check()
        if not self._r:
            raise io.UnsupportedOperation("File not open for reading")
        m = memoryview(b).cast("B")
        d = K.call("read", self._fd, len(m))
        m[:len(d)] = d
        return len(d)

    def write(self, b):
        self._check()
        if self._w is None:         # a stream of the harness, given up
            return len(b)
        if not self._w:
            raise io.UnsupportedOperation("File not open for writing")
        return K.call("write", self._fd, bytes(memoryview(b).cast("B")))

    def seek(self, off, whence=0):
        self._check()
        return K.call("lseek", self._fd, off, whence)

    def tell(self):
        return self.seek(0, 1)

    def truncate(self, size=None):
        self._check()
        if size is None:
            size = self.tell()
        K.call("ftruncate", self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd and K.sock is not None:
                K.call("close", self._fd)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    if not active() or (isinstance(file, int) and file < FD0):
        return real_open(file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
    modes = set(mode)
    if modes - set("axrwb+t") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading = "x" in modes, "r" in modes
    writing, appending, updating = "w" in modes, "a" in modes, "+" in modes
    text, binary = "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append "
                         "mode")
    if binary and (encoding or errors or newline is not None):
        raise ValueError("binary mode doesn't take an encoding argument")
    flags = os.O_CLOEXEC
    if creating:
        flags |= os.O_EXCL | os.O_CREAT
    if writing:
        flags |= os.O_CREAT | os.O_TRUNC
    if appending:
        flags |= os.O_APPEND | os.O_CREAT
    r, w = reading or updating, not reading or updating
    flags |= os.O_RDWR if r and w else (os.O_RDONLY if r else os.O_WRONLY)
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, flags)
    else:
        try:
            fd = sim_os_open(file, flags, 0o666)
            try:
                if _stat.S_ISDIR(K.call("fstat", fd)[0]):
                    raise IsADirectoryError(_errno.EISDIR,
                                            os.strerror(_errno.EISDIR))
            except BaseException:
                K.raw_call("close", fd)
                raise
        except OSError as e:
            e.filename = file
            raise
    raw = SimRaw(file, fd, r, w, closefd, appending)
    result = raw
    try:
        if appending:
            raw.seek(0, 2)
        line_buffering = buffering == 1
        if buffering < 0 or buffering == 1:
            buffering = io.DEFAULT_BUFFER_SIZE
        if buffering == 0:
            if binary:
                return raw
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            result = io.BufferedRandom(raw, buffering)
        elif w:
            result = io.BufferedWriter(raw, buffering)
        else:
            result = io.BufferedReader(raw, buffering)
        if binary:
            return result
        result = io.TextIOWrapper(result, encoding, errors, newline,
                                  line_buffering)
        result.mode = mode
        return result
    except BaseException:
        result.close()
        raise


def _no_dir_fd(kw):
    if any(v is not None for v in kw.values()):
        raise HarnessError("dir_fd is not simulated")


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not active():
        return real["open"](path, flags, mode, dir_fd=dir_fd)
    _no_dir_fd({"d": dir_fd})
    return K.call("open", absp(path), flags, mode & ~K.umask)


def _fdcall(name, fn):
    """fn(fd, ...) for simulated descriptors, the real call otherwise."""
    def wrapper(fd, *a, **k):
        if active() and (isinstance(fd, int) and (fd >= FD0 or fd in (1, 2))):
            return fn(fd, *a, **k)
        return real[name](fd, *a, **k)
    wrapper.__name__ = name
    return wrapper


def _pathcall(name, fn):
    def wrapper(path, *a, **k):
        if not active():
            return real[name](path, *a, **k)
        if isinstance(path, int):
            raise HarnessError("os.%s on a descriptor" % name)
        return fn(path, *a, **k)
    wrapper.__name__ = name
    return wrapper


def _st(t):
    """From ten fields, the times in ns."""
    ns = [x if x > 10 ** 12 else x * 10 ** 9 for x in t[7:10]]
    d = {}
    for n, x in zip(("atime", "mtime", "ctime"), ns):
        d["st_" + n] = x / 1e9
        d["st_" + n + "_ns"] = x
    d.update(st_blksize=4096, st_blocks=(t[6] + 511) // 512, st_rdev=0)
    return os.stat_result(t[:7] + tuple(x // 10 ** 9 for x in ns), d)


def _utime(path, times=None, *, ns=None, dir_fd=None, follow_symlinks=True):
    if not active():
        return real["utime"](path, times, dir_fd=dir_fd,
                             follow_symlinks=follow_symlinks) \
            if ns is None else real["utime"](
                path, ns=ns, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    when = ns[1] if ns is not None else (
        int(times[1] * 1e9) if times is not None else None)
    return K.call("utime", absp(path), when)


def _statvfs(path):
    if not active():
        return real["statvfs"](path)
    return os.statvfs_result(K.call("statvfs", absp(path)))


def _p_stat(path, *, dir_fd=None, follow_symlinks=True):
    _no_dir_fd({"d": dir_fd})
    return _st(K.call("stat", absp(path), follow_symlinks))


def _stat_any(path, **k):
    if active() and isinstance(path, int):
        if path >= FD0 or path in (1, 2):
            return _st(K.call("fstat", path))
        return real["fstat"](path)
    if not active():
        return real["stat"](path, **k)
    return _p_stat(path, **k)


class DirEntry(object):
    def __init__(self, base, name, kind):
        self.name, self.path, self._k = name, os.path.join(base, name), kind

    def is_dir(self, follow_symlinks=True):
        return self._k == "d"

    def is_file(self, follow_symlinks=True):
        return self._k == "f"

    def is_symlink(self):
        return False

    def stat(self, follow_symlinks=True):
        return os.stat(self.path)

    def inode(self):
        return os.stat(self.path).st_ino

    def __fspath__(self):
        return self.path


class ScanDir(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _listdir(path="."):
    if not active():
        return real["listdir"](path)
    return [n for n, _ in K.call("listdir", absp(path))]


def _scandir(path="."):
    if not active():
        return real["scandir"](path)
    return ScanDir(DirEntry(os.fspath(path), n, k)
                   for n, k in K.call("listdir", absp(path)))


def _two(name):
    def wrapper(src, dst, *, src_dir_fd=None, dst_dir_fd=None, **k):
        if not active():
            return real[name](src, dst, src_dir_fd=src_dir_fd,
                              dst_dir_fd=dst_dir_fd, **k)
        _no_dir_fd({"a": src_dir_fd, "b": dst_dir_fd})
        op = {"rename": "rename", "replace": "rename", "link": "link"}[name]
        return K.call(op, absp(src), absp(dst))
    return wrapper


def _refuse(name):
    def wrapper(*a, **k):
        if not active():
            return real[name](*a, **k)
        raise HarnessError("os.%s is not simulated" % name)
    return wrapper


def _umask(m):
    old, K.umask = K.umask, m & 0o777
    return old


def _urandom(n):
    if not active():
        return real["urandom"](n)
    K.ticks += 1
    return random.Random("%d:%r:%d:%d" % (K.pid, K.clock, K.ticks, n)
                         ).randbytes(n)


def _clock(name, scale):
    def wrapper():
        if not active():
            return real_time[name]()
        K.ticks += 1
        v = K.clock + K.ticks * K.tick
        if name in ("time", "time_ns"):
            v += sum(d for n, d in K.jumps if K.ticks >= n)
        return int(v * 1e9) if scale else v
    return wrapper


def _sleep(s):
    if not active():
        return real_time["sleep"](s)
    K.ticks += int(s / K.tick) + 1
    K.call("nop")


def install_fcntl():
    try:
        import fcntl
        import mmap
    except ImportError:
        return
    real_flock, real_lockf, real_fcntl = fcntl.flock, fcntl.lockf, fcntl.fcntl

    def fd_of(f):
        return f if isinstance(f, int) else f.fileno()

    def lock(f, op):
        how = "un" if op & fcntl.LOCK_UN else (
            "ex" if op & fcntl.LOCK_EX else "sh")
        while True:
            try:
                return K.call("flock", fd_of(f), how)
            except OSError as e:
                if e.errno != _errno.EAGAIN or op & fcntl.LOCK_NB:
                    raise

    def flock(f, op):
        if not active() or fd_of(f) < FD0:
            return real_flock(f, op)
        return lock(f, op)

    def lockf(f, op, *a):
        if not active() or fd_of(f) < FD0:
            return real_lockf(f, op, *a)
        return lock(f, op)

    def fcntl_(f, cmd, arg=0):
        if not active() or fd_of(f) < FD0:
            return real_fcntl(f, cmd, arg)
        if cmd in (fcntl.F_GETFD, fcntl.F_SETFD, fcntl.F_GETFL,
                   fcntl.F_SETFL):
            return 0
        raise HarnessError("fcntl %d is not simulated" % cmd)
    fcntl.flock, fcntl.lockf, fcntl.fcntl = flock, lockf, fcntl_
    real_mmap = mmap.mmap

    class Mmap(real_mmap):
        """A private copy for reading; shared writing is not simulated."""
        def __new__(cls, fileno, length, *a, **k):
            if not active() or fileno < FD0:
                return real_mmap.__new__(cls, fileno, length, *a, **k)
            acc = k.get("access", mmap.ACCESS_READ)
            if acc not in (mmap.ACCESS_READ, mmap.ACCESS_COPY):
                raise HarnessError("writing by mmap is not simulated")
            off = k.get("offset", 0)
            size = length or K.call("fstat", fileno)[6] - off
            if size <= 0:
                raise ValueError("cannot mmap an empty file")
            m = real_mmap.__new__(cls, -1, size)
            m.write(K.call("pread", fileno, size, off))
            m.seek(0)
            return m
    mmap.mmap = Mmap


def install():
    builtins.open = sim_open
    io.open = sim_open
    p = {
        "open": sim_os_open,
        "read": _fdcall("read", lambda fd, n: K.call("read", fd, n)),
        "write": _fdcall("write", lambda fd, b: K.call(
            "write", fd, bytes(memoryview(b).cast("B")))),
        "pread": _fdcall("pread",
                         lambda fd, n, o: K.call("pread", fd, n, o)),
        "close": _fdcall("close", lambda fd: K.call("close", fd)),
        "fsync": _fdcall("fsync", lambda fd: K.call("fsync", fd)),
        "fdatasync": _fdcall("fdatasync", lambda fd: K.call("fsync", fd)),
        "lseek": _fdcall("lseek",
                         lambda fd, o, w: K.call("lseek", fd, o, w)),
        "ftruncate": _fdcall("ftruncate",
                             lambda fd, n: K.call("ftruncate", fd, n)),
        "fstat": _fdcall("fstat", lambda fd: _st(K.call("fstat", fd))),
        "dup": _fdcall("dup", lambda fd: K.call("dup", fd)),
        "isatty": _fdcall("isatty", lambda fd: False),
        "fchmod": _fdcall("fchmod", lambda fd, m: K.call("fchmod", fd, m)),
        "posix_fallocate": _fdcall("posix_fallocate",
                                   lambda fd, o, n: None),
        "stat": _stat_any,
        "lstat": _pathcall("lstat", lambda q, dir_fd=None: _st(
            K.call("stat", absp(q), False))),
        "truncate": _pathcall("truncate",
                              lambda q, n: K.call("truncate", absp(q), n)),
        "mkdir": _pathcall("mkdir", lambda q, mode=0o777, dir_fd=None: K.call(
            "mkdir", absp(q), mode)),
        "rmdir": _pathcall("rmdir", lambda q, dir_fd=None: K.call(
            "rmdir", absp(q))),
        "unlink": _pathcall("unlink", lambda q, dir_fd=None: K.call(
            "unlink", absp(q))),
        "remove": _pathcall("remove", lambda q, dir_fd=None: K.call(
            "unlink", absp(q))),
        "access": _pathcall("access", lambda q, m, **k: K.call(
            "access", absp(q), m)),
        "chmod": _pathcall("chmod", lambda q, m, **k: K.call(
            "chmod", absp(q), m)),
        "utime": _utime, "statvfs": _statvfs,
        "pwrite": _fdcall("pwrite", lambda fd, b, o: K.call(
            "pwrite", fd, bytes(memoryview(b).cast("B")), o)),
        "readlink": _pathcall("readlink", lambda q, dir_fd=None: K.call(
            "readlink", absp(q))),
        "listdir": _listdir, "scandir": _scandir,
        "rename": _two("rename"), "replace": _two("replace"),
        "link": _two("link"),
        "sync": lambda: K.call("sync") if active() else real["sync"](),
        "getcwd": lambda: K.cwd if active() else real["getcwd"](),
        "getcwdb": lambda: K.cwd.encode() if active() else real["getcwdb"](),
        "getpid": lambda: K.pid - K.shift if active() else real["getpid"](),
        "getppid": lambda: max(1, K.ppid - K.shift) if active() else real["getppid"](),
        "urandom": _urandom,
        "umask": lambda m: _umask(m) if active() else real["umask"](m),
    }

    def chdir(q):
        if not active():
            return real["chdir"](q)
        if not _stat.S_ISDIR(K.call("stat", absp(q), True)[0]):
            raise NotADirectoryError(_errno.ENOTDIR, "not a directory", q)
        K.cwd = absp(q)
    p["chdir"] = chdir
    for n in ("sendfile", "symlink", "fork", "system"):
        p[n] = _refuse(n)
    for n, f in p.items():
        setattr(os, n, f)
    random._urandom = _urandom
    for n in ("time", "monotonic", "perf_counter", "process_time",
              "thread_time"):
        setattr(time, n, _clock(n, False))
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(time, n, _clock(n, True))
    time.sleep = _sleep
    install_fcntl()
    real["register_at_fork"](before=_before_fork,
                             after_in_parent=_after_fork_in_parent,
                             after_in_child=_after_fork_in_child)
    try:
        import shutil
        shutil._USE_CP_SENDFILE = False
    except ImportError:
        pass


def _before_fork():
    """Runs last, after what the code under test does before a fork."""
    if K.forking is None:
        return
    a, b = socket.socketpair()
    send(K.sock, ("fork", K.forking))
    socket.send_fds(K.sock, [b"f"], [a.fileno()])
    kind, val = recv(K.sock)
    a.close()
    K.parent = (K.sock, K.pid, K.ppid)
    K.ppid, K.pid, K.sock = K.pid, val, b


def _after_fork_in_parent():
    if K.forking is None:
        return
    K.sock.close()
    K.sock, K.pid, K.ppid = K.parent
    K.forking = None


def _after_fork_in_child():
    if K.forking is None:
        return
    K.parent[0].close()
    K.forking, K.forked, K.before_call = None, True, None
    import tempfile
    random.seed("fork:%d" % K.pid)      # seeded anew, as CPython does
    tempfile._name_sequence = iter(
        "s%d_%d" % (K.pid, i) for i in range(1 << 30))


def fork(what):
    """The simulated process becomes two.  True in the child."""
    K.forking = what
    try:
        pid = real["fork"]()
    except BaseException:
        if K.forking is not None and K.sock is not K.parent[0]:
            _after_fork_in_parent()
        K.forking = None
        raise
    if pid == 0:
        return True
    K.raw_call("forked", pid)
    return False


def attach(sock, pid, cwd="/sim", env=None):
    """This process is now a simulated one.

    env: {"clock", "tick", "jumps", "cwd", "rand"}, all optional."""
    env = env or {}
    K.sock, K.pid, K.cwd, K.ticks = sock, pid, env.get("cwd", cwd), 0
    K.clock = env.get("clock", 1000000000.0 + pid)
    K.tick = env.get("tick", 0.001)
    K.shift = env.get("shift", 0)
    K.jumps = [tuple(j) for j in env.get("jumps", ())]
    random.seed(env.get("rand", pid))
    try:
        import tempfile
        tempfile._name_sequence = iter(
            "s%d_%d" % (pid, i) for i in range(1 << 30))
    except ImportError:
        pass
    np = sys.modules.get("numpy")
    if np is not None:
        np.random.seed(env.get("rand", pid) & 0x7fffffff)
