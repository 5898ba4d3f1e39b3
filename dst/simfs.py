"""The simulated disk.

Lives in the controller (never in the process that runs code under test).  A
copy-on-write overlay: nothing is ever written to the real file system; reads
of paths that were never written in the simulation fall through to it, except
below `hidden` prefixes.

Two kinds of loss are modelled:
 * process kill   - the kernel's view (`Inode.data`, `names`) survives; data the
                    process had not yet handed to write(2) is gone;
 * power loss     - only what was made durable survives for certain.  fsync(fd)
                    makes the data of that file and every earlier directory
                    operation durable.  Of the rest, a seeded prefix of the
                    directory operations and a seeded subset of the written
                    512-byte sectors survive; sectors that were allocated but
                    not written read back as zeros.
"""
import errno
import os as _os
import stat as _stat

# Captured before the interposition of simos is installed.
_lstat, _stat_real, _listdir, _readlink = (
    _os.lstat, _os.stat, _os.listdir, _os.readlink)
_io_open = open

SECTOR = 512
O_ACC = _os.O_RDONLY | _os.O_WRONLY | _os.O_RDWR


class SimOSError(Exception):
    """An errno to be raised in the simulated process."""

    def __init__(self, eno, path=None):
        Exception.__init__(self, eno, path)
        self.eno, self.path = eno, path


class Inode(object):
    __slots__ = ("kind", "data", "durable", "pending", "mode", "ino", "mtime")

    def __init__(self, kind, ino, data=b"", durable=None, mode=None):
        self.kind = kind
        self.ino = ino
        self.data = bytearray(data)
        self.durable = bytes(data) if durable is None else durable
        self.pending = []           # (offset, length) and ("t", size)
        self.mode = mode if mode is not None else (
            0o755 if kind == "d" else 0o644)
        self.mtime = 0


class OpenFile(object):
    __slots__ = ("inode", "pos", "flags", "path", "special")

    def __init__(self, inode, flags, path, special=None):
        self.inode, self.flags, self.path = inode, flags, path
        self.pos = 0
        self.special = special


class SimFS(object):
    def __init__(self, hidden=(), free=None):
        self.hidden = tuple(hidden)
        self.names = {}             # path -> Inode, or None when removed
        self.base = {}              # durable namespace, same layout
        self.dirops = []            # [(path, Inode or None), ...] per op
        self.next_ino = 1000
        self.free = free            # bytes left on the disk, None = plenty
        self.clock = 0
        self.flocks = []            # (inode, open file, kind)
        # Time stamps in ns.  A real file system's are as coarse as a timer
        # tick, some are coarse as two seconds: `step` per change.
        self.mtime0 = 1500000000 * 10 ** 9
        self.step = 1000000

    # -- set-up ------------------------------------------------------------
    def put(self, path, data=b"", kind="f"):
        """Create a durable file or directory, with its parents."""
        parent = _os.path.dirname(path)
        if parent != path and self.lookup(parent) is None:
            self.put(parent, kind="d")
        node = self._new(kind, data)
        self.names[path] = node
        self.base[path] = node
        return node

    def _new(self, kind, data=b"", durable=None):
        self.next_ino += 1
        node = Inode(kind, self.next_ino, data, durable)
        node.mtime = self.mtime0 + self.clock * self.step
        return node

    # -- lookups -----------------------------------------------------------
    def _is_hidden(self, path):
        return any(path == h or path.startswith(h + "/") for h in self.hidden)

    def lookup(self, path):
        if path in self.names:
            return self.names[path]
        if self._is_hidden(path) or path.startswith("/sim"):
            if path in ("/sim",) or path in self.hidden:
                node = self._new("d")
                self.names[path] = self.base[path] = node
                return node
            return None
        try:
            st = _stat_real(path)
        except OSError:
            return None
        if _stat.S_ISDIR(st.st_mode):
            node = self._new("d")
        elif _stat.S_ISREG(st.st_mode):
            with _io_open(path, "rb") as f:
                node = self._new("f", f.read())
        else:
            return None
        self.names[path] = self.base[path] = node
        return node

    def _need(self, path):
        node = self.lookup(path)
        if node is None:
            parent = self.lookup(_os.path.dirname(path))
            if parent is not None and parent.kind != "d":
                raise SimOSError(errno.ENOTDIR, path)
            raise SimOSError(errno.ENOENT, path)
        return node

    def _parent(self, path):
        p = self.lookup(_os.path.dirname(path))
        if p is None:
            raise SimOSError(errno.ENOENT, path)
        if p.kind != "d":
            raise SimOSError(errno.ENOTDIR, path)
        return p

    def children(self, path):
        node = self._need(path)
        if node.kind != "d":
            raise SimOSError(errno.ENOTDIR, path)
        out = set()
        if not (self._is_hidden(path) or path.startswith("/sim")):
            try:
                out.update(n for n in _listdir(path)
                           if not self._is_hidden(_os.path.join(path, n)))
            except OSError:
                pass
        pre = path.rstrip("/") + "/"
        for p, n in self.names.items():
            if p.startswith(pre) and "/" not in p[len(pre):]:
                if n is None:
                    out.discard(p[len(pre):])
                else:
                    out.add(p[len(pre):])
        return sorted(out)

    def _dirop(self, *changes):
        """changes: (path, inode or None); one atomic directory operation."""
        for path, node in changes:
            if path not in self.base:
                self.base.setdefault(path, None)
            self.names[path] = node
            parent = self.names.get(_os.path.dirname(path))
            if parent is not None:
                self.touch(parent)
        self.dirops.append(list(changes))

    # -- data --------------------------------------------------------------
    def write_at(self, node, pos, buf):
        """Returns the number of bytes that fitted on the disk."""
        grow = pos + len(buf) - len(node.data)
        if self.free is not None and grow > self.free:
            buf = buf[:max(0, len(buf) - (grow - self.free))]
            if not buf:
                raise SimOSError(errno.ENOSPC)
            grow = pos + len(buf) - len(node.data)
        if self.free is not None and grow > 0:
            self.free -= grow
        if pos > len(node.data):
            node.data.extend(b"\0" * (pos - len(node.data)))
        node.data[pos:pos + len(buf)] = buf
        node.pending.append((pos, len(buf)))
        self.touch(node)
        return len(buf)

    def touch(self, node):
        self.clock += 1
        node.mtime = self.mtime0 + self.clock * self.step

    def truncate(self, node, size):
        if self.free is not None:
            self.free += len(node.data) - size
        if size < len(node.data):
            del node.data[size:]
        else:
            node.data.extend(b"\0" * (size - len(node.data)))
        node.pending.append(("t", size))
        self.touch(node)

    def fsync(self, node):
        node.durable = bytes(node.data)
        node.pending = []
        self.commit_dirops(len(self.dirops))

    def commit_dirops(self, n):
        for changes in self.dirops[:n]:
            for path, node in changes:
                self.base[path] = node
        del self.dirops[:n]

    # -- crash -------------------------------------------------------------
    def power_loss(self, rng):
        """Keep what a disk could hold after power was lost right now."""
        keep = rng.randint(0, len(self.dirops))
        style = rng.choice(["none", "all", "some", "some"])
        self.commit_dirops(keep)
        lost = len(self.dirops)
        self.dirops = []
        self.names = dict(self.base)
        torn = 0
        seen = set()
        for path in sorted(self.names):
            node = self.names[path]
            if node is None or node.kind != "f" or id(node) in seen:
                continue
            seen.add(id(node))
            if not node.pending:
                node.data = bytearray(node.durable)
                continue
            torn += 1
            if style == "all":
                data = bytes(node.data)
            else:
                old, new = node.durable, bytes(node.data)
                size = rng.choice([len(old), len(new), len(new)])
                data = bytearray(old[:size])
                data.extend(b"\0" * (size - len(data)))
                for off in range(0, min(size, len(new)), SECTOR):
                    if style == "some" and rng.random() < 0.5:
                        data[off:off + SECTOR] = new[off:off + SECTOR]
                data = bytes(data[:size])
            node.data = bytearray(data)
            node.durable = bytes(data)
            node.pending = []
        return {"dirops_lost": lost, "files_torn": torn, "style": style}

    # -- observation ---------------------------------------------------------
    def snapshot(self, prefix=None):
        """path -> content (bytes) or 'dir' of everything the overlay holds."""
        out = {}
        for p, n in self.names.items():
            if p in self.hidden:
                continue
            if prefix is not None and not (p == prefix or
                                           p.startswith(prefix + "/")):
                continue
            if n is None:
                out[p] = None
            else:
                out[p] = "dir" if n.kind == "d" else bytes(n.data)
        return out

    def get(self, path):
        n = self.lookup(path)
        return None if n is None or n.kind != "f" else bytes(n.data)

    # -- system calls --------------------------------------------------------
    def sys_open(self, proc, path, flags, mode=0o666):
        node = self.lookup(path)
        acc = flags & O_ACC
        if node is None:
            if not flags & _os.O_CREAT:
                self._need(path)
            self._parent(path)
            node = self._new("f", b"", b"")
            node.mode = mode & 0o7777
            self._dirop((path, node))
        else:
            if flags & _os.O_CREAT and flags & _os.O_EXCL:
                raise SimOSError(errno.EEXIST, path)
            if node.kind == "d" and acc != _os.O_RDONLY:
                raise SimOSError(errno.EISDIR, path)
            if node.kind != "d" and flags & _os.O_DIRECTORY:
                raise SimOSError(errno.ENOTDIR, path)
            if flags & _os.O_TRUNC and acc != _os.O_RDONLY:
                self.truncate(node, 0)
        return proc.new_fd(OpenFile(node, flags, path))

    def sys_read(self, proc, fd, n):
        of = proc.fd(fd)
        if of.inode.kind == "d":
            raise SimOSError(errno.EISDIR, of.path)
        if of.flags & O_ACC == _os.O_WRONLY:
            raise SimOSError(errno.EBADF)
        d = bytes(of.inode.data[of.pos:of.pos + n])
        of.pos += len(d)
        return d

    def sys_pwrite(self, proc, fd, buf, off):
        of = proc.fd(fd)
        if of.flags & O_ACC == _os.O_RDONLY:
            raise SimOSError(errno.EBADF)
        return self.write_at(of.inode, off, buf)

    def sys_flock(self, proc, fd, how):
        """flock(2): how is "ex", "sh" or "un"; raises EAGAIN when busy."""
        of = proc.fd(fd)
        held = [l for l in self.flocks if l[0] is of.inode]
        if how == "un":
            self.flocks = [l for l in self.flocks if l[1] is not of]
            return
        if any(l[1] is not of and (how == "ex" or l[2] == "ex")
               for l in held):
            raise SimOSError(errno.EAGAIN)
        self.flocks = [l for l in self.flocks if l[1] is not of]
        self.flocks.append((of.inode, of, how))

    def sys_statvfs(self, proc, path):
        self._need(path)
        left = (self.free if self.free is not None else 1 << 40) // 4096
        return (4096, 4096, 1 << 30, left, left, 1 << 20, 1 << 19, 1 << 19,
                0, 255)

    def sys_pread(self, proc, fd, n, off):
        of = proc.fd(fd)
        return bytes(of.inode.data[off:off + n])

    def sys_write(self, proc, fd, buf):
        of = proc.fd(fd)
        if of.special is not None:
            of.special.append(bytes(buf))
            return len(buf)
        if of.flags & O_ACC == _os.O_RDONLY:
            raise SimOSError(errno.EBADF)
        if of.flags & _os.O_APPEND:
            of.pos = len(of.inode.data)
        n = self.write_at(of.inode, of.pos, buf)
        of.pos += n
        return n

    def sys_lseek(self, proc, fd, off, whence):
        of = proc.fd(fd)
        if of.special is not None:
            raise SimOSError(errno.ESPIPE)
        pos = {0: 0, 1: of.pos, 2: len(of.inode.data)}[whence] + off
        if pos < 0:
            raise SimOSError(errno.EINVAL)
        of.pos = pos
        return pos

    def sys_ftruncate(self, proc, fd, size):
        self.truncate(proc.fd(fd).inode, size)

    def sys_truncate(self, proc, path, size):
        self.truncate(self._need(path), size)

    def sys_fsync(self, proc, fd):
        of = proc.fd(fd)
        if of.special is None:
            self.fsync(of.inode)

    def sys_sync(self, proc):
        for n in list(self.names.values()):
            if n is not None:
                self.fsync(n)

    def sys_close(self, proc, fd):
        of = proc.fd(fd)
        del proc.fds[fd]
        self.unlock(proc.world, of)

    def unlock(self, world, of):
        """A lock goes with the last descriptor of its open file."""
        if not any(o is of for p in world.procs for o in p.fds.values()):
            self.flocks = [l for l in self.flocks if l[1] is not of]

    def sys_dup(self, proc, fd):
        return proc.new_fd(proc.fd(fd))

    def _stat_of(self, node):
        kind = {"d": _stat.S_IFDIR, "f": _stat.S_IFREG}[node.kind]
        size = 4096 if node.kind == "d" else len(node.data)
        return (kind | node.mode, node.ino, 77, 1, 0, 0, size,
                node.mtime, node.mtime, node.mtime)

    def sys_stat(self, proc, path, follow=True):
        if not follow and path not in self.names and not (
                self._is_hidden(path) or path.startswith("/sim")):
            try:
                st = _lstat(path)
            except OSError as e:
                raise SimOSError(e.errno, path)
            if _stat.S_ISLNK(st.st_mode):
                return tuple(st)[:10]
        return self._stat_of(self._need(path))

    def sys_readlink(self, proc, path):
        if path in self.names or path.startswith("/sim"):
            self._need(path)
            raise SimOSError(errno.EINVAL, path)
        try:
            return _readlink(path)
        except OSError as e:
            raise SimOSError(e.errno, path)

    def sys_fstat(self, proc, fd):
        of = proc.fd(fd)
        if of.special is not None:
            return (_stat.S_IFIFO | 0o600, 5, 77, 1, 0, 0, 0, 0, 0, 0)
        return self._stat_of(of.inode)

    def sys_mkdir(self, proc, path, mode=0o777):
        if self.lookup(path) is not None:
            raise SimOSError(errno.EEXIST, path)
        self._parent(path)
        self._dirop((path, self._new("d")))

    def sys_rmdir(self, proc, path):
        node = self._need(path)
        if node.kind != "d":
            raise SimOSError(errno.ENOTDIR, path)
        if self.children(path):
            raise SimOSError(errno.ENOTEMPTY, path)
        self._dirop((path, None))

    def sys_unlink(self, proc, path):
        node = self._need(path)
        if node.kind == "d":
            raise SimOSError(errno.EISDIR, path)
        if self.free is not None:
            self.free += len(node.data)
        self._dirop((path, None))

    def sys_rename(self, proc, src, dst):
        node = self._need(src)
        self._parent(dst)
        old = self.lookup(dst)
        if old is not None:
            if old is node:
                return
            if old.kind == "d" and node.kind != "d":
                raise SimOSError(errno.EISDIR, dst)
            if old.kind != "d" and node.kind == "d":
                raise SimOSError(errno.ENOTDIR, dst)
            if old.kind == "d" and self.children(dst):
                raise SimOSError(errno.ENOTEMPTY, dst)
            if self.free is not None and old.kind == "f":
                self.free += len(old.data)
        changes = [(src, None), (dst, node)]
        if node.kind == "d":
            pre = src.rstrip("/") + "/"
            for p in [p for p in self.names if p.startswith(pre)]:
                n = self.names[p]
                changes += [(p, None), (dst.rstrip("/") + p[len(src):], n)]
        self._dirop(*changes)

    def sys_link(self, proc, src, dst):
        node = self._need(src)
        self._parent(dst)
        if self.lookup(dst) is not None:
            raise SimOSError(errno.EEXIST, dst)
        self._dirop((dst, node))

    def sys_listdir(self, proc, path):
        return [(n, self.lookup(_os.path.join(path, n)) is not None and
                 self.lookup(_os.path.join(path, n)).kind)
                for n in self.children(path)]

    def sys_access(self, proc, path, mode):
        return self.lookup(path) is not None

    def sys_chmod(self, proc, path, mode):
        self._need(path).mode = mode & 0o7777

    def sys_fchmod(self, proc, fd, mode):
        proc.fd(fd).inode.mode = mode & 0o7777

    def sys_utime(self, proc, path, ns=None):
        node = self._need(path)
        if ns is None:
            self.touch(node)
        else:
            node.mtime = ns

    def sys_nop(self, proc):
        return None
