"""Simulated disk: real files in a scratch directory, reached through
interposed calls that inject faults and remember what is durable.

Process crash: everything already written stays (page cache survives).
Power loss: file data not fsynced is truncated, zeroed or lost, and the
directory operations since the last fsync survive only as a prefix."""
import builtins
import errno
import io
import os
import random
import shutil
import tempfile

import _io

from .core import SimCrash, World

R = {}          # the real functions
BASE = None


class Inode:
    def __init__(self, ino):
        self.ino = ino
        self.synced = None      # bytes at the last fsync
        self.dirty = False


class Disk:
    """faults: dict op number -> kind, consulted at every mutating operation
    (open, write, fsync, replace, unlink, close of a writer)."""

    def __init__(self, world, tag="d"):
        self.world = world
        self.root = os.path.join(scratch(), "%s-%09d" % (tag, Disk.count))
        Disk.count += 1
        R["mkdir"](self.root)
        self.ops = 0
        self.reads = 0
        self.dead = False
        self.plan = {}          # op number -> (kind, detail)
        self.read_plan = {}     # read number -> kind
        self.overlay = {}       # path elsewhere -> path under root
        self.ropens = 0
        self.ropen_plan = {}    # number of an open for reading -> errno name
        self.fds = {}           # fd -> path
        self.meta = []          # journal: (op, args) not yet durable
        self.base = {}          # durable directory: name -> inode number
        self.data = {}          # inode number -> bytes at its last fsync
        self.keep = {}          # inode number -> volatile bytes when unlinked
        self.trace = []
        self.budget = None      # bytes that fit before ENOSPC
        self.blksize = io.DEFAULT_BUFFER_SIZE   # what open() buffers
        self.suspended = 0

    count = 0

    def path(self, name):
        return os.path.join(self.root, name)

    def owns(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p).startswith(self.root + os.sep) \
            or os.path.abspath(p) == self.root

    def mapped(self, p):
        """Where a path outside the disk really is."""
        if not self.overlay or isinstance(p, int):
            return p
        try:
            q = os.path.abspath(os.fsdecode(os.fspath(p)))
        except TypeError:
            return p
        return self.overlay.get(q, p)

    def rel(self, p):
        return os.path.relpath(os.path.abspath(os.fsdecode(os.fspath(p))),
                               self.root)

    # -- fault decision -------------------------------------------------------
    def op(self, kind, detail=""):
        """A mutating operation begins.  Returns the fault to apply."""
        if self.dead:
            raise SimCrash("the process is gone")
        self.ops += 1
        self.trace.append((self.ops, kind, detail))
        w = self.world
        w.clock.advance(2e-3)
        w.event("disk", "%d %s %s" % (self.ops, kind, detail))
        f = self.plan.get(self.ops)
        if f is None:
            return None
        if f == "crash":
            self.crash("before %s" % kind)
        return f

    def crash(self, why):
        self.dead = True
        self.world.fault("process crash", why)
        raise SimCrash(why)

    def fail(self, code, why):
        self.world.fault("disk " + errno.errorcode[code], why)
        raise OSError(code, os.strerror(code), why)

    # -- durable state --------------------------------------------------------
    def ino(self, p):
        return os.stat(p).st_ino

    def note(self, op, *args):
        self.meta.append((op,) + args)

    def sync(self, ino, content):
        self.data[ino] = content
        # a journalling file system commits the directory updates so far
        self.commit(len(self.meta))

    def commit(self, k):
        for m in self.meta[:k]:
            if m[0] == "link":
                self.base[m[1]] = m[2]
            elif m[0] == "unlink":
                self.base.pop(m[1], None)
            elif m[0] == "rename":
                if m[1] in self.base:
                    self.base[m[2]] = self.base.pop(m[1])
        del self.meta[:k]

    def volatile(self, ino):
        if ino in self.keep:
            return self.keep[ino]
        for d, _, names in os.walk(self.root):
            for n in names:
                p = os.path.join(d, n)
                if os.stat(p).st_ino == ino:
                    with R["open"](p, "rb") as f:
                        return f.read()
        return None

    def remember(self, p):
        """p's inode loses this name: keep what it held, it may come back."""
        try:
            with R["open"](p, "rb") as f:
                self.keep[self.ino(p)] = f.read()
        except OSError:
            pass

    def power_loss(self, tape):
        """Replace the directory by a legal state after the power went."""
        k = len(self.meta) - tape.draw(len(self.meta) + 1, "journal lost")
        self.commit(k)
        out = {}
        for name, ino in sorted(self.base.items()):
            full = self.volatile(ino)
            synced = self.data.get(ino)
            if full is None:
                full = synced if synced is not None else b""
            if synced is not None and synced == full:
                out[name] = full
                continue
            how = tape.draw(4, "unsynced data of " + name)
            cut = tape.draw(len(full) + 1, "cut")
            if how == 0:
                out[name] = full
            elif how == 1:
                out[name] = full[:len(full) - cut]
            elif how == 2:
                out[name] = full[:len(full) - cut] + b"\0" * cut
            else:
                out[name] = synced if synced is not None else b""
            if how:
                self.world.fault("unsynced data lost", name)
        for d, dirs, names in os.walk(self.root, topdown=False):
            for n in names:
                R["unlink"](os.path.join(d, n))
        for name, content in out.items():
            p = self.path(name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with R["open"](p, "wb") as f:
                f.write(content)
        self.world.fault("power loss", "%d files" % len(out))

    def restart(self):
        """A new process on the same files; nothing is pending."""
        self.dead = False
        self.fds = {}
        self.plan = {}
        self.base, self.data, self.meta, self.keep = {}, {}, [], {}
        for d, _, names in os.walk(self.root):
            for n in names:
                p = os.path.join(d, n)
                with R["open"](p, "rb") as f:
                    c = f.read()
                self.base[self.rel(p)] = self.ino(p)
                self.data[self.ino(p)] = c

    def listing(self):
        out = []
        for d, _, names in os.walk(self.root):
            out += [os.path.relpath(os.path.join(d, n), self.root)
                    for n in names]
        return sorted(out)

    def remove(self):
        assert self.root.startswith(scratch() + os.sep)
        shutil.rmtree(self.root, ignore_errors=True)


def scratch():
    global BASE
    if BASE is None or not os.path.isdir(BASE):
        shm = "/dev/shm"
        d = shm if os.path.isdir(shm) and os.access(shm, os.W_OK) else None
        BASE = tempfile.mkdtemp(prefix="dst-disk-", dir=d)
        import atexit
        atexit.register(cleanup, BASE, os.getpid())
    return BASE


def cleanup(base, pid):
    if os.getpid() == pid and os.path.basename(base).startswith("dst-disk-"):
        shutil.rmtree(base, ignore_errors=True)


# -- raw file ----------------------------------------------------------------
class SimRaw(io.RawIOBase):
    """Unbuffered file with faults."""

    def __init__(self, disk, fd, path, readable, writable, closefd=True):
        self.disk, self.fd_, self.p = disk, fd, path
        self.name = path
        self.r, self.w_ = readable, writable
        self.closefd_ = closefd
        disk.fds[fd] = path

    def readable(self):
        return self.r

    def writable(self):
        return self.w_

    def seekable(self):
        return True

    def fileno(self):
        return self.fd_

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return os.lseek(self.fd_, pos, whence)

    def tell(self):
        return os.lseek(self.fd_, 0, 1)

    def truncate(self, size=None):
        if self.disk.dead:
            return 0
        if size is None:
            size = self.tell()
        os.ftruncate(self.fd_, size)
        return size

    def readinto(self, b):
        d = self.disk
        d.reads += 1
        f = d.read_plan.get(d.reads)
        n = len(b)
        if f in ("EIO", "ESTALE", "ENOMEM"):
            d.fail(getattr(errno, f), "read")
        if f == "interrupt":
            d.world.fault("interrupt inside a read")
            raise KeyboardInterrupt
        if f == "short" and n > 1:
            d.world.fault("short read")
            n = max(1, n // 3)
        data = R["read"](self.fd_, n)
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        return disk_write(self.disk, self.fd_, b)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self.closefd_:
                    self.disk.fds.pop(self.fd_, None)
                    try:
                        R["close"](self.fd_)
                    except OSError:
                        pass


def disk_write(d, fd, b):
    b = bytes(b)
    if d.dead:
        return len(b)              # nobody is there to write it
    f = d.op("write", "%d bytes" % len(b))
    n = len(b)
    if d.budget is not None:
        if d.budget < n:
            n, d.budget = d.budget, 0
            if n == 0:
                d.fail(errno.ENOSPC, "write")
            d.world.fault("disk full, partial write")
        else:
            d.budget -= n
    if f == "short" and n > 1:
        n = max(1, n // 2)
        d.world.fault("short write")
    elif f == "EIO":
        d.fail(errno.EIO, "write")
    elif f == "ENOSPC":
        R["write"](fd, b[:n // 2])
        d.fail(errno.ENOSPC, "write")
    elif f == "torn":
        R["write"](fd, b[:n // 2])
        d.world.fault("torn write")
        d.crash("inside a write")
    elif f == "interrupt":
        d.world.fault("interrupt inside a write")
        raise KeyboardInterrupt
    return R["write"](fd, b[:n])


# -- interposed calls ----------------------------------------------------------
def _disk():
    w = World.current
    if w is None or w.disk is None or w.disk.suspended:
        return None
    return w.disk


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    d = _disk()
    if d is not None:
        file = d.mapped(file)
    mine = d is not None and (
        (isinstance(file, int) and file in d.fds)
        or (not isinstance(file, int) and d.owns(file)))
    if not mine:
        return R["open"](file, mode, buffering, encoding, errors, newline,
                         closefd, opener)
    m = set(mode)
    plus = "+" in m
    readable = "r" in m or plus
    writable = bool(m & set("wax")) or plus
    if isinstance(file, int):
        fd, path = file, d.fds[file]
    else:
        flags = os.O_CLOEXEC
        if plus:
            flags |= os.O_RDWR
        elif writable:
            flags |= os.O_WRONLY
        else:
            flags |= os.O_RDONLY
        if "w" in m:
            flags |= os.O_CREAT | os.O_TRUNC
        if "x" in m:
            flags |= os.O_CREAT | os.O_EXCL
        if "a" in m:
            flags |= os.O_CREAT | os.O_APPEND
        path = os.path.abspath(os.fsdecode(os.fspath(file)))
        if opener is not None:
            fd = opener(file, flags)
        else:
            fd = sim_os_open(file, flags, 0o666)
        if os.path.isdir(path):
            d.fds.pop(fd, None)
            R["close"](fd)
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
    raw = SimRaw(d, fd, path, readable, writable, closefd)
    if "b" in m and buffering == 0:
        return raw
    size = buffering if buffering > 1 else d.blksize
    if plus:
        buf = io.BufferedRandom(raw, size)
    elif writable:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if "b" in m:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline)


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    d = _disk()
    if d is not None:
        path = d.mapped(path)
    if d is None or not d.owns(path):
        return R["os.open"](path, flags, mode, dir_fd=dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR)
    existed = os.path.exists(path)
    if writing:
        f = d.op("open", d.rel(path))
        if f in ("ENOSPC", "EIO", "EMFILE"):
            d.fail(getattr(errno, f), "open")
        if f == "interrupt":
            d.world.fault("interrupt at open")
            raise KeyboardInterrupt
    elif d.dead:
        raise SimCrash("the process is gone")
    else:
        d.ropens += 1
        f = d.ropen_plan.get(d.ropens)
        if f == "interrupt":
            d.world.fault("interrupt at open")
            raise KeyboardInterrupt
        if f is not None:
            d.fail(getattr(errno, f), "open")
    if writing and existed and flags & os.O_TRUNC:
        pass          # same inode: its synced content stays recorded
    fd = R["os.open"](path, flags, mode, dir_fd=dir_fd)
    d.fds[fd] = os.path.abspath(os.fsdecode(os.fspath(path)))
    if writing and not existed:
        d.note("link", d.rel(path), os.fstat(fd).st_ino)
    return fd


def sim_read(fd, n):
    d = _disk()
    if d is None or fd not in d.fds:
        return R["read"](fd, n)
    b = bytearray(n)
    raw = SimRaw(d, fd, d.fds[fd], True, False, False)
    return bytes(b[:raw.readinto(b)])


def sim_stat(path, *, dir_fd=None, follow_symlinks=True):
    d = _disk()
    if d is not None and dir_fd is None:
        path = d.mapped(path)
    return R["stat"](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)


def sim_write(fd, data):
    d = _disk()
    if d is None or fd not in d.fds:
        return R["write"](fd, data)
    return disk_write(d, fd, data)


def _fsync(real):
    def fsync(fd):
        d = _disk()
        if not isinstance(fd, int):
            fd = fd.fileno()
        if d is None or fd not in d.fds:
            return real(fd)
        f = d.op("fsync", os.path.basename(d.fds[fd]))
        if f in ("EIO", "ENOSPC"):
            d.fail(getattr(errno, f), "fsync")
        if f == "interrupt":
            d.world.fault("interrupt at fsync")
            raise KeyboardInterrupt
        path = d.fds[fd]
        if os.path.isdir(path):
            d.commit(len(d.meta))
            return None
        ino = os.fstat(fd).st_ino
        content = d.volatile(ino)
        if content is not None:
            d.sync(ino, content)
        return None
    return fsync


def _rename(real, name):
    def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        d = _disk()
        if d is None or not (d.owns(src) or d.owns(dst)):
            return real(src, dst, src_dir_fd=src_dir_fd,
                        dst_dir_fd=dst_dir_fd)
        f = d.op(name, "%s -> %s" % (os.path.basename(src),
                                     os.path.basename(dst)))
        if f in ("EIO", "ENOSPC"):
            d.fail(getattr(errno, f), name)
        if f == "interrupt":
            d.world.fault("interrupt at " + name)
            raise KeyboardInterrupt
        if d.owns(dst) and os.path.isfile(dst):
            d.remember(dst)
        real(src, dst)
        if d.owns(src) and d.owns(dst):
            d.note("rename", d.rel(src), d.rel(dst))
        elif d.owns(dst):
            d.note("link", d.rel(dst), d.ino(dst))
        else:
            d.note("unlink", d.rel(src))
        if f == "torn":
            d.crash("after %s" % name)
    return rename


def _unlink(real):
    def unlink(path, *, dir_fd=None):
        d = _disk()
        if d is None or dir_fd is not None or not d.owns(path):
            return real(path, dir_fd=dir_fd)
        f = d.op("unlink", os.path.basename(os.fspath(path)))
        if f in ("EIO",):
            d.fail(errno.EIO, "unlink")
        d.remember(path)
        real(path)
        d.note("unlink", d.rel(path))
    return unlink


def sim_close(fd):
    d = _disk()
    if d is not None:
        d.fds.pop(fd, None)
    return R["close"](fd)


def _no_sendfile(*a, **k):
    raise shutil._GiveupOnFastCopy(OSError("simulated"))


def install():
    if R:
        return
    R.update({"open": io.open, "os.open": os.open, "write": os.write,
              "read": os.read, "close": os.close, "unlink": os.unlink,
              "mkdir": os.mkdir, "stat": os.stat})
    fs, fd = _fsync(os.fsync), _fsync(os.fdatasync)
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    os.open = sim_os_open
    os.write = sim_write
    os.read = sim_read
    os.stat = sim_stat
    os.fsync, os.fdatasync = fs, fd
    os.rename = _rename(os.rename, "rename")
    os.replace = _rename(os.replace, "replace")
    os.unlink = _unlink(os.unlink)
    os.remove = _unlink(os.remove)
    os.close = sim_close
    shutil._USE_CP_SENDFILE = False
