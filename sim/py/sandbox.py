"""A Python world of its own for one run: modules, file system, processes.

The code under test runs with builtins and an import system that only know
this world. os, posixpath, shutil, tempfile, pathlib, glob are the real library
modules, loaded again on top of a simulated posix module.
"""
import builtins
import collections
import errno
import io
import os as real_os
import posix as real_posix
import random
import stat as real_stat
import struct
import sys as real_sys
import types

LIB = real_os.path.dirname(real_os.__file__)
RELOADED = ("os", "posixpath", "genericpath", "shutil", "tempfile", "pathlib", "glob", "fnmatch")
_code = {}


def code_of(path):
    if path not in _code:
        with open(path, "rb") as f:
            _code[path] = compile(f.read(), path, "exec")
    return _code[path]


class Node:
    def __init__(self, kind, data=b"", mtime=0):
        self.kind = kind            # "file" or "dir"
        self.data = bytearray(data)
        self.mtime = mtime
        self.error = 0              # of open
        self.ino = 0


class Disk:
    """Files, descriptors and what goes wrong with them."""

    def __init__(self, w):
        self.w = w
        self.nodes = {"/": Node("dir")}
        self.cwd = "/"
        self.fds = {}
        self.clock = 1600000000
        self.rates = {}             # operation -> one in so many fails
        self.armed = False
        self.hit = 0                # faults so far
        self.unlink_failed = False
        self.by_client = collections.Counter()
        self.inos = 0

    def where(self, path):
        path = real_os.fsdecode(real_os.fspath(path))
        if not path:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        if "\0" in path:
            raise ValueError("embedded null byte")
        if len(path) > 4000 or any(len(p.encode("utf-8", "surrogateescape")) > 255 for p in path.split("/")):
            raise OSError(errno.ENAMETOOLONG, "File name too long", path)
        p = real_os.path.normpath(real_os.path.join(self.cwd, path))
        return "/" + p.lstrip("/")

    def add(self, path, kind, data=b""):
        parent = real_os.path.dirname(path)
        if parent not in self.nodes:
            self.add(parent, "dir")
        self.clock += 1
        n = Node(kind, data, self.clock)
        self.inos += 1
        n.ino = self.inos
        self.nodes[path] = n
        return n

    def children(self, path):
        pre = path.rstrip("/") + "/"
        return sorted(p[len(pre):] for p in self.nodes if p.startswith(pre) and p != "/" and "/" not in p[len(pre):])

    def me(self):
        return self.w.current.id if self.w.current else -1

    def trouble(self, op, path, errors):
        """A seam: somebody else may run now, or the operation may fail."""
        self.w.tick()
        self.w.point()
        if self.armed and self.w.chance("fault", self.rates.get(op, 0)):
            e = self.w.choose("fault", errors)
            self.w.fault("%s_%s" % (op, errno.errorcode[e]))
            self.hit += 1
            self.by_client[self.me()] += 1
            if op in ("unlink", "rmdir", "scandir", "stat", "rename"):
                self.unlink_failed = True
            raise OSError(e, real_os.strerror(e), path)

    def get(self, path):
        p = self.where(path)
        parts = p.split("/")[1:-1]
        for i in range(len(parts)):
            up = "/" + "/".join(parts[:i + 1])
            n = self.nodes.get(up)
            if n is not None and n.kind != "dir":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        n = self.nodes.get(p)
        if n is None:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        return p, n


class Fd:
    def __init__(self, node, flags, path):
        self.node, self.flags, self.path, self.pos = node, flags, path, 0


class Raw(io.RawIOBase):
    """What open() gives: a FileIO over the simulated posix."""

    def __init__(self, posix, fd, name, mode, closefd=True):
        io.RawIOBase.__init__(self)
        self._posix, self._fd, self.name, self.mode, self._closefd = posix, fd, name, mode, closefd

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        return self._fd

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return self.mode[0] in "wax" or "+" in self.mode

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        if not self.readable():
            raise io.UnsupportedOperation("not readable")
        d = self._posix.read(self._fd, len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = b""
        while True:
            d = self._posix.read(self._fd, 65536)
            if not d:
                return out
            out += d

    def write(self, b):
        if not self.writable():
            raise io.UnsupportedOperation("not writable")
        return self._posix.write(self._fd, b)

    def seek(self, pos, whence=0):
        return self._posix.lseek(self._fd, pos, whence)

    def tell(self):
        return self._posix.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._posix.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                io.RawIOBase.close(self)
            finally:
                if self._closefd:
                    self._posix.close(self._fd)


def make_posix(disk):
    w = disk.w
    P = types.ModuleType("posix")
    for k in dir(real_posix):
        if k.startswith(("O_", "F_OK", "R_OK", "W_OK", "X_OK", "W")) or k in ("fspath", "strerror", "error", "EX_OK",
                                                                              "terminal_size"):
            setattr(P, k, getattr(real_posix, k))
    P._have_functions = []
    P.environ = {}
    P.stat_result = real_posix.stat_result

    def nofd(dir_fd):
        if dir_fd is not None:
            raise NotImplementedError("dir_fd")

    def open_(path, flags, mode=0o777, *, dir_fd=None):
        nofd(dir_fd)
        p = disk.where(path)
        creating = bool(flags & P.O_CREAT) and p not in disk.nodes
        disk.trouble("create" if creating else "open", path,
                     [errno.ENOSPC, errno.EACCES, errno.EMFILE, errno.EIO] if creating
                     else [errno.EMFILE, errno.EIO, errno.ENFILE, errno.ENOMEM])
        if p in disk.nodes:
            _, n = disk.get(path)
            if flags & P.O_CREAT and flags & P.O_EXCL:
                raise FileExistsError(errno.EEXIST, "File exists", path)
            if n.kind == "dir" and flags & 3:
                raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
            if n.error:
                raise OSError(n.error, real_os.strerror(n.error), path)
            if flags & P.O_TRUNC:
                del n.data[:]
        else:
            if not flags & P.O_CREAT:
                disk.get(path)
            parent = disk.nodes.get(real_os.path.dirname(p))
            if parent is None:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            if parent.kind != "dir":
                raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
            n = disk.add(p, "file")
        fd = 3
        while fd in disk.fds:
            fd += 1
        disk.fds[fd] = Fd(n, flags, p)
        w.ev("open", p, flags & 3, fd)
        return fd

    def fd_of(fd):
        f = disk.fds.get(fd)
        if f is None:
            raise OSError(errno.EBADF, "Bad file descriptor")
        return f

    def read(fd, n):
        f = fd_of(fd)
        disk.trouble("read", f.path, [errno.EIO])
        if f.node.kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory")
        d = bytes(f.node.data[f.pos:f.pos + n])
        f.pos += len(d)
        w.ev("read", f.path, n, len(d))
        return d

    def write(fd, b):
        f = fd_of(fd)
        b = bytes(b)
        disk.trouble("write", f.path, [errno.ENOSPC, errno.EIO, errno.EDQUOT])
        if len(b) > 1 and disk.armed and w.chance("fault", disk.rates.get("write", 0)):
            w.fault("short_write")
            b = b[:len(b) // 2]
        if f.flags & P.O_APPEND:
            f.pos = len(f.node.data)
        if f.pos > len(f.node.data):
            f.node.data.extend(bytes(f.pos - len(f.node.data)))
        f.node.data[f.pos:f.pos + len(b)] = b
        f.pos += len(b)
        disk.clock += 1
        f.node.mtime = disk.clock
        w.ev("write", f.path, len(b))
        return len(b)

    def lseek(fd, pos, whence):
        f = fd_of(fd)
        base = (0, f.pos, len(f.node.data))[whence]
        if base + pos < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        f.pos = base + pos
        return f.pos

    def close(fd):
        f = fd_of(fd)
        del disk.fds[fd]
        w.ev("close", f.path, fd)
        disk.trouble("close", f.path, [errno.EIO])

    def statof(n):
        mode = (real_stat.S_IFDIR | 0o755) if n.kind == "dir" else (real_stat.S_IFREG | 0o644)
        return real_posix.stat_result((mode, n.ino, 1, 1, 0, 0, len(n.data), n.mtime, n.mtime, n.mtime))

    def stat(path, *, dir_fd=None, follow_symlinks=True):
        nofd(dir_fd)
        if isinstance(path, int):
            return statof(fd_of(path).node)
        disk.trouble("stat", path, [errno.EIO, errno.EACCES])
        return statof(disk.get(path)[1])

    def mkdir(path, mode=0o777, *, dir_fd=None):
        nofd(dir_fd)
        disk.trouble("mkdir", path, [errno.ENOSPC, errno.EACCES, errno.EROFS, errno.EMLINK])
        p = disk.where(path)
        if p in disk.nodes:
            raise FileExistsError(errno.EEXIST, "File exists", path)
        disk.get(real_os.path.dirname(p))
        disk.add(p, "dir")
        w.ev("mkdir", p)

    def unlink(path, *, dir_fd=None):
        nofd(dir_fd)
        disk.trouble("unlink", path, [errno.EACCES, errno.EIO, errno.EBUSY])
        p, n = disk.get(path)
        if n.kind == "dir":
            raise IsADirectoryError(errno.EISDIR, "Is a directory", path)
        del disk.nodes[p]
        w.ev("unlink", p)

    def rmdir(path, *, dir_fd=None):
        nofd(dir_fd)
        disk.trouble("rmdir", path, [errno.EACCES, errno.EIO, errno.EBUSY])
        p, n = disk.get(path)
        if n.kind != "dir":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        if disk.children(p):
            raise OSError(errno.ENOTEMPTY, "Directory not empty", path)
        del disk.nodes[p]
        w.ev("rmdir", p)

    def rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        disk.trouble("rename", src, [errno.EACCES, errno.EIO, errno.EXDEV])
        p, n = disk.get(src)
        q = disk.where(dst)
        disk.get(real_os.path.dirname(q))
        for old in [x for x in disk.nodes if x == p or x.startswith(p + "/")]:
            disk.nodes[q + old[len(p):]] = disk.nodes.pop(old)
        w.ev("rename", p, q)

    def listdir(path="."):
        disk.trouble("scandir", path, [errno.EIO, errno.EMFILE])
        p, n = disk.get(path)
        if n.kind != "dir":
            raise NotADirectoryError(errno.ENOTDIR, "Not a directory", path)
        return disk.children(p)

    class DirEntry:
        def __init__(self, top, name, node):
            self.name, self.path, self._n = name, real_os.path.join(top, name), node

        def is_dir(self, *, follow_symlinks=True):
            return self._n.kind == "dir"

        def is_file(self, *, follow_symlinks=True):
            return self._n.kind == "file"

        def is_symlink(self):
            return False

        def is_junction(self):
            return False

        def stat(self, *, follow_symlinks=True):
            return statof(self._n)

        def inode(self):
            return self._n.ino

        def __fspath__(self):
            return self.path

    class Scan:
        def __init__(self, entries):
            self._it = iter(entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def scandir(path="."):
        names = listdir(path)
        p = disk.where(path)
        return Scan([DirEntry(real_os.fspath(path), n, disk.nodes[real_os.path.join(p, n)]) for n in names])

    def access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
        try:
            return not disk.get(path)[1].error
        except OSError:
            return False

    def ftruncate(fd, n):
        f = fd_of(fd)
        f.node.data[:] = f.node.data[:n].ljust(n, b"\0")

    def urandom(n):
        return bytes(w.bits("work", 8) for _ in range(n))

    P.open, P.read, P.write, P.lseek, P.close = open_, read, write, lseek, close
    P.stat, P.lstat = stat, lambda path, *, dir_fd=None: stat(path)
    P.fstat = lambda fd: statof(fd_of(fd).node)
    P.mkdir, P.unlink, P.remove, P.rmdir, P.rename, P.replace = mkdir, unlink, unlink, rmdir, rename, rename
    P.listdir, P.scandir, P.access, P.ftruncate, P.urandom = listdir, scandir, access, ftruncate, urandom
    P.DirEntry = DirEntry
    P.getcwd, P.getcwdb = lambda: disk.cwd, lambda: disk.cwd.encode()
    P.getpid, P.getppid, P.getuid, P.geteuid, P.getgid = lambda: 4242, lambda: 1, lambda: 1000, lambda: 1000, lambda: 1000
    P.chmod = P.utime = P.chown = P.lchown = lambda path, *a, **k: disk.get(path) and None
    P.fsync = P.fdatasync = lambda fd: fd_of(fd) and None
    P.isatty = lambda fd: False
    P.umask = lambda m: 0o022
    P.putenv = P.unsetenv = lambda *a: None
    P.get_inheritable, P.set_inheritable = lambda fd: False, lambda fd, v: None
    P._path_splitroot_ex = real_os.path.splitroot if hasattr(real_os.path, "splitroot") else None
    P._exit = lambda code: w.fail("process-ended", "os._exit(%r)" % (code,))
    return P


def make_open(posix):
    def open_(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not isinstance(file, int):
            file = real_os.fspath(file)
        if not isinstance(mode, str):
            raise TypeError("open() argument 'mode' must be str")
        if set(mode) - set("rwxab+t") or sum(mode.count(c) for c in "rwxa") != 1:
            raise ValueError("invalid mode: %r" % mode)
        binary = "b" in mode
        flags = {"r": 0, "w": posix.O_CREAT | posix.O_TRUNC, "x": posix.O_CREAT | posix.O_EXCL,
                 "a": posix.O_CREAT | posix.O_APPEND}[[c for c in mode if c in "rwxa"][0]]
        flags |= posix.O_RDWR if "+" in mode else posix.O_RDONLY if "r" in mode else posix.O_WRONLY
        if isinstance(file, int):
            fd = file
            posix.fstat(fd)
            if isinstance(file, bool):
                raise TypeError("bool is used as a file descriptor")
        elif opener:
            fd = opener(file, flags | posix.O_CLOEXEC)
        else:
            fd = posix.open(file, flags | posix.O_CLOEXEC, 0o666)
        raw = Raw(posix, fd, file, "".join(c for c in mode if c in "rwxa+"), closefd)
        try:
            if not isinstance(file, int) and real_stat.S_ISDIR(posix.fstat(fd).st_mode):
                raise IsADirectoryError(errno.EISDIR, "Is a directory", file)
            if buffering == 0:
                if not binary:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            buf = (io.BufferedRandom if "+" in mode else io.BufferedReader if "r" in mode else io.BufferedWriter)(raw)
            if binary:
                return buf
            t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)
            t.mode = mode
            return t
        except BaseException:
            raw.close()
            raise
    return open_


class Lock:
    def __init__(self, w):
        self._w, self._held = w, False

    def acquire(self, blocking=True, timeout=-1):
        self._w.point()
        if self._held and not blocking:
            return False
        if self._held:
            self._w.point(lambda: self._held)
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self, w):
        Lock.__init__(self, w)
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = self._w.current
        if self._n and self._owner is me:
            self._n += 1
            return True
        if not Lock.acquire(self, blocking, timeout):
            return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        self._n -= 1
        if self._n == 0:
            Lock.release(self)


class Sandbox:
    def __init__(self, w, packages):
        """packages: name -> directory of real sources under test."""
        self.w = w
        self.disk = Disk(w)
        self.packages = packages
        self.factories = {}          # module name -> fn(sandbox, module)
        self.modules = {}
        self.out = []                # what was printed
        self.posix = make_posix(self.disk)
        self.open = make_open(self.posix)
        b = dict(builtins.__dict__)
        b.update(__import__=self.import_, open=self.open, print=self.print_)
        self.builtins = b
        s = types.ModuleType("sys")
        s.__getattr__ = lambda name: getattr(real_sys, name)
        s.modules = self.modules
        s.path = ["/site"]
        s.argv = ["app"]
        s.stdout = s.stderr = self.text("tty")
        s.version_info, s.platform = real_sys.version_info, "linux"
        s.settrace = s.setprofile = lambda *a: None
        s.exit = self.exit
        s.audit = lambda *a: None
        self.sys = s
        for name, m in (("sys", s), ("builtins", self.module("builtins", b)), ("posix", self.posix)):
            self.modules[name] = m
        self.rnd = random.Random(w.bits("work", 16))

    def module(self, name, d=None):
        m = types.ModuleType(name)
        if d:
            m.__dict__.update(d)
        return m

    def exit(self, code=None):
        raise SystemExit(code)

    def text(self, name):
        out = self.out

        class Text(io.TextIOBase):
            def write(self, s):
                out.append(s)
                return len(s)
        t = Text()
        return t

    def print_(self, *a, sep=" ", end="\n", file=None, flush=False):
        (file or self.sys.stdout).write((sep or " ").join(str(x) for x in a) + (end if end is not None else "\n"))

    # Import system.
    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            if not pkg:
                raise ImportError("attempted relative import with no known parent package")
            bits = pkg.rsplit(".", level - 1)
            name = bits[0] + ("." + name if name else "")
        m = self.load(name)
        if not fromlist:
            if level:
                return m
            return self.modules[name.split(".")[0]]
        for f in fromlist:
            if f != "*" and not hasattr(m, f):
                try:
                    # The interpreter would look in its own sys.modules.
                    setattr(m, f, self.load(name + "." + f))
                except ModuleNotFoundError:
                    pass
        return m

    def load(self, name):
        if name in self.modules:
            m = self.modules[name]
            if m is None:
                raise ModuleNotFoundError("import of %s halted; None in sys.modules" % name, name=name)
            return m
        parent, _, last = name.rpartition(".")
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        m = self.find(name)
        if parent:
            setattr(self.modules[parent], last, m)
        return m

    def find(self, name):
        top = name.split(".")[0]
        if top in self.packages:
            d = self.packages[top]
            rel = name.split(".")[1:]
            path = real_os.path.join(d, *rel)
            for p, pkg in ((real_os.path.join(path, "__init__.py"), True), (path + ".py", False)):
                if real_os.path.isfile(p):
                    return self.execute(name, p, pkg)
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        if name in self.factories:
            m = self.module(name)
            self.modules[name] = m
            m.__file__ = "/site/%s.py" % name
            self.factories[name](self, m)
            return m
        if name in RELOADED:
            return self.execute(name, real_os.path.join(LIB, name + ".py"), False)
        if name == "os.path":
            return self.load("os").path
        f = getattr(self, "std_" + name.replace(".", "_").strip("_"), None)
        if f:
            m = self.module(name)
            self.modules[name] = m
            f(m)
            return m
        m = __import__(name)
        for part in name.split(".")[1:]:
            m = getattr(m, part)
        self.modules[name] = m
        return m

    def execute(self, name, path, pkg):
        m = self.module(name)
        m.__file__ = path
        m.__builtins__ = self.builtins
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [real_os.path.dirname(path)]
        self.modules[name] = m
        try:
            exec(code_of(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        return self.modules.get(name, m)

    def reload(self, m):
        exec(code_of(m.__file__), m.__dict__)
        return self.modules[m.__name__]

    # Library modules with a seam.
    def std_io(self, m):
        m.__dict__.update((k, v) for k, v in io.__dict__.items() if not k.startswith("__"))
        m.open = self.open
        m.open_code = lambda p: self.open(p, "rb")
        m.FileIO = lambda f, mode="r", closefd=True, opener=None: self.open(
            f, mode.replace("b", "") + "b", 0, closefd=closefd, opener=opener)

    def std_random(self, m):
        m.__dict__.update((k, v) for k, v in random.__dict__.items() if not k.startswith("__"))
        rnd = self.rnd

        class Random(random.Random):
            def __init__(self, x=None):
                random.Random.__init__(self, rnd.getrandbits(64) if x is None else x)
        m.Random = m.SystemRandom = Random
        for k in ("random", "randint", "randrange", "choice", "getrandbits", "sample", "shuffle", "uniform"):
            setattr(m, k, getattr(rnd, k))

    def std_uuid(self, m):
        import uuid
        m.__dict__.update((k, v) for k, v in uuid.__dict__.items() if not k.startswith("__"))
        m.uuid4 = lambda: uuid.UUID(int=self.rnd.getrandbits(128))
        m.uuid1 = lambda *a: uuid.UUID(int=self.rnd.getrandbits(128))

    def std_time(self, m):
        import time
        m.__dict__.update((k, v) for k, v in time.__dict__.items() if not k.startswith("__"))
        m.time = m.monotonic = m.perf_counter = lambda: float(self.disk.clock)
        m.time_ns = lambda: self.disk.clock * 10 ** 9

        def sleep(s):
            self.disk.clock += int(s) + 1
            self.w.point()
        m.sleep = sleep

    def std_thread(self, m):
        import _thread
        m.__dict__.update((k, v) for k, v in _thread.__dict__.items() if not k.startswith("__"))
        m.allocate_lock = m.allocate = m.Lock = lambda: Lock(self.w)
        m.RLock = lambda: RLock(self.w)
        m.get_ident = lambda: self.disk.me() + 2

    def std_threading(self, m):
        import threading
        m.__dict__.update((k, v) for k, v in threading.__dict__.items() if not k.startswith("__"))
        m.Lock = lambda: Lock(self.w)
        m.RLock = lambda: RLock(self.w)
        m.get_ident = m.get_native_id = lambda: self.disk.me() + 2

    def std_importlib(self, m):
        m.import_module = lambda n, package=None: self.load(n)
        m.reload = self.reload

    def std_atexit(self, m):
        m.register = lambda f, *a, **k: f
        m.unregister = lambda f: None
