"""Scenario "pypatch": applications that read images with patched libraries."""
import errno
import gc
import io
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import engine
import libs
from sandbox import Sandbox, code_of

REPO = os.environ.get("SIM_REPO", "/repo")
PACKAGE = "jxl_library_patches"
SOURCES = os.path.join(REPO, "contrib", "py", PACKAGE)
LIBS = ("cv2", "PIL.Image", "imageio", "PythonMagick", "matplotlib.image")
NAMES = ("a.jxl", "b.jpg", "with space.jxl", "n%s%d.jxl", "\u00e9t\u00e9.jxl", "sub/c.jxl", "noext", "d.png", "-x.jxl", "e.j")


def make_jpeg(w, tag):
    body = bytes(w.bits("work", 8) for _ in range(1 + w.pick("work", 6)))
    return libs.JPEG + b"%d-" % tag + body * (1 + w.pick("work", 3)) + b"\xff\xd9"


class Files:
    """The images of the application: path -> every content it ever had."""

    def __init__(self, w, box):
        self.w, self.box, self.table, self.tag = w, box, {}, 0
        self.history = {}
        self.error = {}

    def fresh(self, kind):
        """New content, and the bytes a reader should see (None: no image)."""
        w = self.w
        self.tag += 1
        jpeg = make_jpeg(w, self.tag)
        if kind == "jxl":
            stream = libs.SIGNATURE + b"%d+" % self.tag + jpeg[::-1]
            self.table[stream] = jpeg
            return stream, jpeg
        if kind == "bad":
            return libs.SIGNATURE + b"damaged%d" % self.tag + (b"" if w.pick("work", 2) else bytes(5000)), None
        if kind == "jpeg":
            return jpeg, jpeg
        if kind == "png":
            d = libs.PNG + jpeg[3:]
            return d, d
        if kind == "short":
            d = libs.SIGNATURE[:w.pick("work", 6)]
            return d, d
        if kind == "almost":
            d = bytearray(libs.SIGNATURE + jpeg)
            d[w.pick("work", 6)] ^= 1 << w.pick("work", 8)
            return bytes(d), bytes(d)
        if kind == "shifted":
            d = b"\0" + libs.SIGNATURE + jpeg
            return d, d
        return jpeg[3:] or b"x", jpeg[3:] or b"x"

    def create(self, path, kind):
        if kind == "missing":
            self.history[path] = [(kind, None, None)]
            return
        if kind == "dir":
            self.box.disk.add(path, "dir")
            self.history[path] = [(kind, None, None)]
            return
        data, shown = self.fresh(kind)
        n = self.box.disk.add(path, "file", data)
        self.history[path] = [(kind, data, shown)]
        if self.w.chance("cfg", 12):
            n.error = self.error[path] = errno.EACCES

    def replace(self, path):
        kind = self.history[path][-1][0]
        if kind in ("missing", "dir") or path in self.error:
            return
        kind = self.w.choose("work", (kind, "jxl", "jpeg", "png", "bad", "short"))
        data, shown = self.fresh(kind)
        disk = self.box.disk
        disk.w.ev("replace", path)
        # Written elsewhere and renamed, as careful programs do.
        n = disk.add(path + ".new", "file", data)
        disk.nodes[path] = disk.nodes.pop(path + ".new")
        self.history[path].append((kind, data, shown))


def canonical(lib, how, v):
    if lib == "PIL.Image":
        return ("image", v.mode, v.size, v.load())
    if lib == "PythonMagick":
        return ("image", v.pixels)
    return v if v is None else ("image", tuple(v) if not isinstance(v, list) else [tuple(x) for x in v])


def pixels(v):
    """The bytes somewhere in a result."""
    if isinstance(v, (tuple, list)):
        return next((b for b in map(pixels, v) if b is not None), None)
    return v if isinstance(v, bytes) else None


class Stream:
    """Something to read from that is not a file and cannot seek."""

    def __init__(self, data):
        self._b = io.BytesIO(data)

    def read(self, n=-1):
        return self._b.read(n)

    def close(self):
        pass


class Reader:
    """Calls a library as an application would; the same for the reference."""

    def __init__(self, box):
        self.box = box

    def call(self, lib, how, path, data, extra):
        m = self.box.modules[lib]
        if lib == "cv2":
            if how == 0:
                return m.imread(path)
            if how == 1:
                return m.imread(path, extra)
            if how == 2:
                return m.imread(path, flags=extra)
            return m.imread(filename=path)
        if lib == "PIL.Image":
            if how in (0, 1):
                return m.open(path)
            if how == 2:
                return m.open(io.BytesIO(data))
            if how == 3:
                return m.open(Stream(data))
            with self.box.open(path, "rb") as h:
                im = m.open(h)
                im.load()
                return im
        if lib == "imageio":
            if how == 0:
                return m.imread(path)
            if how == 1:
                return m.imread(data)
            if how == 2:
                return m.mimread(path)[0]
            if how == 3:
                with self.box.open(path, "rb") as h:
                    return m.imread(h)
            r = m.get_reader(path, mode="i")
            try:
                if len(r) != 1 or r.get_length() != 1:
                    return None
                try:
                    r.get_data(1)
                    return None
                except IndexError:
                    pass
                return r.get_data(0)
            finally:
                r.close()
        if lib == "PythonMagick":
            if how == 1:
                return m.Image(m.Blob(data))
            if how == 2:
                im = m.Image()
                im.__init__(path)
                return im
            if how == 3:
                return m.Image(m.Image(path))
            return m.Image(path)
        return m.imread(path)

    def result(self, lib, how, path, data, extra):
        try:
            v = self.call(lib, how, path, data, extra)
            return "value", canonical(lib, how, v)
        except (engine.Stopped, engine.Violation):
            raise
        except BaseException as e:
            if os.environ.get("SIM_TRACE"):
                import traceback
                traceback.print_exc()
            return "error", type(e).__name__


HOWS = {"cv2": 4, "PIL.Image": 5, "imageio": 5, "PythonMagick": 4, "matplotlib.image": 1}
FROM_MEMORY = {("PIL.Image", 2), ("PIL.Image", 3), ("imageio", 1), ("PythonMagick", 1)}


class Lazy:
    """Sits in sys.modules, but is no module and has no name."""

    def __getattr__(self, name):
        raise AttributeError(name)


def pypatch(w):
    gc.disable()
    box = Sandbox(w, {PACKAGE: SOURCES})
    ref = Sandbox(engine.World(lambda s, i: 0), {})
    for b in (box, ref):
        b.factories.update(libs.FACTORIES)
        for d in ("/tmp", "/work", "/work/sub", "/scratch"):
            b.disk.add(d, "dir")
        b.disk.cwd = "/work"
    files = Files(w, box)
    conv = libs.Converter(box, files.table)
    box.factories["subprocess"] = conv.module
    try:
        simulate(w, box, ref, files, conv)
    finally:
        box.disk.armed = False
        w.current = None
        w.max_steps = 1 << 60
        w.preempt = 0


def simulate(w, box, ref, files, conv):
    # The environment.
    env = box.posix.environ
    debug = w.chance("cfg", 4)
    if debug:
        env[b"JXL_DEBUG"] = b"1"
    if w.chance("cfg", 3):
        env[b"BIN_JPEG_FROM_JXL"] = b"/opt/jxl/convert"
        conv.installed = {"/opt/jxl/convert"}
    if w.chance("cfg", 4):
        env[b"TMPDIR"] = b"/scratch"
    kinds = ("jxl", "jpeg", "jxl", "bad", "png", "short", "almost", "shifted", "garbage", "missing", "dir")
    nfiles = 1 + w.pick("cfg", 5)
    paths = []
    for i in range(nfiles):
        p = "/work/" + NAMES[(i + w.pick("cfg", len(NAMES))) % len(NAMES)]
        if p not in paths:
            paths.append(p)
            files.create(p, w.choose("cfg", kinds))
    # Libraries the application has loaded, and what else is in sys.modules.
    used = [n for n in LIBS if w.pick("cfg", 2)] or [LIBS[w.pick("cfg", len(LIBS))]]
    if w.pick("cfg", 2):
        used.reverse()
    late = [n for n in used if w.chance("cfg", 5)]
    for n in used:
        if n not in late:
            box.load(n)
    names = {"PIL.Image": "img_alias", "cv2": "vendored.cv2", "imageio": "aaa", "PythonMagick": "zzz"}
    for n in used:
        if n in names and n not in late and w.chance("cfg", 5):
            box.modules[names[n]] = box.modules[n]
            w.probe("alias")
    junk = {}
    if w.chance("cfg", 3):
        junk["blocked"] = None
    if w.chance("cfg", 3):
        junk["lazy"] = Lazy()
    for real in ("cv2", "imageio", "PIL.Image", "PythonMagick"):
        if w.chance("cfg", 5):
            m = box.module(real)
            m.imread = m.Image = "impostor"
            junk["other." + real.lower()] = m
    if junk:
        w.probe("unusual_sys_modules")
    before = dict((k, dict(m.__dict__)) for k, m in junk.items() if isinstance(m, type(sys)))
    box.modules.update(junk)
    docs = {}
    original = {}

    def remember(n):
        m = box.modules.get(n)
        if n in original or m is None:
            return
        original[n] = dict(m.__dict__)
        docs[n] = m.Image.__init__.__doc__ if n == "PythonMagick" else getattr(m, "imread", None).__doc__ if n != "PIL.Image" else None
    for n in LIBS:
        remember(n)

    # The first import may find no converter.
    if w.chance("cfg", 6):
        have, conv.installed = conv.installed, set()
        conv.missing_error = w.choose("cfg", [errno.ENOENT, errno.EACCES, errno.ENOEXEC])
        w.fault("no_converter")
        try:
            box.load(PACKAGE)
            w.fail("no-converter-accepted", "the patches were applied although the converter cannot be called")
        except SystemExit as e:
            if not e.code:
                w.fail("no-converter-accepted", "ends the program, but with success")
        for n, d in original.items():
            if n != "PIL.Image" and box.modules[n].__dict__.get("imread") is not d.get("imread"):
                w.fail("half-patched", "%s was patched without a converter" % n)
        for k in [k for k in box.modules if k.split(".")[0] == PACKAGE]:
            del box.modules[k]
        conv.installed = have

    def patch(fn, what):
        for n in LIBS:
            remember(n)
        try:
            fn()
        except Exception as e:
            if os.environ.get("SIM_TRACE"):
                import traceback
                traceback.print_exc()
            w.fail("import-failed", "%s: %s: %s" % (what, type(e).__name__, e))
        w.ev("patched", what)

    patch(lambda: box.load(PACKAGE), "import")
    for n in late:
        box.load(n)
    again = w.pick("cfg", 4)
    if late and again in (0, 3):
        again = 1
    if again == 1:
        patch(lambda: box.reload(box.modules[PACKAGE]), "reload")
        w.probe("reload")
    elif again == 2:
        def fresh():
            del box.modules[PACKAGE]
            box.load(PACKAGE)
        patch(fresh, "import of a fresh copy")
        w.probe("reimport")
    # Modules that only look like a library stay as they were.
    for k, m in junk.items():
        if box.modules.get(k) is not m:
            w.fail("foreign-module-changed", "sys.modules[%r] was replaced" % k)
        if k in before and m.__dict__ != before[k]:
            w.fail("foreign-module-changed", "%s is not a library, but was patched" % k)
    for n, d in original.items():
        m = box.modules[n]
        for k, v in d.items():
            if k not in ("imread", "Image", "__builtins__") and m.__dict__.get(k) is not v:
                w.fail("library-changed", "%s.%s was replaced" % (n, k))
        doc = m.Image.__init__.__doc__ if n == "PythonMagick" else m.imread.__doc__ if n != "PIL.Image" else None
        if doc != docs[n]:
            w.fail("docstring-lost", "%s has another docstring" % n)
    if "imageio" in box.modules:
        fn = box.modules["imageio"].formats.get_format_names()
        if len(set(fn)) != len(fn):
            w.fail("registered-twice", "imageio knows formats %s" % fn)
    for n in used:
        ref.load(n)

    # Files the application has open all the time.
    held = []
    for i in range(w.pick("cfg", 3)):
        box.disk.add("/work/held%d" % i, "file", b"held%d" % i)
        held.append(box.open("/work/held%d" % i, "rb"))
    at_start = set(box.disk.nodes)
    fds_at_start = set(box.disk.fds)
    conv.calls = []

    # Failures from here on.
    disk = box.disk
    if w.chance("cfg", 3):
        for op in ("open", "create", "read", "write", "close", "mkdir", "unlink", "rmdir", "scandir", "stat"):
            if w.chance("cfg", 4):
                disk.rates[op] = 3 + w.pick("cfg", 20)
        for op in conv.rates:
            if w.chance("cfg", 4):
                conv.rates[op] = 2 + w.pick("cfg", 6)
    elif w.chance("cfg", 3):
        conv.rates[w.choose("cfg", sorted(conv.rates))] = 2 + w.pick("cfg", 3)
    nclients = 1 + (w.pick("cfg", 3) if w.chance("cfg", 3) else 0)
    preempt = (3, 2, 8, 30)[w.pick("cfg", 4)]
    replacing = w.chance("cfg", 3)
    reader, refreader = Reader(box), Reader(ref)
    summary = []

    def expected(lib, how, path, extra, version):
        kind, raw, shown = version
        if kind == "bad":
            return None
        ref.disk.nodes.pop(path, None)
        if kind == "dir":
            ref.disk.add(path, "dir")
        elif kind != "missing":
            ref.disk.add(path, "file", shown).error = files.error.get(path, 0)
        return refreader.result(lib, how, path, shown or b"", extra)

    def operation(c, i):
        lib = w.choose("work", used)
        path = w.choose("work", paths)
        if replacing and w.chance("work", 4):
            files.replace(path)
        if lib == "PythonMagick" and w.chance("work", 8):
            # Not a file at all.
            n = w.pick("work", 8)
            im = box.modules[lib].Image(n, 4, "RGB")
            if im.pixels != ("raw", n, 4, "RGB"):
                w.fail("other-use-changed", "PythonMagick.Image(%d, 4, 'RGB') gives %r" % (n, im.pixels))
            w.ev("raw", n)
            return
        if lib == "cv2" and w.chance("work", 12):
            n = w.pick("work", 8)
            got = reader.result(lib, 0, n, b"", 0)
            if got != ("error", "TypeError"):
                w.fail("other-use-changed", "cv2.imread(%d) gives %r" % (n, got))
            return
        how = w.pick("work", HOWS[lib])
        extra = w.pick("work", 3)
        hist = files.history[path]
        first = len(hist) - 1
        data = hist[first][1] if hist[first][1] is not None else b""
        memory = (lib, how) in FROM_MEMORY
        relative = path[len("/work/"):] if w.pick("work", 2) else path
        who = w.current.id if w.current else -1
        faults = disk.by_client[who]
        calls = sum(1 for x in conv.calls if x[0] == who)
        w.ev("client", c, "reads", lib, how, path, hist[first][0])
        got = reader.result(lib, how, relative, data, extra)
        w.ev("got", got[0], got[1] if got[0] == "error" else "image" if got[1] else "nothing")
        faulty = disk.by_client[who] > faults
        converted = sum(1 for x in conv.calls if x[0] == who) - calls
        versions = hist[first:first + 1] if memory else hist[first:]
        kind = versions[0][0]
        mixed = any(v[0] != kind for v in versions)     # replaced meanwhile by something else
        what = "%s (way %d) of %s, a %s file" % (lib, how, path, kind)
        w.probe("read_" + ("mixed" if mixed else kind))
        if len(summary) < 4:
            summary.append("%s/%d %s %s -> %s" % (lib, how, path, kind, got[0]))
        if (lib, how) == ("PythonMagick", 1):
            versions = [(v[0], v[1], v[1]) for v in versions]      # documented as not supported
        wants = [expected(lib, how, path, extra, v) for v in versions]
        image = got[0] == "value" and got[1] is not None
        if image and got not in wants and not (mixed and pixels(got) in [v[2] for v in versions]):
            if kind == "bad" and not mixed:
                w.fail("damaged-file-read", what + ": gives an image, but the converter refuses it")
            w.fail("wrong-image", what + ": got %r, want %r" % (got, wants[:3]))
        if faulty:
            w.probe("failed_read" if not image else "survived_fault")
            return
        if mixed:
            return
        if got not in wants and not (kind == "bad" and not image):
            w.fail("unreadable" if any(x and x[0] == "value" and x[1] for x in wants) else "other-failure",
                   what + ": got %r, want %r" % (got, wants[:3]))
        unreadable = path in files.error and not memory
        if kind in ("jxl", "bad"):
            if converted > 1 or (converted == 0 and kind == "jxl" and not unreadable and (lib, how) != ("PythonMagick", 1)):
                w.fail("conversions", what + ": converted %d times" % converted)
        elif converted:
            w.fail("conversions", what + ": the converter was called")

    def client(c):
        def fn():
            for i in range(1 + w.pick("cfg", 4)):
                operation(c, i)
        return fn

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(SOURCES):
            if event == "line":
                w.point()
            return trace
        return None

    disk.armed = True
    w.run_clients([client(c) for c in range(nclients)], preempt, trace)
    disk.armed = False
    if nclients > 1:
        w.probe("concurrent")
    w.sample = "%s clients=%d %s" % (",".join(used), nclients, "; ".join(summary))

    # What is left behind.
    for p in paths:
        n = disk.nodes.get(p)
        kind, data, _ = files.history[p][-1]
        if (n is None) != (kind == "missing") or (data is not None and bytes(n.data) != data):
            w.fail("input-changed", "%s is not what it was" % p)
    extra = sorted(set(disk.nodes) - at_start)
    if extra and not disk.unlink_failed:
        w.fail("leftover-files", "left behind: %s" % extra[:4])
    for i, h in enumerate(held):
        try:
            if h.read() != b"held%d" % i:
                w.fail("foreign-descriptor", "an open file of the application has other contents")
        except OSError as e:
            w.fail("foreign-descriptor", "an open file of the application was closed: %s" % e)
    if w.chance("cfg", 16):
        gc.collect()
        left = set(disk.fds) - fds_at_start
        if left and not disk.hit:
            w.fail("descriptor-leak", "left open: %s" % sorted(disk.fds[f].path for f in left))


def warm():
    for d, _, names in os.walk(SOURCES):
        for n in names:
            if n.endswith(".py"):
                code_of(os.path.join(d, n))
    box = Sandbox(engine.World(lambda s, i: 0), {})
    for n in ("os", "shutil", "tempfile", "pathlib", "glob"):
        box.load(n)


if __name__ == "__main__":
    sys.unraisablehook = lambda u: None      # raised in destructors
    warm()
    gc.freeze()
    sys.exit(engine.main({"pypatch": pypatch}, sys.argv))
