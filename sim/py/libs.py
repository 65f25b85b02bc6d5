"""Stand-ins for the image libraries that are patched, and for the converter.

They keep the contracts of Pillow 5, imageio 2, OpenCV 3/4 and PythonMagick as
far as reading a file or a stream goes. A decoded image is a tuple
(format, all its bytes, options). Everything runs on the sandbox's disk.
"""
import errno
import io
import struct
import types

SIGNATURE = b"\x0a\x04\x42\xd2\xd5\x4e"
JPEG, PNG = b"\xff\xd8\xff", b"\x89PNG"


def decode(data):
    """What every library agrees on, or None."""
    if data.startswith(JPEG):
        return "jpeg", bytes(data)
    if data.startswith(PNG):
        return "png", bytes(data)
    return None


def slurp(box, name):
    with box.open(name, "rb") as h:
        return h.read()


# ------------------------------------------------------------------- converter

class Converter:
    """The external program, and the subprocess module that starts it."""

    def __init__(self, box, table):
        self.box, self.w, self.table = box, box.w, table
        self.installed = {"dbrunsli"}
        self.rates = dict(spawn=0, killed=0, partial=0, refuse=0, interrupt=0)
        self.calls = []           # (client, input, output, code)
        self.probes = 0
        self.missing_error = errno.ENOENT

    def run(self, argv):
        w, disk = self.w, self.box.disk
        if isinstance(argv, (str, bytes)):
            argv = [argv]
        argv = [self.box.load("os").fsdecode(a) for a in argv]
        w.tick()
        w.point()
        w.ev("spawn", *argv)
        if argv[0] not in self.installed:
            raise OSError(self.missing_error, "cannot execute", argv[0])
        if disk.armed and w.chance("fault", self.rates["spawn"]):
            e = w.choose("fault", [errno.EAGAIN, errno.ENOMEM, errno.EMFILE])
            w.fault("spawn_" + errno.errorcode[e])
            disk.hit += 1
            disk.by_client[disk.me()] += 1
            raise OSError(e, "cannot fork")
        if len(argv) < 3:
            self.probes += 1
            return 1
        code = self.convert(argv[1], argv[2])
        self.calls.append((disk.me(), argv[1], argv[2], code))
        w.ev("exit", code)
        if disk.armed and w.chance("fault", self.rates["interrupt"]):
            w.fault("interrupt")
            disk.hit += 1
            disk.by_client[disk.me()] += 1
            raise KeyboardInterrupt()
        return code

    def bad(self, name):
        w = self.w
        if self.box.disk.armed and w.chance("fault", self.rates[name]):
            w.fault("converter_" + name)
            self.box.disk.hit += 1
            self.box.disk.by_client[self.box.disk.me()] += 1
            return True
        return False

    def convert(self, src, dst):
        # A process of its own: what it does to the disk may fail as well, but
        # it tells by its status.
        w, disk, posix = self.w, self.box.disk, self.box.posix
        if self.bad("refuse"):
            return w.choose("fault", [1, 2, 127, 255])
        try:
            data = slurp(self.box, src)
        except OSError:
            return 1
        jpeg = self.table.get(data)
        if jpeg is None:
            if w.chance("work", 2):
                self.put(dst, JPEG + b"half")      # a partial output
            return 1
        if w.chance("work", 3):
            # Temporary files of its own, not always removed.
            self.put(dst + ".tmp", jpeg)
            if w.chance("work", 2):
                try:
                    posix.mkdir(posix.fspath(dst) + ".d")
                    self.put(dst + ".d/scratch", b"x")
                except OSError:
                    pass
        if self.bad("partial"):
            self.put(dst, jpeg[:len(jpeg) // 2])
            return w.choose("fault", [1, -9, -11])
        if self.bad("killed"):
            return w.choose("fault", [-9, -15, -6])
        w.point()
        return 0 if self.put(dst, jpeg) else 1

    def put(self, name, data):
        try:
            with self.box.open(name, "wb") as h:
                h.write(data)
            return True
        except OSError:
            return False

    def module(self, box, m):
        import subprocess as real
        for k in ("PIPE", "DEVNULL", "STDOUT", "CalledProcessError", "SubprocessError", "TimeoutExpired",
                  "CompletedProcess", "list2cmdline"):
            setattr(m, k, getattr(real, k))
        me = self

        def out(kw):
            return "" if kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") else b""

        class Popen:
            def __init__(self, args, *a, **kw):
                self.args, self.pid, self._kw = args, 5000, kw
                self.returncode = None
                self._code = me.run(args)
                self.stdout = self.stderr = self.stdin = None

            def wait(self, timeout=None):
                self.returncode = self._code
                return self.returncode

            def poll(self):
                return self.wait()

            def communicate(self, input=None, timeout=None):
                self.wait()
                o = out(self._kw)
                return (o if self._kw.get("stdout") else None, o if self._kw.get("stderr") else None)

            def kill(self):
                pass
            terminate = kill

            def send_signal(self, s):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()

        def call(args, *a, timeout=None, **kw):
            return me.run(args)

        def check_call(args, *a, **kw):
            code = me.run(args)
            if code:
                raise m.CalledProcessError(code, args)
            return 0

        def run(args, *a, check=False, **kw):
            code = me.run(args)
            o = out(kw)
            cap = kw.get("capture_output")
            if check and code:
                raise m.CalledProcessError(code, args, o, o)
            return m.CompletedProcess(args, code, o if cap or kw.get("stdout") else None,
                                      o if cap or kw.get("stderr") else None)

        def check_output(args, *a, **kw):
            return run(args, check=True, stdout=m.PIPE, **kw).stdout
        m.Popen, m.call, m.check_call, m.run, m.check_output = Popen, call, check_call, run, check_output


# -------------------------------------------------------------------- libraries

def cv2(box, m):
    m.CV_32FC3 = 21
    m.CV_8UC1 = 0

    def imread(filename, flags=1):
        """imread(filename[, flags]) -> retval"""
        if not isinstance(filename, (str, types.SimpleNamespace)) and not hasattr(filename, "__fspath__"):
            raise TypeError("Can't convert object to 'str' for 'filename'")
        if not isinstance(flags, int):
            raise TypeError("an integer is required")
        try:
            d = decode(slurp(box, filename))
        except (OSError, ValueError):
            return None
        return d and d + (flags,)
    m.imread = imread
    m.imwrite = lambda filename, img, params=(): True


def pil(box, m):
    m.__path__ = ["/site/PIL"]


def pil_image(box, m):
    m.ID, m.OPEN, m.EXTENSION = [], {}, {}
    m._plugins = ["JpegImagePlugin", "PngImagePlugin"]

    class Image:
        format = format_description = None

        def __init__(self):
            self.mode, self.size, self.info = "", (0, 0), {}
            self.im = None

        def load(self):
            return self.im

        def tobytes(self):
            self.load()
            return self.im

        def close(self):
            fp, self.fp = getattr(self, "fp", None), None
            if fp and getattr(self, "_exclusive_fp", None):
                fp.close()

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    def register_open(id, factory, accept=None):
        id = id.upper()
        m.ID.append(id)
        m.OPEN[id] = factory, accept

    def register_extension(id, extension):
        m.EXTENSION[extension.lower()] = id.upper()

    def open_(fp, mode="r"):
        if mode != "r":
            raise ValueError("bad mode %r" % mode)
        exclusive, filename = False, ""
        if isinstance(fp, (str, bytes)) or hasattr(fp, "__fspath__"):
            filename = box.posix.fspath(fp)
        if filename:
            fp = box.open(filename, "rb")
            exclusive = True
        try:
            fp.seek(0)
        except (AttributeError, io.UnsupportedOperation):
            fp = io.BytesIO(fp.read())
            exclusive = True
        prefix = fp.read(16)
        im = None
        for i in list(m.ID):
            try:
                factory, accept = m.OPEN[i]
                if not accept or accept(prefix):
                    fp.seek(0)
                    im = factory(fp, filename)
                    break
            except (SyntaxError, IndexError, TypeError, struct.error):
                continue
        if im:
            im._exclusive_fp = exclusive
            return im
        if exclusive:
            fp.close()
        raise IOError("cannot identify image file %r" % (filename if filename else "stream",))
    m.Image, m.register_open, m.register_extension, m.open = Image, register_open, register_extension, open_
    m.register_mime = m.register_save = lambda *a: None
    box.load("PIL.ImageFile")


def pil_imagefile(box, m):
    Base = box.load("PIL.Image").Image

    class ImageFile(Base):
        def __init__(self, fp=None, filename=None):
            Base.__init__(self)
            self.tile = None
            self.fp, self.filename, self._exclusive_fp = fp, filename, None
            try:
                self._open()
            except (IndexError, TypeError, KeyError, EOFError, struct.error) as v:
                raise SyntaxError(v)
            if not self.mode or self.size[0] <= 0:
                raise SyntaxError("not identified by this driver")

        def load(self):
            if self.tile is None:
                raise IOError("cannot load this image")
            if not self.tile:
                return self.im
            codec, box_, offset, args = self.tile[0]
            self.fp.seek(offset)
            self.im = (codec, self.fp.read(), args)
            self.tile = []
            if self._exclusive_fp:
                self.fp.close()
            self.fp = None
            return self.im

    def plugin(name, magic):
        class Plugin(ImageFile):
            format = name

            def _open(self):
                head = self.fp.read(12)
                if not head.startswith(magic):
                    raise SyntaxError("not a %s file" % name)
                self.mode = "RGB" if len(head) % 2 else "L"
                self.size = (len(magic) + sum(head) % 97 + 1, 7)
                self.tile = [(name.lower(), (0, 0) + self.size, 0, (self.mode, ""))]
        return Plugin
    m.ImageFile = ImageFile
    img = box.load("PIL.Image")
    for name, magic in (("JPEG", JPEG), ("PNG", PNG)):
        img.register_open(name, plugin(name, magic))
        img.register_extension(name, "." + name.lower())


def imageio(box, m):
    core = box.load("imageio.core")
    m.core = core
    m.formats = core.FormatManager()
    f = box.load("imageio.plugins_").formats
    for x in f:
        m.formats.add_format(x)

    def read(uri, format=None, mode="?", **kw):
        request = core.Request(uri, "r" + mode, **kw)
        if format is not None:
            fmt = m.formats[format]
        else:
            fmt = m.formats.search_read_format(request)
        if fmt is None:
            request.finish()
            raise ValueError("Could not find a format to read the specified file in mode %r" % mode)
        return fmt.get_reader(request)

    def imread(uri, format=None, **kw):
        """imread(uri, format=None, **kwargs)"""
        with read(uri, format, "i", **kw) as reader:
            return reader.get_data(0)

    def mimread(uri, format=None, **kw):
        with read(uri, format, "I", **kw) as reader:
            return [im for im in reader]
    m.read = m.get_reader = read
    m.imread, m.mimread = imread, mimread


def imageio_plugins(box, m):
    core = box.load("imageio.core")

    def make(kind, magic):
        class Simple(core.Format):
            def _can_read(self, request):
                return request.mode[1] in (self.modes + "?") and request.firstbytes.startswith(magic)

            class Reader(core.Format.Reader):
                def _open(self, pilmode=None):
                    self._d = slurp(box, self.request.get_local_filename())
                    self._pilmode = pilmode

                def _close(self):
                    pass

                def _get_length(self):
                    return 1

                def _get_data(self, index):
                    if index != 0:
                        raise IndexError("Image index %i > 1" % index)
                    d = decode(self._d)
                    if d is None or d[0] != kind:
                        raise IOError("broken %s" % kind)
                    return d + (self._pilmode,), {}

                def _get_meta_data(self, index):
                    return {}
        return Simple(kind.upper() + "-PIL", kind, "." + kind, "iI")
    m.formats = [make("jpeg", JPEG), make("png", PNG)]


def imageio_core(box, m):
    posix = box.posix

    class Request:
        def __init__(self, uri, mode, **kw):
            self.mode, self.kwargs, self._name, self._temp, self._first, self._mem = mode, kw, None, None, None, None
            if isinstance(uri, str) or hasattr(uri, "__fspath__"):
                self._name = posix.fspath(uri)
                if not box.load("os").path.exists(self._name):
                    raise FileNotFoundError("No such file: '%s'" % self._name)
            elif isinstance(uri, bytes):
                self._mem = uri
            elif hasattr(uri, "read") and hasattr(uri, "close"):
                self._mem = uri.read()
            else:
                raise IOError("Cannot understand given URI: %r." % type(uri))
            self.extension = "." + self._name.rpartition(".")[2] if self._name and "." in self._name else None

        @property
        def filename(self):
            return self._name or "<bytes>"

        @property
        def firstbytes(self):
            if self._first is None:
                if self._mem is not None:
                    self._first = self._mem[:256]
                else:
                    with box.open(self._name, "rb") as h:
                        self._first = h.read(256)
            return self._first

        def get_file(self):
            return io.BytesIO(self._mem) if self._mem is not None else box.open(self._name, "rb")

        def get_local_filename(self):
            if self._name:
                return self._name
            if self._temp is None:
                fd, self._temp = box.load("tempfile").mkstemp(self.extension or "", "imageio_")
                with box.load("os").fdopen(fd, "wb") as h:
                    h.write(self._mem)
            return self._temp

        def finish(self):
            t, self._temp = self._temp, None
            if t:
                try:
                    box.load("os").remove(t)
                except OSError:
                    pass

    class Array(tuple):
        def __new__(cls, im, meta):
            a = tuple.__new__(cls, im)
            a.meta = meta
            return a

    class Base:
        def __init__(self, format, request):
            self._closed, self._format, self._request = False, format, request
            self.request.kwargs
            try:
                self._open(**request.kwargs.copy())
            except BaseException:
                request.finish()
                raise

        format = property(lambda self: self._format)
        request = property(lambda self: self._request)

        def __enter__(self):
            if self._closed:
                raise RuntimeError("closed")
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            if not self._closed:
                self._closed = True
                try:
                    self._close()
                finally:
                    self.request.finish()

        def _open(self, **kw):
            raise NotImplementedError()

        def _close(self):
            raise NotImplementedError()

    class Reader(Base):
        def get_length(self):
            return self._get_length()

        def get_data(self, index, **kw):
            if self._closed:
                raise RuntimeError("Reader is closed.")
            im, meta = self._get_data(index)
            return Array(im, meta)

        def get_meta_data(self, index=None):
            return self._get_meta_data(index)

        def __iter__(self):
            i, n = 0, self._get_length()
            while i < n:
                im, meta = self._get_data(i)
                yield Array(im, meta)
                i += 1

        def __len__(self):
            return self._get_length()

    class Writer(Base):
        pass

    class Format:
        def __init__(self, name, description, extensions=None, modes=None):
            if not isinstance(name, str) or not name:
                raise ValueError("Format name must be a string")
            self._name, self._description = name.upper(), description
            if extensions is None:
                extensions = []
            elif isinstance(extensions, str):
                extensions = extensions.replace(",", " ").split(" ")
            self._extensions = tuple(("." + e.strip(".").lower()) for e in extensions if e)
            self._modes = modes or ""
            for x in self._modes:
                if x not in "iIvV?":
                    raise ValueError("Invalid value for mode %r" % x)
        name = property(lambda self: self._name)
        description = property(lambda self: self._description)
        extensions = property(lambda self: self._extensions)
        modes = property(lambda self: self._modes)

        def can_read(self, request):
            return self._can_read(request)

        def can_write(self, request):
            return self._can_write(request)

        def _can_read(self, request):
            return None

        def _can_write(self, request):
            return None

        def get_reader(self, request):
            mode = request.mode[1] if request.mode[1] in "iIvV" else ""
            if mode not in self.modes:
                raise RuntimeError("Format %s cannot read in mode %r" % (self.name, mode))
            return self.Reader(self, request)
    Format.Reader, Format.Writer = Reader, Writer

    class FormatManager:
        def __init__(self):
            self._formats = []

        def __iter__(self):
            return iter(self._formats)

        def __len__(self):
            return len(self._formats)

        def __getitem__(self, name):
            for f in self._formats:
                if f.name == name.upper() or name.lower() in f.extensions:
                    return f
            raise IndexError("No format known by name %s." % name)

        def get_format_names(self):
            return [f.name for f in self._formats]

        def add_format(self, format, overwrite=False):
            if not isinstance(format, Format):
                raise ValueError("add_format needs argument to be a Format object")
            if format.name in self.get_format_names():
                if not overwrite:
                    raise ValueError("A Format named %r is already registered, use overwrite=True to replace." % format.name)
                self._formats = [f for f in self._formats if f.name != format.name]
            self._formats.append(format)

        def search_read_format(self, request):
            first = [f for f in self._formats if request.extension in f.extensions]
            for f in first + [f for f in self._formats if f not in first]:
                if f.can_read(request):
                    return f
            return None
    m.Request, m.Format, m.FormatManager, m.Array = Request, Format, FormatManager, Array
    m.util = m


def pythonmagick(box, m):
    class Blob:
        def __init__(self, data=b""):
            self.data = data

    class Image:
        def __init__(self, *args):
            """__init__(self, *args)"""
            self.pixels = None
            if not args:
                return
            a = args[0]
            if isinstance(a, str):
                d = decode(slurp(box, a))
                if d is None:
                    raise RuntimeError("Magick: no decode delegate for this image format `%s'" % a)
                self.pixels = d
            elif isinstance(a, Blob):
                d = decode(a.data)
                if d is None:
                    raise RuntimeError("Magick: no decode delegate")
                self.pixels = d
            elif isinstance(a, Image):
                self.pixels = a.pixels
            elif isinstance(a, int) and len(args) >= 2:
                self.pixels = ("raw",) + args
            else:
                raise TypeError("Python argument types did not match C++ signature")

    class DrawableCircle:
        pass
    m.Image, m.Blob, m.DrawableCircle = Image, Blob, DrawableCircle


def matplotlib(box, m):
    m.__path__ = ["/site/matplotlib"]


def matplotlib_image(box, m):
    def imread(fname):
        """imread(fname)"""
        if isinstance(fname, str):
            head = slurp(box, fname)[:4]
            if head.startswith(PNG):
                return decode(slurp(box, fname))
        img = box.import_("PIL", fromlist=("Image",)).Image
        with img.open(fname) as im:
            return (im.mode, im.size) + tuple(im.load())
    m.imread = imread


FACTORIES = {"cv2": cv2, "PIL": pil, "PIL.Image": pil_image, "PIL.ImageFile": pil_imagefile, "imageio": imageio,
             "imageio.core": imageio_core, "imageio.plugins_": imageio_plugins, "PythonMagick": pythonmagick,
             "matplotlib": matplotlib, "matplotlib.image": matplotlib_image}
