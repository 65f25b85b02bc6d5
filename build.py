#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree. Usage: build.py OUTDIR VARIANT...

Sources of the system under test are found by globbing, so a file that is
added or split does not break the build; file names are not otherwise
significant.
"""
import concurrent.futures, glob, os, shutil, subprocess, sys

REPO = os.environ.get("SIM_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")

WRAP = ("-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=BrotliEncoderCompress,"
        "--wrap=BrotliEncoderCreateInstance,--wrap=BrotliEncoderCompressStream")
INC = ["-I" + REPO + "/c/include", "-I" + REPO]

DISKWRAP = "-Wl," + ",".join("--wrap=" + f for f in """fopen fopen64 fdopen fileno ftell ftello ftello64 open open64 creat
close read write readv writev lseek lseek64 fstat fstat64 stat stat64 fsync fdatasync ftruncate ftruncate64 rename unlink
remove access exit""".split())

# variant -> (compiler, flags for everything, flags for SUT only, link flags,
#             harness files, SUT groups)
CORE = ["core.cc", "jpeggen.cc", "seam_alloc.cc", "codec.cc", "restructure.cc", "main.cc"]
VARIANTS = {
    "plain": dict(cxx="g++", all=["-O2"], sut=["-DNDEBUG"], link=[WRAP], files=CORE + ["sc_stream.cc", "sc_sink.cc", "sc_headerless.cc", "sc_relay.cc",
                                                                                "sc_peek.cc"],
                  groups=["lib"]),
    "asan": dict(cxx="clang++", all=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DSIM_ASAN"],
                 sut=["-DNDEBUG"], link=[WRAP, "-fsanitize=address"], files=CORE + ["sc_stream.cc", "sc_sink.cc", "sc_peek.cc"],
                 groups=["lib"]),
    # Instrumented for the simulated scheduler in sched.cc, which is the runtime.
    "sched": dict(cxx="clang++", all=["-O1", "-g1", "-DBRUNSLI_EXPERIMENTAL_GROUPS", "-fno-pie"],
                  sut=["-DNDEBUG", "-fsanitize=thread"], link=[WRAP, "-no-pie", "-ldl"],
                  files=CORE + ["sched.cc", "sc_sched.cc"], groups=["lib", "groups"]),
    # The library as it is with the experimental groups mode on.
    "groups": dict(cxx="clang++", all=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DSIM_ASAN",
                                       "-DBRUNSLI_EXPERIMENTAL_GROUPS"],
                   sut=["-DNDEBUG"], link=[WRAP, "-fsanitize=address"], files=CORE + ["sc_groups.cc", "sc_relay.cc"],
                   groups=["lib", "groups"]),
    # Command line tools on a simulated disk.
    "tools": dict(cxx="g++", all=["-O2", "-U_FORTIFY_SOURCE"], sut=["-DNDEBUG"], link=[WRAP, DISKWRAP, "-static-libstdc++"],
                  files=CORE + ["simdisk.cc", "sc_tools.cc"], groups=["lib", "tools"]),
    # The same with the groups mode on, its threads under the simulated scheduler.
    "gtools": dict(cxx="clang++", all=["-O1", "-g1", "-DBRUNSLI_EXPERIMENTAL_GROUPS", "-DSIM_SCHED", "-DSIM_STATIC_CXX",
                                       "-fno-pie",
                                       "-U_FORTIFY_SOURCE"],
                   sut=["-DNDEBUG", "-fsanitize=thread"],
                   link=[WRAP, DISKWRAP, "-Wl,--wrap=__cxa_allocate_exception", "-no-pie", "-ldl", "-static-libstdc++"],
                   files=CORE + ["sched.cc", "simdisk.cc", "sc_tools.cc"], groups=["lib", "groups", "tools"]),
}
JNI_INC = [f for d in sorted(glob.glob("/usr/lib/jvm/*/include"), reverse=True)[:1] for f in ("-I" + d, "-I" + d + "/linux")]
VARIANTS["bindings"] = dict(cxx="clang++", all=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DSIM_ASAN"] +
                            JNI_INC, sut=["-DNDEBUG"], link=[WRAP, "-fsanitize=address"],
                            files=CORE + ["sc_jni.cc", "sc_wasm.cc"], groups=["lib", "jni", "wasm"])
VARIANTS["jnithreads"] = dict(cxx="clang++", all=["-O1", "-g1", "-fno-pie", "-DSIM_SCHED"] + JNI_INC,
                              sut=["-DNDEBUG", "-fsanitize=thread"], link=[WRAP, "-no-pie", "-ldl"],
                              files=CORE + ["sched.cc", "sc_jni.cc"], groups=["lib", "jni"])
VARIANTS["compat"] = dict(cxx="g++", all=["-O2"], sut=["-DNDEBUG"], link=[WRAP], files=CORE + ["sc_compat.cc"],
                          groups=["lib", "ref"])
LIBCWRAP = "-Wl," + ",".join("--wrap=str" + f for f in "cmp ncmp casecmp ncasecmp chr str cpy ncpy".split())
SERVER_INC = ["-I" + os.path.join(SIM, "server", d) for d in ("ngx", "apr")]
VARIANTS["server"] = dict(cxx="clang++", all=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DSIM_ASAN"] +
                          SERVER_INC, sut=[], link=[WRAP, "-fsanitize=address"],
                          files=CORE + ["sc_nginx.cc", "sc_apache.cc"], groups=["lib", "contrib"])
VARIANTS["serverthreads"] = dict(cxx="clang++", all=["-O1", "-g1", "-fno-pie", "-DSIM_SCHED"] + SERVER_INC,
                                 sut=["-fsanitize=thread"],
                                 link=[WRAP, LIBCWRAP, "-no-pie", "-ldl"],
                                 files=CORE + ["sched.cc", "sc_apache.cc"], groups=["lib", "apache"])
# A library for a real Java virtual machine.
VARIANTS["java"] = dict(cxx="g++", all=["-O2", "-g1", "-fPIC"] + JNI_INC, sut=["-DNDEBUG"], link=["-shared", "-Wl,-Bsymbolic,-z,defs"],
                        files=["core.cc", "jpeggen.cc", "java/java_native.cc"], groups=["lib", "jni"], exe="libsim.so")
TOOLS = ("cbrunsli", "dbrunsli")


def sources(group):
    if group == "lib":
        out = []
        for d in ("common", "dec", "enc"):
            out += glob.glob(os.path.join(REPO, "c", d, "*.cc"))
        return [(s, []) for s in sorted(out) if not s.endswith("_test.cc")]
    if group == "groups":
        return [(s, []) for s in sorted(glob.glob(os.path.join(REPO, "c", "experimental", "*.cc")))
                if not s.endswith("_test.cc")]
    if group == "tools":
        out = []
        for s in sorted(glob.glob(os.path.join(REPO, "c", "tools", "*.cc"))):
            name = os.path.basename(s)[:-3]
            if not name.endswith("_test"):
                out.append((s, ["-Dmain=%s_main" % name] if name in TOOLS else []))
        return out
    if group == "jni":
        return [(s, []) for s in sorted(glob.glob(os.path.join(REPO, "java", "dev", "brunsli", "wrapper", "*.cc")))
                if not s.endswith("_test.cc")]
    if group == "ref":
        # The other version: frozen, never changed along with /repo.
        top = os.path.join(HERE, "refcodec")
        flags = ["-I" + top + "/c/include", "-I" + top, "-Dbrunsli=brunsli_ref",
                 "-DEncodeBrunsli=RefEncodeBrunsli", "-DDecodeBrunsli=RefDecodeBrunsli"]
        out = [os.path.join(SIM, "refcodec.cc")]
        for d in ("common", "dec", "enc"):
            out += glob.glob(os.path.join(top, "c", d, "*.cc"))
        return [(s, flags) for s in sorted(out)]
    if group in ("contrib", "apache"):
        top = os.path.join(REPO, "contrib", "mod_brunsli" if group == "apache" else "*")
        stub = [(os.path.join(SIM, "server", "apr", f), ["-fno-builtin"])
                for f in ["strings_stub.c"] + ["libc_stub.c"] * (group == "apache")]
        return stub + [(s, []) for d in (top, os.path.join(top, "src")) for s in sorted(glob.glob(os.path.join(d, "*.c")))]
    if group == "wasm":
        return [(os.path.join(SIM, "wasm_shim.cc"), ["-std=c++17"])]
    raise KeyError(group)


def localize(obj):
    """Two programs in one: what they define, except the entry point, is made private to each."""
    nm = subprocess.run(["nm", "--defined-only", obj], stdout=subprocess.PIPE, text=True, check=True).stdout
    args = []
    for line in nm.splitlines():
        f = line.split()
        if len(f) == 3 and f[1] in "TDBRC" and "_main" not in f[2]:
            args.append("--localize-symbol=" + f[2])
    if args:
        subprocess.run(["objcopy"] + args + [obj], check=True)


def compile_one(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, cmd


def python_sim(outdir):
    """Nothing to compile: a launcher with the environment that repeatable runs need."""
    for src in glob.glob(os.path.join(REPO, "contrib", "py", "**", "*.py"), recursive=True):
        with open(src, "rb") as f:
            compile(f.read(), src, "exec")
    os.makedirs(os.path.join(outdir, "py"), exist_ok=True)
    exe = os.path.join(outdir, "py", "sim")
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexport PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 SIM_REPO='%s'\nexec '%s' '%s' \"$@\"\n" %
                (REPO, sys.executable, os.path.join(SIM, "py", "pysim.py")))
    os.chmod(exe, 0o755)
    return exe


def java_sim(outdir):
    """Compiles the Java classes; their native part is linked like the other simulators."""
    od = os.path.join(outdir, "java")
    top = os.path.join(REPO, "java")
    srcs = [s for s in sorted(glob.glob(os.path.join(top, "**", "*.java"), recursive=True)) if "Test" not in os.path.basename(s)]
    mine = os.path.join(SIM, "java")
    asm = ["--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"]
    for sub, files, flags in (("classes", srcs, []),
                              ("harness", [os.path.join(mine, "Gen.java")] + sorted(glob.glob(os.path.join(mine, "simworld", "*.java"))), asm)):
        shutil.rmtree(os.path.join(od, sub), ignore_errors=True)
        os.makedirs(os.path.join(od, sub))
        rc, out, _ = compile_one(["javac", "-nowarn", "-g", "-encoding", "UTF-8", "-d", os.path.join(od, sub)] + flags + files)
        if rc:
            sys.stderr.write(out)
            raise SystemExit(3)
    exe = os.path.join(od, "sim")
    with open(exe, "w") as f:
        f.write("#!/bin/sh\nexport PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 SIM_JAVA_DIR='%s'\nexec '%s' '%s' \"$@\"\n" %
                (od, sys.executable, os.path.join(mine, "javasim.py")))
    os.chmod(exe, 0o755)
    return exe


def build(outdir, variants):
    jobs, links, outs, private = [], [], {}, []
    for v in variants:
        if v == "py":
            outs[v] = python_sim(outdir)
            continue
        cfg = VARIANTS[v]
        od = os.path.join(outdir, v)
        os.makedirs(od, exist_ok=True)
        objs = []

        def add(src, tag, flags):
            obj = os.path.join(od, tag + os.path.basename(src) + ".o")
            objs.append(obj)
            lang = ["-x", "c"] if src.endswith(".c") else []
            jobs.append([cfg["cxx"]] + lang + ["-c", src, "-o", obj, "-pthread"] + cfg["all"] + flags + INC)

        for g in cfg["groups"]:
            for src, extra in sources(g):
                tag = os.path.relpath(os.path.dirname(src), REPO).replace("/", "_") + "_" + g + "_"
                add(src, tag, ["-std=gnu11" if src.endswith(".c") else "-std=c++11", "-w"] + cfg["sut"] + extra)
                if extra and g == "tools":
                    private.append(objs[-1])
        for f in cfg["files"]:
            add(os.path.join(SIM, f), "h_", ["-std=c++17", "-Wall", "-Wno-unused-function"] + cfg.get("harness", []))
        exe = os.path.join(od, cfg.get("exe", "sim"))
        links.append([cfg["cxx"], "-o", exe, "-pthread"] + objs + cfg["link"] +
                     ["-l:libbrotlienc.a", "-l:libbrotlidec.a", "-l:libbrotlicommon.a", "-lm"] + cfg.get("libs", []))
        outs[v] = java_sim(outdir) if v == "java" else exe
    # Slow ones first.
    jobs.sort(key=lambda c: -os.path.getsize(c[c.index("-c") + 1]))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for phase in (jobs, links):
            if phase is links:
                for obj in private:
                    localize(obj)
            for rc, out, cmd in ex.map(compile_one, phase):
                if rc:
                    sys.stderr.write(" ".join(cmd) + "\n" + out)
                    raise SystemExit(3)
    return outs


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
