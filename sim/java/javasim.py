#!/usr/bin/env python3
"""The Java world: a virtual machine that executes one run per request; see simworld/Main.java."""
import atexit
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "py"))
sys.dont_write_bytecode = True
import engine

DIR = os.environ["SIM_JAVA_DIR"]
vm = None


def start():
    global vm
    vm = subprocess.Popen(
        ["java", "-XX:+UseSerialGC", "-Xss1m", "-Xmx512m", "-XX:MaxDirectMemorySize=512m", "-XX:-UsePerfData", "-XX:TieredStopAtLevel=1",
         "-XX:ErrorFile=/dev/null", "-XX:-CreateCoredumpOnCrash", "-Xshare:auto",
         "--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED", "-cp", os.path.join(DIR, "harness"), "simworld.Main",
         os.path.join(DIR, "classes"), os.path.join(DIR, "harness"), os.path.join(DIR, "libsim.so")],
        stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("SIM_TRACE") else None,
        text=True, bufsize=1 << 16)
    atexit.register(stop)


def stop():
    global vm
    if vm:
        vm.kill()
        vm.wait()
        vm = None


def recover(w, name):
    """The decisions of a run that kills the virtual machine: again, reporting each at once."""
    start()
    try:
        out, _ = vm.communicate("live %s\n" % name, timeout=100)
    except subprocess.TimeoutExpired:
        out = ""
    stop()
    for line in out.splitlines():
        if line.startswith("d "):
            s, i, v = line[2:].split()
            w.table.append((s, int(i), int(v)))


def codec(w):
    if vm is None:
        start()
    kind, arg = w.source.spec
    request = "seed " + arg if kind == "seed" else "table " + ";".join("%s %d %d" % e for e in arg)
    died = False
    try:
        vm.stdin.write(request + "\n")
        vm.stdin.flush()
    except BrokenPipeError:
        died = True
    verdict, log = None, []
    while True:
        line = "" if died else vm.stdout.readline()
        if not line:
            rc = vm.wait()
            stop()
            if kind == "seed":
                recover(w, arg)
            else:
                w.table.extend(arg)
            w.fail("crash", "the virtual machine died, status %d" % rc)
        line = line.rstrip("\n")
        k, _, rest = line.partition(" ")
        if k == "end":
            break
        if k == "v":
            verdict = rest.split(" ", 1)
        elif k == "h":
            h, t, e = rest.split()
            w.ticks, w.events = int(t), int(e)
            w.hash.update(h.encode())
        elif k == "s":
            w.sample = rest
        elif k in "fp":
            n, name = rest.split(" ", 1)
            (w.faults if k == "f" else w.probes)[name] = int(n)
        elif k == "d":
            s, i, v = rest.split()
            w.table.append((s, int(i), int(v)))
        elif k == "l":
            log.append(rest)
    w.log = log
    if verdict:
        w.fail(verdict[0], verdict[1])


if __name__ == "__main__":
    engine.drop_rights = lambda: None     # Codec has nothing to do with files
    sys.exit(engine.main({"javacodec": codec}, sys.argv))
