"""Seeded search, replay and minimisation for the Python part; the same
commands and file formats as sim/main.cc.

  explore SCENARIO SEED WORKER NWORKERS SECONDS MAXRUNS OUTDIR [KNOWN]
  capture SCENARIO SEED RUN OUT
  history SCENARIO SEED FIRST LAST OUT
  replay FILE [-v]
  minimise FILE OUT SECONDS
  hashes SCENARIO SEED FIRST LAST
"""
import hashlib
import os
import random
import re
import sys
import threading
import time

STREAMS = ("cfg", "work", "fault", "sched")


class Violation(BaseException):
    def __init__(self, kind, detail):
        BaseException.__init__(self, kind, detail)
        self.kind = kind
        self.detail = detail.replace("\n", " ").replace("|", "/")


class Stopped(BaseException):
    """Unwinds the other clients once the outcome is known."""


class World:
    """One run: its decisions, its log, its clients."""

    def __init__(self, source):
        self.source = source          # stream, index -> value or None
        self.n = dict.fromkeys(STREAMS, 0)
        self.table = []
        self.hash = hashlib.blake2b(digest_size=8)
        self.log = []
        self.ticks = self.events = 0
        self.faults, self.probes, self.sample = {}, {}, ""
        self.steps = 0
        self.max_steps = 200000
        self.clients, self.current = [], None
        self.preempt = 0
        self.verdict = None

    # Decisions. Zero is always the harmless choice.
    def pick(self, stream, n):
        i = self.n[stream]
        self.n[stream] = i + 1
        v = self.source(stream, i) % n if n > 1 else 0
        if v:
            self.table.append((stream, i, v))
        return v

    def chance(self, stream, one_in):
        """True once in one_in; never if one_in is 0."""
        return one_in > 0 and self.pick(stream, one_in) == one_in - 1

    def choose(self, stream, seq):
        return seq[self.pick(stream, len(seq))]

    def bits(self, stream, k):
        return self.pick(stream, 1 << k)

    # Log.
    def ev(self, *args):
        s = " ".join(str(a) for a in args)
        self.events += 1
        self.hash.update(s.encode("utf-8", "replace") + b"\n")
        if len(self.log) < 4000:
            self.log.append("t=%d %s" % (self.ticks, s))

    def tick(self):
        self.ticks += 1

    def fault(self, name):
        self.faults[name] = self.faults.get(name, 0) + 1
        self.ev("fault", name)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def fail(self, kind, detail):
        # The code under test may swallow the exception, the verdict stays.
        v = Violation(kind, detail)
        if not isinstance(self.verdict, Violation):
            self.verdict = v
        raise v

    # Clients: threads that run one at a time.
    def point(self, block=None):
        """A scheduling point; with block, waits until block() is false."""
        self.steps += 1
        if self.steps > self.max_steps:
            self.fail("no-progress", "more than %d steps" % self.max_steps)
        me = self.current
        if me is None:
            if block and block():
                self.fail("deadlock", "waits for a lock nobody will release")
            return
        if me.stopped:
            raise Stopped()
        me.block = block
        if not block and not self.chance("sched", self.preempt):
            return
        self.switch(me)

    def runnable(self):
        return [c for c in self.clients if not c.done and not (c.block and c.block())]

    def switch(self, me):
        ready = self.runnable()
        if not ready:
            self.fail("deadlock", "every client waits")
        nxt = self.choose("sched", ready)
        if nxt is me:
            me.block = None
            return
        self.faults["context_switch"] = self.faults.get("context_switch", 0) + 1
        self.ev("switch", nxt.id)
        self.current = nxt
        nxt.go.release()
        me.go.acquire()
        me.block = None
        if me.stopped:
            raise Stopped()

    def run_clients(self, fns, preempt, trace=None):
        if len(fns) == 1:
            fns[0]()
            return
        self.preempt = preempt
        over = threading.Semaphore(0)
        self.clients = [Client(i) for i in range(len(fns))]

        def body(c, fn):
            c.go.acquire()
            try:
                if not c.stopped:
                    if trace:
                        sys.settrace(trace)
                    fn()
            except Stopped:
                pass
            except Violation as v:
                self.verdict = self.verdict or v
            except BaseException as e:      # of the harness
                self.verdict = self.verdict or e
            finally:
                sys.settrace(None)
                c.done = True
                try:
                    if self.verdict:
                        for o in self.clients:
                            o.stopped = True
                            o.block = None
                    left = [o for o in self.clients if not o.done]
                    if not left:
                        over.release()
                    else:
                        ready = left if self.verdict else self.runnable()
                        if not ready:
                            self.verdict = Violation("deadlock", "every client waits")
                            for o in left:
                                o.stopped = True
                            ready = left
                        nxt = ready[0] if self.verdict else self.choose("sched", ready)
                        self.current = nxt
                        nxt.go.release()
                except BaseException as e:
                    self.verdict = self.verdict or e
                    over.release()

        threads = [threading.Thread(target=body, args=(c, f), daemon=True) for c, f in zip(self.clients, fns)]
        for t in threads:
            t.start()
        first = self.choose("sched", self.clients)
        self.current = first
        first.go.release()
        over.acquire()
        for t in threads:
            t.join()
        self.current = None
        self.clients = []
        self.preempt = 0
        if self.verdict:
            raise self.verdict


class Client:
    def __init__(self, i):
        self.id = i
        self.go = threading.Semaphore(0)
        self.done = self.stopped = False
        self.block = None


# ------------------------------------------------------------------- one run

def seeded(seed, scen, run):
    rnds = {}
    base = "%s/%s/%s" % (seed, scen, run)

    def source(stream, i):
        r = rnds.get(stream)
        if r is None:
            r = rnds[stream] = random.Random(base + "/" + stream)
        return r.getrandbits(62)
    source.spec = ("seed", base)
    return source


def from_table(table):
    d = dict(((s, i), v) for s, i, v in table)

    def source(stream, i):
        return d.get((stream, i), 0)
    source.spec = ("table", table)
    return source


class Outcome:
    def __init__(self, world, kind, detail):
        self.w, self.kind, self.detail = world, kind, detail
        self.hash = world.hash.hexdigest()


def execute(fn, source):
    w = World(source)
    kind = detail = None
    try:
        fn(w)
        if w.verdict:
            raise w.verdict
    except Violation as v:
        kind, detail = v.kind, v.detail
    w.ev("end", kind)
    return Outcome(w, kind, detail)


def drop_rights():
    """From here on this process has no rights over the real files."""
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


def write_replay(f, scen, seed, run, o, notes=()):
    with f:
        f.write("mode table\nscenario %s\nkind %s\ndetail %s\nseed %s\nrun %s\nfirst %s\nhash %s\n" %
                (scen, o.kind, o.detail, seed, run, run, o.hash))
        for s, i, v in o.w.table:
            f.write("d %s %d %d\n" % (s, i, v))
        for n in list(notes) + o.w.log[:400]:
            f.write("# %s\n" % n.replace("\n", " "))


def read_replay(path):
    d, table = {}, []
    for line in open(path):
        line = line.rstrip("\n")
        if line.startswith("#") or not line:
            continue
        k, _, rest = line.partition(" ")
        if k == "d":
            s, i, v = rest.split()
            table.append((s, int(i), int(v)))
        else:
            d[k] = rest
    return d, table


def report(o):
    if o.kind:
        print("outcome violation %s | %s | %s" % (o.kind, o.detail, o.hash))
        return 1
    print("outcome ok | | %s" % o.hash)
    return 0


def known_match(known, o):
    return any(k == o.kind and m in o.detail for k, m in known)


def explore(scenarios, scen, seed, worker, nworkers, seconds, max_runs, outdir, knownfile=None):
    fn = scenarios[scen]
    known = []
    if knownfile:
        known = [l.rstrip("\n").split("|", 1) for l in open(knownfile) if "|" in l]
    stats = open(os.path.join(outdir, "%s.%d.stats" % (scen, worker)), "w")
    hashes = open(os.path.join(outdir, "%s.%d.hashes" % (scen, worker)), "wb")
    drop_rights()
    end = time.time() + seconds
    run, runs, ticks, events = worker, 0, 0, 0
    faults, probes, samples, seen = {}, {}, [], set()
    bad = None
    while time.time() < end and runs < max_runs:
        o = execute(fn, seeded(seed, scen, run))
        runs += 1
        ticks += o.w.ticks
        events += o.w.events
        for src, dst in ((o.w.faults, faults), (o.w.probes, probes)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        if len(samples) < 2 and o.w.sample:
            samples.append(o.w.sample)
        if o.kind and not known_match(known, o):
            bad = (run, o)
            break
        seen.add(bytes.fromhex(o.hash))
        run += nworkers
    stats.write("runs %d\nticks %d\nevents %d\ndiscards 0\n" % (runs, ticks, events))
    for tag, d in (("f", faults), ("p", probes)):
        for k in sorted(d):
            stats.write("%s %d %s\n" % (tag, d[k], k))
    for s in samples:
        stats.write("s %s\n" % s.replace("\n", " "))
    if bad:
        stats.write("violation run %d first %d %s | %s\n" % (bad[0], bad[0], bad[1].kind, bad[1].detail))
    stats.close()
    hashes.write(b"".join(seen))
    hashes.close()
    return 1 if bad else 0


def minimise(fn, path, out, seconds):
    d, table = read_replay(path)
    out = open(out, "w")
    drop_rights()
    end = time.time() + seconds
    best = execute(fn, from_table(table))
    if best.kind != d["kind"]:
        print("does not replay")
        return 0
    tried = 0

    def attempt(t):
        nonlocal best, tried
        if time.time() > end:
            return False
        tried += 1
        o = execute(fn, from_table(t))
        if o.kind == best.kind and len(o.w.table) <= len(best.w.table):
            smaller = len(o.w.table) < len(best.w.table) or sum(e[2] for e in o.w.table) < sum(e[2] for e in best.w.table)
            if smaller:
                best = o
                return True
        return False

    progress = True
    while progress and time.time() < end:
        progress = False
        size = max(1, len(best.w.table) // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best.w.table) and time.time() < end:
                t = best.w.table
                if attempt(t[:i] + t[i + size:]):
                    progress = True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best.w.table) and time.time() < end:
            s, k, v = best.w.table[i]
            for nv in (1, v // 2):
                if 0 < nv < v and attempt(best.w.table[:i] + [(s, k, nv)] + best.w.table[i + 1:]):
                    progress = True
                    break
            i += 1
    write_replay(out, d["scenario"], d["seed"], d["run"], best, ["minimised in %d attempts" % tried])
    return report(best)


def main(scenarios, argv):
    cmd = argv[1]
    if cmd == "list":
        print("\n".join(scenarios))
        return 0
    if cmd == "explore":
        return explore(scenarios, argv[2], argv[3], int(argv[4]), int(argv[5]), float(argv[6]), int(argv[7]), argv[8],
                       argv[9] if len(argv) > 9 else None)
    if cmd in ("capture", "history"):
        run, out = (argv[4], argv[5]) if cmd == "capture" else (argv[5], argv[6])
        out = open(out, "w")
        drop_rights()
        o = execute(scenarios[argv[2]], seeded(argv[3], argv[2], int(run)))
        write_replay(out, argv[2], argv[3], run, o)
        return report(o)
    if cmd == "replay":
        d, table = read_replay(argv[2])
        drop_rights()
        o = execute(scenarios[d["scenario"]], from_table(table))
        if "-v" in argv:
            print("\n".join(o.w.log))
        return report(o)
    if cmd == "minimise":
        d, _ = read_replay(argv[2])
        return minimise(scenarios[d["scenario"]], argv[2], argv[3], float(argv[4]))
    if cmd == "hashes":
        drop_rights()
        for r in range(int(argv[4]), int(argv[5])):
            o = execute(scenarios[argv[2]], seeded(argv[3], argv[2], r))
            print("%d %s %d %s" % (r, o.hash, 1 if o.kind else 0, o.kind or ""))
        return 0
    print(__doc__)
    return 3
