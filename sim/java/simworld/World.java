package simworld;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;

/** One run: its decisions and its log. Same meaning as in sim/py/engine.py. */
final class World {
  static final class Violation extends Error {
    final String kind;
    Violation(String kind, String detail) {
      super(detail, null, false, false);
      this.kind = kind;
    }
  }

  /** A decision of a stream; 0 is the harmless one. */
  final class Stream {
    final String name;
    long state;
    int n;
    Stream(String name, String base) {
      this.name = name;
      long h = 1125899906842597L;
      String s = base + "/" + name;
      for (int i = 0; i < s.length(); i++) h = mix(h ^ s.charAt(i));
      state = h;
    }
    long next() {
      state += 0x9E3779B97F4A7C15L;
      return mix(state);
    }
  }

  static long mix(long z) {
    z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
    z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
    return z ^ (z >>> 31);
  }

  final Map<String, Stream> streams = new HashMap<>();
  final Map<String, Long> given;      // null: drawn from the seed
  final String base;
  final List<String> table = new ArrayList<>();
  final List<String> log = new ArrayList<>();
  final Map<String, Integer> faults = new TreeMap<>();
  final Map<String, Integer> probes = new TreeMap<>();
  long hash = 0xCBF29CE484222325L;
  long ticks, events;
  String sample = "";
  Violation verdict;
  java.io.PrintStream live;           // receives each decision as it is taken

  World(String base, Map<String, Long> given) {
    this.base = base;
    this.given = given;
  }

  long pick(String stream, long n) {
    Stream s = streams.computeIfAbsent(stream, k -> new Stream(k, base));
    int i = s.n++;
    if (n <= 1) return 0;
    long v = given != null ? given.getOrDefault(stream + " " + i, 0L) % n : (s.next() >>> 2) % n;
    if (v != 0) {
      table.add(stream + " " + i + " " + v);
      if (live != null) {
        live.println("d " + stream + " " + i + " " + v);
        live.flush();
      }
    }
    return v;
  }

  /** True once in `oneIn`; never if that is 0. */
  boolean chance(String stream, int oneIn) {
    return oneIn > 0 && pick(stream, oneIn) == oneIn - 1;
  }

  void ev(String s) {
    events++;
    for (int i = 0; i < s.length(); i++) hash = (hash ^ s.charAt(i)) * 0x100000001B3L;
    hash = mix(hash);
    if (log.size() < 2000) log.add("t=" + ticks + " " + s);
  }

  void fault(String name) {
    faults.merge(name, 1, Integer::sum);
    ev("fault " + name);
  }

  void probe(String name) {
    probes.merge(name, 1, Integer::sum);
  }

  Violation fail(String kind, String detail) {
    Violation v = new Violation(kind, detail);
    if (verdict == null) verdict = v;
    throw v;
  }
}
