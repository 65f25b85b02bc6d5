package simworld;

import java.io.BufferedReader;
import java.io.File;
import java.io.FileOutputStream;
import java.io.FileDescriptor;
import java.io.IOException;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.nio.ByteBuffer;
import java.nio.ByteOrder;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.stream.Collectors;
import java.util.stream.Stream;

/**
 * Main CLASSES HARNESS LIBRARY: reads "seed NAME" or "table S I V;..." lines, executes one run for
 * each and prints what came of it.
 */
public final class Main {
  static final String CODEC = "dev.brunsli.wrapper.Codec";
  static Map<String, byte[]> woven = new HashMap<>();
  static ClassLoader permanent;
  static Method jpeg, reference;
  static String loadError;

  static Map<String, byte[]> classes(String dir) throws IOException {
    Map<String, byte[]> out = new HashMap<>();
    Path top = new File(dir).toPath();
    try (Stream<Path> files = Files.walk(top)) {
      for (Path p : files.filter(f -> f.toString().endsWith(".class")).collect(Collectors.toList())) {
        String n = top.relativize(p).toString();
        out.put(n.substring(0, n.length() - 6).replace('/', '.'), Files.readAllBytes(p));
      }
    }
    return out;
  }

  static void prepare(String[] args) throws Exception {
    Map<String, byte[]> sut = classes(args[0]), fixed = new HashMap<>();
    Set<String> natives = new HashSet<>();
    for (byte[] c : sut.values()) natives.addAll(Weaver.natives(c));
    for (Map.Entry<String, byte[]> e : sut.entrySet()) {
      if (Weaver.natives(e.getValue()).isEmpty()) woven.put(e.getKey(), Weaver.weave(e.getValue(), natives, true));
      else fixed.put(e.getKey(), Weaver.weave(e.getValue(), natives, false));
    }
    fixed.put("simnative.Gen", Files.readAllBytes(new File(args[1], "simnative/Gen.class").toPath()));
    permanent = new Weaver.Loader(Main.class.getClassLoader(), fixed);
    Class<?> gen = permanent.loadClass("simnative.Gen");
    jpeg = gen.getMethod("jpeg", long.class, int.class);
    reference = gen.getMethod("reference", boolean.class, byte[].class);
    try {
      gen.getMethod("load", String.class).invoke(null, args[2]);
    } catch (InvocationTargetException e) {
      loadError = String.valueOf(e.getCause());
    }
  }

  public static void main(String[] args) throws Exception {
    PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
    prepare(args);
    BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
    int n = 0;
    for (String line; (line = in.readLine()) != null; ) {
      Map<String, Long> table = null;
      String base = "";
      if (line.startsWith("table")) {
        table = new HashMap<>();
        for (String e : line.substring(5).split(";")) {
          String[] f = e.trim().split(" ");
          if (f.length == 3) table.put(f[0] + " " + f[1], Long.parseLong(f[2]));
        }
      } else {
        base = line.substring(5);
      }
      World w = new World(base, table);
      if (line.startsWith("live")) w.live = out;
      try {
        new Run(w).go();
      } catch (World.Violation v) {
        if (w.verdict == null) w.verdict = v;
      }
      StringBuilder s = new StringBuilder();
      w.ev("end " + (w.verdict == null ? "" : w.verdict.kind));
      if (w.verdict != null) s.append("v ").append(w.verdict.kind).append(' ').append(clean(w.verdict.getMessage())).append('\n');
      s.append("h ").append(String.format("%016x", w.hash)).append(' ').append(w.ticks).append(' ').append(w.events).append('\n');
      s.append("s ").append(clean(w.sample)).append('\n');
      for (Map.Entry<String, Integer> e : w.faults.entrySet()) s.append("f ").append(e.getValue()).append(' ').append(e.getKey()).append('\n');
      for (Map.Entry<String, Integer> e : w.probes.entrySet()) s.append("p ").append(e.getValue()).append(' ').append(e.getKey()).append('\n');
      for (String d : w.table) s.append("d ").append(d).append('\n');
      if (w.verdict != null || table != null) for (String l : w.log) s.append("l ").append(clean(l)).append('\n');
      s.append("end\n");
      out.print(s);
      out.flush();
      if (++n % 64 == 0) System.gc();      // direct buffers
    }
  }

  static String clean(String s) {
    return String.valueOf(s).replace('\n', ' ').replace('|', '/');
  }

  static byte[] reference(boolean encode, byte[] data) {
    try {
      return (byte[]) reference.invoke(null, encode, data);
    } catch (ReflectiveOperationException e) {
      throw new IllegalStateException(e);
    }
  }

  /** The simulated application. */
  static final class Run {
    final World w;
    Method[][] codec = new Method[2][2];     // [encode][buffer]
    final List<byte[][]> items = new ArrayList<>();    // content, {encode}, expected or null
    final List<Boolean> must = new ArrayList<>();
    boolean arrays;          // no buffers
    int first;               // only this item and the next, if not negative
    final StringBuilder summary = new StringBuilder();

    Run(World w) {
      this.w = w;
    }

    void go() throws Exception {
      if (loadError != null) throw w.fail("load", "the library does not load: " + loadError);
      // Fresh statics for each run.
      ClassLoader l = new Weaver.Loader(permanent, woven);
      for (String n : woven.keySet()) Class.forName(n, true, l);
      Class<?> c = l.loadClass(CODEC);
      for (int e = 0; e < 2; e++) {
        codec[e][0] = c.getMethod(e == 1 ? "encode" : "decode", byte[].class);
        codec[e][1] = c.getMethod(e == 1 ? "encode" : "decode", ByteBuffer.class);
      }
      int nclients = (int) w.pick("cfg", 4) + 1;
      Sim.preempt = new int[] {2, 4, 12}[(int) w.pick("cfg", 3)];
      Sim.oom = new int[] {0, 0, 6, 20}[(int) w.pick("cfg", 4)];
      Sim.nativeNull = new int[] {0, 0, 6, 20}[(int) w.pick("cfg", 4)];
      Sim.nativeOom = new int[] {0, 0, 6, 20}[(int) w.pick("cfg", 4)];
      Sim.gc = new int[] {0, 0, 0, 0, 0, 0, 0, 20}[(int) w.pick("cfg", 8)];
      int n = 1 + (int) w.pick("cfg", 4);
      for (int i = 0; i < n; i++) addItems();
      arrays = w.pick("cfg", 3) == 1;
      first = w.pick("cfg", 3) == 1 ? (int) w.pick("cfg", items.size()) : -1;
      List<Runnable> bodies = new ArrayList<>();
      for (int i = 0; i < nclients; i++) {
        int id = i;
        bodies.add(() -> client(id));
      }
      if (nclients > 1) w.probe("concurrent");
      Sim.run(w, bodies);
      if (w.verdict != null) throw w.verdict;
      w.sample = "threads=" + nclients + " files=" + n + summary;
    }

    void add(boolean encode, byte[] data, byte[] expected, boolean valid) {
      items.add(new byte[][] {data, {(byte) (encode ? 1 : 0)}, expected});
      must.add(valid);
    }

    void addItems() throws Exception {
      byte[] g = (byte[]) jpeg.invoke(null, w.pick("work", 1L << 40), (int) w.pick("cfg", 2));
      byte[] file = Arrays.copyOfRange(g, 1, g.length);
      byte[] brn = reference(true, file);
      add(true, file, brn, g[0] == 0);
      if (brn != null) {
        add(false, brn, file, true);
        byte[] bad = brn.clone();
        switch ((int) w.pick("cfg", 3)) {
          case 0:
            bad = Arrays.copyOf(bad, (int) w.pick("work", bad.length));
            break;
          case 1:
            bad[(int) w.pick("work", bad.length)] ^= 1 << w.pick("work", 8);
            break;
          default:
            bad = Arrays.copyOf(bad, bad.length + 1 + (int) w.pick("work", 20));
        }
        add(false, bad, reference(false, bad), false);
      }
      byte[] bad = Arrays.copyOf(file, (int) w.pick("work", file.length + 1));
      add(true, bad, reference(true, bad), false);
      byte[] other = file.clone();         // as long, often valid
      other[(int) w.pick("work", other.length)] ^= 1 << w.pick("work", 8);
      add(true, other, reference(true, other), false);
    }

    void client(int id) {
      Sim.Client me = (Sim.Client) Thread.currentThread();
      byte[] kept = new byte[0];
      int ops = 1 + (int) w.pick("cfg", 6);
      for (int k = 0; k < ops; k++) {
        int item = (int) (first >= 0 ? Math.min(first + w.pick("cfg", 2), items.size() - 1) : w.pick("cfg", items.size()));
        boolean encode = items.get(item)[1][0] == 1;
        byte[] data = items.get(item)[0];
        int how = (int) w.pick("cfg", arrays ? 2 : 8);
        String what = (encode ? "encode" : "decode") + " item=" + item + " how=" + how;
        if (k < 3 && summary.length() < 300) summary.append(" t").append(id).append(": ").append(what);
        Object arg;
        byte[] array = null;
        ByteBuffer b = null;
        switch (how) {
          case 0:
            arg = array = data.clone();
            break;
          case 1:               // the array of the call before, with other contents
            if (kept.length == data.length) System.arraycopy(data, 0, kept, 0, data.length);
            else kept = data.clone();
            arg = array = kept;
            break;
          case 2:
            arg = b = direct(data, 0, false);
            break;
          case 3:
            arg = b = direct(data, 1 + (int) w.pick("cfg", 9), false);
            break;
          case 4:
            arg = b = direct(data, 0, true);
            break;
          case 5:
            arg = b = direct(data, 0, false);
            b.position((int) w.pick("cfg", 2) == 0 ? data.length : (int) w.pick("cfg", data.length + 1));
            break;
          case 6:
            arg = b = ByteBuffer.wrap(data.clone());
            break;
          default:
            arg = null;
        }
        if (b != null && w.chance("cfg", 4)) b.order(ByteOrder.LITTLE_ENDIAN);
        int position = b == null ? 0 : b.position(), limit = b == null ? 0 : b.limit();
        me.faultsHit = 0;
        me.nativeFailed = false;
        w.ev("call " + id + " " + what + " " + data.length);
        Object result = null;
        Throwable thrown = null;
        try {
          result = codec[encode ? 1 : 0][how >= 2 && how != 7 || how == 7 && w.pick("cfg", 2) == 1 ? 1 : 0].invoke(null, arg);
        } catch (InvocationTargetException e) {
          thrown = e.getCause();
        } catch (IllegalAccessException e) {
          throw new IllegalStateException(e);
        }
        if (thrown instanceof World.Violation || thrown instanceof Sim.Stopped) throw (Error) thrown;
        if (w.verdict != null) throw w.verdict;
        byte[] r = (byte[]) result;
        w.ev("done " + id + " " + (r == null ? thrown == null ? "null" : thrown.getClass().getName() : r.length + " " + Arrays.hashCode(r)));
        what = what + " (" + data.length + " bytes)";
        if (r == null && thrown == null) throw w.fail("null-result", what + ": null instead of an exception");
        if (array != null && !Arrays.equals(array, data)) throw w.fail("input-changed", what + ": the array was written to");
        if (b != null) {
          if (b.position() != position || b.limit() != limit) throw w.fail("buffer-moved", what + ": position or limit changed");
          if (!content(b).equals(ByteBuffer.wrap(data))) throw w.fail("input-changed", what + ": the buffer was written to");
        }
        byte[] want = items.get(item)[2];
        if (how == 6 || how == 7) {
          if (r != null) throw w.fail("accepted", what + ": a result for an argument that is not allowed");
          if (!(thrown instanceof RuntimeException) && me.faultsHit == 0) throw w.fail("wrong-exception", what + ": " + thrown);
          if (how == 6 && me.faultsHit == 0 && !(thrown instanceof IllegalArgumentException)) throw w.fail("wrong-exception", what + ": " + thrown);
          w.probe("refused_argument");
          continue;
        }
        if (r != null) {
          if (want == null || !Arrays.equals(r, want)) throw w.fail("wrong-result", what + ": not the result of this input");
          w.probe(me.faultsHit > 0 ? "right_despite_fault" : encode ? "encoded" : "decoded");
          if (w.pick("cfg", 2) == 1) Arrays.fill(r, (byte) 0x5A);      // it is the caller's
        } else if (me.faultsHit > 0) {
          boolean heap = thrown instanceof OutOfMemoryError, refused = thrown instanceof IOException;
          if (!heap && !refused) throw w.fail("wrong-exception", what + ": " + thrown);
          w.probe(heap ? "out_of_memory" : "failed_by_fault");
        } else if (want != null) {
          throw w.fail("refused", what + ": " + thrown);
        } else {
          if (!(thrown instanceof IOException)) throw w.fail("wrong-exception", what + ": " + thrown);
          if (must.get(item)) throw w.fail("refused", what + ": a valid file");
          w.probe("damaged_refused");
        }
        if (array != null && w.pick("cfg", 2) == 1) Arrays.fill(array, (byte) 0xA5);
      }
    }

    static ByteBuffer content(ByteBuffer b) {
      ByteBuffer d = b.duplicate();
      d.clear();
      return d;
    }

    static ByteBuffer direct(byte[] data, int offset, boolean readOnly) {
      ByteBuffer b = ByteBuffer.allocateDirect(data.length + offset * 2);
      b.position(offset);
      b.put(data);
      b.position(offset);
      b.limit(offset + data.length);
      if (offset > 0) b = b.slice();
      return readOnly ? b.asReadOnlyBuffer() : b;
    }
  }
}
