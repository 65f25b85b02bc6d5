package simworld;

import java.nio.ByteBuffer;
import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.concurrent.BlockingQueue;
import java.util.concurrent.Semaphore;
import java.util.concurrent.locks.Lock;
import java.util.function.BooleanSupplier;

/** What the woven classes call: the scheduler, the simulated heap, the border to the native code. */
public final class Sim {
  static final class Stopped extends Error {
    Stopped() {
      super(null, null, false, false);
    }
  }

  static final class Client extends Thread {
    final int id;
    final Semaphore go = new Semaphore(0);
    Runnable body;
    boolean done, stopped;
    BooleanSupplier blocked;
    int faultsHit;               // in the current operation
    boolean nativeFailed;
    Client(int id) {
      super("client" + id);
      this.id = id;
      setDaemon(true);
    }
    @Override
    public void run() {
      while (true) {
        go.acquireUninterruptibly();
        World w = Sim.w;
        try {
          if (!stopped) body.run();
        } catch (Stopped e) {
          // Unwound.
        } catch (World.Violation e) {
          if (w.verdict == null) w.verdict = e;
        } catch (Throwable e) {
          if (Sim.broken == null) Sim.broken = e;
        }
        finished(this);
      }
    }
  }

  static final class Monitor {
    Client owner;
    int count;
    int waiters, signals;
  }

  static final List<Client> pool = new ArrayList<>();
  static World w;
  static List<Client> clients = new ArrayList<>();
  static Client current;
  static int preempt, oom, nativeNull, nativeOom, gc, steps;
  static Throwable broken;
  static final Semaphore over = new Semaphore(0);
  static IdentityHashMap<Object, Monitor> monitors = new IdentityHashMap<>();

  static Client me() {
    Thread t = Thread.currentThread();
    return t instanceof Client && t == current ? (Client) t : null;
  }

  static void run(World world, List<Runnable> bodies) {
    w = world;
    steps = 0;
    broken = null;
    monitors = new IdentityHashMap<>();
    clients = new ArrayList<>();
    for (int i = 0; i < bodies.size(); i++) {
      if (pool.size() <= i) {
        Client c = new Client(i);
        pool.add(c);
        c.start();
      }
      Client c = pool.get(i);
      c.body = bodies.get(i);
      c.done = c.stopped = c.nativeFailed = false;
      c.blocked = null;
      c.faultsHit = 0;
      clients.add(c);
    }
    current = clients.get((int) w.pick("sched", clients.size()));
    current.go.release();
    over.acquireUninterruptibly();
    current = null;
    if (broken != null) throw new IllegalStateException("harness", broken);
  }

  static List<Client> ready() {
    List<Client> r = new ArrayList<>();
    for (Client c : clients) if (!c.done && (c.blocked == null || !c.blocked.getAsBoolean())) r.add(c);
    return r;
  }

  static void finished(Client c) {
    c.done = true;
    boolean stop = w.verdict != null || broken != null;
    List<Client> left = new ArrayList<>();
    for (Client o : clients) {
      if (o.done) continue;
      if (stop) {
        o.stopped = true;
        o.blocked = null;
      }
      left.add(o);
    }
    if (left.isEmpty()) {
      over.release();
      return;
    }
    List<Client> r = ready();
    if (r.isEmpty()) {
      w.verdict = new World.Violation("deadlock", "every thread waits");
      for (Client o : left) o.stopped = true;
      r = left;
    }
    Client n = stop ? r.get(0) : r.get((int) w.pick("sched", r.size()));
    current = n;
    n.go.release();
  }

  static void switchFrom(Client c) {
    List<Client> r = ready();
    if (r.isEmpty()) throw w.fail("deadlock", "every thread waits");
    Client n = r.get((int) w.pick("sched", r.size()));
    if (n != c) {
      w.faults.merge("context_switch", 1, Integer::sum);
      w.ev("switch " + n.id);
      current = n;
      n.go.release();
      c.go.acquireUninterruptibly();
    }
    c.blocked = null;
    if (c.stopped) throw new Stopped();
  }

  static void block(Client c, BooleanSupplier until) {
    c.blocked = until;
    switchFrom(c);
  }

  // ------------------------------------------------ called by woven code

  /** A scheduling point. */
  public static void point() {
    Client c = me();
    if (c == null) return;
    if (c.stopped) throw new Stopped();
    w.ticks++;
    if (++steps > 200000) throw w.fail("no-progress", "more than 200000 steps");
    if (clients.size() > 1 && w.chance("sched", preempt)) switchFrom(c);
  }

  static void allocation(String what) {
    Client c = me();
    if (c == null) return;
    point();
    if (w.chance("fault", oom)) {
      c.faultsHit++;
      w.fault(what);
      throw new OutOfMemoryError("simulated");
    }
    if (w.chance("fault", gc)) {
      w.fault("collection");
      System.gc();
    }
  }

  public static ByteBuffer allocateDirect(int n) {
    if (n >= 0) allocation("oom_direct");
    return ByteBuffer.allocateDirect(n);
  }

  public static int beforeArray(int n) {
    if (n >= 0) allocation("oom_array");
    return n;
  }

  /** Before the border is crossed: true if the native code is to give null. */
  public static boolean nativeFault() {
    Client c = me();
    if (c == null) return false;
    point();
    if (w.chance("fault", nativeNull)) {
      c.faultsHit++;
      c.nativeFailed = true;
      w.fault("native_null");
      return true;
    }
    if (w.chance("fault", nativeOom)) {
      c.faultsHit++;
      w.fault("native_oom");
      throw new OutOfMemoryError("simulated, in native code");
    }
    return false;
  }

  static Monitor monitor(Object o) {
    return monitors.computeIfAbsent(o, k -> new Monitor());
  }

  public static void enter(Object o) {
    if (o == null) throw new NullPointerException();
    Client c = me();
    if (c == null) return;
    point();
    Monitor m = monitor(o);
    while (m.owner != null && m.owner != c) block(c, () -> m.owner != null);
    m.owner = c;
    m.count++;
  }

  public static void exit(Object o) {
    Client c = me();
    if (c == null) return;
    Monitor m = monitor(o);
    if (m.owner == c && --m.count == 0) m.owner = null;
    if (!c.stopped && w.verdict == null) point();
  }

  public static void await(Object o, long ms) throws InterruptedException {
    Client c = me();
    if (c == null) return;
    Monitor m = monitor(o);
    if (m.owner != c) throw new IllegalMonitorStateException();
    int count = m.count;
    m.owner = null;
    m.count = 0;
    m.waiters++;
    if (ms == 0) {
      block(c, () -> m.signals == 0);
      m.signals--;
    } else {
      point();
      if (m.signals > 0) m.signals--;
    }
    m.waiters--;
    while (m.owner != null) block(c, () -> m.owner != null);
    m.owner = c;
    m.count = count;
  }

  public static void await(Object o) throws InterruptedException {
    await(o, 0L);
  }

  public static void signal(Object o) {
    if (me() == null) return;
    Monitor m = monitor(o);
    if (m.signals < m.waiters) m.signals++;
  }

  public static void signalAll(Object o) {
    if (me() == null) return;
    Monitor m = monitor(o);
    m.signals = m.waiters;
  }

  public static void lock(Lock l) {
    Client c = me();
    if (c == null) {
      l.lock();
      return;
    }
    point();
    while (!l.tryLock()) switchAway(c);
  }

  public static void acquire(Semaphore s) throws InterruptedException {
    Client c = me();
    if (c == null) {
      s.acquire();
      return;
    }
    point();
    while (!s.tryAcquire()) switchAway(c);
  }

  public static Object take(BlockingQueue<?> q) throws InterruptedException {
    Client c = me();
    if (c == null) return q.take();
    point();
    Object o;
    while ((o = q.poll()) == null) switchAway(c);
    return o;
  }

  public static <T> void put(BlockingQueue<T> q, T o) throws InterruptedException {
    Client c = me();
    if (c == null) {
      q.put(o);
      return;
    }
    point();
    while (!q.offer(o)) switchAway(c);
  }

  /** Waits for a lock of the Java library: lets another one run. */
  static void switchAway(Client c) {
    if (++steps > 200000) throw w.fail("deadlock", "waits for a lock nobody releases");
    List<Client> r = ready();
    r.remove(c);
    if (r.isEmpty()) throw w.fail("deadlock", "waits for a lock nobody releases");
    Client n = r.get((int) w.pick("sched", r.size()));
    w.ev("switch " + n.id);
    current = n;
    n.go.release();
    c.go.acquireUninterruptibly();
    if (c.stopped) throw new Stopped();
  }

  private Sim() {}
}
