package simworld;

import java.util.HashSet;
import java.util.Map;
import java.util.Set;
import jdk.internal.org.objectweb.asm.ClassReader;
import jdk.internal.org.objectweb.asm.ClassVisitor;
import jdk.internal.org.objectweb.asm.ClassWriter;
import jdk.internal.org.objectweb.asm.Label;
import jdk.internal.org.objectweb.asm.MethodVisitor;
import jdk.internal.org.objectweb.asm.Opcodes;
import jdk.internal.org.objectweb.asm.Type;

/** Puts the seams into compiled classes: see Sim. */
final class Weaver {
  static final int API = Opcodes.ASM8;
  static final String SIM = "simworld/Sim";

  /** Names of the native methods of a class. */
  static Set<String> natives(byte[] code) {
    Set<String> out = new HashSet<>();
    new ClassReader(code).accept(new ClassVisitor(API) {
      String name;
      @Override
      public void visit(int v, int acc, String name, String sig, String sup, String[] itf) {
        this.name = name;
      }
      @Override
      public MethodVisitor visitMethod(int acc, String n, String desc, String sig, String[] ex) {
        if ((acc & Opcodes.ACC_NATIVE) != 0) out.add(name + "." + n + desc);
        return null;
      }
    }, ClassReader.SKIP_CODE);
    return out;
  }

  static int open(int acc) {
    boolean internal = (acc & (Opcodes.ACC_PRIVATE | Opcodes.ACC_PROTECTED | Opcodes.ACC_PUBLIC)) == 0;
    return internal || (acc & Opcodes.ACC_PROTECTED) != 0 ? (acc & ~Opcodes.ACC_PROTECTED) | Opcodes.ACC_PUBLIC : acc;
  }

  static byte[] weave(byte[] code, Set<String> natives, boolean seams) {
    ClassReader r = new ClassReader(code);
    ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_FRAMES | ClassWriter.COMPUTE_MAXS) {
      @Override
      protected String getCommonSuperClass(String a, String b) {
        return "java/lang/Object";
      }
    };
    r.accept(new ClassVisitor(API, cw) {
      String name;
      @Override
      public void visit(int v, int acc, String name, String sig, String sup, String[] itf) {
        this.name = name;
        super.visit(v, open(acc), name, sig, sup, itf);
      }
      @Override
      public MethodVisitor visitMethod(int acc, String n, String desc, String sig, String[] ex) {
        if ((acc & Opcodes.ACC_SYNCHRONIZED) != 0 && (acc & Opcodes.ACC_NATIVE) == 0 && seams) {
          String inner = n + "$locked";
          wrapper(super.visitMethod(open(acc) & ~Opcodes.ACC_SYNCHRONIZED, n, desc, sig, ex), acc, inner, desc);
          return code(super.visitMethod(open(acc) & ~Opcodes.ACC_SYNCHRONIZED, inner, desc, sig, ex), n);
        }
        MethodVisitor m = super.visitMethod(open(acc), n, desc, sig, ex);
        return m == null || !seams || n.equals("<clinit>") ? m : code(m, n);
      }
      void wrapper(MethodVisitor m, int acc, String inner, String desc) {
        boolean st = (acc & Opcodes.ACC_STATIC) != 0;
        Label from = new Label(), to = new Label(), handler = new Label();
        m.visitCode();
        m.visitTryCatchBlock(from, to, handler, null);
        target(m, st);
        m.visitMethodInsn(Opcodes.INVOKESTATIC, SIM, "enter", "(Ljava/lang/Object;)V", false);
        m.visitLabel(from);
        int slot = 0;
        if (!st) m.visitVarInsn(Opcodes.ALOAD, slot++);
        for (Type t : Type.getArgumentTypes(desc)) {
          m.visitVarInsn(t.getOpcode(Opcodes.ILOAD), slot);
          slot += t.getSize();
        }
        m.visitMethodInsn(st ? Opcodes.INVOKESTATIC : Opcodes.INVOKEVIRTUAL, name, inner, desc, false);
        m.visitLabel(to);
        target(m, st);
        m.visitMethodInsn(Opcodes.INVOKESTATIC, SIM, "exit", "(Ljava/lang/Object;)V", false);
        m.visitInsn(Type.getReturnType(desc).getOpcode(Opcodes.IRETURN));
        m.visitLabel(handler);
        target(m, st);
        m.visitMethodInsn(Opcodes.INVOKESTATIC, SIM, "exit", "(Ljava/lang/Object;)V", false);
        m.visitInsn(Opcodes.ATHROW);
        m.visitMaxs(0, 0);
        m.visitEnd();
      }
      void target(MethodVisitor m, boolean st) {
        if (st) m.visitLdcInsn(Type.getObjectType(name));
        else m.visitVarInsn(Opcodes.ALOAD, 0);
      }
      MethodVisitor code(MethodVisitor next, String method) {
        return new MethodVisitor(API, next) {
          boolean started = !method.equals("<init>");   // `this` is not there yet
          void sim(String n, String d) {
            super.visitMethodInsn(Opcodes.INVOKESTATIC, SIM, n, d, false);
          }
          void point() {
            if (started) sim("point", "()V");
          }
          @Override
          public void visitFieldInsn(int op, String owner, String n, String d) {
            point();
            super.visitFieldInsn(op, owner, n, d);
          }
          @Override
          public void visitInsn(int op) {
            if (op == Opcodes.MONITORENTER) {
              sim("enter", "(Ljava/lang/Object;)V");
              return;
            }
            if (op == Opcodes.MONITOREXIT) {
              sim("exit", "(Ljava/lang/Object;)V");
              return;
            }
            if (op >= Opcodes.IALOAD && op <= Opcodes.SALOAD || op >= Opcodes.IASTORE && op <= Opcodes.SASTORE) point();
            super.visitInsn(op);
          }
          @Override
          public void visitIntInsn(int op, int n) {
            if (op == Opcodes.NEWARRAY && started) sim("beforeArray", "(I)I");
            super.visitIntInsn(op, n);
          }
          @Override
          public void visitMethodInsn(int op, String owner, String n, String d, boolean itf) {
            if (op == Opcodes.INVOKESPECIAL && n.equals("<init>")) {
              super.visitMethodInsn(op, owner, n, d, itf);
              started = true;
              return;
            }
            if (natives.contains(owner + "." + n + d)) {
              Label ok = new Label(), end = new Label();
              sim("nativeFault", "()Z");
              super.visitJumpInsn(Opcodes.IFEQ, ok);
              Type[] args = Type.getArgumentTypes(d);
              for (int i = args.length - 1; i >= 0; i--) super.visitInsn(args[i].getSize() == 2 ? Opcodes.POP2 : Opcodes.POP);
              if (op != Opcodes.INVOKESTATIC) super.visitInsn(Opcodes.POP);
              super.visitInsn(Opcodes.ACONST_NULL);
              super.visitTypeInsn(Opcodes.CHECKCAST, Type.getReturnType(d).getInternalName());
              super.visitJumpInsn(Opcodes.GOTO, end);
              super.visitLabel(ok);
              super.visitMethodInsn(op, owner, n, d, itf);
              super.visitLabel(end);
              point();
              return;
            }
            if (owner.equals("java/nio/ByteBuffer") && n.equals("allocateDirect")) {
              sim("allocateDirect", d);
              return;
            }
            if (n.equals("wait") && (d.equals("()V") || d.equals("(J)V"))) {
              sim("await", d.replace("(", "(Ljava/lang/Object;"));
              return;
            }
            if ((n.equals("notify") || n.equals("notifyAll")) && d.equals("()V")) {
              sim(n.equals("notify") ? "signal" : "signalAll", "(Ljava/lang/Object;)V");
              return;
            }
            if (op != Opcodes.INVOKESTATIC && owner.startsWith("java/util/concurrent/")) {
              String k = n + d;
              if (is(owner, java.util.concurrent.locks.Lock.class) && (k.equals("lock()V") || k.equals("lockInterruptibly()V"))) {
                sim("lock", "(Ljava/util/concurrent/locks/Lock;)V");
                return;
              }
              if (is(owner, java.util.concurrent.Semaphore.class) && (k.equals("acquire()V") || k.equals("acquireUninterruptibly()V"))) {
                sim("acquire", "(Ljava/util/concurrent/Semaphore;)V");
                return;
              }
              if (is(owner, java.util.concurrent.BlockingQueue.class) && k.equals("take()Ljava/lang/Object;")) {
                sim("take", "(Ljava/util/concurrent/BlockingQueue;)Ljava/lang/Object;");
                return;
              }
              if (is(owner, java.util.concurrent.BlockingQueue.class) && k.equals("put(Ljava/lang/Object;)V")) {
                sim("put", "(Ljava/util/concurrent/BlockingQueue;Ljava/lang/Object;)V");
                return;
              }
            }
            point();
            super.visitMethodInsn(op, owner, n, d, itf);
            point();
          }
        };
      }
    }, ClassReader.SKIP_FRAMES);
    return cw.toByteArray();
  }

  static boolean is(String owner, Class<?> c) {
    try {
      return c.isAssignableFrom(Class.forName(owner.replace('/', '.')));
    } catch (ClassNotFoundException e) {
      return false;
    }
  }

  /** Defines what it is given, asks its parent for all else. */
  static final class Loader extends ClassLoader {
    final Map<String, byte[]> codes;
    Loader(ClassLoader parent, Map<String, byte[]> codes) {
      super(parent);
      this.codes = codes;
    }
    @Override
    protected Class<?> loadClass(String name, boolean resolve) throws ClassNotFoundException {
      synchronized (getClassLoadingLock(name)) {
        byte[] code = codes.get(name);
        if (code == null) return super.loadClass(name, resolve);
        Class<?> c = findLoadedClass(name);
        return c != null ? c : defineClass(name, code, 0, code.length);
      }
    }
  }

  private Weaver() {}
}
