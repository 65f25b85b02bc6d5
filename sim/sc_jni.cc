// The Java binding under a simulated Java VM.
#include <jni.h>

#include <cstdarg>
#include <memory>

#include "codec.h"
#include "restructure.h"
#ifdef SIM_SCHED
#include "sched.h"
#endif

extern "C" JNIEXPORT jint JNICALL JNI_OnLoad(JavaVM* vm, void* reserved);
extern "C" JNIEXPORT jbyteArray JNICALL Java_dev_brunsli_wrapper_CodecJNI_nativeDecode(JNIEnv*, jobject, jobject);
extern "C" JNIEXPORT jbyteArray JNICALL Java_dev_brunsli_wrapper_CodecJNI_nativeEncode(JNIEnv*, jobject, jobject);

namespace sim {
namespace {

struct Obj {
  enum Kind { ARRAY, BUFFER, CLASS, THROWABLE } kind;
  Bytes data;             // ARRAY
  uint8_t* addr = nullptr;   // BUFFER
  int64_t cap = 0;
  bool direct = true;
  int pinned = 0;
  bool dead = false;
};
struct Native {
  std::string name, sig;
  void* fn;
};

// What one Java thread sees.
struct Vm {
  JNINativeInterface_ fns;
  JNIEnv_ env;
  JNIInvokeInterface_ inv;
  JavaVM_ vm;
  World* w = nullptr;
  std::vector<std::unique_ptr<Obj>> objs;
  std::vector<Native> natives;
  bool pending = false;
  bool fail_array = false, fail_region = false, fail_class = false, fail_register = false, fail_env = false;
  uint64_t injected = 0;
  int critical = 0;
  std::string broken;   // first rule that was broken
};
Vm* Of(JNIEnv* e) { return reinterpret_cast<Vm*>(e->functions->reserved0); }
Vm* Of(JavaVM* v) { return reinterpret_cast<Vm*>(v->functions->reserved0); }
void Broken(Vm* v, const std::string& what) {
  if (v->broken.empty()) v->broken = what;
}
// A function that must not be called while an exception is pending.
void Enter(Vm* v, const char* what) {
  if (v->pending) Broken(v, Fmt("%s called with an exception pending", what));
  if (v->critical) Broken(v, Fmt("%s called inside a critical region", what));
}
Obj* NewObj(Vm* v, Obj::Kind k) {
  v->objs.emplace_back(new Obj());
  v->objs.back()->kind = k;
  return v->objs.back().get();
}
Obj* Array(Vm* v, jobject o, const char* what) {
  Obj* p = reinterpret_cast<Obj*>(o);
  for (auto& q : v->objs) {
    if (q.get() != p) continue;
    if (p->dead || p->kind != Obj::ARRAY) break;
    return p;
  }
  Broken(v, Fmt("%s: not a live byte array", what));
  return nullptr;
}

jbyteArray NewByteArray(JNIEnv* e, jsize n) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "NewByteArray");
  if (n < 0 || v->fail_array) {
    if (v->fail_array) ++v->injected;
    v->pending = true;
    return nullptr;
  }
  Obj* o = NewObj(v, Obj::ARRAY);
  o->data.assign(n, 0);
  return reinterpret_cast<jbyteArray>(o);
}
jsize GetArrayLength(JNIEnv* e, jarray a) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "GetArrayLength");
  Obj* o = Array(v, a, "GetArrayLength");
  return o ? o->data.size() : 0;
}
void SetByteArrayRegion(JNIEnv* e, jbyteArray a, jsize s, jsize n, const jbyte* p) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "SetByteArrayRegion");
  Obj* o = Array(v, a, "SetByteArrayRegion");
  if (!o) return;
  if (s < 0 || n < 0 || (uint64_t)s + n > o->data.size()) {
    Broken(v, "SetByteArrayRegion out of bounds");
    v->pending = true;
    return;
  }
  if (n) memcpy(o->data.data() + s, p, n);
}
void GetByteArrayRegion(JNIEnv* e, jbyteArray a, jsize s, jsize n, jbyte* p) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "GetByteArrayRegion");
  Obj* o = Array(v, a, "GetByteArrayRegion");
  if (!o) return;
  if (s < 0 || n < 0 || (uint64_t)s + n > o->data.size()) {
    Broken(v, "GetByteArrayRegion out of bounds");
    v->pending = true;
    return;
  }
  if (n) memcpy(p, o->data.data() + s, n);
}
// Elements are handed out as copies, which is the less forgiving choice.
jbyte* GetByteArrayElements(JNIEnv* e, jbyteArray a, jboolean* copy) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "GetByteArrayElements");
  Obj* o = Array(v, a, "GetByteArrayElements");
  if (copy) *copy = JNI_TRUE;
  if (!o) return nullptr;
  if (v->fail_array) {
    ++v->injected;
    v->pending = true;
    return nullptr;
  }
  ++o->pinned;
  jbyte* p = static_cast<jbyte*>(malloc(o->data.size() + 1));
  memcpy(p, o->data.data(), o->data.size());
  return p;
}
void ReleaseByteArrayElements(JNIEnv* e, jbyteArray a, jbyte* p, jint mode) {
  HostScope host;
  Vm* v = Of(e);
  Obj* o = Array(v, a, "ReleaseByteArrayElements");
  if (!o || !p) return;
  if (mode != JNI_ABORT && !o->data.empty()) memcpy(o->data.data(), p, o->data.size());
  if (mode != JNI_COMMIT) {
    --o->pinned;
    free(p);
  }
}
void* GetPrimitiveArrayCritical(JNIEnv* e, jarray a, jboolean* copy) {
  HostScope host;
  Vm* v = Of(e);
  if (v->pending) Broken(v, "GetPrimitiveArrayCritical called with an exception pending");
  Obj* o = Array(v, a, "GetPrimitiveArrayCritical");
  if (!o) return nullptr;
  if (copy) *copy = JNI_FALSE;
  ++o->pinned;
  ++v->critical;
  static uint8_t none;
  return o->data.empty() ? &none : o->data.data();
}
void ReleasePrimitiveArrayCritical(JNIEnv* e, jarray a, void*, jint) {
  HostScope host;
  Vm* v = Of(e);
  Obj* o = Array(v, a, "ReleasePrimitiveArrayCritical");
  if (!o) return;
  --o->pinned;
  --v->critical;
}
void* GetDirectBufferAddress(JNIEnv* e, jobject b) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "GetDirectBufferAddress");
  Obj* o = reinterpret_cast<Obj*>(b);
  if (!o || o->kind != Obj::BUFFER || !o->direct) return nullptr;
  return o->addr;
}
jlong GetDirectBufferCapacity(JNIEnv* e, jobject b) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "GetDirectBufferCapacity");
  Obj* o = reinterpret_cast<Obj*>(b);
  if (!o || o->kind != Obj::BUFFER || !o->direct) return -1;
  return o->cap;
}
jclass FindClass(JNIEnv* e, const char* name) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "FindClass");
  if (v->fail_class) {
    ++v->injected;
    v->pending = true;
    return nullptr;
  }
  if (strchr(name, '.')) {
    Broken(v, Fmt("FindClass(%s): not a class name in JNI notation", name));
    v->pending = true;
    return nullptr;
  }
  return reinterpret_cast<jclass>(NewObj(v, Obj::CLASS));
}
jint RegisterNatives(JNIEnv* e, jclass c, const JNINativeMethod* m, jint n) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "RegisterNatives");
  if (v->fail_register) {
    ++v->injected;
    v->pending = true;
    return -1;
  }
  for (jint i = 0; i < n; ++i) v->natives.push_back(Native{m[i].name, m[i].signature, m[i].fnPtr});
  return 0;
}
jint ThrowNew(JNIEnv* e, jclass, const char*) {
  HostScope host;
  Vm* v = Of(e);
  Enter(v, "ThrowNew");
  v->pending = true;
  return 0;
}
jint Throw(JNIEnv* e, jthrowable) {
  HostScope host;
  Enter(Of(e), "Throw");
  Of(e)->pending = true;
  return 0;
}
jboolean ExceptionCheck(JNIEnv* e) { return Of(e)->pending; }
jthrowable ExceptionOccurred(JNIEnv* e) {
  HostScope host;
  Vm* v = Of(e);
  return v->pending ? reinterpret_cast<jthrowable>(NewObj(v, Obj::THROWABLE)) : nullptr;
}
void ExceptionClear(JNIEnv* e) { Of(e)->pending = false; }
void ExceptionDescribe(JNIEnv*) {}
void DeleteLocalRef(JNIEnv* e, jobject o) {
  HostScope host;
  if (o) reinterpret_cast<Obj*>(o)->dead = true;
}
jobject NewLocalRef(JNIEnv*, jobject o) { return o; }
jint EnsureLocalCapacity(JNIEnv*, jint) { return 0; }
jint PushLocalFrame(JNIEnv*, jint) { return 0; }
jobject PopLocalFrame(JNIEnv*, jobject o) { return o; }
jint GetVersion(JNIEnv*) { return JNI_VERSION_1_8; }
jint GetEnv(JavaVM* vm, void** p, jint version) {
  HostScope host;
  Vm* v = Of(vm);
  if (v->fail_env || version > JNI_VERSION_1_8) {
    ++v->injected;
    *p = nullptr;
    return JNI_EVERSION;
  }
  *p = &v->env;
  return JNI_OK;
}
// Anything the simulated VM does not have.
void Unsupported() {
  HostScope host;
  throw Discard{"JNI function the simulated VM does not have"};
}

void Init(Vm* v, World* w) {
  v->w = w;
  void** slots = reinterpret_cast<void**>(&v->fns);
  for (size_t i = 0; i < sizeof(v->fns) / sizeof(void*); ++i) slots[i] = reinterpret_cast<void*>(Unsupported);
  slots = reinterpret_cast<void**>(&v->inv);
  for (size_t i = 0; i < sizeof(v->inv) / sizeof(void*); ++i) slots[i] = reinterpret_cast<void*>(Unsupported);
  v->fns.reserved0 = v;
  v->inv.reserved0 = v;
  v->fns.GetVersion = GetVersion;
  v->fns.NewByteArray = NewByteArray;
  v->fns.GetArrayLength = GetArrayLength;
  v->fns.SetByteArrayRegion = SetByteArrayRegion;
  v->fns.GetByteArrayRegion = GetByteArrayRegion;
  v->fns.GetByteArrayElements = GetByteArrayElements;
  v->fns.ReleaseByteArrayElements = ReleaseByteArrayElements;
  v->fns.GetPrimitiveArrayCritical = GetPrimitiveArrayCritical;
  v->fns.ReleasePrimitiveArrayCritical = ReleasePrimitiveArrayCritical;
  v->fns.GetDirectBufferAddress = GetDirectBufferAddress;
  v->fns.GetDirectBufferCapacity = GetDirectBufferCapacity;
  v->fns.FindClass = FindClass;
  v->fns.RegisterNatives = RegisterNatives;
  v->fns.ThrowNew = ThrowNew;
  v->fns.Throw = Throw;
  v->fns.ExceptionCheck = ExceptionCheck;
  v->fns.ExceptionOccurred = ExceptionOccurred;
  v->fns.ExceptionClear = ExceptionClear;
  v->fns.ExceptionDescribe = ExceptionDescribe;
  v->fns.DeleteLocalRef = DeleteLocalRef;
  v->fns.NewLocalRef = NewLocalRef;
  v->fns.EnsureLocalCapacity = EnsureLocalCapacity;
  v->fns.PushLocalFrame = PushLocalFrame;
  v->fns.PopLocalFrame = PopLocalFrame;
  v->inv.GetEnv = GetEnv;
  v->env.functions = &v->fns;
  v->vm.functions = &v->inv;
}

typedef jbyteArray (*Fn)(JNIEnv*, jobject, jobject);

struct CallResult {
  bool null = true;
  Bytes data;
};
// One call out of Java. `in` lives exactly as long as the call.
CallResult Call(Vm* v, Fn fn, const Bytes& in, bool direct) {
  CallResult r;
  v->pending = false;
  v->injected = 0;
  v->critical = 0;
  v->objs.clear();
  Obj* buf = NewObj(v, Obj::BUFFER);
  // An empty direct buffer still has an address.
  std::unique_ptr<uint8_t[]> mem(new uint8_t[in.empty() ? 1 : in.size()]);
  if (!in.empty()) memcpy(mem.get(), in.data(), in.size());
  buf->addr = mem.get();
  buf->cap = in.size();
  buf->direct = direct;
  if (!direct) ++v->injected;
  jbyteArray out;
  {
    SutScope sut;
    out = fn(&v->env, nullptr, reinterpret_cast<jobject>(buf));
  }
  if (memcmp(mem.get(), in.data(), in.size()) != 0) Broken(v, "the caller's buffer was written to");
  if (v->critical) Broken(v, "returned inside a critical region");
  if (out && v->pending) Broken(v, "returned an array with an exception pending");
  if (out) {
    Obj* o = Array(v, out, "return value");
    if (o) {
      if (o->pinned) Broken(v, "array still pinned on return");
      r.null = false;
      r.data = o->data;
    }
  }
  return r;
}

bool Load(World& w, Vm* v, Fn* dec, Fn* enc) {
  switch (w.rare(FAULT, 1, 12, 4)) {
    case 1: v->fail_env = true; break;
    case 2: v->fail_class = true; break;
    case 3: v->fail_register = true; break;
    default: break;
  }
  jint ver;
  {
    SutScope sut;
    ver = JNI_OnLoad(&v->vm, nullptr);
  }
  w.ev("onload", ver, v->injected);
  if (!v->broken.empty()) w.fail("jni-rule", "JNI_OnLoad: " + v->broken);
  if (v->injected) {
    w.fault(v->fail_env ? "jni_version_refused" : v->fail_class ? "class_not_found" : "registration_refused");
    if (ver >= 0) w.fail("load-failure-hidden", Fmt("JNI_OnLoad returns %d although loading failed", ver));
    return false;
  }
  if (ver < JNI_VERSION_1_1) w.fail("spurious-failure", Fmt("JNI_OnLoad returns %d", ver));
  *dec = Java_dev_brunsli_wrapper_CodecJNI_nativeDecode;
  *enc = Java_dev_brunsli_wrapper_CodecJNI_nativeEncode;
  bool d = false, e = false;
  for (auto& n : v->natives) {
    if (n.sig != "(Ljava/nio/ByteBuffer;)[B") continue;
    if (n.name == "nativeDecode") *dec = reinterpret_cast<Fn>(n.fn), d = true;
    if (n.name == "nativeEncode") *enc = reinterpret_cast<Fn>(n.fn), e = true;
  }
  // Methods may also be found by name; what is registered must be complete.
  if (!v->natives.empty() && (!d || !e)) w.fail("native-missing", "a native method is registered under another name or signature");
  return true;
}

struct Op {
  bool decode;
  Bytes in;
  bool direct = true, fail_array = false;
  bool ok = false;        // the library accepts it
  Bytes want;             // decode: what it gives
  bool valid_jpeg = false;
};
Op DrawOp(World& w) {
  Op op;
  GenOpts o;
  const Workload& wl = GetWorkload(w, o);
  op.decode = w.flip(CFG, 1, 2);
  op.in = op.decode ? wl.brn : wl.jpeg;
  if (op.decode && wl.enc != 0) throw Discard{"jpeg not encodable"};
  if (op.decode && w.flip(CFG, 1, 8)) {
    if (!EncodeBypass(wl.jpeg, &op.in)) throw Discard{"bypass refused"};
  }
  op.valid_jpeg = !op.decode && wl.enc == 0;
  if (w.flip(MUT, 1, 6)) {
    op.valid_jpeg = false;
    if (w.flip(MUT, 1, 8)) op.in.clear();
    else if (op.decode) DamageStream(w, &op.in, 3);
    else DamageJpeg(w, &op.in, 3);
  }
  op.direct = !w.flip(FAULT, 1, 16);
  op.fail_array = w.flip(FAULT, 1, 8);
  if (!op.direct) w.fault("buffer_not_direct");
  if (op.fail_array) w.fault("java_heap_full");
  if (op.decode) {
    int v = DecodeOneShot(op.in, &op.want);
    if (v == V_OOM) throw Discard{"damaged stream needs too much memory"};
    op.ok = v == V_DONE;
  } else {
    op.want = op.in;
    op.ok = op.valid_jpeg;
  }
  return op;
}
void Judge(World& w, Vm* v, const Op& op, const CallResult& r) {
  const char* what = op.decode ? "nativeDecode" : "nativeEncode";
  w.ev(what, r.null, r.data.size(), HashBytes(r.data));
  if (!v->broken.empty()) w.fail("jni-rule", Fmt("%s: %s", what, v->broken.c_str()));
  if (r.null) {
    if (op.ok && !v->injected) w.fail("spurious-failure", Fmt("%s returns null although nothing failed", what));
    w.probe(v->injected ? "null_after_fault" : "null_refused");
    return;
  }
  if (op.decode) {
    if (!op.ok) w.fail("damaged-stream-accepted", "nativeDecode returns an array where the library fails");
    if (r.data != op.want) w.fail("wrong-result", "nativeDecode: " + Diff(r.data, op.want));
    w.probe("decoded");
  } else {
    Bytes back;
    int rv = DecodeOneShot(r.data, &back);
    if (rv == V_OOM) throw Discard{"damaged stream needs too much memory"};
    if (rv != V_DONE) w.fail("wrong-result", Fmt("nativeEncode: %zu bytes do not decode", r.data.size()));
    if (back != op.in) w.fail("wrong-result", "nativeEncode: " + Diff(back, op.in));
    w.probe("encoded");
  }
}

#ifndef SIM_SCHED
void Jni(World& w) {
  SutGuard guard(w, 512u << 20);
  std::unique_ptr<Vm> v(new Vm());
  Init(v.get(), &w);
  Fn dec, enc;
  if (!Load(w, v.get(), &dec, &enc)) return;
  int n = 1 + w.rare(CFG, 1, 2, 4);
  for (int i = 0; i < n; ++i) {
    Op op = DrawOp(w);
    v->fail_array = op.fail_array;
    CallResult r;
    try {
      r = Call(v.get(), op.decode ? dec : enc, op.in, op.direct);
    } catch (const std::bad_alloc&) {
      throw Discard{"needs too much memory"};
    }
    w.tick();
    Judge(w, v.get(), op, r);
    if (alloc::Get().bad_frees) w.fail("bad-free", "memory released by the wrong function");
  }
  if (alloc::Get().live_blocks) w.fail("leak", Fmt("%d blocks remain after all calls", (int)alloc::Get().live_blocks));
}
Register r1("jni", 8, 64, Jni);
#else
struct JavaThread {
  std::unique_ptr<Vm> vm;
  std::vector<Op> ops;
  std::vector<CallResult> results;
  std::vector<uint64_t> injected;
  Fn dec, enc;
};
void Body(void* p) {
  JavaThread* t = static_cast<JavaThread*>(p);
  for (size_t i = 0; i < t->ops.size(); ++i) {
    const Op& op = t->ops[i];
    t->vm->fail_array = op.fail_array;
    t->results[i] = Call(t->vm.get(), op.decode ? t->dec : t->enc, op.in, op.direct);
    t->injected[i] = t->vm->injected;
  }
}
void JniThreads(World& w) {
  SutGuard guard(w, 512u << 20);
  int n = 2 + w.pick(CFG, 3);
  std::vector<JavaThread> ts(n);
  for (auto& t : ts) {
    t.vm.reset(new Vm());
    Init(t.vm.get(), &w);
  }
  Fn dec, enc;
  if (!Load(w, ts[0].vm.get(), &dec, &enc)) return;
  for (auto& t : ts) {
    int k = 1 + w.pick(CFG, 2);
    for (int i = 0; i < k; ++i) t.ops.push_back(DrawOp(w));
    t.results.resize(k);
    t.injected.resize(k);
    t.dec = dec;
    t.enc = enc;
  }
  sched::Begin(w, sched::Options());
  std::vector<int> hs;
  for (auto& t : ts) hs.push_back(sched::Spawn(Body, &t));
  for (int h : hs) sched::Join(h);
  sched::End();
  for (auto& t : ts)
    for (size_t i = 0; i < t.ops.size(); ++i) {
      t.vm->injected = t.injected[i];
      Judge(w, t.vm.get(), t.ops[i], t.results[i]);
    }
}
Register r2("jni_threads", 4, 1, JniThreads);
#endif

}  // namespace
}  // namespace sim
