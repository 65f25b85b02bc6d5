// Native side of the Java simulation, linked with the binding under test.
#include <jni.h>

#include <string>

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

#include "../jpeggen.h"

namespace sim {
// The parts of the harness that are of no use here.
namespace alloc {
thread_local int in_sut;
}
void FatalViolation(World&, const std::string&, const std::string&) { abort(); }
}  // namespace sim

namespace {
jbyteArray ToArray(JNIEnv* env, const uint8_t* p, size_t n) {
  jbyteArray a = env->NewByteArray(static_cast<jsize>(n));
  if (a) env->SetByteArrayRegion(a, 0, static_cast<jsize>(n), reinterpret_cast<const jbyte*>(p));
  return a;
}
size_t Append(void* to, const uint8_t* p, size_t n) {
  static_cast<std::string*>(to)->append(reinterpret_cast<const char*>(p), n);
  return n;
}
}  // namespace

extern "C" JNIEXPORT jbyteArray JNICALL Java_simnative_Gen_jpeg(JNIEnv* env, jclass, jlong seed, jint max_class) {
  sim::World w(static_cast<uint64_t>(seed), static_cast<uint64_t>(seed));
  sim::GenOpts o;
  o.max_class = max_class;
  o.big_num = 1;
  sim::JpegInfo info;
  sim::Bytes out(1);
  try {
    sim::Bytes jpeg = sim::GenJpeg(w, o, &info);
    out.insert(out.end(), jpeg.begin(), jpeg.end());
  } catch (const sim::Discard&) {
  }
  out[0] = (info.features & sim::kMayBeRefused) != 0;
  return ToArray(env, out.data(), out.size());
}

extern "C" JNIEXPORT jbyteArray JNICALL Java_simnative_Gen_reference(JNIEnv* env, jclass, jboolean encode,
                                                                     jbyteArray data) {
  std::string in(static_cast<size_t>(env->GetArrayLength(data)), 0), out;
  env->GetByteArrayRegion(data, 0, static_cast<jsize>(in.size()), reinterpret_cast<jbyte*>(&in[0]));
  const uint8_t* p = reinterpret_cast<const uint8_t*>(in.data());
  brunsli::JPEGData jpg;
  if (encode) {
    if (!brunsli::ReadJpeg(p, in.size(), brunsli::JPEG_READ_ALL, &jpg)) return nullptr;
    size_t n = brunsli::GetMaximumBrunsliEncodedSize(jpg);
    out.resize(n);
    if (!brunsli::BrunsliEncodeJpeg(jpg, reinterpret_cast<uint8_t*>(&out[0]), &n)) return nullptr;
    out.resize(n);
  } else {
    if (brunsli::BrunsliDecodeJpeg(p, in.size(), &jpg) != brunsli::BRUNSLI_OK) return nullptr;
    if (!brunsli::WriteJpeg(jpg, brunsli::JPEGOutput(Append, &out))) return nullptr;
  }
  return ToArray(env, reinterpret_cast<const uint8_t*>(out.data()), out.size());
}
