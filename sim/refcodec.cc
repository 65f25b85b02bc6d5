// Compiled against the headers of the reference copy, see build.py.
#include "refcodec.h"

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

#include <algorithm>
#include <memory>

namespace sim {
namespace ref {
namespace b = brunsli_ref;

int Encode(const Bytes& jpeg, bool legacy, Bytes* brn) {
  b::JPEGData jd;
  if (!b::ReadJpeg(jpeg.data(), jpeg.size(), b::JPEG_READ_ALL, &jd)) return 1;
  if (legacy) jd.version = 0;
  size_t n = b::GetMaximumBrunsliEncodedSize(jd);
  brn->resize(n);
  if (!b::BrunsliEncodeJpeg(jd, brn->data(), &n)) return 2;
  brn->resize(n);
  return 0;
}
bool EncodeBypass(const Bytes& jpeg, Bytes* brn) {
  size_t n = b::GetBrunsliBypassSize(jpeg.size());
  brn->resize(n);
  if (!b::BrunsliEncodeJpegBypass(jpeg.data(), jpeg.size(), brn->data(), &n)) return false;
  brn->resize(n);
  return true;
}
static size_t Sink(void* data, const uint8_t* buf, size_t n) {
  Bytes* out = static_cast<Bytes*>(data);
  out->insert(out->end(), buf, buf + n);
  return n;
}
bool Decode(const Bytes& brn, Bytes* jpeg) {
  b::JPEGData jd;
  jpeg->clear();
  if (b::BrunsliDecodeJpeg(brn.data(), brn.size(), &jd) != b::BRUNSLI_OK) return false;
  return b::WriteJpeg(jd, b::JPEGOutput(Sink, jpeg));
}
int DecodeStream(const Bytes& brn, size_t step, Bytes* jpeg) {
  std::unique_ptr<b::BrunsliDecoder> d(new b::BrunsliDecoder());
  jpeg->clear();
  Bytes room(1 << 16);
  size_t pos = 0;
  for (;;) {
    size_t n = std::min(step, brn.size() - pos), m = room.size();
    const uint8_t* in = brn.data() + pos;
    uint8_t* out = room.data();
    size_t given = n;
    b::BrunsliDecoder::Status s = d->Decode(&n, &in, &m, &out);
    pos += given - n;
    jpeg->insert(jpeg->end(), room.begin(), room.begin() + (room.size() - m));
    if (s == b::BrunsliDecoder::DONE) return 0;
    if (s == b::BrunsliDecoder::ERROR) return 1;
    if (given == 0 && m == room.size()) return 2;
  }
}
}  // namespace ref
}  // namespace sim
