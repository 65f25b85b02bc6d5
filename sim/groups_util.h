// Helpers for the groups mode scenarios.
#ifndef SIM_GROUPS_UTIL_H_
#define SIM_GROUPS_UTIL_H_
#include <algorithm>

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>

#include "c/experimental/groups.h"
#include "codec.h"
namespace sim {
inline GenOpts GroupOpts() {
  GenOpts o;
  o.max_class = 2;
  o.big_num = 6;
  return o;
}

struct Dims {
  size_t ac, dc;
  bool odd;   // sampling factors the mode does not support
};
inline Dims DrawDims(World& w, const brunsli::JPEGData& jd) {
  Dims d;
  int hv = std::max(jd.max_h_samp_factor, jd.max_v_samp_factor);
  d.odd = (jd.max_h_samp_factor & (jd.max_h_samp_factor - 1)) || (jd.max_v_samp_factor & (jd.max_v_samp_factor - 1));
  d.ac = 1;
  while (d.ac < (size_t)hv) d.ac *= 2;
  d.ac <<= w.pick(CFG, 4);
  size_t bw = jd.MCU_cols * jd.max_h_samp_factor, bh = jd.MCU_rows * jd.max_v_samp_factor;
  while (((bw + d.ac - 1) / d.ac) * ((bh + d.ac - 1) / d.ac) > 24) d.ac *= 2;
  d.dc = d.ac << w.pick(CFG, 4);
  return d;
}

inline bool Parse(const Bytes& jpeg, brunsli::JPEGData* jd) {
  return brunsli::ReadJpeg(jpeg.data(), jpeg.size(), brunsli::JPEG_READ_ALL, jd);
}

struct ToBytes {
  Bytes out;
  static size_t Hook(void* p, const uint8_t* b, size_t n) {
    HostScope host;
    Bytes& o = static_cast<ToBytes*>(p)->out;
    o.insert(o.end(), b, b + n);
    return n;
  }
};


// Runs the tasks one after the other, in an order drawn from `seed`.
inline brunsli::Executor AnyOrder(uint64_t seed, int* next) {
  return [seed, next](const brunsli::Runnable& r, size_t n) {
    std::vector<size_t> order;
    {
      HostScope host;
      order.resize(n);
      Rng g(seed + (*next)++);
      for (size_t i = 0; i < n; ++i) order[i] = i;
      for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
    }
    for (size_t i : order) r(i);
    HostScope host;
    std::vector<size_t>().swap(order);
  };
}
}  // namespace sim
#endif
