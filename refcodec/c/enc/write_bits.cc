// Copyright (c) Google LLC 2019
//
// Use of this source code is governed by an MIT-style
// license that can be found in the LICENSE file or at
// https://opensource.org/licenses/MIT.

#include "../common/platform.h"
#include "./write_bits.h"

namespace brunsli {

Storage::Storage(uint8_t* data, size_t length)
    : data(data), length(length), pos(0) {
  if (length > 0) data[0] = 0;
}

void Storage::AppendBytes(const uint8_t* src, size_t len) {
  BRUNSLI_DCHECK((pos & 7) == 0);
  size_t used = GetBytesUsed();
  if (used <= length && len <= length - used) {
    memcpy(data + used, src, len);
  }
  pos += 8 * len;
}

void Storage::WriteBitsNearEnd(size_t n_bits, uint64_t bits) {
  for (size_t i = 0; i < n_bits; ++i) {
    size_t ix = pos >> 3;
    if (ix < length) {
      if ((pos & 7) == 0) data[ix] = 0;
      data[ix] |= static_cast<uint8_t>(((bits >> i) & 1) << (pos & 7));
    }
    ++pos;
  }
}

}  // namespace brunsli
