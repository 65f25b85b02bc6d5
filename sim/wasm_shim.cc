// The browser binding is written for an address space of 32 bits and keeps
// pointers in 32 bit words. Here the words of its instance block are made wide
// enough; everything it includes is included first.
#include <bits/stdc++.h>

#include <brunsli/brunsli_decode.h>
#include <brunsli/brunsli_encode.h>
#include <brunsli/jpeg_data.h>
#include <brunsli/jpeg_data_reader.h>
#include <brunsli/jpeg_data_writer.h>
#include <brunsli/status.h>
#include <brunsli/types.h>

#define uint32_t uintptr_t
#include "wasm/codec.cc"
