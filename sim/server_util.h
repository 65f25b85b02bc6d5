// What the two simulated web servers have in common: request headers, and an
// independent opinion of what a client asked for.
#ifndef SIM_SERVER_UTIL_H_
#define SIM_SERVER_UTIL_H_
#include <strings.h>

#include "core.h"
namespace sim {

enum Wants { REFUSES, MAYBE, WANTS };

// REFUSES: no element of the list names the type, however leniently read.
// WANTS: an element names it plainly. MAYBE: it depends on the reading.
inline Wants AsksForBrunsli(const std::string& accept) {
  static const std::string kType = "image/x-j";
  Wants best = REFUSES;
  size_t at = 0;
  while (at <= accept.size()) {
    size_t end = accept.find(',', at);
    if (end == std::string::npos) end = accept.size();
    std::string e = accept.substr(at, end - at);
    at = end + 1;
    std::string type = e.substr(0, e.find(';')), params = e.size() > type.size() ? e.substr(type.size()) : "";
    std::string lenient;
    for (char c : type)
      if (c != ' ' && c != '\t') lenient += c >= 'A' && c <= 'Z' ? c + 32 : c;
    // Leniently, parameters may be elements of their own.
    std::string low;
    for (char c : params) if (c != ' ' && c != '\t') low += c >= 'A' && c <= 'Z' ? c + 32 : c;
    bool maybe = lenient == kType || low.find(kType) != std::string::npos;
    if (!maybe) continue;
    best = std::max(best, MAYBE);
    size_t a = type.find_first_not_of(' '), b = type.find_last_not_of(' ');
    // Types are case-insensitive.
    if (a == std::string::npos || strcasecmp(type.substr(a, b - a + 1).c_str(), kType.c_str()) != 0) continue;
    size_t q = low.find("q=");
    if (q != std::string::npos && (q + 2 >= low.size() || strtod(low.c_str() + q + 2, nullptr) == 0)) continue;
    best = WANTS;
  }
  return best;
}

inline std::string DrawAccept(World& w) {
  static const char* const kElements[] = {"image/x-j",    "image/jpeg",  "*/*",        "image/*",    "image/webp", "text/html",
                                          "image/x-jng",  "image/x-j2k", "image/x-",   "image/x-j",  "image/avif", "ximage/x-j",
                                          "a/image/x-j",  "IMAGE/X-J",   "Image/x-J",  "x-j",        "",           "image/x-jpeg",
                                          "image/x-j.v2", "image/x-j+a", "image/jxl",  "image/x-j",  ";",          "image"};
  static const char* const kParams[] = {"", ";q=0.8", "; q=0.9", ";q=1", " ;q=0.5", ";level=1", ";q=0", ";", ";q=0.001", "; a=b; q=0.7"};
  std::string s;
  int n = 1 + w.rare(CFG, 2, 3, 6);
  for (int i = 0; i < n; ++i) {
    std::string e = kElements[w.pick(CFG, sizeof(kElements) / sizeof(kElements[0]))];
    e += kParams[w.rare(CFG, 1, 3, sizeof(kParams) / sizeof(kParams[0]))];
    if (i) {
      static const char* const kSep[] = {", ", ",", " , ", ",  ", ",\t", ",,"};
      s += kSep[w.rare(CFG, 1, 2, 6)];
    }
    s += e;
  }
  // Header values have no blanks around them.
  size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
  return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

}  // namespace sim
#endif
