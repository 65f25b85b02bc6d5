#include "jpeggen.h"

#include <algorithm>
#include <cmath>

namespace sim {
namespace {
#include "jpeg_tables.inc"

struct Tok {
  uint8_t tbl;    // 0..3 DC tables, 4..7 AC tables, 254 restart, 255 raw bits
  uint8_t sym;
  uint8_t nbits;
  uint16_t bits;
};

struct Table {
  bool valid = false;
  uint8_t counts[17] = {0};
  std::vector<uint8_t> values;
  uint8_t len[256];
  uint16_t code[256];
  void Finish() {
    memset(len, 0, sizeof(len));
    int c = 0, k = 0;
    for (int l = 1; l <= 16; ++l) {
      for (int i = 0; i < counts[l]; ++i) {
        uint8_t v = values[k++];
        len[v] = l;
        code[v] = c++;
      }
      c <<= 1;
    }
    valid = true;
  }
};

// Annex K.2 style optimal code, length limited to 16, all-ones code reserved.
Table OptimalTable(const uint32_t* freq_in, int nsym) {
  std::vector<uint64_t> freq(257, 0);
  for (int i = 0; i < nsym; ++i) freq[i] = freq_in[i];
  freq[256] = 1;
  std::vector<int> codesize(257, 0), others(257, -1);
  for (;;) {
    int c1 = -1, c2 = -1;
    for (int i = 0; i <= 256; ++i)
      if (freq[i] && (c1 < 0 || freq[i] <= freq[c1])) c1 = i;
    for (int i = 0; i <= 256; ++i)
      if (freq[i] && i != c1 && (c2 < 0 || freq[i] <= freq[c2])) c2 = i;
    if (c2 < 0) break;
    freq[c1] += freq[c2];
    freq[c2] = 0;
    codesize[c1]++;
    while (others[c1] >= 0) { c1 = others[c1]; codesize[c1]++; }
    others[c1] = c2;
    codesize[c2]++;
    while (others[c2] >= 0) { c2 = others[c2]; codesize[c2]++; }
  }
  std::vector<int> bits(300, 0);
  for (int i = 0; i <= 256; ++i) if (codesize[i]) bits[codesize[i]]++;
  for (int i = 299; i > 16; --i) {
    while (bits[i] > 0) {
      int j = i - 2;
      while (bits[j] == 0) --j;
      bits[i] -= 2; bits[i - 1]++; bits[j + 1] += 2; bits[j]--;
    }
  }
  int i = 16;
  while (i > 0 && bits[i] == 0) --i;
  if (i > 0) bits[i]--;
  Table t;
  for (int l = 1; l <= 16; ++l) t.counts[l] = bits[l];
  for (int l = 1; l < 300; ++l)
    for (int s = 0; s < 256; ++s)
      if (codesize[s] == l) t.values.push_back(s);
  size_t total = 0;
  for (int l = 1; l <= 16; ++l) total += t.counts[l];
  t.values.resize(total);
  t.Finish();
  return t;
}

Table StockTable(bool ac, int which) {
  Table t;
  const int* counts = (ac ? kAcCounts : kDcCounts) + 16 * which;
  const int* values = ac ? kAcValues + 163 * which : kDcValues + 13 * which;
  int n = ac ? 162 : 12;
  int last = 0;
  for (int l = 1; l <= 16; ++l) {
    t.counts[l] = counts[l - 1];
    if (counts[l - 1]) last = l;
  }
  t.counts[last]--;
  for (int i = 0; i < n; ++i) t.values.push_back(values[i]);
  t.Finish();
  return t;
}

// A valid but odd code: random lengths for the needed symbols plus extras.
Table OddTable(const uint32_t* freq_in, int nsym, Rng& r) {
  uint32_t f[256] = {0};
  for (int i = 0; i < nsym; ++i) {
    if (freq_in[i]) f[i] = 1 + r.below(1 << r.below(16));
    else if (r.chance(1, 6)) f[i] = 1 + r.below(4);
  }
  return OptimalTable(f, nsym);
}

int NumBits(int v) { int n = 0; v = v < 0 ? -v : v; while (v) { ++n; v >>= 1; } return n; }

struct Comp {
  int id, h, v, q;
  int wb, hb;    // padded blocks
  int nwb, nhb;  // blocks in a non-interleaved scan
  std::vector<int16_t> c;
  int16_t* block(int y, int x) { return &c[(size_t)(y * wb + x) * 64]; }
};

struct ScanSpec {
  std::vector<int> comps;
  int Ss, Se, Ah, Al;
  int dc_tbl[4], ac_tbl[4];
};

struct BitOut {
  Bytes* out;
  uint32_t acc = 0;
  int n = 0;
  void put(uint32_t bits, int nb) {
    for (int i = nb - 1; i >= 0; --i) {
      acc = (acc << 1) | ((bits >> i) & 1);
      if (++n == 8) {
        out->push_back(acc);
        if ((acc & 0xff) == 0xff) out->push_back(0);
        acc = 0;
        n = 0;
      }
    }
  }
  int room() const { return (8 - n) & 7; }
};

struct Gen {
  World& w;
  const GenOpts& o;
  JpegInfo* info;
  Rng r;  // bulk content
  int W, H, nc, maxh = 1, maxv = 1, mcux, mcuy;
  bool progressive = false;
  std::vector<Comp> comp;
  int restart = 0;
  int long_runs = 0;
  int nshort = 0, nother = 0, ncom = 0;  // marker segments, by the way they are stored
  Bytes out;
  Gen(World& w, const GenOpts& o, JpegInfo* i) : w(w), o(o), info(i), r(0) {}

  void feat(int f) { info->features |= 1ull << f; }

  void u8(int v) { out.push_back(v); }
  void u16(int v) { out.push_back(v >> 8); out.push_back(v & 255); }

  void Geometry() {
    int cls = w.decide(WORK, [&](Rng& g) -> uint64_t {
      if (g.chance(o.big_num, 64)) return 2 + g.below(std::max(1, o.max_class - 1));
      return g.below(2);
    });
    cls = std::min(cls, o.max_class);
    static const int lim[] = {20, 72, 260, 700, 1800, 4200};
    int L = lim[cls];
    W = 1 + w.pick(WORK, L);
    H = 1 + w.pick(WORK, L);
    int shape = w.rare(WORK, 1, 12, 3);
    if (shape == 1) { W = std::min(65000, W * 6); H = 1 + H % 9; }
    if (shape == 2) { H = std::min(65000, H * 6); W = 1 + W % 9; }
    static const int ncs[] = {1, 3, 3, 3, 2, 4};
    nc = ncs[w.pick(WORK, 6)];
    int samp = w.pick(WORK, 8);
    // Enough blocks for one end-of-band run to reach its limit of 0x7fff.
    if (o.max_class >= 3 && o.big_num > 0 && !o.dense) long_runs = w.rare(WORK, 1, 300, 3);
    if (long_runs) {
      // ... or to collect more correction bits in one run than any writer would.
      int least = long_runs == 1 ? 1449 : 400;
      nc = 1;
      W = least + w.pick(WORK, 40);
      H = least + w.pick(WORK, 40);
      feat(28);
    }
    comp.resize(nc);
    if (samp >= 1) {
      static const int hs[] = {1, 2, 2, 1, 4, 2, 3, 1};
      static const int vs[] = {1, 2, 1, 2, 1, 4, 3, 1};
      maxh = hs[samp]; maxv = vs[samp];
    }
    if (w.rare(WORK, 1, 40, 2)) { maxh = 1 + w.pick(WORK, 15); maxv = 1 + w.pick(WORK, 15); feat(22); }
    // Dimensions up to what the header can express.
    if (o.max_class >= 3 && o.big_num > 0 && !o.dense && !long_runs && w.rare(WORK, 1, 300, 2)) {
      int a = 4000 + w.pick(WORK, 61536), b = 1 + w.pick(WORK, 17);
      bool tall = w.flip(WORK, 1, 2);
      W = tall ? b : a;
      H = tall ? a : b;
      if (maxh > 4) maxh = 4;
      if (maxv > 4) maxv = 4;
      feat(32);
    }
    int spread = w.pick(WORK, 3);
    for (int i = 0; i < nc; ++i) {
      Comp& c = comp[i];
      c.h = c.v = 1;
      if (i == 0 && spread != 2) { c.h = maxh; c.v = maxv; }
      else if (spread >= 1) {
        // any divisor
        std::vector<int> dh, dv;
        for (int d = 1; d <= maxh; ++d) if (maxh % d == 0) dh.push_back(d);
        for (int d = 1; d <= maxv; ++d) if (maxv % d == 0) dv.push_back(d);
        c.h = dh[w.pick(WORK, dh.size())];
        c.v = dv[w.pick(WORK, dv.size())];
      }
    }
    maxh = maxv = 1;
    for (auto& c : comp) { maxh = std::max(maxh, c.h); maxv = std::max(maxv, c.v); }
    for (auto& c : comp) if (maxh % c.h || maxv % c.v) { c.h = maxh; c.v = maxv; }
    mcux = (W + 8 * maxh - 1) / (8 * maxh);
    mcuy = (H + 8 * maxv - 1) / (8 * maxv);
    for (auto& c : comp) {
      c.wb = mcux * c.h; c.hb = mcuy * c.v;
      c.nwb = (W * c.h + 8 * maxh - 1) / (8 * maxh);
      c.nhb = (H * c.v + 8 * maxv - 1) / (8 * maxv);
      c.c.assign((size_t)c.wb * c.hb * 64, 0);
      if (c.h != maxh || c.v != maxv) feat(0);
    }
    int ids = w.pick(WORK, 5);
    for (int i = 0; i < nc; ++i) {
      static const int rgb[] = {'R', 'G', 'B', 'A'};
      comp[i].id = ids <= 1 ? i + 1 : ids == 2 ? rgb[i] : ids == 3 ? i : (17 + 61 * i + (int)w.pick(WORK, 50)) & 255;
    }
    if (ids >= 2) feat(1);
  }

  void Content() {
    uint64_t seed = w.bits64(WORK);
    r = Rng(seed);
    for (auto& c : comp) {
      int kind = o.dense ? 5 : w.pick(WORK, 8);
      if (long_runs) kind = long_runs == 1 ? 8 : 7;
      int amp = w.pick(WORK, 12);  // bits of amplitude
      int density = w.pick(WORK, 64);
      size_t nb = c.c.size() / 64;
      int dc = 0;
      // Values no 8 bit image needs, but the code words can express.
      bool wide_dc = !o.dense && w.rare(WORK, 1, 40, 2), wide_ac = !o.dense && w.rare(WORK, 1, 40, 2);
      if (wide_dc) feat(33);
      if (wide_ac) feat(34);
      const int dclim = wide_dc ? 2040 : 1000;
      for (size_t b = 0; b < nb; ++b) {
        int16_t* p = &c.c[b * 64];
        switch (kind) {
          case 0:  // empty
            if (r.chance(1, 20)) p[0] = (int)r.below(7) - 3;
            break;
          case 1:  // smooth: DC walk and a few low frequencies
          case 2:
          case 3: {
            dc += (int)r.below(2 * (1 << std::min(amp, 7)) + 1) - (1 << std::min(amp, 7));
            dc = std::max(-dclim, std::min(dclim, dc));
            p[0] = dc;
            int n = r.below(1 + density / (kind == 3 ? 1 : 4));
            for (int i = 0; i < n; ++i) {
              int k = 1 + (int)(r.below(63) * r.below(64) / 64);
              int lim = 1 << std::max(0, std::min(10, amp - k / 8));
              p[k] = (int)r.below(2 * lim + 1) - lim;
            }
            break;
          }
          case 4: {  // sparse spikes
            if (r.chance(1, 3)) p[0] = (int)r.below(2048) - 1024;
            while (r.chance(1, 2)) {
              int lim = (1 << std::min(10, (int)r.below(12))) - 1;
              p[1 + r.below(63)] = r.chance(1, 2) ? lim : -lim;
            }
            break;
          }
          case 5: {  // dense noise
            int a = o.dense ? 11 : std::min(amp, 10);
            int lim = (1 << a) - 1;
            for (int k = 0; k < 64; ++k) p[k] = (int)r.below(2 * lim + 1) - lim;
            if (p[0] > 1023 || p[0] < -1023) p[0] %= 1024;
            break;
          }
          case 7: {  // values that appear early and are refined at leisure
            p[0] = (int)r.below(64) - 32;
            int lo = 4 << (density & 1), n = 1 + density / 2;
            for (int i = 0; i < n; ++i) {
              int v = lo + (int)r.below(lo);
              p[1 + r.below(63)] = r.chance(1, 2) ? v : -v;
            }
            break;
          }
          case 8: {  // nothing but rare spikes
            if (r.chance(1, 100)) p[0] = (int)r.below(41) - 20;
            if (r.chance(1, 40000)) p[1 + r.below(63)] = r.chance(1, 2) ? 3 : -9;
            break;
          }
          default: {  // patches: runs of empty blocks between busy ones
            if ((b / (3 + density)) & 1) break;
            p[0] = (int)(b * 7 % 900) - 450;
            int n = r.below(64);
            for (int k = 1; k <= n; ++k)
              if (r.chance(1, 2)) p[k] = (int)r.below(9) - 4;
            break;
          }
        }
        int acmax = o.dense || wide_ac ? 2047 : 1023;
        if (wide_ac && r.chance(1, 4)) p[1 + r.below(63)] = r.chance(1, 2) ? 1024 + r.below(1024) : -1024 - (int)r.below(1024);
        for (int k = 1; k < 64; ++k) p[k] = std::max(-acmax, std::min(acmax, (int)p[k]));
        if (o.dense)  // really fill the top category
          for (int k = 1; k < 64; ++k) if (std::abs(p[k]) < 1024) p[k] = p[k] < 0 ? -1024 - std::abs(p[k]) / 2 : 1024 + p[k] / 2;
      }
    }
  }

  std::vector<ScanSpec> Script() {
    std::vector<ScanSpec> s;
    int mode = w.pick(WORK, 5);
    progressive = mode >= 3 || long_runs;
    auto tables = [&](ScanSpec& sc) {
      for (size_t i = 0; i < sc.comps.size(); ++i) {
        int t = std::min<int>(3, sc.comps[i] ? tblchroma : 0);
        sc.dc_tbl[i] = t;
        sc.ac_tbl[i] = t;
      }
    };
    tblchroma = w.pick(WORK, 4);
    if (!progressive) {
      int layout = w.rare(WORK, 1, 4, 4);
      std::vector<std::vector<int>> groups;
      if (layout == 0 || nc == 1) {
        groups.push_back({});
        for (int i = 0; i < nc; ++i) groups[0].push_back(i);
      } else if (layout == 1) {
        for (int i = 0; i < nc; ++i) groups.push_back({i});
      } else if (layout == 2) {
        groups.push_back({0});
        groups.push_back({});
        for (int i = 1; i < nc; ++i) groups[1].push_back(i);
      } else {
        for (int i = nc - 1; i >= 0; --i) groups.push_back({i});
      }
      if (groups.size() > 1) feat(2);
      for (auto& g : groups) {
        ScanSpec sc;
        sc.comps = g;
        sc.Ss = 0; sc.Se = 63; sc.Ah = 0; sc.Al = 0;
        tables(sc);
        s.push_back(sc);
      }
      return s;
    }
    feat(3);
    int dcal = w.pick(WORK, 4);
    if (dcal == 3) dcal = w.pick(WORK, 6);
    bool dc_inter = nc > 1 && !w.rare(WORK, 1, 4, 2);
    auto add = [&](std::vector<int> cs, int Ss, int Se, int Ah, int Al) {
      ScanSpec sc;
      sc.comps = cs;
      sc.Ss = Ss; sc.Se = Se; sc.Ah = Ah; sc.Al = Al;
      tables(sc);
      s.push_back(sc);
    };
    std::vector<int> all;
    for (int i = 0; i < nc; ++i) all.push_back(i);
    auto dc_scan = [&](int Ah, int Al) {
      if (dc_inter) add(all, 0, 0, Ah, Al);
      else for (int i = 0; i < nc; ++i) add({i}, 0, 0, Ah, Al);
    };
    dc_scan(0, dcal);
    // Pending AC work per component: bands and levels.
    struct Job { int c, Ss, Se, al; bool first; };
    std::vector<Job> jobs;
    for (int i = 0; i < nc; ++i) {
      int nb = 1 + w.pick(WORK, 3);
      int start = 1;
      for (int b = 0; b < nb && start <= 63; ++b) {
        int end = b + 1 == nb ? 63 : std::min(63, start + (int)w.pick(WORK, 30));
        int al = w.pick(WORK, 4);
        if (w.rare(WORK, 1, 24, 2)) { al = w.pick(WORK, 11); feat(29); }
        jobs.push_back({i, start, end, al, true});
        start = end + 1;
      }
    }
    int dcleft = dcal;
    bool drop = w.rare(WORK, 1, 16, 2);  // never refine completely
    while (!jobs.empty() || dcleft > 0) {
      uint64_t k = w.pick(WORK, jobs.size() + (dcleft > 0));
      if (k >= jobs.size()) {
        dc_scan(dcleft, dcleft - 1);
        --dcleft;
        feat(4);
        continue;
      }
      Job& j = jobs[k];
      if (j.first) {
        add({j.c}, j.Ss, j.Se, 0, j.al);
        j.first = false;
      } else {
        add({j.c}, j.Ss, j.Se, j.al, j.al - 1);
        --j.al;
        feat(5);
      }
      if (j.al == 0 || (drop && w.flip(WORK, 1, 3))) jobs.erase(jobs.begin() + k);
      if (s.size() > 60) break;
    }
    return s;
  }
  int tblchroma = 1;

  // --- entropy coded segments as tokens -------------------------------
  std::vector<Tok> toks;
  int eobrun = 0;
  int eob_cap = 900;  // most correction bits an end-of-band run carries
  std::vector<uint8_t> eobits;
  int eob_tbl = 4;
  uint32_t break_chance = 0;  // of 256: end an EOB run early
  uint32_t zrl_chance = 0;    // of 256: redundant zero runs
  uint32_t zrl_refine = 0;    // the same in refinement scans, which the format does not have

  void raw(int bits, int n) { if (n) toks.push_back({255, 0, (uint8_t)n, (uint16_t)bits}); }
  void flush_eob() {
    if (!eobrun) return;
    int nb = 0;
    while ((eobrun >> nb) > 1) ++nb;
    toks.push_back({(uint8_t)eob_tbl, (uint8_t)(nb << 4), (uint8_t)nb, (uint16_t)(eobrun & ((1 << nb) - 1))});
    eobrun = 0;
    for (uint8_t b : eobits) raw(b, 1);
    eobits.clear();
  }
  void val(int tbl, int sym, int v, int n) {
    int bits = v < 0 ? v + (1 << n) - 1 : v;
    toks.push_back({(uint8_t)tbl, (uint8_t)sym, (uint8_t)n, (uint16_t)bits});
  }

  void Block(const ScanSpec& sc, int dct, int act, int16_t* p, int* pred) {
    int Ss = progressive ? sc.Ss : 0, Se = progressive ? sc.Se : 63;
    int Al = progressive ? sc.Al : 0, Ah = progressive ? sc.Ah : 0;
    bool eob_ok = Ss > 0;
    eob_tbl = 4 + act;
    if (Ss == 0) {
      if (Ah == 0) {
        int v = p[0] >> Al;
        int d = v - *pred;
        *pred = v;
        int n = NumBits(d);
        val(dct, n, d, n);
      } else {
        raw((p[0] >> Al) & 1, 1);
      }
      Ss = 1;
    }
    if (Ss > Se) return;
    if (Ah == 0) {
      int run = 0;
      for (int k = Ss; k <= Se; ++k) {
        int a = std::abs(p[k]) >> Al;
        if (!a) { ++run; continue; }
        flush_eob();
        while (run > 15) { toks.push_back({(uint8_t)(4 + act), 0xf0, 0, 0}); run -= 16; }
        int n = NumBits(a);
        val(4 + act, (run << 4) | n, p[k] < 0 ? -a : a, n);
        run = 0;
      }
      if (run > 0) {
        if (zrl_chance && run >= 16 && r.below(256) < zrl_chance) {
          flush_eob();
          while (run >= 16) {
            toks.push_back({(uint8_t)(4 + act), 0xf0, 0, 0});
            run -= 16;
            feat(6);
            if (r.chance(1, 2)) break;
          }
          if (run == 0) return;
        }
        if (eob_ok) {
          ++eobrun;
          if (eobrun == 0x7fff) { flush_eob(); feat(30); }
          else if (break_chance && r.below(256) < break_chance) { flush_eob(); feat(7); }
        } else {
          toks.push_back({(uint8_t)(4 + act), 0, 0, 0});
        }
      }
    } else {
      int run = 0, last = 0;
      const bool force = zrl_refine && r.below(256) < zrl_refine;
      std::vector<uint8_t> corr;
      for (int k = Ss; k <= Se; ++k) if ((std::abs(p[k]) >> Al) == 1) last = k;
      for (int k = Ss; k <= Se; ++k) {
        int a = std::abs(p[k]) >> Al;
        if (!a) { ++run; continue; }
        while (run > 15 && (k <= last || force)) {
          if (k > last) feat(39);
          flush_eob();
          toks.push_back({(uint8_t)(4 + act), 0xf0, 0, 0});
          run -= 16;
          for (uint8_t b : corr) raw(b, 1);
          corr.clear();
        }
        if (a > 1) { corr.push_back(a & 1); continue; }
        flush_eob();
        toks.push_back({(uint8_t)(4 + act), (uint8_t)((run << 4) | 1), 1, (uint16_t)(p[k] < 0 ? 0 : 1)});
        for (uint8_t b : corr) raw(b, 1);
        corr.clear();
        run = 0;
      }
      if (force && run > 15) {
        feat(39);
        flush_eob();
        toks.push_back({(uint8_t)(4 + act), 0xf0, 0, 0});
        run -= 16;
        for (uint8_t b : corr) raw(b, 1);
        corr.clear();
      }
      if (run > 0 || !corr.empty()) {
        ++eobrun;
        eobits.insert(eobits.end(), corr.begin(), corr.end());
        if (eobrun == 0x7fff) feat(30);
        if (eobrun == 0x7fff || (int)eobits.size() > eob_cap) flush_eob();
        else if (eobits.size() > 32767) feat(41);
        else if (eobits.size() > 1024) feat(37);
        else if (break_chance && r.below(256) < break_chance) { flush_eob(); feat(7); }
        if (!eob_ok) flush_eob();
      }
    }
  }

  void ScanTokens(const ScanSpec& sc) {
    toks.clear();
    eobrun = 0;
    eobits.clear();
    int pred[4] = {0, 0, 0, 0};
    bool inter = sc.comps.size() > 1;
    int mx = inter ? mcux : comp[sc.comps[0]].nwb;
    int my = inter ? mcuy : comp[sc.comps[0]].nhb;
    int togo = restart;
    for (int y = 0; y < my; ++y) {
      for (int x = 0; x < mx; ++x) {
        if (restart && togo == 0) {
          flush_eob();
          toks.push_back({254, 0, 0, 0});
          memset(pred, 0, sizeof(pred));
          togo = restart;
        }
        --togo;
        for (size_t i = 0; i < sc.comps.size(); ++i) {
          Comp& c = comp[sc.comps[i]];
          int nv = inter ? c.v : 1, nh = inter ? c.h : 1;
          for (int iy = 0; iy < nv; ++iy)
            for (int ix = 0; ix < nh; ++ix)
              Block(sc, sc.dc_tbl[i], sc.ac_tbl[i], c.block(y * nv + iy, x * nh + ix), &pred[i]);
        }
      }
    }
    flush_eob();
  }

  Table cur[8];

  void WriteScan(const ScanSpec& sc, bool first_scan, bool upfront) {
    ScanTokens(sc);
    uint32_t freq[8][256];
    memset(freq, 0, sizeof(freq));
    bool used[8] = {false};
    for (const Tok& t : toks)
      if (t.tbl < 8) { freq[t.tbl][t.sym]++; used[t.tbl] = true; }
    // SOS needs its tables to exist even if no symbol uses them.
    for (size_t i = 0; i < sc.comps.size(); ++i) {
      if (sc.Ss == 0 && sc.Ah == 0) used[sc.dc_tbl[i]] = true;
      if (sc.Ss == 0) used[sc.dc_tbl[i]] = true;
      if (sc.Se > 0) used[4 + sc.ac_tbl[i]] = true;
    }
    // Emit DHTs.
    std::vector<int> need;
    for (int t = 0; t < 8; ++t) {
      if (!used[t]) continue;
      bool ok = cur[t].valid && !w.rare(WORK, 1, 24, 2);
      for (int s = 0; s < 256 && ok; ++s)
        if (freq[t][s] && !cur[t].len[s]) ok = false;
      if (!ok) need.push_back(t);
    }
    for (int t : need) {
      bool ac = t >= 4;
      int style = w.pick(WORK, 3);
      if (upfront) style = 1;
      Table nt;
      bool covered = false;
      if (style == 1) {
        nt = StockTable(ac, (t & 3) ? 1 : 0);
        covered = true;
        for (int s = 0; s < 256; ++s) if (freq[t][s] && !nt.len[s]) covered = false;
        if (covered) feat(8);
      }
      if (!covered) nt = style == 2 ? OddTable(freq[t], ac ? 256 : 12, r) : OptimalTable(freq[t], ac ? 256 : 12);
      cur[t] = nt;
    }
    // Tables nothing uses; some of them are empty or replaced before use.
    std::vector<std::pair<int, Table>> spare;
    if (w.rare(WORK, 1, 24, 2)) {
      feat(27);
      int n = w.rare(WORK, 1, 8, 2) ? 1 + (int)w.pick(WORK, 40) : 1 + (int)w.pick(WORK, 3);
      for (int i = 0; i < n; ++i) {
        int t = w.pick(WORK, 8);
        if (used[t]) continue;
        uint32_t f[256];
        memset(f, 0, sizeof(f));
        int nsym = t >= 4 ? 256 : 12, k = r.below(5) ? r.below(nsym + 1) : nsym;
        for (int j = 0; j < k; ++j) f[r.below(nsym)] = 1 + r.below(1000);
        Table nt = r.chance(1, 2) ? OddTable(f, nsym, r) : OptimalTable(f, nsym);
        if (r.chance(1, 4)) nt = Table();
        cur[t] = Table();
        spare.push_back({t, nt});
      }
    }
    for (auto& p : spare) {
      u8(0xff); u8(0xc4);
      u16(19 + p.second.values.size());
      u8(p.first >= 4 ? 0x10 + p.first - 4 : p.first);
      for (int l = 1; l <= 16; ++l) u8(p.second.counts[l]);
      for (uint8_t v : p.second.values) u8(v);
    }
    if (!need.empty()) {
      bool joint = w.flip(WORK, 1, 2);
      size_t i = 0;
      while (i < need.size()) {
        size_t j = joint ? need.size() : i + 1;
        u8(0xff); u8(0xc4);
        size_t lenpos = out.size();
        u16(0);
        for (; i < j; ++i) {
          const Table& t = cur[need[i]];
          u8(need[i] >= 4 ? 0x10 + need[i] - 4 : need[i]);
          for (int l = 1; l <= 16; ++l) u8(t.counts[l]);
          for (uint8_t v : t.values) u8(v);
        }
        size_t n = out.size() - lenpos;
        out[lenpos] = n >> 8; out[lenpos + 1] = n & 255;
      }
    }
    if (!first_scan && o.with_meta) Segments(1, 20);
    u8(0xff); u8(0xda);
    u16(6 + 2 * sc.comps.size());
    u8(sc.comps.size());
    for (size_t i = 0; i < sc.comps.size(); ++i) {
      u8(comp[sc.comps[i]].id);
      u8((sc.dc_tbl[i] << 4) | sc.ac_tbl[i]);
    }
    u8(sc.Ss); u8(sc.Se); u8((sc.Ah << 4) | sc.Al);
    BitOut bo{&out};
    int rst = 0;
    auto pad = [&]() {
      int n = bo.room();
      if (!n) return;
      uint32_t bits = (1u << n) - 1;
      padding_bits += n;
      if (pad_mode == 1) bits = 0;
      if (pad_mode == 2) bits = r.below(1u << n);
      if (pad_mode == 3 && r.chance(1, 30)) bits = r.below(1u << n);
      bo.put(bits, n);
    };
    for (const Tok& t : toks) {
      if (t.tbl == 254) {
        pad();
        u8(0xff); u8(0xd0 + rst);
        rst = (rst + 1) & 7;
        continue;
      }
      if (t.tbl < 8) bo.put(cur[t.tbl].code[t.sym], cur[t.tbl].len[t.sym]);
      if (t.nbits) bo.put(t.bits, t.nbits);
    }
    pad();
  }
  int pad_mode = 0;
  uint64_t padding_bits = 0;

  // Does the format store this segment as one of its popular ones?
  static bool Popular(int marker, const Bytes& b) {
    auto same = [&](const uint8_t* t, size_t n, size_t wild) {
      if (b.size() + 3 != n) return false;
      for (size_t i = 0; i < b.size(); ++i) if (i != wild && b[i] != t[i + 3]) return false;
      return true;
    };
    if (marker == 0xe2) return same(kApp_e2, 3161, 81);
    if (marker == 0xec) return same(kApp_ec, 18, 12);
    if (marker == 0xee) return same(kApp_ee, 15, 7);
    if (marker != 0xe0 || b.size() != 14 || memcmp(b.data(), kApp_e0 + 3, 6)) return false;
    int x = b[8] << 8 | b[9], y = b[10] << 8 | b[11];
    bool known = false;
    for (int k : {1, 72, 96, 100, 150, 180, 240, 300}) known |= x == k && y == k;
    return known && (b[6] == 1 || b[6] == 2) && b[7] < 4 && !b[12] && !b[13];
  }
  // As many segments as the format admits, or one more.
  void Crowd() {
    int kind = w.pick(WORK, 3);
    const int limit = kind == 0 ? 832 : 1024;
    int have = kind == 0 ? nshort : kind == 1 ? nother : ncom;
    int target = w.decide(WORK, [&](Rng& g) -> uint64_t { return g.chance(5, 8) ? limit : g.chance(1, 3) ? limit + 1 : g.below(limit); });
    int fat = w.pick(WORK, 60);
    if (w.rare(WORK, 1, 6, 2)) { fat = 100 + w.pick(WORK, 900); feat(35); }
    feat(25);
    for (; have < target; ++have) {
      if (kind == 0) {
        Bytes b(kApp_ec + 3, kApp_ec + 18);
        b[12] = r.below(256);
        Seg(0xec, b);
      } else {
        Bytes b(r.below(fat + 1));
        for (auto& x : b) x = r.below(256);
        Seg(kind == 1 ? 0xe3 + r.below(9) : 0xfe, b);
      }
    }
  }
  void Seg(int marker, const Bytes& b) {
    (marker == 0xfe ? ncom : Popular(marker, b) ? nshort : nother)++;
    u8(0xff); u8(marker); u16(b.size() + 2);
    out.insert(out.end(), b.begin(), b.end());
  }
  // Data between markers that cannot be mistaken for a marker.
  void Junk(int n) {
    feat(9);
    for (int i = 0; i < n; ++i) {
      int b = r.below(256);
      if (!out.empty() && out.back() == 0xff && b >= 0xc0) b &= 0x3f;
      u8(b);
    }
    if (out.back() == 0xff && n && r.chance(3, 4)) out.back() = 0xfe;
  }
  void Segments(uint32_t num, uint32_t den) {
    int n = w.decide(WORK, [&](Rng& g) -> uint64_t { int c = 0; while (c < 6 && g.chance(num, den)) ++c; return c; });
    for (int i = 0; i < n; ++i) {
      int kind = w.pick(WORK, 9);
      switch (kind) {
        case 0: {
          Bytes b(kApp_e0 + 3, kApp_e0 + 17);
          b[6] = 1 + r.below(2); b[7] = r.below(4);
          static const int d[] = {1, 72, 96, 100, 150, 180, 240, 300, 73};
          int k = d[r.below(9)];
          b[8] = k >> 8; b[9] = k; b[10] = k >> 8; b[11] = k; b[12] = b[13] = 0;
          Seg(0xe0, b); feat(10);
          break;
        }
        case 1: { Bytes b(kApp_ec + 3, kApp_ec + 18); b[12] = r.below(256); if (r.chance(1, 8)) b[r.below(b.size())] ^= 1; Seg(0xec, b); feat(11); break; }
        case 2: { Bytes b(kApp_ee + 3, kApp_ee + 15); b[7] = r.below(256); if (r.chance(1, 8)) b[r.below(b.size())] ^= 1; Seg(0xee, b); feat(11); break; }
        case 3: {
          Bytes b(kApp_e2 + 3, kApp_e2 + 3161);
          b[81] = r.below(256);
          if (r.chance(1, 6)) b[r.below(b.size())] ^= 1;
          Seg(0xe2, b); feat(12);
          break;
        }
        case 4: case 5: {  // arbitrary APPn
          int len = r.chance(1, 10) ? r.below(3000) : r.below(40);
          if (r.chance(1, 150)) len = 60000 + r.below(5500);
          Bytes b(len);
          bool text = r.chance(1, 2);
          for (auto& x : b) x = text ? 'a' + r.below(6) : r.below(256);
          Seg(0xe0 + r.below(16), b); feat(13);
          break;
        }
        case 6: case 7: {
          Bytes b(r.chance(1, 8) ? r.below(2500) : r.below(30));
          for (auto& x : b) x = 32 + r.below(90);
          Seg(0xfe, b); feat(14);
          break;
        }
        default: {
          int n = 1 + r.below(12);
          if (r.chance(1, 24)) { n = r.chance(1, 4) ? 16200 + r.below(400) : 100 + r.below(300); feat(36); }
          Junk(n);
          break;
        }
      }
    }
  }

  void Quant() {
    int nq = 1 + w.pick(WORK, std::min(4, nc + 1));
    bool joint = w.flip(WORK, 1, 2);
    struct Q { int idx, prec; uint16_t v[64]; };
    std::vector<Q> qs;
    for (int i = 0; i < nq; ++i) {
      Q q;
      q.idx = i;
      q.prec = 0;
      int kind = w.pick(WORK, 7);
      for (int k = 0; k < 64; ++k) {
        int v = 1;
        switch (kind) {
          case 0: v = kStockQuant[(i > 0) * 512 + 64 * (r.s & 7) + nat[k]]; break;
          case 1: v = 1 + (kStockQuant[(i > 0) * 512 + nat[k]] * (1 + (r.s >> 8) % 20)) / 4; break;
          case 2: v = 1 + r.below(255); break;
          case 3: v = 1 + k / 2; break;
          case 4: v = 1 + r.below(65535); break;
          case 5: v = 1 + r.below(3); break;
          default: v = 255; break;
        }
        if (kind == 4) q.prec = 1;
        q.v[k] = v;
      }
      if (q.prec == 0) for (auto& v : q.v) v = std::min<int>(v, 255);
      if (q.prec == 0 && w.rare(WORK, 1, 16, 2)) q.prec = 1;
      if (q.prec) feat(15);
      // The format cannot express jumps close to 2^16 between neighbours.
      for (int k = 1; k < 64; ++k)
        if (abs(int(q.v[k]) - int(q.v[k - 1])) > 65000) feat(23);
      r.next();
      qs.push_back(q);
    }
    if (nq >= 2 && nq < 4 && w.rare(WORK, 1, 16, 2)) {
      Q q = qs[w.pick(WORK, nq)];
      q.v[w.pick(WORK, 64)] ^= 1;
      for (auto& v : q.v) v = std::max<int>(v, 1);
      for (int k = 1; k < 64; ++k)
        if (abs(int(q.v[k]) - int(q.v[k - 1])) > 65000) feat(23);
      qs.push_back(q);
      feat(38);
    }
    if (nq >= 2 && w.rare(WORK, 1, 12, 2)) { std::swap(qs[0].idx, qs[1].idx); feat(16); }
    for (int i = 0; i < nc; ++i) comp[i].q = i == 0 ? 0 : w.pick(WORK, nq);
    // each Q.idx 0..nq-1 is defined, so any q < nq is fine
    size_t i = 0;
    while (i < qs.size()) {
      size_t j = joint ? qs.size() : i + 1;
      u8(0xff); u8(0xdb);
      size_t lp = out.size();
      u16(0);
      for (; i < j; ++i) {
        u8((qs[i].prec << 4) | qs[i].idx);
        for (int k = 0; k < 64; ++k) { if (qs[i].prec) u16(qs[i].v[k]); else u8(qs[i].v[k]); }
      }
      size_t n = out.size() - lp;
      out[lp] = n >> 8; out[lp + 1] = n & 255;
    }
  }
  static const uint8_t nat[64];

  void Run() {
    Geometry();
    Content();
    std::vector<ScanSpec> script = Script();
    // Scans in an order that makes no sense, all well formed by themselves.
    if (progressive && script.size() > 1 && w.rare(WORK, 1, 40, 2)) {
      feat(40);
      size_t a = w.pick(WORK, script.size()), b = w.pick(WORK, script.size());
      ScanSpec c = script[a];
      switch (w.pick(WORK, 5)) {
        case 0: std::swap(script[a], script[b]); break;
        case 1: script.erase(script.begin() + a); break;
        case 2: script.insert(script.begin() + b, c); break;
        case 3: if (c.Ah && c.Al) { script[a].Ah--; script[a].Al--; } break;
        default: if (c.Ss) (r.chance(1, 2) ? script[a].Ss : script[a].Se) = c.Ss + (c.Se - c.Ss) / 2; break;
      }
    }
    // Blocks outside a non-interleaved scan are never coded: clear them.
    for (int i = 0; i < nc; ++i) {
      bool dc_in = false, ac_in = false;
      for (auto& s : script)
        for (int c : s.comps)
          if (c == i && s.comps.size() > 1) { if (s.Ss == 0) dc_in = true; if (s.Se > 0) ac_in = true; }
      Comp& c = comp[i];
      for (int y = 0; y < c.hb; ++y)
        for (int x = 0; x < c.wb; ++x)
          if (y >= c.nhb || x >= c.nwb) {
            int16_t* p = c.block(y, x);
            if (!dc_in) p[0] = 0;
            if (!ac_in) for (int k = 1; k < 64; ++k) p[k] = 0;
          }
    }
    // Baseline writers stay below the top AC category.
    int rkind = w.rare(WORK, 1, 3, 6);
    if (rkind == 1) restart = 1;
    if (rkind == 2) restart = mcux;
    if (rkind == 3) restart = 1 + w.pick(WORK, 9);
    if (rkind == 4) restart = 1 + w.pick(WORK, 2 * mcux * mcuy + 3);
    if (rkind == 5) restart = 1 + w.pick(WORK, 65535);
    if (long_runs) restart = 0;
    if (restart) feat(17);
    pad_mode = w.rare(WORK, 1, 4, 4);
    if (pad_mode) feat(18);
    break_chance = w.rare(WORK, 1, 2, 4);
    break_chance = break_chance == 0 ? 0 : break_chance == 1 ? 20 : break_chance == 2 ? 120 : 255;
    if (w.rare(WORK, 1, 6, 2) || long_runs) { eob_cap = 1 << 24; break_chance = 0; }
    if (progressive && w.rare(WORK, 1, 40, 2)) zrl_refine = 30;
    zrl_chance = w.rare(WORK, 1, 4, 3) * 100;
    u8(0xff); u8(0xd8);
    if (o.with_meta) Segments(2, 3);
    if (o.with_meta && w.rare(WORK, 1, 80, 2)) {
      for (int n = 1 + w.rare(WORK, 1, 2, 3); n > 0; --n) Crowd();
    }
    bool dri_late = w.flip(WORK, 1, 8);
    // DQT and SOF order
    Quant();
    if (o.with_meta) Segments(1, 12);
    auto dri = [&]() { if (restart) { u8(0xff); u8(0xdd); u16(4); u16(restart); } else if (w.rare(WORK, 1, 30, 2)) { u8(0xff); u8(0xdd); u16(4); u16(0); feat(17);} };
    if (!dri_late) dri();
    u8(0xff);
    u8(progressive ? 0xc2 : w.rare(WORK, 1, 8, 2) ? 0xc1 : 0xc0);
    u16(8 + 3 * nc);
    u8(8); u16(H); u16(W); u8(nc);
    for (auto& c : comp) { u8(c.id); u8((c.h << 4) | c.v); u8(c.q); }
    if (o.with_meta) Segments(1, 12);
    // Restarts may also begin with a later scan.
    size_t dri_scan = 0;
    if (dri_late && script.size() > 1 && w.rare(WORK, 1, 3, 2)) { dri_scan = 1 + w.pick(WORK, script.size() - 1); feat(31); }
    const int interval = restart;
    if (dri_scan) restart = 0;
    else if (dri_late) dri();
    bool upfront = w.flip(WORK, 1, 4);
    for (size_t i = 0; i < script.size(); ++i) {
      if (dri_scan && i == dri_scan) { restart = interval; dri(); }
      WriteScan(script[i], i == 0, upfront);
      if (o.with_meta && w.rare(WORK, 1, 20, 2)) {
        int kind = w.pick(WORK, 3);
        if (kind == 0) Junk(1 + r.below(6));
        if (kind == 1) { u8(0xff); u8(0xd0 + r.below(8)); feat(19); }
        if (kind == 2) Segments(1, 2);
      }
    }
    u8(0xff); u8(0xd9);
    if (o.with_meta && w.rare(WORK, 1, 5, 2)) {
      int n = 1 + (r.chance(1, 6) ? r.below(20000) : r.below(60));
      if (r.chance(1, 60)) { n = 100000 + r.below(400000); feat(35); }
      feat(20);
      bool zero = r.chance(1, 3);
      for (int i = 0; i < n; ++i) u8(zero ? 0 : r.below(256));
    }
    // The format bounds how much odd padding it stores (see "padding_extreme").
    if (pad_mode && padding_bits > uint64_t(7) * ((W + 15) / 8) * ((H + 15) / 8) * nc + 200) feat(24);
    // ... and how many segments.
    if (nshort > 832 || nother > 1024 || ncom > 1024) feat(26);
    info->width = W; info->height = H; info->ncomp = nc;
    info->progressive = progressive;
    info->scans = script.size();
    info->restart = restart;
    if (nc == 1) feat(21);
  }
};
const uint8_t Gen::nat[64] = {0,  1,  8,  16, 9,  2,  3,  10, 17, 24, 32, 25, 18, 11, 4,  5,
                              12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6,  7,  14, 21, 28,
                              35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
                              58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};
}  // namespace

const char* const kFeatureNames[] = {
    "subsampled", "custom_ids", "noninterleaved", "progressive", "dc_refine", "ac_refine",
    "extra_zero_runs", "eobrun_breaks", "stock_huffman", "intermarker_data", "app0_stock",
    "app12_14_stock", "icc_stock", "app_custom", "com", "quant16", "quant_swapped", "restart",
    "odd_padding_bits", "stray_rst", "tail_data", "grayscale", "wild_sampling", "quant_extreme", "padding_extreme",
    "many_segments", "too_many_segments", "unused_tables", "huge_and_empty", "ac_al_wild", "eobrun_at_limit", "restart_from_later_scan",
    "very_wide", "dc_extreme", "ac_top_category", "bulk_metadata", "long_intermarker", "long_refinement_run", "quant_redefined", "refine_zero_runs", "odd_script", "endless_refinement_run"};
const int kNumFeatures = sizeof(kFeatureNames) / sizeof(kFeatureNames[0]);

Bytes GenJpeg(World& w, const GenOpts& opts, JpegInfo* info) {
  Gen g(w, opts, info);
  g.Run();
  return std::move(g.out);
}

void Damage(World& w, Bytes* d, int max_edits) {
  int n = 1 + w.pick(MUT, max_edits);
  for (int i = 0; i < n; ++i) {
    if (d->empty()) { d->push_back(w.pick(MUT, 256)); continue; }
    uint64_t kind = w.pick(MUT, 12);
    // Bias towards the front, where the structure is.
    uint64_t pos = w.decide(MUT, [&](Rng& r) -> uint64_t {
      uint64_t m = d->size();
      if (r.chance(1, 3)) m = std::min<uint64_t>(m, 64);
      else if (r.chance(1, 2)) m = std::min<uint64_t>(m, 1024);
      return r.below(m);
    });
    pos = std::min<uint64_t>(pos, d->size() - 1);
    switch (kind) {
      case 0: (*d)[pos] ^= 1u << w.pick(MUT, 8); w.fault("bit_flip"); break;
      case 1: (*d)[pos] = w.pick(MUT, 256); w.fault("byte_overwrite"); break;
      case 2: (*d)[pos] += 1; w.fault("byte_increment"); break;
      case 3: (*d)[pos] = w.flip(MUT, 1, 2) ? 0xff : 0; w.fault("byte_stuck"); break;
      case 4: {
        uint64_t len = 1 + w.pick(MUT, 9);
        len = std::min<uint64_t>(len, d->size() - pos);
        d->erase(d->begin() + pos, d->begin() + pos + len);
        w.fault("bytes_lost");
        break;
      }
      case 5: {
        uint64_t len = 1 + w.pick(MUT, 9);
        Bytes ins(len);
        for (auto& b : ins) b = w.pick(MUT, 256);
        d->insert(d->begin() + pos, ins.begin(), ins.end());
        w.fault("bytes_inserted");
        break;
      }
      case 6: {
        uint64_t len = std::min<uint64_t>(1 + w.pick(MUT, 64), d->size() - pos);
        Bytes dup(d->begin() + pos, d->begin() + pos + len);
        d->insert(d->begin() + pos, dup.begin(), dup.end());
        w.fault("bytes_duplicated");
        break;
      }
      case 7: {
        uint64_t len = std::min<uint64_t>(1 + w.pick(MUT, 600), d->size() - pos);
        for (uint64_t k = 0; k < len; ++k) (*d)[pos + k] = 0;
        w.fault("block_zeroed");
        break;
      }
      case 8: {
        uint64_t p2 = w.pick(MUT, d->size());
        uint64_t len = std::min<uint64_t>(1 + w.pick(MUT, 64), d->size() - std::max(pos, p2));
        for (uint64_t k = 0; k < len; ++k) std::swap((*d)[pos + k], (*d)[p2 + k]);
        w.fault("blocks_swapped");
        break;
      }
      case 9: {
        uint64_t cut = w.pick(MUT, d->size());
        d->resize(cut);
        w.fault("truncated");
        break;
      }
      case 10: {
        int len = 1 + w.pick(MUT, 40);
        for (int k = 0; k < len; ++k) d->push_back(w.pick(MUT, 256));
        w.fault("garbage_appended");
        break;
      }
      default: (*d)[pos] -= 1; w.fault("byte_decrement"); break;
    }
  }
}

}  // namespace sim
