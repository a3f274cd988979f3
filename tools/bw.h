// independent bit string builder for the demonstrations
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
struct BW {
  std::vector<bool> b;
  BW& u(unsigned n, uint64_t v) { for (unsigned i = n; i-- > 0;) b.push_back((v >> i) & 1); return *this; }
  BW& ue(uint32_t v) { uint64_t x = (uint64_t)v + 1; unsigned n = 0; while (x >> (n + 1)) n++; return u(n, 0).u(n + 1, x); }
  BW& se(int64_t v) { return ue(v > 0 ? (uint32_t)(2 * v - 1) : (uint32_t)(-2 * v)); }
  BW& stop() { b.push_back(1); while (b.size() % 8) b.push_back(0); return *this; }
  std::vector<uint8_t> bytes() const { std::vector<uint8_t> o((b.size() + 7) / 8); for (size_t i = 0; i < b.size(); i++) if (b[i]) o[i / 8] |= 0x80 >> (i % 8); return o; }
};
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)

// parameter sets for the demonstrations: baseline-like or high profile SPS, simple PPS (RBSP bytes)
inline BW sps_data(unsigned profile, unsigned id, unsigned chroma = 1, unsigned depth = 0, unsigned mbs_only = 1, unsigned poc_type = 0, unsigned w = 3, unsigned h = 2) {
  BW s; s.u(8, profile).u(8, 0).u(8, 30).ue(id);
  if (profile != 66 && profile != 77 && profile != 88) { s.ue(chroma); if (chroma == 3) s.u(1, 0); s.ue(depth).ue(0).u(1, 0).u(1, 0); }
  s.ue(0).ue(poc_type); if (poc_type == 0) s.ue(0);
  s.ue(2).u(1, 0).ue(w).ue(h).u(1, mbs_only); if (!mbs_only) s.u(1, 0);
  s.u(1, 1).u(1, 0).u(1, 0); return s;
}
inline BW pps_data(unsigned id, unsigned sps, unsigned wp = 0, unsigned bipred = 0, unsigned l0 = 0, unsigned l1 = 0, unsigned dbf = 0) {
  BW p; p.ue(id).ue(sps).u(1, 0).u(1, 0).ue(0).ue(l0).ue(l1).u(1, wp).u(2, bipred).se(0).se(0).se(0).u(1, dbf).u(1, 0).u(1, 0); return p;
}
inline void nal(std::vector<uint8_t>& o, unsigned hdr, const std::vector<uint8_t>& r) {  // 4-byte start code, header, escaped RBSP
  o.insert(o.end(), {0, 0, 0, 1, (uint8_t)hdr}); int z = 0;
  for (uint8_t c : r) { if (z >= 2 && c <= 3) { o.push_back(3); z = 0; } o.push_back(c); z = c ? 0 : z + 1; }
}
