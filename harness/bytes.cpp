// emulation prevention, byte stream splitting, length framing, checksum, RBSP end
#include "vk.h"
#include <string.h>
#include "h264_common.h"
#include "h264_bitstream_parser.h"
using namespace h264nal;
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
static uint8_t* buf(size_t n) { uint8_t* p = new uint8_t[n]; vk_bytes(p, n, "d"); return p; }
// 7.3.1: the RBSP is the NAL unit without every 0x03 that follows two zero bytes
static void unescape(size_t lo, size_t hi) {
  size_t n = pick("n", 5, lo, hi); uint8_t* d = buf(n);
  {
    std::vector<uint8_t> o = UnescapeRbsp(d, n);
    size_t k = 0; unsigned zeros = 0;
    for (size_t i = 0; i < n; i++) {
      if (zeros >= 2 && d[i] == 3) { zeros = 0; vk_reach("removed"); continue; }
      vk_assert(k < o.size(), "unescape: no byte lost"); vk_assert(o[k] == d[i], "unescape: bytes kept in order"); k++;
      zeros = d[i] == 0 ? zeros + 1 : 0;
    }
    vk_assert(o.size() == k, "unescape: nothing added");
  }
  delete[] d;
}
extern "C" void h_unescape() { unescape(0, 8); }
extern "C" void h_unescape_long() { unescape(9, 11); }
// inverse: escaping any RBSP and unescaping it gives it back
extern "C" void h_escape_roundtrip() {
  size_t n = pick("n", 4, 0, 6); uint8_t r[8]; vk_bytes(r, n, "r"); uint8_t e[16]; size_t m = 0; unsigned z = 0;
  for (size_t i = 0; i < n; i++) { if (z >= 2 && r[i] <= 3) { e[m++] = 3; z = 0; } e[m++] = r[i]; z = r[i] == 0 ? z + 1 : 0; }
  uint8_t* d = new uint8_t[m]; memcpy(d, e, m);
  { auto o = UnescapeRbsp(d, m); vk_assert(o.size() == n, "round trip: size"); for (size_t i = 0; i < n; i++) vk_assert(o[i] == r[i], "round trip: bytes"); }
  delete[] d;
}
// B.1: NAL units of a byte stream
static void annexb(size_t lo, size_t hi) {
  size_t n = pick("n", 5, lo, hi); uint8_t* d = buf(n);
  {
    auto v = H264BitstreamParser::FindNaluIndices(d, n);
    size_t k = 0; bool open = false; size_t start = 0;
    auto close = [&](size_t end) { while (end > start && d[end - 1] == 0) end--; vk_assert(k < v.size(), "annex b: every NAL unit is found"); vk_assert(v[k].payload_start_offset == start, "annex b: NAL unit begins right after its start code"); vk_assert(v[k].payload_size == end - start, "annex b: NAL unit ends at the next start code, without trailing zero bytes"); k++; };
    for (size_t i = 0; i + 3 < n;) {
      if (d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1) {
        if (open) close(i);
        open = true; start = i + 3;
        vk_assert(k < v.size(), "annex b: every NAL unit is found"); vk_assert(v[k].start_offset == ((i > 0 && d[i - 1] == 0) ? i - 1 : i), "annex b: start code offset");
        i += 3; vk_reach("start");
      } else i++;
    }
    if (open) close(n);
    vk_assert(v.size() == k, "annex b: nothing else is reported");
    if (k > 1) vk_reach("two");
  }
  delete[] d;
}
extern "C" void h_annexb() { annexb(0, 9); }
extern "C" void h_annexb_long() { annexb(10, 12); }
// 4-byte length prefixes
extern "C" void h_explicit() {
  size_t n = pick("n", 5, 0, 12); uint8_t* d = buf(n);
  {
    auto v = H264BitstreamParser::FindNaluIndicesExplicitFraming(d, n);
    size_t i = 0, k = 0;
    while (i + 4 <= n) {
      uint64_t l = ((uint64_t)d[i] << 24) | ((uint64_t)d[i + 1] << 16) | ((uint64_t)d[i + 2] << 8) | d[i + 3];
      if (l > n - i - 4) break;
      vk_assert(k < v.size(), "length framing: every NAL unit is found"); vk_assert(v[k].start_offset == i && v[k].payload_start_offset == i + 4 && v[k].payload_size == l, "length framing: offsets"); k++;
      i += 4 + (size_t)vk_concretize(l); vk_reach("unit");
    }
    vk_assert(v.size() == k, "length framing: nothing else is reported");
  }
  delete[] d;
}
// NaluChecksum: one's complement sum of big-endian 32-bit words, zero padded
extern "C" void h_checksum() {
  size_t n = pick("n", 4, 0, 13), p = n ? pick("pos", 2, 0, n < 3 ? n : 3) : 0; uint8_t* d = buf(n);
  {
    BitBuffer b(d, n); if (p) vk_assert(b.Seek(p, 0), "seek");
    auto c = NaluChecksum::GetNaluChecksum(&b);
    size_t y = 0, i = 0; b.GetCurrentOffset(&y, &i); vk_assert(y == p && i == 0, "checksum: leaves the position");
    uint64_t sum = 0; for (size_t j = p; j < n; j += 4) { uint64_t w = 0; for (size_t q = 0; q < 4; q++) w = (w << 8) | (j + q < n ? d[j + q] : 0); sum += w; }
    while (sum >> 32) sum = (sum & 0xffffffffull) + (sum >> 32);
    uint32_t a = ~(uint32_t)sum;
    vk_assert(c != nullptr && c->GetLength() == 4, "checksum: four bytes");
    const unsigned char* g = (const unsigned char*)c->GetChecksum();
    vk_assert(g[0] == (a >> 24) && g[1] == ((a >> 16) & 255) && g[2] == ((a >> 8) & 255) && g[3] == (a & 255), "checksum: value in network order");
  }
  delete[] d;
}
// 7.2: more_rbsp_data(), rbsp_trailing_bits(), byte_aligned()
extern "C" void h_more() {
  size_t n = pick("n", 3, 0, 3); uint64_t p = pick("pos", 5, 0, n * 8); uint8_t* d = buf(n); if (n) vk_assume(d[n - 1] != 0);
  {
    BitBuffer b(d, n); vk_assert(b.Seek(p / 8, p % 8), "seek");
    uint64_t last = 0; for (uint64_t i = 0; i < n * 8; i++) if ((d[i / 8] >> (7 - i % 8)) & 1) last = i;
    if (!(n && last < p && p < n * 8)) vk_assert(more_rbsp_data(&b) == (n > 0 && p < n * 8 && last > p), "more_rbsp_data(): data before the last one bit");
    size_t y = 0, i = 0; b.GetCurrentOffset(&y, &i); vk_assert(y * 8 + i == p, "more_rbsp_data() leaves the position");
    vk_assert(byte_aligned(&b) == (p % 8 == 0), "byte_aligned()");
    vk_assert(get_current_offset(&b) == (p + 7) / 8, "get_current_offset()");
    bool ok = p < n * 8; if (ok) { uint64_t e = (p / 8 + 1) * 8; for (uint64_t q = p; q < e; q++) ok = ok && (((d[q / 8] >> (7 - q % 8)) & 1) == (q == p)); }
    vk_assert(rbsp_trailing_bits(&b) == ok, "rbsp_trailing_bits(): a one bit, then zero bits up to the byte boundary");
    if (ok) { b.GetCurrentOffset(&y, &i); vk_assert(i == 0 && y == p / 8 + 1, "rbsp_trailing_bits() ends at the byte boundary"); vk_reach("trailing"); }
  }
  delete[] d;
}
// the printable form: two lower-case hexadecimal digits per checksum byte, cut at whole bytes
extern "C" void h_checksum_print() {
  uint8_t* d = buf(4);
  {
    BitBuffer b(d, 4); auto c = NaluChecksum::GetNaluChecksum(&b); vk_assert(c != nullptr, "checksum"); const unsigned char* g = (const unsigned char*)c->GetChecksum();
    std::string o = c->GetPrintableChecksum(); vk_assert(o.size() == 8, "printable checksum: eight digits");
    auto hex = [](unsigned v) { return (char)(v < 10 ? '0' + v : 'a' + v - 10); };
    for (unsigned i = 0; i < 4; i++) vk_assert(o[2 * i] == hex(g[i] >> 4) && o[2 * i + 1] == hex(g[i] & 15), "printable checksum: digits");
    int n = (int)pick("len", 4, 1, 12); char* p = new char[n]; c->fdump(p, n); int k = (n - 1) / 2; if (k > 4) k = 4;
    for (int i = 0; i < k; i++) vk_assert(p[2 * i] == hex(g[i] >> 4) && p[2 * i + 1] == hex(g[i] & 15), "fdump checksum: digits"); vk_assert(p[2 * k] == 0, "fdump checksum: terminated"); delete[] p;
  }
  delete[] d;
}

// ---- long data: a concrete stretch of `fill`, then a few symbolic bytes around offset `at`, then a concrete end
static const size_t far_at[] = {16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072};
static void fill(uint8_t* d, size_t n, unsigned kind) { static const uint8_t pat[3][3] = {{0x55, 0xaa, 3}, {0, 0, 3}, {0, 0, 2}}; if (kind == 3) memset(d, 0, n); else { for (size_t i = 0; i < 3 && i < n; i++) d[i] = pat[kind][i]; for (size_t k = 3; k < n; k *= 2) memcpy(d + k, d, k < n - k ? k : n - k); } }
static void unescape_far(unsigned lo, unsigned hi, size_t w) {
  size_t at = far_at[pick("at", 4, lo, hi)], p = at - w / 2 - 1 + pick("sh", 1, 0, 1), n = at + w + 2 - pick("cut", 1, 0, 1) * w / 2; unsigned kind = (unsigned)pick("fill", 2, 0, 3);
  uint8_t* d = new uint8_t[n]; fill(d, n, kind); size_t e = p + w < n ? p + w : n; vk_bytes(d + p, e - p, "d");
  {
    std::vector<uint8_t> o = UnescapeRbsp(d, n); size_t k = 0, i = 0; unsigned zeros = 0;
    if (kind == 1) { size_t t = p / 3; vk_assert(o.size() >= 2 * t, "unescape: no byte lost"); uint8_t acc = 0; for (size_t j = 0; j < 2 * t; j++) acc = (uint8_t)(acc | o[j]); vk_assert(acc == 0, "unescape: bytes kept in order"); i = 3 * t; k = 2 * t; }
    else { vk_assert(o.size() >= p - 3, "unescape: no byte lost"); vk_assert(memcmp(o.data(), d, p - 3) == 0, "unescape: bytes kept in order"); for (size_t j = p - 5; j < p - 3; j++) zeros = d[j] == 0 ? zeros + 1 : 0; i = k = p - 3; }
    for (; i < n; i++) {
      if (zeros >= 2 && d[i] == 3) { zeros = 0; vk_reach("removed"); continue; }
      vk_assert(k < o.size(), "unescape: no byte lost"); vk_assert(o[k] == d[i], "unescape: bytes kept in order"); k++; zeros = d[i] == 0 ? zeros + 1 : 0;
    }
    vk_assert(o.size() == k, "unescape: nothing added");
  }
  delete[] d;
}
extern "C" void h_unescape_far() { unescape_far(0, 8, 4); }
extern "C" void h_unescape_vfar() { unescape_far(9, 13, 2); }
// a first unit of `at` bytes or so, then any few bytes, then a last unit
static void annexb_far(unsigned lo, unsigned hi, size_t w) {
  size_t at = far_at[pick("at", 4, lo, hi)], p = at - w / 2 - (size_t)pick("sh", 2, 0, 2), n = p + w + 5; unsigned kind = (unsigned)pick("fill", 1, 0, 1) * 2;
  uint8_t* d = new uint8_t[n]; fill(d + 4, n - 4, kind); d[0] = d[1] = d[2] = 0; d[3] = 1; d[4] = 0x65; vk_bytes(d + p, w, "d"); d[p + w] = 0x41; d[n - 4] = 0; d[n - 3] = 0; d[n - 2] = 1; d[n - 1] = 9; d[p - 1] = 0x77;
  {
    auto v = H264BitstreamParser::FindNaluIndices(d, n); size_t k = 1, start = 4, so = 0;
    auto unit = [&](size_t end) { while (d[end - 1] == 0 && end > start) end--; vk_assert(k - 1 < v.size(), "annex b: every NAL unit is found"); auto& x = v[k - 1]; vk_assert(x.start_offset == so && x.payload_start_offset == start && x.payload_size == end - start, "annex b: exact bounds"); k++; };
    for (size_t i = p; i + 3 < n;) if (d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 1) { unit(i); so = i - (d[i - 1] == 0); start = i + 3; i += 3; } else i++;
    unit(n); vk_assert(v.size() == k - 1, "annex b: nothing else is reported"); vk_reach(k > 3 ? "more" : "two");
  }
  delete[] d;
}
extern "C" void h_annexb_far() { annexb_far(0, 8, 5); }
extern "C" void h_annexb_vfar() { annexb_far(9, 13, 3); }
// many units; their number, zero bytes and sizes vary along the stream
extern "C" void h_annexb_many() {
  size_t m = 1 + pick("m", 9, 254, 259) + pick("x", 1, 0, 1) * 800, n = 0, odd = pick("odd", 1, 0, 1); uint8_t* d = new uint8_t[m * 10 + 4]; struct U { size_t so, st, sz; }; std::vector<U> u;
  for (size_t i = 0; i < m; i++) { U x; if (i && (i + odd) % 5 == 0) d[n++] = 0; x.so = n; if ((i + odd) % 2) d[n++] = 0; d[n++] = 0; d[n++] = 0; d[n++] = 1; if (i && (i + odd) % 5 == 0 && !((i + odd) % 2)) x.so--; x.st = n; x.sz = i + 1 == m ? 2 : i % 4; for (size_t j = 0; j < x.sz; j++) d[n++] = (uint8_t)(0x40 + i % 7); u.push_back(x); }
  d[n - 1] = (uint8_t)vk_u("last", 8); vk_assume(d[n - 1] != 0);
  { auto v = H264BitstreamParser::FindNaluIndices(d, n); vk_assert(v.size() == m, "annex b: one entry per start code"); for (size_t i = 0; i < m && i < v.size(); i++) vk_assert(v[i].start_offset == u[i].so && v[i].payload_start_offset == u[i].st && v[i].payload_size == u[i].sz, "annex b: exact bounds"); vk_reach("done"); }
  delete[] d;
}
extern "C" void h_explicit_far() {
  static const uint32_t len[] = {0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000, 200000}; uint32_t a = len[pick("a", 4, 0, 13)], b = len[pick("b", 4, 0, 11)]; size_t tail = pick("tail", 3, 0, 6), n = 8 + (size_t)a + b + tail;
  uint8_t* d = new uint8_t[n]; auto put = [&](size_t at, uint32_t v) { d[at] = (uint8_t)(v >> 24); d[at + 1] = (uint8_t)(v >> 16); d[at + 2] = (uint8_t)(v >> 8); d[at + 3] = (uint8_t)v; }; put(0, a); put(4 + (size_t)a, b); vk_bytes(d + n - tail, tail, "t");
  {
    auto v = H264BitstreamParser::FindNaluIndicesExplicitFraming(d, n); size_t k = 2, c = 8 + (size_t)a + b; vk_assert(v.size() >= 2, "length framing: every NAL unit is found");
    vk_assert(v[0].start_offset == 0 && v[0].payload_start_offset == 4 && v[0].payload_size == a && v[1].start_offset == 4 + (size_t)a && v[1].payload_start_offset == 8 + (size_t)a && v[1].payload_size == b, "length framing: offsets");
    if (tail >= 4) { uint64_t l = (uint64_t)d[c] << 24 | (uint64_t)d[c + 1] << 16 | (uint64_t)d[c + 2] << 8 | d[c + 3]; if (l <= tail - 4) { vk_assert(v.size() > 2 && v[2].start_offset == c && v[2].payload_start_offset == c + 4 && v[2].payload_size == l, "length framing: offsets"); k = 3; vk_reach("three"); } }
    vk_assert(v.size() == k, "length framing: nothing else is reported");
  }
  delete[] d;
}
extern "C" void h_checksum_far() {
  static const size_t len[] = {16, 17, 31, 32, 64, 65, 127, 255, 256, 257, 1023, 1500, 4097, 65535, 65536, 131077, 262143, 262144, 262148, 262153}; size_t n = len[pick("n", 5, 0, 19)], p = pick("pos", 1, 0, 1); unsigned f = (unsigned)pick("fill", 1, 0, 1) ? 0xff : 0x81; size_t w = 3;
  uint8_t* d = new uint8_t[n]; memset(d, (int)f, n); vk_bytes(d + n - w, w, "d"); if (n < 1600) vk_bytes(d + p, 1, "e");
  {
    BitBuffer b(d, n); if (p) vk_assert(b.Seek(p, 0), "seek"); auto c = NaluChecksum::GetNaluChecksum(&b); size_t y = 0, i = 0; b.GetCurrentOffset(&y, &i); vk_assert(y == p && i == 0, "checksum: leaves the position");
    uint64_t full = (n - p) / 4, word = (uint64_t)f * 0x01010101u, sum = (full ? full - 2 : 0) * word; auto at = [&](size_t j) { return (uint64_t)d[p + 4 * j] << 24 | (uint64_t)d[p + 4 * j + 1] << 16 | (uint64_t)d[p + 4 * j + 2] << 8 | d[p + 4 * j + 3]; };
    sum += at(0) + at(full - 1); uint64_t last = 0; for (size_t q = 0; q < 4; q++) last = last << 8 | (p + 4 * full + q < n ? d[p + 4 * full + q] : 0); sum += last;
    while (sum >> 32) sum = (sum & 0xffffffffull) + (sum >> 32);
    uint32_t a = ~(uint32_t)sum; vk_assert(c != nullptr && c->GetLength() == 4, "checksum: four bytes"); const unsigned char* g = (const unsigned char*)c->GetChecksum();
    vk_assert(g[0] == (a >> 24) && g[1] == ((a >> 16) & 255) && g[2] == ((a >> 8) & 255) && g[3] == (a & 255), "checksum: value in network order"); vk_reach("done");
  }
  delete[] d;
}
extern "C" void h_more_far() {
  static const size_t len[] = {4, 5, 7, 8, 9, 16, 33, 64, 65, 255, 256, 257, 4096, 65536, 65537, 131072}; size_t n = len[pick("n", 4, 0, 15)]; uint64_t q = pick("pos", 5, 0, 31), p = q < 8 ? q : n * 8 - 31 + q; uint8_t* d = new uint8_t[n]; memset(d, pick("fill", 1, 0, 1) ? 0xff : 0, n); vk_bytes(d + n - 3, 3, "d"); vk_assume(d[n - 1] != 0);
  {
    BitBuffer b(d, n); vk_assert(b.Seek(p / 8, p % 8), "seek"); uint64_t last = 0; for (uint64_t i = n * 8 - 24; i < n * 8; i++) if ((d[i / 8] >> (7 - i % 8)) & 1) last = i;
    if (!(last < p && p < n * 8)) vk_assert(more_rbsp_data(&b) == (p < n * 8 && last > p), "more_rbsp_data(): data before the last one bit");
    size_t y = 0, i = 0; b.GetCurrentOffset(&y, &i); vk_assert(y * 8 + i == p, "more_rbsp_data() leaves the position"); vk_assert(byte_aligned(&b) == (p % 8 == 0), "byte_aligned()"); vk_assert(get_current_offset(&b) == (p + 7) / 8, "get_current_offset()");
    bool ok = p < n * 8; if (ok) { uint64_t e = (p / 8 + 1) * 8; for (uint64_t k = p; k < e; k++) ok = ok && (((d[k / 8] >> (7 - k % 8)) & 1) == (k == p)); }
    vk_assert(rbsp_trailing_bits(&b) == ok, "rbsp_trailing_bits(): a one bit, then zero bits up to the byte boundary");
  }
  delete[] d;
}
