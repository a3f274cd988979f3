// bit reader and bit writer, over real buffers of symbolic bytes
#include "vk.h"
#include <string.h>
using namespace h264nal;
static unsigned bit(const uint8_t* b, uint64_t p) { return (b[p / 8] >> (7 - p % 8)) & 1; }
static uint64_t val(const uint8_t* b, uint64_t p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v = (v << 1) | bit(b, p + i); return v; }
// a heap buffer of exactly n symbolic bytes, so that any access outside is an error
static uint8_t* buf(size_t n) { uint8_t* p = new uint8_t[n]; vk_bytes(p, n, "d"); return p; }
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
static uint64_t pos(BitBuffer& b) { size_t y = 0, i = 0; b.GetCurrentOffset(&y, &i); vk_assert(i < 8, "bit offset within the byte"); return y * 8 + i; }
// moves the reader to bit p, by one of the ways the interface offers
static void move(BitBuffer& b, uint64_t p, unsigned how) {
  if (how == 0) vk_assert(b.Seek(p / 8, p % 8), "Seek inside the buffer succeeds");
  else if (how == 1) vk_assert(b.ConsumeBits(p), "ConsumeBits within the remaining bits succeeds");
  else { vk_assert(b.ConsumeBytes(p / 8), "ConsumeBytes within the remaining bytes succeeds"); vk_assert(b.ConsumeBits(p % 8), "ConsumeBits within the remaining bits succeeds"); }
}
static void state(BitBuffer& b, uint64_t p, size_t len) {
  vk_assert(pos(b) == p, "position");
  vk_assert(b.RemainingBitCount() == len * 8 - p, "RemainingBitCount");
}
// u(n): read / peek, 32 and 64 bit forms
static void rd(bool w64) {
  size_t len = pick("len", 4, 0, 9); uint64_t p = pick("pos", 7, 0, len * 8 < 17 ? len * 8 : 17), n = pick("n", 7, 0, w64 ? 66 : 34);
  uint8_t* d = buf(len);
  {
    BitBuffer b(d, len);
    state(b, 0, len); move(b, p, 0); state(b, p, len);
    bool ok = n >= 1 && n <= (w64 ? 64u : 32u) && n <= len * 8 - p; uint64_t want = ok ? val(d, p, (unsigned)n) : 0;
    if (w64) {
      uint64_t v = 0;
      vk_assert(b.PeekBits(n, v) == ok, "PeekBits succeeds exactly when that many bits are left"); if (ok) vk_assert(v == want, "PeekBits value"); state(b, p, len);
      v = 0; vk_assert(b.ReadBits(n, v) == ok, "ReadBits succeeds exactly when that many bits are left"); if (ok) vk_assert(v == want, "ReadBits value");
    } else {
      uint32_t v = 0;
      vk_assert(b.PeekBits(n, v) == ok, "PeekBits succeeds exactly when that many bits are left"); if (ok) vk_assert(v == want, "PeekBits value"); state(b, p, len);
      v = 0; vk_assert(b.ReadBits(n, v) == ok, "ReadBits succeeds exactly when that many bits are left"); if (ok) vk_assert(v == want, "ReadBits value");
    }
    state(b, ok ? p + n : p, len);
    vk_reach(ok ? "ok" : "fail");
  }
  delete[] d;
}
extern "C" void h_read32() { rd(false); }
extern "C" void h_read64() { rd(true); }
extern "C" void h_readint() {
  size_t len = pick("len", 4, 0, 6); uint64_t p = pick("pos", 7, 0, len * 8 < 17 ? len * 8 : 17); unsigned k = (unsigned)pick("k", 2, 0, 2); unsigned n = 8u << k;
  uint8_t* d = buf(len);
  {
    BitBuffer b(d, len); move(b, p, 1); bool ok = n <= len * 8 - p, got; uint64_t want = ok ? val(d, p, n) : 0, v;
    if (k == 0) { uint8_t x = 0; got = b.ReadUInt8(x); v = x; } else if (k == 1) { uint16_t x = 0; got = b.ReadUInt16(x); v = x; } else { uint32_t x = 0; got = b.ReadUInt32(x); v = x; }
    vk_assert(got == ok, "ReadUInt succeeds exactly when that many bits are left"); if (ok) vk_assert(v == want, "ReadUInt value"); state(b, ok ? p + n : p, len);
  }
  delete[] d;
}
// skipping and seeking with any argument
extern "C" void h_skip() {
  size_t len = pick("len", 3, 0, 6); uint64_t p = pick("pos", 7, 0, len * 8), n = vk_u("n", 64); unsigned k = (unsigned)pick("k", 2, 0, 2);
  uint8_t* d = buf(len);
  {
    BitBuffer b(d, len); move(b, p, 2); state(b, p, len); uint64_t left = len * 8 - p;
    if (k == 0) { bool ok = n <= left; vk_assert(b.ConsumeBits(n) == ok, "ConsumeBits succeeds exactly within the remaining bits"); state(b, ok ? p + n : p, len); vk_reach("bits"); }
    else if (k == 1) { bool ok = n <= left / 8; vk_assert(b.ConsumeBytes(n) == ok, "ConsumeBytes succeeds exactly within the remaining bytes"); state(b, ok ? p + 8 * n : p, len); vk_reach("bytes"); }
    else { uint64_t o = vk_u("o", 64); bool ok = (n < len && o < 8) || (n == len && o == 0); vk_assert(b.Seek(n, o) == ok, "Seek succeeds exactly inside the buffer"); state(b, ok ? n * 8 + o : p, len); vk_reach("seek"); }
  }
  delete[] d;
}
// ue(v), se(v)
static void eg(size_t maxlen, uint64_t maxpos) {
  size_t len = pick("len", 4, 0, maxlen); uint64_t p = pick("pos", 7, 0, len * 8 < maxpos ? len * 8 : maxpos);
  uint8_t* d = buf(len); bool sg = vk_concretize(vk_u("signed", 1));
  {
    BitBuffer b(d, len); move(b, p, 0);
    bool got; uint32_t u = 0; int32_t v = 0;
    if (sg) got = b.ReadSignedExponentialGolomb(v); else got = b.ReadExponentialGolomb(u);
    uint64_t end = len * 8, q = p; unsigned z = 0; bool ok = true;
    for (;;) { if (q >= end || z > 31) { ok = false; break; } if (bit(d, q++)) break; z++; }
    if (ok && q + z > end) ok = false;
    vk_assert(got == ok, "Exp-Golomb read succeeds exactly on a complete code of at most 32 significant bits");
    uint64_t k = 0; if (ok) { k = ((1ull << z) | val(d, q, z)) - 1; q += z; }
    if (ok && !sg) vk_assert(u == k, "ue(v) value");
    if (ok && sg) vk_assert((int64_t)v == ((k & 1) ? (int64_t)((k + 1) / 2) : -(int64_t)(k / 2)), "se(v) value");
    state(b, ok ? q : p, len);
    vk_reach(ok ? "ok" : "fail");
  }
  delete[] d;
}
extern "C" void h_eg() { eg(10, 9); }
// two reads in a row see consecutive bits (position after a mixed sequence)
extern "C" void h_seq() {
  size_t len = 13; uint8_t* d = buf(len);
  {
    BitBuffer b(d, len); uint64_t p = 0;
    for (int i = 0; i < 3; i++) {
      unsigned k = (unsigned)pick(i == 0 ? "k0" : i == 1 ? "k1" : "k2", 2, 0, 3); uint32_t v = 0;
      if (k == 0) { vk_assert(b.ReadBits(1, v), "read"); vk_assert(v == bit(d, p), "bit"); p += 1; }
      else if (k == 1) { vk_assert(b.ReadBits(7, v), "read"); vk_assert(v == val(d, p, 7), "bits"); p += 7; }
      else if (k == 2) { vk_assert(b.ReadBits(13, v), "read"); vk_assert(v == val(d, p, 13), "bits"); p += 13; }
      else { uint64_t w = 0; bool ok = true; vk_assert(b.ReadBits(33, w) == ok, "read"); if (ok) { vk_assert(w == val(d, p, 33), "bits"); p += 33; } }
      state(b, p, len);
    }
  }
  delete[] d;
}
// ns(n)
static unsigned cbits(uint64_t v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }
extern "C" void h_ns() {
  uint32_t nv = (uint32_t)pick("nv", 5, 1, 20); size_t len = pick("len", 2, 0, 2); uint64_t p = pick("pos", 4, 0, len * 8 < 9 ? len * 8 : 9);
  uint8_t* d = buf(len);
  {
    BitBuffer b(d, len); move(b, p, 0); uint32_t v = 0; bool got = b.ReadNonSymmetric(nv, v);
    unsigned n = cbits(nv); uint64_t k = (1ull << n) - nv, left = len * 8 - p; bool ok = left >= n - 1; uint64_t want = 0; unsigned used = n - 1;
    if (ok) { want = val(d, p, n - 1); if (want >= k) { ok = left >= n; if (ok) { want = val(d, p, n) - k; used = n; } } }
    vk_assert(got == ok, "non-symmetric read succeeds exactly when its bits are left"); if (ok) { vk_assert(v == want, "non-symmetric value"); state(b, p + used, len); }
  }
  delete[] d;
}
// ---- writer
extern "C" void h_write() {
  size_t len = pick("len", 4, 0, 10); uint64_t p = pick("pos", 7, 0, len * 8 < 9 ? len * 8 : 9), n = pick("n", 7, 1, 64), v = vk_u("v", 64);
  uint8_t* d = buf(len); uint8_t o[10]; memcpy(o, d, len);
  {
    BitBufferWriter b(d, len); move(b, p, 0); bool ok = n <= len * 8 - p;
    vk_assert(b.WriteBits(v, n) == ok, "WriteBits succeeds exactly when that many bits are left");
    state(b, ok ? p + n : p, len);
    for (uint64_t i = 0; i < len * 8; i++) {
      unsigned want = (ok && i >= p && i < p + n) ? (unsigned)((v >> (n - 1 - (i - p))) & 1) : bit(o, i);
      vk_assert(bit(d, i) == want, "WriteBits changes exactly the bits it was asked to write");
    }
    vk_reach(ok ? "ok" : "fail");
  }
  delete[] d;
}
extern "C" void h_write_eg() {
  size_t len = 9; uint64_t p = pick("pos", 4, 0, 8); bool sg = vk_concretize(vk_u("signed", 1)); uint32_t v = (uint32_t)vk_u("v", 32);
  uint8_t* d = buf(len); uint8_t o[9]; memcpy(o, d, len);
  {
    BitBufferWriter b(d, len); move(b, p, 0);
    bool ok = sg ? b.WriteSignedExponentialGolomb((int32_t)v) : b.WriteExponentialGolomb(v);
    vk_assert(ok == (v != (sg ? 0x80000000u : 0xffffffffu)), "Exp-Golomb write succeeds for every representable value");
    if (ok) {
      uint64_t e = pos(b); vk_reach("ok"); for (uint64_t i = 0; i < len * 8; i++) if (i < p || i >= e) vk_assert(bit(d, i) == bit(o, i), "Exp-Golomb write leaves the other bits"); for (uint64_t i = p; i < p + (e - p) / 2; i++) vk_assert(bit(d, i) == 0, "Exp-Golomb prefix"); vk_assert(bit(d, p + (e - p) / 2) == 1 && (e - p) % 2 == 1, "Exp-Golomb prefix"); vk_assert(b.Seek(p / 8, p % 8), "seek back");
      if (sg) { int32_t x = 0; vk_assert(b.ReadSignedExponentialGolomb(x), "what was written can be read"); vk_assert(x == (int32_t)v, "se(v) round trip"); }
      else { uint32_t x = 0; vk_assert(b.ReadExponentialGolomb(x), "what was written can be read"); vk_assert(x == v, "ue(v) round trip"); }
      vk_assert(pos(b) == e, "round trip position");
    } else vk_assert(pos(b) == p, "failed write leaves the position");
  }
  delete[] d;
}
// not enough room: nothing is written
extern "C" void h_write_eg_full() {
  size_t len = pick("len", 2, 0, 3); uint64_t p = pick("pos", 5, 0, len * 8 < 9 ? len * 8 : 9); uint32_t v = (uint32_t)vk_u("v", 32);
  uint8_t* d = buf(len); uint8_t o[4]; memcpy(o, d, len);
  {
    BitBufferWriter b(d, len); move(b, p, 0); bool ok = b.WriteExponentialGolomb(v);
    unsigned need = v == 0xffffffffu ? 65 : 2 * cbits((uint64_t)v + 1) - 1;
    vk_assert(ok == (need <= len * 8 - p), "Exp-Golomb write succeeds exactly when it fits");
    if (!ok) { for (size_t i = 0; i < len; i++) vk_assert(d[i] == o[i], "failed write leaves the data"); state(b, p, len); }
    else state(b, p + need, len);
  }
  delete[] d;
}
extern "C" void h_write_int() {
  size_t len = pick("len", 3, 0, 6); uint64_t p = pick("pos", 7, 0, len * 8 < 9 ? len * 8 : 9); unsigned k = (unsigned)pick("k", 2, 0, 2), n = 8u << k; uint32_t v = (uint32_t)vk_u("v", 32);
  uint8_t* d = buf(len); uint8_t o[6]; memcpy(o, d, len);
  {
    BitBufferWriter b(d, len); move(b, p, 0); bool fit = n <= len * 8 - p;
    bool ok = k == 0 ? b.WriteUInt8((uint8_t)v) : k == 1 ? b.WriteUInt16((uint16_t)v) : b.WriteUInt32(v);
    vk_assert(ok == fit, "WriteUInt succeeds exactly when it fits"); state(b, ok ? p + n : p, len);
    for (uint64_t i = 0; i < len * 8; i++) vk_assert(bit(d, i) == ((ok && i >= p && i < p + n) ? ((v >> (n - 1 - (i - p))) & 1) : bit(o, i)), "WriteUInt changes exactly its bits");
  }
  delete[] d;
}
extern "C" void h_write_ns() {
  uint32_t nv = (uint32_t)pick("nv", 5, 1, 20), v = (uint32_t)vk_u("v", 5); vk_assume(v < nv); uint64_t p = pick("pos", 4, 0, 8); size_t len = 2;
  uint8_t* d = buf(len); uint8_t o[2]; memcpy(o, d, len);
  {
    BitBufferWriter b(d, len); move(b, p, 0);
    vk_assert(b.WriteNonSymmetric(v, nv), "non-symmetric write"); uint64_t e = pos(b);
    vk_assert(e - p == BitBufferWriter::SizeNonSymmetricBits(v, nv), "SizeNonSymmetricBits is what is written");
    for (uint64_t i = 0; i < len * 8; i++) if (i < p || i >= e) vk_assert(bit(d, i) == bit(o, i), "non-symmetric write leaves the other bits");
    vk_assert(b.Seek(p / 8, p % 8), "seek back"); uint32_t x = 0; vk_assert(b.ReadNonSymmetric(nv, x), "what was written can be read"); vk_assert(x == v, "non-symmetric round trip"); vk_assert(pos(b) == e, "round trip position");
  }
  delete[] d;
}

// positions in a buffer of any size the interface allows (up to 4 GB); no data is read
extern "C" void h_large() {
  uint64_t len = vk_u("len", 32), y = vk_u("y", 33), i = vk_u("i", 3), n = vk_u("n", 36), m = vk_u("m", 33); static uint8_t none[1];
  BitBuffer b(none, (size_t)len); vk_assert(b.RemainingBitCount() == len * 8, "RemainingBitCount of a large buffer");
  bool in = y < len || (y == len && i == 0); vk_assert(b.Seek((size_t)y, (size_t)i) == in, "Seek succeeds exactly inside the buffer"); if (!in) { vk_reach("outside"); return; }
  uint64_t p = y * 8 + i; state(b, p, len);
  bool ok = n <= len * 8 - p; vk_assert(b.ConsumeBits((size_t)n) == ok, "ConsumeBits succeeds exactly when that many bits are left"); if (ok) p += n; state(b, p, len);
  ok = m * 8 <= len * 8 - p; vk_assert(b.ConsumeBytes((size_t)m) == ok, "ConsumeBytes succeeds exactly when that many bytes are left"); if (ok) p += m * 8; state(b, p, len);
  vk_reach("inside");
}
// wide non-symmetric codes, read, written and read back
static const uint32_t wide_nv[] = {255, 256, 257, 65535, 65536, 65537, 0x3fffffff, 0x40000000, 0x40000001, 0x7fffffff, 0x80000000};
extern "C" void h_ns_wide() {
  uint32_t nv = wide_nv[pick("nv", 4, 0, 10)]; size_t len = pick("len", 3, 0, 5); uint64_t p = pick("pos", 4, 0, len * 8 < 9 ? len * 8 : 9); uint8_t* d = buf(len);
  {
    BitBuffer b(d, len); move(b, p, 0); uint32_t v = 0; bool got = b.ReadNonSymmetric(nv, v); unsigned n = cbits(nv), used = n - 1; uint64_t k = (1ull << n) - nv, left = len * 8 - p, want = 0; bool ok = left >= n - 1;
    if (ok) { want = val(d, p, n - 1); if (want >= k) { ok = left >= n; if (ok) { want = val(d, p, n) - k; used = n; } } }
    vk_assert(got == ok, "non-symmetric read succeeds exactly when its bits are left"); if (ok) { vk_assert(v == want, "non-symmetric value"); state(b, p + used, len); }
  }
  delete[] d;
}
extern "C" void h_write_ns_wide() {
  uint32_t nv = wide_nv[pick("nv", 4, 0, 10)], v = (uint32_t)vk_u("v", 32); vk_assume(v < nv); size_t len = pick("len", 3, 0, 6); uint64_t p = pick("pos", 4, 0, len * 8 < 9 ? len * 8 : 9); uint8_t* d = buf(len); uint8_t o[6]; memcpy(o, d, len);
  {
    BitBufferWriter b(d, len); move(b, p, 0); unsigned n = cbits(nv); uint64_t k = (1ull << n) - nv; unsigned need = v < k ? n - 1 : n; uint64_t code = v < k ? v : v + k; need = (unsigned)vk_concretize(need); bool fit = need <= len * 8 - p;
    vk_assert(BitBufferWriter::SizeNonSymmetricBits(v, nv) == need, "SizeNonSymmetricBits"); vk_assert(b.WriteNonSymmetric(v, nv) == fit, "non-symmetric write succeeds exactly when it fits"); state(b, fit ? p + need : p, len);
    for (uint64_t i = 0; i < len * 8; i++) vk_assert(bit(d, i) == ((fit && i >= p && i < p + need) ? ((code >> (need - 1 - (i - p))) & 1) : bit(o, i)), "non-symmetric write changes exactly its bits");
  }
  delete[] d;
}
// reads and writes far into a long buffer
static const size_t far_at[] = {16, 31, 32, 64, 255, 256, 4096, 8191, 8192, 32768, 65535, 65536, 131072, 262144, 500000, 600000};
extern "C" void h_read_far() {
  size_t at = far_at[pick("at", 4, 0, 15)], len = at + pick("tail", 4, 0, 9); uint8_t* d = new uint8_t[len]; memset(d, 0xff, len); size_t w = len - (at - 2); vk_bytes(d + at - 2, w, "d"); uint64_t p = (at - 2) * 8 + pick("pos", 4, 1, 9); unsigned k = (unsigned)pick("k", 3, 0, 4);
  {
    BitBuffer b(d, len); move(b, p, (unsigned)pick("how", 2, 0, 2)); state(b, p, len); uint64_t left = len * 8 - p;
    static const unsigned wd[] = {1, 7, 17, 32, 64}; unsigned n = wd[k]; uint64_t v = 0; bool ok = n <= left; vk_assert(b.ReadBits(n, v) == ok, "ReadBits succeeds exactly within the buffer"); if (ok) { vk_assert(v == val(d, p, n), "ReadBits value"); p += n; } state(b, p, len);
  }
  delete[] d;
}
extern "C" void h_write_far() {
  size_t at = far_at[pick("at", 4, 0, 15)], len = at + pick("tail", 4, 0, 9); uint8_t* d = new uint8_t[len]; memset(d, 0x5a, len); size_t f = at - 2, w = len - f; uint8_t o[12]; vk_bytes(d + f, w, "d"); memcpy(o, d + f, w); uint64_t p = f * 8 + pick("pos", 4, 1, 9); unsigned k = (unsigned)pick("k", 3, 0, 4);
  {
    BitBufferWriter b(d, len); move(b, p, 0); uint64_t left = len * 8 - p, v = vk_u("v", 64); static const unsigned wd[] = {1, 7, 17, 32, 64}; unsigned n = wd[k]; bool ok = n <= left; vk_assert(b.WriteBits(v, n) == ok, "WriteBits succeeds exactly when that many bits are left"); state(b, ok ? p + n : p, len);
    for (uint64_t i = f * 8; i < len * 8; i++) vk_assert(bit(d, i) == ((ok && i >= p && i < p + n) ? (unsigned)((v >> (n - 1 - (i - p))) & 1) : bit(o, i - f * 8)), "WriteBits changes exactly the bits it was asked to write");
    vk_assert(d[0] == 0x5a && d[f - 1] == 0x5a && d[f / 2] == 0x5a, "WriteBits changes exactly the bits it was asked to write");
  }
  delete[] d;
}
