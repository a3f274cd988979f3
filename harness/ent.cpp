// every parser's byte-level entry point against its bit-level one on the unescaped bytes (C27): real bytes, real bit reader
#include "ref_svc.h"
#include <string.h>
#include "h264_nal_unit_parser.h"
#include "h264_slice_layer_without_partitioning_rbsp_parser.h"
#include "h264_rtp_single_parser.h"
#include "h264_rtp_fua_parser.h"
using namespace h264nal;
static uint64_t pick(const char* name, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vk_u(name, bits); vk_assume(v >= lo && v <= hi); return vk_concretize(v); }
static void seed(H264BitstreamParserState& bs) { Active a; a.log2_max_frame_num_minus4 = 0; ActiveSvc v; bs.sps[2] = mk_sps(a, 2); bs.pps[0] = mk_pps(a, 0, 2); bs.subset_sps[2] = mk_ssps(a, v, 2); }
// the escaped bytes: fixed ones, with 256 standing for a symbolic byte, 512+m for one whose bits outside m are fixed to 0
struct In {
  uint8_t* d; size_t n = 0; std::vector<uint8_t> u;
  In(std::initializer_list<int> l) : d(new uint8_t[l.size()]) {
    size_t cut = (size_t)pick("cut", 2, 0, 3); int k = 0;
    for (int x : l) { if (x < 256) d[n++] = (uint8_t)x; else { static const char* nm[] = {"a", "b", "c", "e", "f", "g", "h", "i"}; uint64_t v = vk_u(nm[k++], 8); if (x >= 512) vk_assume((v & ~(uint64_t)(x - 512)) == 0); d[n++] = (uint8_t)v; } }
    if (cut < n) n -= cut; else n = 0;
    uint8_t* e = new uint8_t[n ? n : 1]; memcpy(e, d, n); delete[] d; d = e;  // exact size: reading further is an error
    u = ref();
  }
  // 7.3.1, independent of the library
  std::vector<uint8_t> ref() const { std::vector<uint8_t> r; size_t i = 0; while (i < n) { if (i + 2 < n && d[i] == 0 && d[i + 1] == 0 && d[i + 2] == 3) { r.push_back(d[i]); r.push_back(d[i + 1]); i += 3; } else r.push_back(d[i++]); } return r; }
  ~In() { delete[] d; }
};
template <class A, class F> static void cmp(const A& a, const A& b, F f) {
  vk_assert((a != nullptr) == (b != nullptr), "bytes are accepted exactly when their unescaped form is"); if (!a || !b) { vk_reach("reject"); return; }
  FILE *x = vk_file(0), *y = vk_file(1); f(*a, x); f(*b, y); vk_same_output(x, y, "bytes are parsed as their unescaped form"); vk_reach("accept");
}
#define ENT(name, in, cls, fn, dump, ...) extern "C" void name() { In I in; BitBuffer bb(I.u.data(), I.u.size()); auto a = cls::fn(I.d, I.n, ##__VA_ARGS__); auto b = cls::fn(&bb, ##__VA_ARGS__); cmp(a, b, [](decltype(*a)& s, FILE* f) { dump; }); }
#define Y 256
typedef std::initializer_list<int> L;
ENT(e_drpm, (L{0xa0, 0, 0, 3, 512 + 0xc0, Y, 512 + 0xfc, 0x80}), H264DecRefPicMarkingParser, ParseDecRefPicMarking, s.fdump(f, 0), 0)
ENT(e_rplm, (L{0xc0, 0, 0, 3, 512 + 0xc0, Y, 512 + 0xfe, 0x40, 0x80}), H264RefPicListModificationParser, ParseRefPicListModification, s.fdump(f, 0), 0)
ENT(e_pwt, (L{0xc0, 0, 0, 3, Y, 512 + 0xf0, 0x80}), H264PredWeightTableParser, ParsePredWeightTable, s.fdump(f, 0), 1, 0, 12, 0)
ENT(e_pps, (L{0xc4, 0x70, 0x40, 0, 0, 3, Y, 512 + 0xff, 0x8e, 0x20}), H264PpsParser, ParsePps, s.fdump(f, 0), 1)
ENT(e_spsdata, (L{66, 0, 0, 3, Y, 512 + 0xf0, 0xff, 0xf0}), H264SpsDataParser, ParseSpsData, s.fdump(f, 0, ParsingOptions()))
ENT(e_sps, (L{66, 0, 0, 3, Y, 512 + 0xf0, 0xff, 0xf0}), H264SpsParser, ParseSps, s.fdump(f, 0, ParsingOptions()))
ENT(e_ssps, (L{66, 0, 0, 3, Y, 512 + 0xf0, 0xff, 0xf0}), H264SubsetSpsParser, ParseSubsetSps, s.fdump(f, 0, ParsingOptions()))
ENT(e_vui, (L{0xff, 0x80, 0, 0, 3, Y, Y, 0, 0}), H264VuiParametersParser, ParseVuiParameters, s.fdump(f, 0))
ENT(e_hrd, (L{0x80, 0, 0, 3, Y, Y, 0xff, 0x0c, 0x10, 0x80}), H264HrdParametersParser, ParseHrdParameters, s.fdump(f, 0))
ENT(e_spssvc, (L{0x26, 0, 0, 3, 512 + 0x80, 0, 512 + 0xff, 0xff, 0x80}), H264SpsSvcExtensionParser, ParseSpsSvcExtension, s.fdump(f, 0), 0)
ENT(e_svchdr, (L{0, 0, 3, Y, Y}), H264NalUnitHeaderSvcExtensionParser, ParseNalUnitHeaderSvcExtension, s.fdump(f, 0))
ENT(e_nalhdr, (L{Y, 0, 0, 3, Y}), H264NalUnitHeaderParser, ParseNalUnitHeader, s.fdump(f, 0))
ENT(e_spsext, (L{0xa8, 0, 0, 3, Y, 0x80}), H264SpsExtensionParser, ParseSpsExtension, s.fdump(f, 0))
ENT(e_prefsvc, (L{0xc0, 0, 0, 3, Y, 512 + 0xc0}), H264PrefixNalUnitSvcParser, ParsePrefixNalUnitSvc, s.fdump(f, 0), 1, 0, 1)
ENT(e_prefix, (L{0xc0, 0, 0, 3, Y, 512 + 0xc0}), H264PrefixNalUnitRbspParser, ParsePrefixNalUnitRbsp, s.fdump(f, 0), 1, 1, 0, 1)
struct Two { H264BitstreamParserState a, b; Two() { seed(a); seed(b); } };
static void same_sets(const Two& t) { vk_assert(t.a.sps.size() == t.b.sps.size() && t.a.pps.size() == t.b.pps.size() && t.a.subset_sps.size() == t.b.subset_sps.size(), "the same parameter sets are remembered"); }
#define ENTS(name, in, cls, fn, dump, pre, ...) extern "C" void name() { In I in; Two T; pre; BitBuffer bb(I.u.data(), I.u.size()); auto a = cls::fn(I.d, I.n, ##__VA_ARGS__, &T.a); auto b = cls::fn(&bb, ##__VA_ARGS__, &T.b); cmp(a, b, [](decltype(*a)& s, FILE* f) { dump; }); same_sets(T); }
ENTS(e_slice, (L{0, 0, 3, 512 + 0x81, Y, 0x70, 512 + 0x7f, 0xf8}), H264SliceHeaderParser, ParseSliceHeader, s.fdump(f, 0), , 1, 5)
ENTS(e_layer, (L{0, 0, 3, 512 + 0x81, Y, 0x70, 512 + 0x7f, 0xf8}), H264SliceLayerWithoutPartitioningRbspParser, ParseSliceLayerWithoutPartitioningRbsp, s.fdump(f, 0), , 1, 5)
#define EXT H264NalUnitHeaderParser::NalUnitHeaderState h; ActiveSvc v; v.idr_flag = 1; v.no_inter_layer_pred_flag = 1; mk_header(h, v, 1, 20)
ENTS(e_shise, (L{0, 0, 3, 512 + 0x81, Y, 0x70, 512 + 0x7f, 0xf8, 0x80}), H264SliceHeaderInScalableExtensionParser, ParseSliceHeaderInScalableExtension, s.fdump(f, 0), EXT, h)
ENTS(e_ext, (L{0, 0, 3, 512 + 0x81, Y, 0x70, 512 + 0x7f, 0xf8, 0x80}), H264SliceLayerExtensionRbspParser, ParseSliceLayerExtensionRbsp, s.fdump(f, 0), EXT, h)
ENTS(e_payload, (L{66, 0, 0, 3, Y, 512 + 0xf0, 0xff, 0xf0}), H264NalUnitPayloadParser, ParseNalUnitPayload, s.fdump(f, 0, 7, ParsingOptions()), H264NalUnitHeaderParser::NalUnitHeaderState h; h.nal_ref_idc = 1; h.nal_unit_type = 7, h)
ENTS(e_single, (L{0x67, 66, 0, 0, 3, Y, 512 + 0xf0, 0xff, 0xf0}), H264RtpSingleParser, ParseRtpSingle, s.fdump(f, 0, ParsingOptions()), )
ENTS(e_fua, (L{0x7c, 0x87, 66, 0, 0, 3, Y, 512 + 0xf0, 0xff, 0xf0}), H264RtpFuAParser, ParseRtpFuA, s.fdump(f, 0, ParsingOptions()), , 3)
// a NAL unit not escaped at all: no byte is removed
extern "C" void e_raw() {
  In I(L{0x68, 0xc4, 0x70, 0x40, 0, 0, 3, Y, 0x8e, 0x20}); Two T; ParsingOptions o; o.add_checksum = false; auto a = H264NalUnitParser::ParseNalUnitUnescaped(I.d, I.n, &T.a, o);
  if (I.n < 1) { vk_assert(!a, "no unit without bytes"); return; } vk_assert(a != nullptr, "an unescaped unit is returned"); if (!a) return;
  BitBuffer bb(I.d, I.n); auto h = H264NalUnitHeaderParser::ParseNalUnitHeader(&bb); auto p = H264NalUnitPayloadParser::ParseNalUnitPayload(&bb, *h, &T.b);
  FILE *x = vk_file(0), *y = vk_file(1); a->nal_unit_payload->fdump(x, 0, 8, o); p->fdump(y, 0, 8, o); vk_same_output(x, y, "unescaped bytes are parsed as they are"); same_sets(T); vk_reach(p->pps ? "accept" : "reject");
}
