#pragma once
#include "h264_hrd_parameters_parser.h"
// E.1.2 hrd_parameters()
static void ref_hrd(Ref& r, const h264nal::H264HrdParametersParser::HrdParametersState* s, uint32_t bound = 31) {
  r.open("hrd_parameters"); std::vector<uint32_t> a, b, c;
  UE(cpb_cnt_minus1, 0, 31);
  if (!r.bad && cpb_cnt_minus1 > bound) vk_skip();
  U(bit_rate_scale, 4);
  U(cpb_size_scale, 4);
  for (uint32_t i = 0; !r.bad && i <= cpb_cnt_minus1; i++) {
    uint32_t v = r.ue(); VAT(s->bit_rate_value_minus1, i, v, "bit_rate_value_minus1"); if (VK_DUMPING) a.push_back(v);
    v = r.ue(); VAT(s->cpb_size_value_minus1, i, v, "cpb_size_value_minus1"); if (VK_DUMPING) b.push_back(v);
    v = (uint32_t)r.u(1); VAT(s->cbr_flag, i, v, "cbr_flag"); if (VK_DUMPING) c.push_back(v);
  }
  r.list("bit_rate_value_minus1", a); r.list("cpb_size_value_minus1", b); r.list("cbr_flag", c);
  VSZ(s->bit_rate_value_minus1, cpb_cnt_minus1 + 1, "bit_rate_value_minus1");
  VSZ(s->cpb_size_value_minus1, cpb_cnt_minus1 + 1, "cpb_size_value_minus1");
  VSZ(s->cbr_flag, cpb_cnt_minus1 + 1, "cbr_flag");
  U(initial_cpb_removal_delay_length_minus1, 5);
  U(cpb_removal_delay_length_minus1, 5);
  U(dpb_output_delay_length_minus1, 5);
  U(time_offset_length, 5);
  r.close();
}
