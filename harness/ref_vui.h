#pragma once
#include "h264_vui_parameters_parser.h"
#include "ref_hrd.h"
// E.1.1 vui_parameters()
static void ref_vui(Ref& r, const h264nal::H264VuiParametersParser::VuiParametersState* s, uint32_t hrdbound = 31) {
  r.open("vui_parameters");
  U(aspect_ratio_info_present_flag, 1);
  UC(aspect_ratio_info_present_flag, aspect_ratio_idc, 8, 0);
  bool ext = aspect_ratio_info_present_flag && aspect_ratio_idc == 255;
  UC(ext, sar_width, 16, 0);
  UC(ext, sar_height, 16, 0);
  U(overscan_info_present_flag, 1);
  UC(overscan_info_present_flag, overscan_appropriate_flag, 1, 0);
  U(video_signal_type_present_flag, 1);
  UC(video_signal_type_present_flag, video_format, 3, 0);
  UC(video_signal_type_present_flag, video_full_range_flag, 1, 0);
  UC(video_signal_type_present_flag, colour_description_present_flag, 1, 0);
  UC(colour_description_present_flag, colour_primaries, 8, 0);
  UC(colour_description_present_flag, transfer_characteristics, 8, 0);
  UC(colour_description_present_flag, matrix_coefficients, 8, 0);
  U(chroma_loc_info_present_flag, 1);
  UEC(chroma_loc_info_present_flag, chroma_sample_loc_type_top_field, 0, 5, 0);
  UEC(chroma_loc_info_present_flag, chroma_sample_loc_type_bottom_field, 0, 5, 0);
  U(timing_info_present_flag, 1);
  UC(timing_info_present_flag, num_units_in_tick, 32, 0);
  if (timing_info_present_flag) r.range(num_units_in_tick, 1, NOMAX);
  UC(timing_info_present_flag, time_scale, 32, 0);
  if (timing_info_present_flag) r.range(time_scale, 1, NOMAX);
  UC(timing_info_present_flag, fixed_frame_rate_flag, 1, 0);
  U(nal_hrd_parameters_present_flag, 1);
  if (s && !r.bad) vk_assert((s->nal_hrd_parameters != nullptr) == (nal_hrd_parameters_present_flag == 1), "nal_hrd_parameters presence");
  if (!r.bad && nal_hrd_parameters_present_flag) r.sep(), ref_hrd(r, s ? s->nal_hrd_parameters.get() : nullptr, hrdbound);
  U(vcl_hrd_parameters_present_flag, 1);
  if (s && !r.bad) vk_assert((s->vcl_hrd_parameters != nullptr) == (vcl_hrd_parameters_present_flag == 1), "vcl_hrd_parameters presence");
  if (!r.bad && vcl_hrd_parameters_present_flag) r.sep(), ref_hrd(r, s ? s->vcl_hrd_parameters.get() : nullptr, hrdbound);
  UC(nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag, low_delay_hrd_flag, 1, 0);
  U(pic_struct_present_flag, 1);
  U(bitstream_restriction_flag, 1);
  UC(bitstream_restriction_flag, motion_vectors_over_pic_boundaries_flag, 1, 0);
  UEC(bitstream_restriction_flag, max_bytes_per_pic_denom, 0, 16, 0);
  UEC(bitstream_restriction_flag, max_bits_per_mb_denom, 0, 16, 0);
  UEC(bitstream_restriction_flag, log2_max_mv_length_horizontal, 0, 16, 0);
  UEC(bitstream_restriction_flag, log2_max_mv_length_vertical, 0, 16, 0);
  UEC(bitstream_restriction_flag, max_num_reorder_frames, 0, 16, 0);
  UEC(bitstream_restriction_flag, max_dec_frame_buffering, 0, 16, 0);
  r.close();
}
