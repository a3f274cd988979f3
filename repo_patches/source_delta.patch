From 96861e98eee425abb7c4a5e532a0c06ab34a1ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:36 +0000
Subject: [PATCH 01/29] fix: reject SPS/PPS whose scaling_list() is truncated
 or out of range

The return value of scaling_list() was discarded, so parsing went on from the
wrong bit position after a bad delta_scale or a truncated list.
---
 src/h264_pps_parser.cc | 12 ++++++++----
 src/h264_sps_parser.cc | 16 ++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 9c135cf..4166e92 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -309,11 +309,15 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
         if (pps->pic_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
+                                   pps->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                    pps->UseDefaultScalingMatrix4x4Flag);
+            if (!pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
+                                   pps->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           }
         }
       }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 90cfe3a..0b0a8f9 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -192,13 +192,17 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
         if (sps_data->seq_scaling_list_present_flag[i]) {
           // scaling_list()
           if (i < 6) {
-            (void)sps_data->scaling_list(
-                bit_buffer, i, sps_data->ScalingList4x4, 16,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i, sps_data->ScalingList4x4, 16,
+                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           } else {
-            (void)sps_data->scaling_list(
-                bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                sps_data->UseDefaultScalingMatrix4x4Flag);
+            if (!sps_data->scaling_list(
+                    bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
+                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
+              return nullptr;
+            }
           }
         }
       }
-- 
2.43.0


From e26e57ac93ac1d5b6760d1015a90e4e2d3809886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:36 +0000
Subject: [PATCH 02/29] fix: record 8x8 lists' use-default flags in
 UseDefaultScalingMatrix8x8Flag

The 8x8 lists overwrote entries of UseDefaultScalingMatrix4x4Flag and left
UseDefaultScalingMatrix8x8Flag empty.
---
 src/h264_pps_parser.cc | 2 +-
 src/h264_sps_parser.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 4166e92..3fc0422 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -315,7 +315,7 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
             }
           } else {
             if (!pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
-                                   pps->UseDefaultScalingMatrix4x4Flag)) {
+                                   pps->UseDefaultScalingMatrix8x8Flag)) {
               return nullptr;
             }
           }
diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 0b0a8f9..1f8216d 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -200,7 +200,7 @@ H264SpsDataParser::ParseSpsData(BitBuffer* bit_buffer) noexcept {
           } else {
             if (!sps_data->scaling_list(
                     bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
-                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
+                    sps_data->UseDefaultScalingMatrix8x8Flag)) {
               return nullptr;
             }
           }
-- 
2.43.0


From 58e33474368e6ea54ff9f08c4f67cf9efd1906a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 03/29] fix: report the NAL unit length with explicit length
 framing

ParseBitstreamNALULength() stored the size of the length field as the length
of every NAL unit, and its bounds check wrapped around for 8-byte lengths
close to SIZE_MAX, which read past the end of the buffer.
---
 src/h264_bitstream_parser.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 8758315..afbf66a 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -216,7 +216,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
@@ -237,7 +237,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From 94f83e074e8ce5f191d69f1f7dcfbf0fc82dd8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 04/29] fix: leave trailing_zero_8bits out of the NAL units

Zero bytes after a NAL unit belong to the byte stream, not to the NAL unit.
All but one of those before the next start code, and all of those at the end
of the buffer, ended up in the NAL unit: they changed its length and checksum,
and hid the rbsp_trailing_bits() from more_rbsp_data(), so that a PPS followed
by zero bytes got a transform_8x8_mode_flag out of its stop bit.
---
 src/h264_bitstream_parser.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index afbf66a..73b00d6 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -39,6 +39,16 @@ bool read_nalu_length(const uint8_t* data, size_t data_length,
   }
   return true;
 }
+
+// Size of the NAL unit in data[start, end). A NAL unit never ends in 0x00
+// (Section 7.4.1), so zero bytes there are trailing_zero_8bits or
+// leading_zero_8bits of the byte stream (Section B.1.1).
+size_t nalu_size(const uint8_t* data, size_t start, size_t end) {
+  while (end > start && data[end - 1] == 0x00) {
+    --end;
+  }
+  return end - start;
+}
 }  // namespace
 
 namespace h264nal {
@@ -72,7 +82,8 @@ H264BitstreamParser::FindNaluIndices(const uint8_t* data,
       // Update length of previous entry.
       auto it = sequences.rbegin();
       if (it != sequences.rend())
-        it->payload_size = index.start_offset - it->payload_start_offset;
+        it->payload_size =
+            nalu_size(data, it->payload_start_offset, index.start_offset);
 
       sequences.push_back(index);
 
@@ -85,7 +96,7 @@ H264BitstreamParser::FindNaluIndices(const uint8_t* data,
   // Update length of last entry, if any.
   auto it = sequences.rbegin();
   if (it != sequences.rend())
-    it->payload_size = length - it->payload_start_offset;
+    it->payload_size = nalu_size(data, it->payload_start_offset, length);
 
   return sequences;
 }
-- 
2.43.0


From d8b7fd020baaad3e04dd745cb3ba145727f037a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:52 +0000
Subject: [PATCH 05/29] fix: GetProfileType: Constrained High requires
 constraint_set4_flag and constraint_set5_flag

---
 src/h264_sps_parser.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/h264_sps_parser.cc b/src/h264_sps_parser.cc
index 1f8216d..34e9ac6 100644
--- a/src/h264_sps_parser.cc
+++ b/src/h264_sps_parser.cc
@@ -513,12 +513,15 @@ ProfileType H264SpsDataParser::SpsDataState::GetProfileType() const noexcept {
       return ProfileType::EXTENDED;
 
     case 100:  // High profiles
+      // Section A.2.4.1: Progressive High profile sets constraint_set4_flag.
+      // Section A.2.4.2: Constrained High profile sets both
+      // constraint_set4_flag and constraint_set5_flag.
+      if (constraint_set4_flag == 1 && constraint_set5_flag == 1) {
+        return ProfileType::CONSTRAINED_HIGH;
+      }
       if (constraint_set4_flag == 1) {
         return ProfileType::PROGRESSIVE_HIGH;
       }
-      if (constraint_set5_flag == 1) {
-        return ProfileType::CONSTRAINED_HIGH;
-      }
       return ProfileType::HIGH;
 
     case 110:
-- 
2.43.0


From 52efb0ca69daa28942dacdbe21b077ce54937ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:24 +0000
Subject: [PATCH 06/29] fix: fdump: print signed syntax elements as signed
 values

---
 ...ice_header_in_scalable_extension_parser.cc | 20 +++++++++----------
 src/h264_slice_header_parser.cc               |  4 ++--
 src/h264_sps_svc_extension_parser.cc          |  8 ++++----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index 58e3c17..a69e19e 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -763,7 +763,7 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (bottom_field_pic_order_in_frame_present_flag && !field_pic_flag) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "delta_pic_order_cnt_bottom: %u",
+      fprintf(outfp, "delta_pic_order_cnt_bottom: %i",
               delta_pic_order_cnt_bottom);
     }
   }
@@ -852,7 +852,7 @@ void H264SliceHeaderInScalableExtensionParser::
   }
 
   fdump_indent_level(outfp, indent_level);
-  fprintf(outfp, "slice_qp_delta: %u", slice_qp_delta);
+  fprintf(outfp, "slice_qp_delta: %i", slice_qp_delta);
 
   if (deblocking_filter_control_present_flag) {
     fdump_indent_level(outfp, indent_level);
@@ -861,11 +861,11 @@ void H264SliceHeaderInScalableExtensionParser::
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
@@ -886,10 +886,10 @@ void H264SliceHeaderInScalableExtensionParser::
 
       if (disable_inter_layer_deblocking_filter_idc != 1) {
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_alpha_c0_offset_div2: %i",
                 inter_layer_slice_alpha_c0_offset_div2);
         fdump_indent_level(outfp, indent_level);
-        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %u",
+        fprintf(outfp, "inter_layer_slice_beta_offset_div2: %i",
                 inter_layer_slice_beta_offset_div2);
       }
     }
@@ -909,16 +909,16 @@ void H264SliceHeaderInScalableExtensionParser::
       }
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_left_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_left_offset: %i",
               scaled_ref_layer_left_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_top_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_top_offset: %i",
               scaled_ref_layer_top_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_right_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_right_offset: %i",
               scaled_ref_layer_right_offset);
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "scaled_ref_layer_bottom_offset: %u",
+      fprintf(outfp, "scaled_ref_layer_bottom_offset: %i",
               scaled_ref_layer_bottom_offset);
     }
   }
diff --git a/src/h264_slice_header_parser.cc b/src/h264_slice_header_parser.cc
index 9055bd5..1ad5e4b 100644
--- a/src/h264_slice_header_parser.cc
+++ b/src/h264_slice_header_parser.cc
@@ -694,11 +694,11 @@ void H264SliceHeaderParser::SliceHeaderState::fdump(FILE* outfp,
 
     if (disable_deblocking_filter_idc != 1) {
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_alpha_c0_offset_div2: %u",
+      fprintf(outfp, "slice_alpha_c0_offset_div2: %i",
               slice_alpha_c0_offset_div2);
 
       fdump_indent_level(outfp, indent_level);
-      fprintf(outfp, "slice_beta_offset_div2: %u", slice_beta_offset_div2);
+      fprintf(outfp, "slice_beta_offset_div2: %i", slice_beta_offset_div2);
     }
   }
 
diff --git a/src/h264_sps_svc_extension_parser.cc b/src/h264_sps_svc_extension_parser.cc
index a126e96..0d9197e 100644
--- a/src/h264_sps_svc_extension_parser.cc
+++ b/src/h264_sps_svc_extension_parser.cc
@@ -166,19 +166,19 @@ void H264SpsSvcExtensionParser::SpsSvcExtensionState::fdump(
     }
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_left_offset: %i",
             seq_scaled_ref_layer_left_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_top_offset: %i",
             seq_scaled_ref_layer_top_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_right_offset: %i",
             seq_scaled_ref_layer_right_offset);
 
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %u",
+    fprintf(outfp, "seq_scaled_ref_layer_bottom_offset: %i",
             seq_scaled_ref_layer_bottom_offset);
   }
 
-- 
2.43.0


From 24bbc19061c6a76a8a6a55531e3d6da83eacd1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:28 +0000
Subject: [PATCH 07/29] fix: slice_header_in_scalable_extension: use the PPS
 defaults for the reference counts

---
 src/h264_slice_header_in_scalable_extension_parser.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/h264_slice_header_in_scalable_extension_parser.cc b/src/h264_slice_header_in_scalable_extension_parser.cc
index a69e19e..c2dc9a2 100644
--- a/src/h264_slice_header_in_scalable_extension_parser.cc
+++ b/src/h264_slice_header_in_scalable_extension_parser.cc
@@ -341,6 +341,12 @@ H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(
             return nullptr;
           }
         }
+      } else {
+        // use the default values from the PPS
+        shise->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        shise->num_ref_idx_l1_active_minus1 =
+            pps->num_ref_idx_l1_default_active_minus1;
       }
     }
 
-- 
2.43.0


From f42e6c69a4e538736913c3fd7c8fedee2251a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:32 +0000
Subject: [PATCH 08/29] fix: slice_layer_extension_rbsp: report a slice header
 that cannot be parsed

---
 src/h264_slice_layer_extension_rbsp_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_slice_layer_extension_rbsp_parser.cc b/src/h264_slice_layer_extension_rbsp_parser.cc
index 1b53d6c..3407801 100644
--- a/src/h264_slice_layer_extension_rbsp_parser.cc
+++ b/src/h264_slice_layer_extension_rbsp_parser.cc
@@ -61,6 +61,10 @@ H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(
         H264SliceHeaderInScalableExtensionParser::
             ParseSliceHeaderInScalableExtension(bit_buffer, nal_unit_header,
                                                 bitstream_parser_state);
+    if (slice_layer_extension_rbsp->slice_header_in_scalable_extension ==
+        nullptr) {
+      return nullptr;
+    }
     // if (!slice_skip_flag) {
     //   slice_data_in_scalable_extension()  // specified in Annex G
     // }
-- 
2.43.0


From 8d9c580ee8875841d566eae3104de93292621aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:35 +0000
Subject: [PATCH 09/29] fix: prefix_nal_unit_svc: follow the G.7.3.2.12.1
 syntax for the extension data

---
 src/h264_prefix_nal_unit_parser.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 11c3d79..9541eaa 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -78,19 +78,19 @@ H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(
           return nullptr;
         }
       }
-      rbsp_trailing_bits(bit_buffer);
-
-    } else if (more_rbsp_data(bit_buffer)) {
-      while (more_rbsp_data(bit_buffer)) {
-        // additional_prefix_nal_unit_extension_data_flag  u(1)
-        if (!bit_buffer->ReadBits(
-                1, prefix_nal_unit_svc
-                       ->additional_prefix_nal_unit_extension_data_flag)) {
-          return nullptr;
-        }
+    }
+    rbsp_trailing_bits(bit_buffer);
+
+  } else if (more_rbsp_data(bit_buffer)) {
+    while (more_rbsp_data(bit_buffer)) {
+      // additional_prefix_nal_unit_extension_data_flag  u(1)
+      if (!bit_buffer->ReadBits(
+              1, prefix_nal_unit_svc
+                     ->additional_prefix_nal_unit_extension_data_flag)) {
+        return nullptr;
       }
-      rbsp_trailing_bits(bit_buffer);
     }
+    rbsp_trailing_bits(bit_buffer);
   }
 
   return prefix_nal_unit_svc;
-- 
2.43.0


From 769ee07c6f17e8e376248918b88bc99d273c946f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:49 +0000
Subject: [PATCH 10/29] fix: STAP-A: parse each NAL unit within its own bounds
 and unpack it on its own

---
 include/h264_rtp_stapa_parser.h |  3 ++-
 src/h264_rtp_parser.cc          | 13 +++++++++++++
 src/h264_rtp_stapa_parser.cc    | 34 ++++++++++++++++++++++++++-------
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/h264_rtp_stapa_parser.h b/include/h264_rtp_stapa_parser.h
index 2e2a76e..2cf25b6 100644
--- a/include/h264_rtp_stapa_parser.h
+++ b/include/h264_rtp_stapa_parser.h
@@ -52,7 +52,8 @@ class H264RtpStapAParser {
       struct H264BitstreamParserState* bitstream_parser_state) noexcept;
   static std::unique_ptr<RtpStapAState> ParseRtpStapA(
       BitBuffer* bit_buffer,
-      struct H264BitstreamParserState* bitstream_parser_state) noexcept;
+      struct H264BitstreamParserState* bitstream_parser_state,
+      bool escaped = false) noexcept;
 };
 
 }  // namespace h264nal
diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 8fc684f..90bcac2 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -24,6 +24,19 @@ namespace h264nal {
 std::unique_ptr<H264RtpParser::RtpState> H264RtpParser::ParseRtp(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
+  if (length > 0 && (data[0] & 0x1f) == RTP_STAPA_NUT) {
+    // rtp_stapa() unpacks each of its NAL units on its own
+    auto rtp = std::make_unique<RtpState>();
+    rtp->nal_unit_header =
+        H264NalUnitHeaderParser::ParseNalUnitHeader(data, length);
+    rtp->rtp_stapa =
+        H264RtpStapAParser::ParseRtpStapA(data, length, bitstream_parser_state);
+    if (rtp->nal_unit_header == nullptr || rtp->rtp_stapa == nullptr) {
+      return nullptr;
+    }
+    return rtp;
+  }
+
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParseRtp(&bit_buffer, bitstream_parser_state);
diff --git a/src/h264_rtp_stapa_parser.cc b/src/h264_rtp_stapa_parser.cc
index 257c01f..e316623 100644
--- a/src/h264_rtp_stapa_parser.cc
+++ b/src/h264_rtp_stapa_parser.cc
@@ -21,20 +21,22 @@ namespace h264nal {
 // You can find it on this page:
 // https://tools.ietf.org/html/rfc6184#section-5.6
 
-// Unpack RBSP and parse RTP STAP-A state from the supplied buffer.
+// Parse RTP STAP-A state from the supplied (escaped) buffer. The NALU sizes
+// count the bytes of the escaped NAL units, so each NAL unit is unpacked on
+// its own.
 std::unique_ptr<H264RtpStapAParser::RtpStapAState>
 H264RtpStapAParser::ParseRtpStapA(
     const uint8_t* data, size_t length,
     struct H264BitstreamParserState* bitstream_parser_state) noexcept {
-  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
-  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
-  return ParseRtpStapA(&bit_buffer, bitstream_parser_state);
+  BitBuffer bit_buffer(data, length);
+  return ParseRtpStapA(&bit_buffer, bitstream_parser_state, true);
 }
 
 std::unique_ptr<H264RtpStapAParser::RtpStapAState>
 H264RtpStapAParser::ParseRtpStapA(
     BitBuffer* bit_buffer,
-    struct H264BitstreamParserState* bitstream_parser_state) noexcept {
+    struct H264BitstreamParserState* bitstream_parser_state,
+    bool escaped) noexcept {
   // H264 RTP STAP-A pseudo-NAL Unit.
   auto rtp_stapa = std::make_unique<RtpStapAState>();
 
@@ -63,9 +65,27 @@ H264RtpStapAParser::ParseRtpStapA(
     }
     rtp_stapa->nal_unit_sizes.push_back(nalu_size);
 
+    // the NALU is the next nalu_size bytes, however much of it is parsed. A
+    // single byte left after it cannot hold another NALU size: it is taken
+    // as part of the last NALU.
+    uint64_t nalu_bytes = nalu_size;
+    if (bit_buffer->RemainingBitCount() == (nalu_bytes + 1) * 8) {
+      nalu_bytes += 1;
+    }
+    std::vector<uint8_t> nalu_buffer(nalu_bytes);
+    for (uint8_t& nalu_byte : nalu_buffer) {
+      if (!bit_buffer->ReadUInt8(nalu_byte)) {
+        return nullptr;
+      }
+    }
+    if (escaped) {
+      nalu_buffer = UnescapeRbsp(nalu_buffer.data(), nalu_buffer.size());
+    }
+    BitBuffer nalu_bit_buffer(nalu_buffer.data(), nalu_buffer.size());
+
     // NALU header
     rtp_stapa->nal_unit_headers.push_back(
-        H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
+        H264NalUnitHeaderParser::ParseNalUnitHeader(&nalu_bit_buffer));
     if (rtp_stapa->nal_unit_headers.back() == nullptr) {
 #ifdef FPRINT_ERRORS
       fprintf(stderr, "error: cannot ParseNalUnitHeader in rtp ap\n");
@@ -76,7 +96,7 @@ H264RtpStapAParser::ParseRtpStapA(
     // NALU payload
     rtp_stapa->nal_unit_payloads.push_back(
         H264NalUnitPayloadParser::ParseNalUnitPayload(
-            bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
+            &nalu_bit_buffer, *(rtp_stapa->nal_unit_headers.back()),
             bitstream_parser_state));
     if (rtp_stapa->nal_unit_payloads.back() == nullptr) {
       return nullptr;
-- 
2.43.0


From d7c00c9119b7f0a4d9e158f86bc0b027691a5d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:52 +0000
Subject: [PATCH 11/29] fix: NaluChecksum::fdump: terminate a truncated
 checksum right after its last digit

---
 src/h264_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_common.cc b/src/h264_common.cc
index 0cd4c46..6b433c8 100644
--- a/src/h264_common.cc
+++ b/src/h264_common.cc
@@ -461,7 +461,7 @@ void NaluChecksum::fdump(char* output, int output_len) const {
   while (i < length) {
     // make sure there is space in the output buffer
     if (oi + 2 >= output_len) {
-      output[output_len - 1] = '\0';
+      output[oi] = '\0';
       break;
     }
     oi += snprintf(output + oi, static_cast<size_t>(output_len - oi), "%02x",
-- 
2.43.0


From 3e2443f4ec89baec9045c7197da91e634d5d9192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:56 +0000
Subject: [PATCH 12/29] fix: a bitstream dumps with the options it was parsed
 with

The overloads that take the caller's parser state left parsing_options_ at
its defaults, so dumping a bitstream parsed without checksums dereferenced
the missing checksum.
---
 src/h264_bitstream_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/h264_bitstream_parser.cc b/src/h264_bitstream_parser.cc
index 73b00d6..799a7c6 100644
--- a/src/h264_bitstream_parser.cc
+++ b/src/h264_bitstream_parser.cc
@@ -141,6 +141,7 @@ H264BitstreamParser::ParseBitstream(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -206,6 +207,7 @@ H264BitstreamParser::ParseBitstreamNALULength(
     H264BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
-- 
2.43.0


From 6dd98bd5bf9b23e0872c74c35655e4a4027f0e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:10 +0000
Subject: [PATCH 13/29] fix: NalUnitState::fdump: do not dump a checksum that
 was not computed

A NAL unit parsed without add_checksum and dumped with it dereferenced a
null checksum.
---
 src/h264_nal_unit_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h264_nal_unit_parser.cc b/src/h264_nal_unit_parser.cc
index 1c5abb5..87021e3 100644
--- a/src/h264_nal_unit_parser.cc
+++ b/src/h264_nal_unit_parser.cc
@@ -113,7 +113,7 @@ void H264NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From 8f305a1a5a87a7b6025cd71c2198725a4aec89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:15 +0000
Subject: [PATCH 14/29] fix: PPS: infer an absent second_chroma_qp_index_offset
 from chroma_qp_index_offset

---
 src/h264_pps_parser.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/h264_pps_parser.cc b/src/h264_pps_parser.cc
index 3fc0422..e12df1a 100644
--- a/src/h264_pps_parser.cc
+++ b/src/h264_pps_parser.cc
@@ -328,6 +328,11 @@ std::shared_ptr<H264PpsParser::PpsState> H264PpsParser::ParsePps(
             pps->second_chroma_qp_index_offset)) {
       return nullptr;
     }
+  } else {
+    // Rec. ITU-T H.264 (2012) Page 78, Section 7.4.2.2
+    // When second_chroma_qp_index_offset is not present, it shall be inferred
+    // to be equal to chroma_qp_index_offset.
+    pps->second_chroma_qp_index_offset = pps->chroma_qp_index_offset;
   }
 
   rbsp_trailing_bits(bit_buffer);
-- 
2.43.0


From 8351f50040cc7637e1cc5db3a6274675dc4d37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:18 +0000
Subject: [PATCH 15/29] fix: HrdParametersState::fdump: dump cpb_size_scale

---
 src/h264_hrd_parameters_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h264_hrd_parameters_parser.cc b/src/h264_hrd_parameters_parser.cc
index 28f4737..76d5e58 100644
--- a/src/h264_hrd_parameters_parser.cc
+++ b/src/h264_hrd_parameters_parser.cc
@@ -123,6 +123,9 @@ void H264HrdParametersParser::HrdParametersState::fdump(
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_scale: %u", bit_rate_scale);
 
+  fdump_indent_level(outfp, indent_level);
+  fprintf(outfp, "cpb_size_scale: %u", cpb_size_scale);
+
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "bit_rate_value_minus1 {");
   for (const uint32_t& v : bit_rate_value_minus1) {
-- 
2.43.0


From 447c58789122faae6aad9cae2b20ee0c5510e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:21 +0000
Subject: [PATCH 16/29] fix: PrefixNalUnitSvcState::fdump: dump
 additional_prefix_nal_unit_extension_flag

---
 src/h264_prefix_nal_unit_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h264_prefix_nal_unit_parser.cc b/src/h264_prefix_nal_unit_parser.cc
index 9541eaa..1021812 100644
--- a/src/h264_prefix_nal_unit_parser.cc
+++ b/src/h264_prefix_nal_unit_parser.cc
@@ -152,6 +152,10 @@ void H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState::fdump(
       // dec_ref_base_pic_marking()
     }
 
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "additional_prefix_nal_unit_extension_flag: %u",
+            additional_prefix_nal_unit_extension_flag);
+
     fdump_indent_level(outfp, indent_level);
     fprintf(outfp, "additional_prefix_nal_unit_extension_data_flag: %u",
             additional_prefix_nal_unit_extension_data_flag);
-- 
2.43.0


From 42e07420f5223bf36b1999a246be3ecdb0453d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:50 +0000
Subject: [PATCH 17/29] fix: RtpState::fdump: separate the packet structure
 from the NAL unit header

---
 src/h264_rtp_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h264_rtp_parser.cc b/src/h264_rtp_parser.cc
index 90bcac2..008b25e 100644
--- a/src/h264_rtp_parser.cc
+++ b/src/h264_rtp_parser.cc
@@ -98,12 +98,15 @@ void H264RtpParser::RtpState::fdump(FILE* outfp, int indent_level,
 
   if (nal_unit_header->nal_unit_type <= 23) {
     // rtp_single()
+    fdump_indent_level(outfp, indent_level);
     rtp_single->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == RTP_STAPA_NUT) {
     // rtp_stapa()
+    fdump_indent_level(outfp, indent_level);
     rtp_stapa->fdump(outfp, indent_level, parsing_options);
   } else if (nal_unit_header->nal_unit_type == RTP_FUA_NUT) {
     // rtp_fua()
+    fdump_indent_level(outfp, indent_level);
     rtp_fua->fdump(outfp, indent_level, parsing_options);
   }
 
-- 
2.43.0


From 94074d85c3cc93fa4e54a8ababa631581d566372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:39 +0000
Subject: [PATCH 18/29] fix: accept --nalu-length-bytes -1, as the usage
 message documents

---
 tools/h264nal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/h264nal.cc b/tools/h264nal.cc
index 5370fa5..af85ede 100644
--- a/tools/h264nal.cc
+++ b/tools/h264nal.cc
@@ -305,7 +305,7 @@ int parse_args(int argc, char** argv, arg_options* options) {
         char* end;
         errno = 0;
         long val = strtol(optarg, &end, 10);
-        if (errno != 0 || *end != '\0' || val < 0 || val > INT_MAX) {
+        if (errno != 0 || *end != '\0' || val < -1 || val > INT_MAX) {
           fprintf(stderr, "error: invalid nalu_length_bytes: %s\n", optarg);
           return -1;
         }
-- 
2.43.0


From 64ed1c3363f8c78c573090d492a5d0212246f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:51 +0000
Subject: [PATCH 19/29] fix: h264nal-dpb_parse.py: slice_type 5..9 are the same
 types as 0..4

slice_type values 5..9 say that all slices of the picture have the type
slice_type - 5 (Table 7-6). They were shown as "?7" and their pictures got
no reference list. SP slices have one, too.
---
 tools/h264nal-dpb_parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 77daa00..7304fd6 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -66,7 +66,8 @@ def parse_frames(content):
         if not first_mb_m or int(first_mb_m.group(1)) != 0:
             continue
 
-        slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1))
+        # slice_type 5..9 are the types 0..4 (Table 7-6)
+        slice_type = int(re.search(r"slice_type: (\d+)", nal_text).group(1)) % 5
         frame_num = int(re.search(r"frame_num: (\d+)", nal_text).group(1))
         nal_ref_idc = int(re.search(r"nal_ref_idc: (\d+)", nal_text).group(1))
 
@@ -302,7 +303,7 @@ def simulate_dpb(sps, frames, outfile):
 
         dpb_before = dpb_str(dpb)
 
-        if frame["slice_type"] in (0, 1) and dpb:
+        if frame["slice_type"] in (0, 1, 3) and dpb:
             ref_list = build_ref_pic_list0(dpb, frame)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
-- 
2.43.0


From 0cf6557bcd252a809d3d05f0998981e5566b6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:51 +0000
Subject: [PATCH 20/29] fix: h264nal-dpb_parse.py: use the PPS the slice refers
 to

The default number of reference indices was taken from the last PPS seen.
---
 tools/h264nal-dpb_parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 7304fd6..aa7576b 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -52,7 +52,8 @@ def parse_frames(content):
             continue
 
         if nal_type == 8:
-            pps["num_ref_idx_l0_default_active_minus1"] = int(
+            pps_id = int(re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1))
+            pps[pps_id] = int(
                 re.search(
                     r"num_ref_idx_l0_default_active_minus1: (\d+)", nal_text
                 ).group(1)
@@ -85,9 +86,8 @@ def parse_frames(content):
             l0_m = re.search(r"num_ref_idx_l0_active_minus1: (\d+)", nal_text)
             frame["num_ref_idx_l0_active"] = int(l0_m.group(1)) + 1
         else:
-            frame["num_ref_idx_l0_active"] = (
-                pps.get("num_ref_idx_l0_default_active_minus1", 0) + 1
-            )
+            pps_id = int(re.search(r"pic_parameter_set_id: (\d+)", nal_text).group(1))
+            frame["num_ref_idx_l0_active"] = pps.get(pps_id, 0) + 1
 
         if nal_type == 5:
             ltr_m = re.search(r"long_term_reference_flag: (\d+)", nal_text)
-- 
2.43.0


From 7aa0a7763737758b01d705abaae4ed6da505c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:51 +0000
Subject: [PATCH 21/29] fix: h264nal-dpb_parse.py: MMCO 1 and 3: wrap the
 picture number

frame_num wraps at MaxFrameNum, so a picture marked right after the wrap
has a frame_num larger than the current one (8.2.5.4.1, 8.2.5.4.3).
---
 tools/h264nal-dpb_parse.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index aa7576b..4538bb8 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -238,7 +238,7 @@ def refs_used_str(ref_list, num_active):
     return ";".join(entry_str(e) for e in active)
 
 
-def mmco_str(frame):
+def mmco_str(frame, max_frame_num):
     if frame.get("is_idr"):
         if frame.get("long_term_reference_flag", 0):
             return "IDR:LTR[0]"
@@ -258,14 +258,14 @@ def mmco_str(frame):
         elif op == 1:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             parts.append(f"MMCO1:rm_STR(fn={pic_num})")
         elif op == 2:
             parts.append("MMCO2:rm_LTR")
         elif op == 3:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
-            pic_num = frame["frame_num"] - (diff + 1)
+            pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             ltf = frame["long_term_frame_idx"][ltfi_idx]
             ltfi_idx += 1
             parts.append(f"MMCO3:STR(fn={pic_num})->LTR[{ltf}]")
@@ -313,7 +313,7 @@ def simulate_dpb(sps, frames, outfile):
 
         ft = frame_type_str(frame)
         ref_mark = "Y" if frame["is_ref"] else "N"
-        mmco = mmco_str(frame)
+        mmco = mmco_str(frame, max_frame_num)
 
         if frame["is_idr"]:
             if frame.get("long_term_reference_flag", 0):
@@ -347,7 +347,9 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 1:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num_to_remove = frame["frame_num"] - (diff + 1)
+                    pic_num_to_remove = (
+                        frame["frame_num"] - (diff + 1)
+                    ) % max_frame_num
                     dpb = [
                         e
                         for e in dpb
@@ -358,7 +360,7 @@ def simulate_dpb(sps, frames, outfile):
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-                    pic_num = frame["frame_num"] - (diff + 1)
+                    pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
                     for e in dpb:
-- 
2.43.0


From d9f2d533e1611bb0fb10481c9c2dde2f589e5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:51 +0000
Subject: [PATCH 22/29] fix: h264nal-dpb_parse.py: implement MMCO 2

MMCO 2 marks a long-term picture as unused for reference (8.2.5.4.2); it
was ignored.
---
 tools/h264nal-dpb_parse.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 4538bb8..0ce1952 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -99,6 +99,9 @@ def parse_frames(content):
                 r"memory_management_control_operation \{ ([^}]*)\}", nal_text
             )
             diff_m = re.search(r"difference_of_pic_nums_minus1 \{ ([^}]*)\}", nal_text)
+            # ref_pic_list_modification() has a long_term_pic_num, too
+            marking_text = nal_text[adaptive_m.start() :]
+            ltpn_m = re.search(r"long_term_pic_num \{ ([^}]*)\}", marking_text)
             ltfi_m = re.search(r"long_term_frame_idx \{ ([^}]*)\}", nal_text)
             mltfi_m = re.search(r"max_long_term_frame_idx_plus1 \{ ([^}]*)\}", nal_text)
             frame["mmco"] = [int(x) for x in mmco_m.group(1).split()] if mmco_m else []
@@ -107,6 +110,11 @@ def parse_frames(content):
                 if diff_m and diff_m.group(1).strip()
                 else []
             )
+            frame["long_term_pic_num"] = (
+                [int(x) for x in ltpn_m.group(1).split()]
+                if ltpn_m and ltpn_m.group(1).strip()
+                else []
+            )
             frame["long_term_frame_idx"] = (
                 [int(x) for x in ltfi_m.group(1).split()]
                 if ltfi_m and ltfi_m.group(1).strip()
@@ -250,6 +258,7 @@ def mmco_str(frame, max_frame_num):
         return ""
     parts = []
     diff_idx = 0
+    ltpn_idx = 0
     ltfi_idx = 0
     mltfi_idx = 0
     for op in ops:
@@ -261,7 +270,9 @@ def mmco_str(frame, max_frame_num):
             pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
             parts.append(f"MMCO1:rm_STR(fn={pic_num})")
         elif op == 2:
-            parts.append("MMCO2:rm_LTR")
+            ltpn = frame["long_term_pic_num"][ltpn_idx]
+            ltpn_idx += 1
+            parts.append(f"MMCO2:rm_LTR[{ltpn}]")
         elif op == 3:
             diff = frame["diff_pic_nums"][diff_idx]
             diff_idx += 1
@@ -336,6 +347,7 @@ def simulate_dpb(sps, frames, outfile):
                 )
         elif frame["mmco"]:
             diff_idx = 0
+            ltpn_idx = 0
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
@@ -356,7 +368,11 @@ def simulate_dpb(sps, frames, outfile):
                         if not (not e["is_ltr"] and e["frame_num"] == pic_num_to_remove)
                     ]
                 elif op == 2:
-                    pass
+                    ltpn = frame["long_term_pic_num"][ltpn_idx]
+                    ltpn_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == ltpn)
+                    ]
                 elif op == 3:
                     diff = frame["diff_pic_nums"][diff_idx]
                     diff_idx += 1
-- 
2.43.0


From 5bab22f301575a438f070b8487361ce24c8c3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:51 +0000
Subject: [PATCH 23/29] fix: h264nal-dpb_parse.py: MMCO 3 frees the long-term
 index it assigns

The picture that had the index is marked as unused for reference
(8.2.5.4.3); two pictures ended up with the same index.
---
 tools/h264nal-dpb_parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 0ce1952..f32bb8f 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -379,6 +379,9 @@ def simulate_dpb(sps, frames, outfile):
                     pic_num = (frame["frame_num"] - (diff + 1)) % max_frame_num
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
+                    dpb = [
+                        e for e in dpb if not (e["is_ltr"] and e["ltr_idx"] == ltf_idx)
+                    ]
                     for e in dpb:
                         if not e["is_ltr"] and e["frame_num"] == pic_num:
                             e["is_ltr"] = True
-- 
2.43.0


From f8ee389af117339df367bde926cb1c98dd8bbd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:51 +0000
Subject: [PATCH 24/29] fix: h264nal-dpb_parse.py: keep the current picture
 after adaptive marking

A reference picture that is not made a long-term one (MMCO 6) is a
short-term one when its memory management control operations are done
(8.2.5.1); it was lost. After MMCO 5 its frame_num is 0 (7.4.3).
---
 tools/h264nal-dpb_parse.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index f32bb8f..4dbfeec 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -351,6 +351,8 @@ def simulate_dpb(sps, frames, outfile):
             ltfi_idx = 0
             mltfi_idx = 0
             ops = frame["mmco"]
+            frame_num = frame["frame_num"]
+            is_ltr = False
             i = 0
             while i < len(ops):
                 op = ops[i]
@@ -400,6 +402,7 @@ def simulate_dpb(sps, frames, outfile):
                         ]
                 elif op == 5:
                     dpb = []
+                    frame_num = 0
                 elif op == 6:
                     ltf_idx = frame["long_term_frame_idx"][ltfi_idx]
                     ltfi_idx += 1
@@ -408,13 +411,23 @@ def simulate_dpb(sps, frames, outfile):
                     ]
                     dpb.append(
                         {
-                            "frame_num": frame["frame_num"],
+                            "frame_num": frame_num,
                             "is_ltr": True,
                             "ltr_idx": ltf_idx,
                             "abs_frame": abs_frame,
                         }
                     )
+                    is_ltr = True
                 i += 1
+            if not is_ltr:
+                dpb.append(
+                    {
+                        "frame_num": frame_num,
+                        "is_ltr": False,
+                        "ltr_idx": -1,
+                        "abs_frame": abs_frame,
+                    }
+                )
         elif frame["is_ref"]:
             dpb.append(
                 {
-- 
2.43.0


From 7bcabaecf30a307c59d7299f150b8df1bcb7e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:52 +0000
Subject: [PATCH 25/29] fix: h264nal-dpb_parse.py: sliding window: make room
 before, keep the picture

max_num_ref_frames 0 counts as 1, the picture being decoded is not itself
a candidate for removal (8.2.5.3), and without a short-term picture to
remove the loop did not end.
---
 tools/h264nal-dpb_parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 4dbfeec..0517af5 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -429,6 +429,14 @@ def simulate_dpb(sps, frames, outfile):
                     }
                 )
         elif frame["is_ref"]:
+            str_count = sum(1 for e in dpb if not e["is_ltr"])
+            ltr_count = sum(1 for e in dpb if e["is_ltr"])
+            while str_count > 0 and str_count + ltr_count >= max(max_num_ref_frames, 1):
+                for j, e in enumerate(dpb):
+                    if not e["is_ltr"]:
+                        dpb.pop(j)
+                        str_count -= 1
+                        break
             dpb.append(
                 {
                     "frame_num": frame["frame_num"],
@@ -437,14 +445,6 @@ def simulate_dpb(sps, frames, outfile):
                     "abs_frame": abs_frame,
                 }
             )
-            str_count = sum(1 for e in dpb if not e["is_ltr"])
-            ltr_count = sum(1 for e in dpb if e["is_ltr"])
-            while str_count + ltr_count > max_num_ref_frames:
-                for j, e in enumerate(dpb):
-                    if not e["is_ltr"]:
-                        dpb.pop(j)
-                        str_count -= 1
-                        break
 
         dpb_after = dpb_str(dpb)
 
-- 
2.43.0


From 7c3016c2b40baec6b801a30033a9ecbab002b2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:52 +0000
Subject: [PATCH 26/29] fix: h264nal-dpb_parse.py: order the initial list by
 FrameNumWrap

Short-term pictures with a frame_num larger than the current one were
decoded before frame_num wrapped (8.2.4.1): they come last, not first.
---
 tools/h264nal-dpb_parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 0517af5..8162972 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -178,10 +178,11 @@ def dpb_str(dpb):
     return ";".join(entry_str(e) for e in dpb)
 
 
-def build_ref_pic_list0(dpb, frame):
+def build_ref_pic_list0(dpb, frame, max_frame_num):
     strs = sorted(
         [e for e in dpb if not e["is_ltr"]],
-        key=lambda e: e["frame_num"],
+        key=lambda e: e["frame_num"]
+        - (max_frame_num if e["frame_num"] > frame["frame_num"] else 0),
         reverse=True,
     )
     ltrs = sorted(
@@ -315,7 +316,7 @@ def simulate_dpb(sps, frames, outfile):
         dpb_before = dpb_str(dpb)
 
         if frame["slice_type"] in (0, 1, 3) and dpb:
-            ref_list = build_ref_pic_list0(dpb, frame)
+            ref_list = build_ref_pic_list0(dpb, frame, max_frame_num)
             ref_list = apply_rplm(ref_list, frame, max_frame_num)
             num_active = frame.get("num_ref_idx_l0_active", 1)
             refs = refs_used_str(ref_list, num_active)
-- 
2.43.0


From 57f1c7c83b22fa545d8d9e215f291a15de125a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:52 +0000
Subject: [PATCH 27/29] fix: h264nal-dpb_parse.py: list modification may name a
 picture twice

Entries before refIdxL0 stay when a picture is named again (8.2.4.3.1).
---
 tools/h264nal-dpb_parse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/h264nal-dpb_parse.py b/tools/h264nal-dpb_parse.py
index 8162972..9c08d49 100755
--- a/tools/h264nal-dpb_parse.py
+++ b/tools/h264nal-dpb_parse.py
@@ -223,8 +223,10 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                entry = ref_list[found]
+                ref_list[ref_idx:] = [entry] + [
+                    e for e in ref_list[ref_idx:] if e is not entry
+                ]
                 ref_idx += 1
         elif idc == 2:
             lt_num = lt_pic_nums[lt_idx]
@@ -235,8 +237,10 @@ def apply_rplm(ref_list, frame, max_frame_num):
                     found = i
                     break
             if found is not None:
-                entry = ref_list.pop(found)
-                ref_list.insert(ref_idx, entry)
+                entry = ref_list[found]
+                ref_list[ref_idx:] = [entry] + [
+                    e for e in ref_list[ref_idx:] if e is not entry
+                ]
                 ref_idx += 1
 
     return ref_list
-- 
2.43.0


From 3d6b292fe1d43e83142fc93b5047b9aa40dee7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:32 +0000
Subject: [PATCH 28/29] fix: non-symmetric codes with 2^31 values shifted a
 32-bit one by 32

---
 src/rtc_common.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 2cff42a..cd3c885 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -217,7 +217,8 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   if (!ReadBits(count_bits - 1, val)) {
     return false;
@@ -369,7 +370,8 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -381,7 +383,8 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From 4e5c8256445d14e512698ada5fc7bead2d98f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:32 +0000
Subject: [PATCH 29/29] fix: a non-symmetric code with one possible value was
 not readable, and writing it was undefined

---
 src/rtc_common.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index cd3c885..824bc20 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -220,7 +220,10 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   uint32_t num_min_bits_values =
       static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
-  if (!ReadBits(count_bits - 1, val)) {
+  // a single possible value takes no bits
+  if (count_bits == 1) {
+    val = 0;
+  } else if (!ReadBits(count_bits - 1, val)) {
     return false;
   }
 
@@ -325,6 +328,9 @@ bool BitBufferWriter::WriteBits(uint64_t val, size_t bit_count) {
   if (bit_count > RemainingBitCount()) {
     return false;
   }
+  if (bit_count == 0) {
+    return true;
+  }
   size_t total_bits = bit_count;
 
   // For simplicity, push the bits we want to read from val to the highest bits.
-- 
2.43.0

