"""Single source of truth: the properties, how each is decided and within what bounds.
gen.py writes properties.jsonl and MANIFEST.json from this file."""

COMMON_ASSUMPTIONS = [
    "x86-64 data model, clang 18 front end, -D_GLIBCXX_EXTERN_TEMPLATE=0; every library function (libstdc++ included) is executed from its LLVM IR, libc calls (malloc, memcpy, fprintf, ...) from the executor's models",
    "allocation never fails",
    "z3 answers are trusted; `unknown` answers are counted as cut, never as success",
    "the reference descriptions under /verif/harness are written from ITU-T H.264 and the public API, not from the code",
]
TAPE = ["bit-level reads are executed against a symbolic tape: a read of n bits yields n fresh solver bits or fails because the data ends there; that the real bit reader behaves so is property C01's claim (assume-guarantee)"]
W = "wit"
PROPS = {}


def P(id, title, statement, over, qtext, why, files, mech, obs, hfiles, runs, claim, bounds, assumptions=(), level="other", note="", wrap=(), defs=None, py=None):
    PROPS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, anchors=files, mech=mech, obs=obs,
                     files=hfiles, runs=runs, claim=claim, bounds=bounds, assumptions=list(assumptions), level=level, note=note, wrap=wrap, defs=defs, py=py)


P("C01", "Bit reader returns exactly the bits of the buffer, or fails cleanly",
  "Reading fixed-width, Exp-Golomb, non-symmetric or fixed-size integer values from a buffer yields exactly the big-endian bits at the current position and advances the position by exactly that many bits. A read, skip or seek succeeds exactly when the requested bits are inside the buffer; the remaining-bit count and the reported offset always agree with the position, and nothing outside the buffer is touched.",
  ["inputs", "histories"], "every buffer content and length, every start position, every width and order of reads",
  "unit tests read a few fixed buffers; widths x positions x buffer ends x contents is what matters",
  ["src/rtc_common.cc", "include/rtc_common.h"], [("BitBuffer read/peek/consume arithmetic", "src/rtc_common.cc")], ["BitBuffer::ReadBits", "BitBuffer::ReadExponentialGolomb", "BitBuffer::ConsumeBits", "BitBuffer::RemainingBitCount"],
  ["bits.cpp"], [dict(h=x, opts=["--conc", 200]) for x in "h_read32 h_read64 h_readint h_skip h_eg h_seq h_ns h_ns_wide h_read_far h_large".split()],
  "every value of buffer content, start position and width within the bounds, compared bit by bit with an independent definition",
  ["buffers of 0..10 bytes with symbolic content", "start positions 0..9 bits (and every position reachable by 3 reads)", "widths 0..64", "Exp-Golomb codes with up to 31 leading zeros", "non-symmetric codes of 1..20 values and 11 larger counts up to 2^31", "reads at 16 positions up to 600 kB into a buffer", "position arithmetic (skip, seek, remaining, offset): every position in buffers of up to 4 GB, without content"])

P("C02", "Bit writer writes exactly the requested bits and reads back",
  "Writing an n-bit, Exp-Golomb, signed Exp-Golomb, non-symmetric or fixed-size integer value changes exactly the bits at the write position, leaves every other bit of the buffer unchanged, and reading it back with the bit reader returns the value written. A write that does not fit fails without changing the buffer or the position.",
  ["inputs"], "every value, width, start position, buffer length and previous buffer content",
  "round trips in tests cover a few values per width on zeroed buffers",
  ["src/rtc_common.cc", "include/rtc_common.h"], [("BitBufferWriter", "src/rtc_common.cc")], ["BitBufferWriter::WriteBits", "BitBufferWriter::WriteExponentialGolomb"],
  ["bits.cpp"], [dict(h=x, opts=["--conc", 200]) for x in "h_write h_write_eg_full h_write_int h_write_ns h_write_ns_wide h_write_far".split()] + [dict(h="h_write_eg", opts=["--conc", 200], shards=2, time=90)],
  "every value and previous content at every width/position within the bounds",
  ["buffers of 0..10 bytes", "start positions 0..9 bits", "widths 1..64", "Exp-Golomb values: every 32-bit value up to 2^32-2", "non-symmetric codes of 1..20 values and 11 larger counts up to 2^31", "16 positions up to 600 kB into a buffer"])

P("C03", "Unescaping removes exactly the emulation prevention bytes",
  "Unescaping a NAL unit removes every 0x03 byte that follows two zero bytes of the escaped data, and nothing else, keeping the order of all other bytes. Unescaping the standard escaping of any payload gives the payload back.",
  ["inputs"], "every byte sequence",
  "tests use a handful of byte strings; the interesting behaviour is overlapping zero runs and escapes at the ends of the buffer",
  ["src/h264_common.cc"], [("UnescapeRbsp", "src/h264_common.cc")], ["UnescapeRbsp"],
  ["bytes.cpp"], [dict(h=x) for x in "h_unescape h_unescape_long h_escape_roundtrip".split()] + [dict(h="h_unescape_far", shards=2), dict(h="h_unescape_vfar", shards=4, opts=["--steps", 60000000])],
  "all byte strings up to the bound against the definition of 7.3.1, and the escape/unescape round trip",
  ["all byte strings of up to 12 bytes (symbolic content)", "strings of 14 lengths up to 131 kB: four kinds of filling, 2 to 4 symbolic bytes around each power of two"])

P("C04", "Annex B splitting finds every NAL unit exactly once with exact bounds",
  "Splitting a byte stream yields one entry per start code, in stream order, with the exact start-code position, payload start and payload size, so that the payloads are the bytes between start codes without the zero bytes that belong to the stream framing. No byte of a NAL unit is lost, duplicated or attributed to another unit, whatever mixture of three- and four-byte start codes and zero padding is used.",
  ["inputs"], "every byte stream",
  "tests have a few streams; start codes at odd alignments, overlapping zeros and truncated starts are not sampled",
  ["src/h264_bitstream_parser.cc"], [("FindNaluIndices", "src/h264_bitstream_parser.cc")], ["H264BitstreamParser::FindNaluIndices"],
  ["bytes.cpp", "hist.cpp"], [dict(h=x) for x in "h_annexb h_annexb_long h_annexb_many".split()] + [dict(h="h_annexb_far", shards=2), dict(h="h_annexb_vfar", shards=2, opts=["--steps", 60000000])] + [dict(h="h_stream", opts=["--conc", 300], shards=8, reach=["done", "skipped"]), dict(h="h_stream_many", opts=["--conc", 300, "--steps", 60000000], reach=["done"])],
  "all byte strings up to the bound against an independent definition of Annex B.1.1",
  ["all byte streams of up to 12 bytes", "streams up to 131 kB: two kinds of filling, 3 to 5 symbolic bytes around each power of two", "255 to 1059 units in one stream"],
  ["a start code that ends the buffer (no byte after it) starts no NAL unit"])

P("C05", "Length-prefixed framing yields each NAL unit once with exact bounds",
  "Parsing a stream of length-prefixed NAL units visits each complete unit once, in order, and reports its exact offset and length; a length prefix that runs past the end of the data ends the parsing without touching anything outside the buffer.",
  ["inputs", "configurations"], "every byte stream and prefix size",
  "tests have one or two well-formed streams",
  ["src/h264_bitstream_parser.cc"], [("ParseBitstreamNALULength", "src/h264_bitstream_parser.cc")], ["H264BitstreamParser::ParseBitstreamNALULength"],
  ["bytes.cpp", "hist.cpp"], [dict(h="h_explicit"), dict(h="h_explicit_far"), dict(h="h_lenstream", opts=["--conc", 300], shards=8, time=90, reach=["done", "skipped"]), dict(h="h_lenstream_far", opts=["--conc", 300, "--steps", 60000000], shards=4, reach=["done"]), dict(h="h_stream_many", opts=["--conc", 300, "--steps", 60000000], reach=["done"])],
  "all byte strings up to the bound for every prefix size 1..4(8)", ["all streams up to 9 bytes", "prefix sizes 1..8", "units of 14 sizes up to 200 kB; 255 to 258 units in one stream"])

P("C08", "SPS parsing matches the seq_parameter_set syntax and value ranges",
  "Parsing a sequence parameter set returns, for every element, the value the bitstream carries according to the standard's syntax (with the standard's inferred value for elements that are absent), including scaling lists with their default/fall-back flags, cropping and the VUI. Data that ends early or carries a value outside the legal range is rejected, and legal data is accepted.",
  ["inputs"], "every bit string",
  "tests parse a dozen captured SPSs; each optional branch, boundary value and truncation point is a separate case",
  ["src/h264_sps_parser.cc", "include/h264_sps_parser.h"], [("ParseSpsData", "src/h264_sps_parser.cc"), ("scaling_list", "src/h264_sps_parser.cc")], ["H264SpsParser::ParseSps", "H264SpsParser::ParseSpsData"],
  ["sps.cpp"], [dict(h="h_sps_main", shards=8, opts=["--unwind", 2, "--cut", "scaling_list", "--cut", "ParseVui"], reach=["accept", "reject"]),
                dict(h="h_sps_scaling"), dict(h="h_scaling16"), dict(h="h_scaling64"), dict(h="h_sps_cycle", opts=["--conc", 300], shards=2, reach=["accept", "reject"])],
  "every bit string, against the 7.3.2.1.1 syntax table: value by value, accept/reject, and final position",
  ["offset_for_ref_frame: up to 2 entries with every content, and 16 lengths from 0 to 256 with every content in an otherwise fixed SPS", "scaling lists: one list symbolic at a time", "the nested VUI is decided by C10"], TAPE)

P("C09", "Profile, chroma geometry, resolution and frame rate follow the SPS",
  "The values derived from a parsed SPS - profile type, ChromaArrayType, chroma subsampling factors, cropping units, the cropped frame size and the frame rate - are those the standard defines for the SPS's fields, for frames and interlaced material and every chroma format. A size that leaves nothing to show is reported as an error with both dimensions -1. NAL unit types are named and classified (slice, reserved, unspecified) as in Table 7-1.",
  ["inputs", "configurations"], "every value of the fields the derived values depend on",
  "tests check a few common resolutions and profiles",
  ["src/h264_sps_parser.cc", "src/h264_vui_parameters_parser.cc", "src/h264_common.cc"], [("getResolution", "src/h264_sps_parser.cc"), ("GetProfileType", "src/h264_sps_parser.cc"), ("getFramerate", "src/h264_vui_parameters_parser.cc")], ["SpsDataState::getResolution", "SpsDataState::GetProfileType", "VuiParametersState::getFramerate", "NalUnitTypeToString"],
  ["der.cpp"], [dict(h="h_profile"), dict(h="h_profile_parsed", reach=["accept"]), dict(h="h_profile_name"), dict(h="h_chroma"), dict(h="h_resolution_w", reach=["accept", "reject"]), dict(h="h_resolution_h", reach=["accept", "reject"]), dict(h="h_resolution", reach=["accept", "reject"]), dict(h="h_framerate"), dict(h="h_types")],
  "all values of the SPS fields against the equations of 7.4.2.1.1, Table 6-1, A.2 and E.2.1",
  ["picture size up to 2048 macroblocks and cropping offsets up to 2^20 each way (beyond what the parser accepts)", "frame rate: every 32-bit time_scale with 8 values of num_units_in_tick"])

P("C10", "VUI and HRD parsing matches Annex E",
  "Parsing VUI and HRD parameters returns for every element the value the bitstream carries, or the standard's inferred value where it is absent. Truncated data and out-of-range values are rejected and legal data is accepted.",
  ["inputs"], "every bit string",
  "tests parse a few captured VUIs; the optional blocks multiply",
  ["src/h264_vui_parameters_parser.cc", "src/h264_hrd_parameters_parser.cc"], [("ParseVuiParameters", "src/h264_vui_parameters_parser.cc"), ("ParseHrdParameters", "src/h264_hrd_parameters_parser.cc")], ["H264VuiParametersParser::ParseVuiParameters", "H264HrdParametersParser::ParseHrdParameters"],
  ["hrd.cpp"], [dict(h="h_hrd", reach=["accept", "reject"]), dict(h="h_vui", opts=["--unwind", 1], reach=["accept", "reject"])],
  "every bit string, against the E.1.1/E.1.2 syntax tables", ["HRD alone: all 32 CPBs; HRDs inside a VUI: one CPB each"], TAPE)

P("C11", "PPS parsing matches the pic_parameter_set syntax and value ranges",
  "Parsing a picture parameter set returns for every element the value the bitstream carries, or the standard's inferred value where it is absent, for every slice-group map type and with or without the trailing extension and its scaling lists. Truncated data and out-of-range values are rejected and legal data is accepted.",
  ["inputs"], "every bit string",
  "tests parse a few captured PPSs without slice groups or scaling lists at their boundaries",
  ["src/h264_pps_parser.cc"], [("ParsePps", "src/h264_pps_parser.cc")], ["H264PpsParser::ParsePps"],
  ["pps.cpp"], [dict(h="h_pps_main", shards=8, opts=["--unwind", 2, "--cut", "scaling_list"], reach=["accept", "reject"]),
                dict(h="h_pps_scaling"), dict(h="h_pscaling16"), dict(h="h_pscaling64"), dict(h="h_pps_groups", opts=["--conc", 300], shards=2, reach=["accept"]), dict(h="h_pps_far", opts=["--steps", 200000000], shards=2, time=90, reach=["done"])],
  "every bit string, against the 7.3.2.2 syntax table",
  ["slice_group_id[]: up to 2 entries with every content, and, in an otherwise plain PPS, every group count and map type with id lists of 10 lengths from 1 to 300, all with every content", "slice_group_id[] of 12 lengths from 1023 to the 139264 of the largest picture and one more, first and last id symbolic", "scaling lists: one list symbolic at a time"], TAPE + ["the payload handed in is an RBSP: its last byte is not zero"])

SL = ["--unwind", 1, "--iters", 2, "--conc", 300]
P("C12", "Slice headers are parsed per the standard with the parameter sets they name",
  "Parsing a slice header uses exactly the picture parameter set the header names and the sequence parameter set that one names; if either has not been received, the header is rejected. Every element has the value the bitstream carries, with the presence conditions, widths and ranges the standard derives from those parameter sets, the NAL unit type and the slice type, and inferred values elsewhere (the PPS defaults for the reference counts). Truncated data and out-of-range values are rejected; legal headers are accepted and the reader stops exactly after the header.",
  ["inputs", "configurations"], "every bit string, every combination of the parameter-set fields slice_header() depends on, every nal_ref_idc and nal_unit_type",
  "tests parse a handful of headers with two or three parameter-set combinations",
  ["src/h264_slice_header_parser.cc"], [("ParseSliceHeader", "src/h264_slice_header_parser.cc")], ["H264SliceHeaderParser::ParseSliceHeader"],
  ["slice.cpp"], [dict(h=x, opts=SL, shards=n, time=t, reach=["accept", "reject"]) for x, n, t in (("h_slice_ids", 2, 40), ("h_slice_pos", 2, 40), ("h_slice_len", 1, 40), ("h_slice_refs", 4, 40), ("h_slice_wp", 8, 60), ("h_slice_mark", 4, 40), ("h_slice_groups", 1, 40), ("h_slice_qp", 2, 40), ("h_slice_x1", 4, 60), ("h_slice_x2", 2, 40))],
  "every bit string and every value of the parameter-set fields of each feature group, against the 7.3.3 syntax table",
  ["parameter-set fields vary in groups of two to five (the full cross product is out of reach); each field is symbolic in at least one group and most pairs in some group", "nested ref_pic_list_modification, pred_weight_table and dec_ref_pic_marking: up to 1 list entry here, their own contents are C13", "slice_group_change_cycle: 16 combinations of picture size and change rate"], TAPE)

P("C13", "Reference list, weight and marking commands are parsed completely, in order",
  "Parsing ref_pic_list_modification, pred_weight_table and dec_ref_pic_marking yields, for each command or weight, exactly the values the bitstream carries, in order and attributed to the right list and component, and stops exactly after the structure. Truncated data and illegal command codes are rejected; legal data of any length is accepted.",
  ["inputs"], "every bit string, slice type, chroma array type and reference count",
  "tests have two or three short command lists",
  ["src/h264_ref_pic_list_modification_parser.cc", "src/h264_dec_ref_pic_marking_parser.cc", "src/h264_pred_weight_table_parser.cc"],
  [("ParseRefPicListModification", "src/h264_ref_pic_list_modification_parser.cc"), ("ParseDecRefPicMarking", "src/h264_dec_ref_pic_marking_parser.cc"), ("ParsePredWeightTable", "src/h264_pred_weight_table_parser.cc")],
  ["H264RefPicListModificationParser::ParseRefPicListModification", "H264PredWeightTableParser::ParsePredWeightTable", "H264DecRefPicMarkingParser::ParseDecRefPicMarking"],
  ["slice.cpp"], [dict(h="h_rplm", opts=["--iters", 4], reach=["accept", "reject"]), dict(h="h_drpm", opts=["--iters", 3], reach=["accept", "reject"]), dict(h="h_pwt", opts=["--unwind", 2], reach=["accept", "reject"])]
  + [dict(h=x, opts=["--conc", 300], reach=["accept"]) for x in ("h_rplm_long", "h_drpm_long", "h_pwt_long")],
  "every bit string within the list-length bound against 7.3.3.1-7.3.3.3; longer lists with symbolic values and a fixed choice of command patterns",
  ["arbitrary bit strings: up to 3 list commands per list, 2 marking commands, 2 weights per list", "patterned lists: up to 63 commands, up to 32 weights per list, every value symbolic"], TAPE)

P("C06", "NAL unit headers, with the SVC extension, carry exactly the coded fields",
  "Parsing a NAL unit header returns the forbidden bit, nal_ref_idc, nal_unit_type and, for the NAL unit types that have one, the extension flag and every field of the SVC header extension, exactly as coded, and stops right after the header. Truncated headers, and headers with an extension the library does not support, are rejected.",
  ["inputs"], "every bit string",
  "tests parse a few headers; each of the 32 types and each truncation point is a case of its own",
  ["src/h264_nal_unit_header_parser.cc", "src/h264_nal_unit_header_svc_extension_parser.cc"], [("ParseNalUnitHeader", "src/h264_nal_unit_header_parser.cc"), ("ParseNalUnitHeaderSvcExtension", "src/h264_nal_unit_header_svc_extension_parser.cc")], ["H264NalUnitHeaderParser::ParseNalUnitHeader", "H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension"],
  ["svc.cpp"], [dict(h="h_nalhdr", reach=["accept", "reject"]), dict(h="h_svchdr", reach=["accept", "reject"])],
  "every bit string, against 7.3.1 and G.7.3.1.1", ["none beyond the bit string's length: a header has at most 32 bits"], TAPE)

P("C07", "Each NAL unit is unescaped, routed by type, parsed and remembered",
  "Parsing a NAL unit unescapes its bytes, parses its header, and hands the rest to the parser of its nal_unit_type and to no other, with the header's own nal_ref_idc and extension fields: the result carries the header, exactly one structure, with the contents that parser reads, the parse status, and the number of bytes parsed. Parameter sets that parse are remembered under their id for later units, and a unit that cannot be parsed or is no parameter set changes nothing that is remembered. A unit whose header cannot be parsed is not returned.",
  ["inputs"], "every NAL unit",
  "tests parse one or two units of some of the types, with valid payloads",
  ["src/h264_nal_unit_parser.cc", "src/h264_nal_unit_payload_parser.cc"], [("ParseNalUnit", "src/h264_nal_unit_parser.cc"), ("ParseNalUnitPayload", "src/h264_nal_unit_payload_parser.cc")], ["H264NalUnitParser::ParseNalUnit", "H264NalUnitPayloadParser::ParseNalUnitPayload"],
  ["nal.cpp"], [dict(h=x, shards=n, opts=["--conc", 300], time=60, reach=w) for x, n, w in (("h_nal_sps", 2, ["accept", "other"]), ("h_nal_pps", 2, ["accept", "other"]), ("h_nal_slice", 6, ["accept", "other"]), ("h_nal_ssps", 2, ["accept", "other"]), ("h_nal_prefix", 1, ["accept", "reject"]), ("h_nal_ext", 2, ["accept", "other"]), ("h_nal_other", 1, ["other"]), ("h_nal_short", 1, ["reject", "other"]))] + [dict(h="h_nal_far", shards=4, opts=["--conc", 300, "--steps", 60000000], time=60)],
  "the whole NAL unit path over real bytes with the real bit reader; the oracle for the payload is its own parser called directly on the unescaped bytes (what that parser must read is C08-C16)",
  ["one header byte plus 2 to 4 symbolic payload bytes after a fixed 0 to 3 byte prefix that reaches the payload's variable part", "all 32 NAL unit types", "slices, SEI and delimiters of 24 sizes up to 65537 bytes"],
  ["a PPS received as a NAL unit is parsed with chroma_format_idc 1, as the library documents"])

P("C14", "Subset SPS and its SVC extension are parsed per Annex G",
  "Parsing a subset sequence parameter set yields the sequence parameter set data followed, for the scalable profiles only, by the SVC extension with the elements its chroma array type and flags call for, each with its coded value; in the multiview and 3D profiles the marker bit after the data is read. Truncated data is rejected and legal data is accepted.",
  ["inputs"], "every bit string, chroma array type and profile",
  "tests parse two captured subset SPSs",
  ["src/h264_subset_sps_parser.cc", "src/h264_sps_svc_extension_parser.cc"], [("ParseSubsetSps", "src/h264_subset_sps_parser.cc"), ("ParseSpsSvcExtension", "src/h264_sps_svc_extension_parser.cc")], ["H264SubsetSpsParser::ParseSubsetSps", "H264SpsSvcExtensionParser::ParseSpsSvcExtension"],
  ["svc.cpp"], [dict(h="h_spssvc", reach=["accept", "reject"]), dict(h="h_ssps", opts=["--conc", 200, "--iters", 9], reach=["accept", "reject"]), dict(h="h_ssps_mvc", opts=["--conc", 200, "--iters", 9], reach=["accept", "reject"])],
  "every bit string, against 7.3.2.1.3 and G.7.3.2.1.4",
  ["sequence parameter set data fixed apart from profile, chroma format and id (C08 decides it)", "up to 8 bits of additional_extension2_data_flag", "SVC VUI, and what follows the marker bit in the multiview and 3D profiles, are outside: the library does not parse them"], TAPE)

P("C15", "Scalable slice headers and prefix NAL units are parsed per Annex G",
  "Parsing a slice header in scalable extension or a prefix NAL unit uses exactly the PPS and subset SPS named, and returns for every element its coded value under the presence conditions the standard derives from those parameter sets and from the NAL unit's SVC header extension, or the inferred value. Truncated data, out-of-range values, unknown parameter sets and unsupported marking syntax are rejected; legal data is accepted, and the reader stops right after the header.",
  ["inputs", "configurations"], "every bit string, every combination of the parameter-set and SVC header fields the syntax depends on",
  "tests have two or three units with one parameter-set combination",
  ["src/h264_slice_header_in_scalable_extension_parser.cc", "src/h264_prefix_nal_unit_parser.cc", "src/h264_slice_layer_extension_rbsp_parser.cc"], [("ParseSliceHeaderInScalableExtension", "src/h264_slice_header_in_scalable_extension_parser.cc"), ("ParsePrefixNalUnitRbsp", "src/h264_prefix_nal_unit_parser.cc")], ["H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension", "H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp", "H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp"],
  ["svc.cpp"], [dict(h="h_prefix", opts=["--iters", 9], reach=["accept", "reject"])] + [dict(h=x, opts=SL, shards=n, time=60, reach=["accept", "reject"]) for x, n in (("h_shise_ids", 2), ("h_shise_pos", 2), ("h_shise_refs", 2), ("h_shise_wp", 6), ("h_shise_mark", 2), ("h_shise_il", 2), ("h_shise_il2", 2), ("h_layer", 2))],
  "every bit string and every value of the parameter-set and SVC header fields of each feature group, against G.7.3.3.4 and G.7.3.2.12",
  ["fields vary in groups of two to six", "nested lists: up to 1 entry (their contents are C13)", "slice types EP, EB and EI", "up to 8 bits of prefix NAL unit extension data"], TAPE)

P("C16", "SPS extension parsing matches seq_parameter_set_extension_rbsp",
  "Parsing a sequence parameter set extension returns the coded values, with the alpha values' width taken from the auxiliary bit depth. Truncated data and out-of-range values are rejected and legal data is accepted.",
  ["inputs"], "every bit string",
  "tests have one captured unit",
  ["src/h264_sps_extension_parser.cc"], [("ParseSpsExtension", "src/h264_sps_extension_parser.cc")], ["H264SpsExtensionParser::ParseSpsExtension"],
  ["svc.cpp"], [dict(h="h_spsext", opts=["--conc", 200], reach=["accept", "reject"])],
  "every bit string, against 7.3.2.1.2", ["none: the structure is finite"], TAPE)

P("C17", "RTP packets are unpacked into exactly the NAL units they carry",
  "Parsing an RTP payload unpacks it by its packetisation type. A single NAL unit packet yields that unit; a STAP-A packet yields every aggregated NAL unit once, in order, with its size, each parsed from exactly the bytes its size field delimits; an FU-A packet yields the FU header fields and, for a first fragment, the start of the fragmented unit parsed with the indicator's nal_ref_idc and the FU type. Each unit reads as it would if parsed on its own, parameter sets are remembered in order, and packets whose sizes do not fit are rejected.",
  ["inputs"], "every packet",
  "tests have one packet per packetisation type",
  ["src/h264_rtp_parser.cc", "src/h264_rtp_single_parser.cc", "src/h264_rtp_stapa_parser.cc", "src/h264_rtp_fua_parser.cc"], [("ParseRtp", "src/h264_rtp_parser.cc"), ("ParseRtpStapA", "src/h264_rtp_stapa_parser.cc"), ("ParseRtpFuA", "src/h264_rtp_fua_parser.cc")], ["H264RtpParser::ParseRtp", "H264RtpStapAParser::ParseRtpStapA", "H264RtpFuAParser::ParseRtpFuA", "H264RtpSingleParser::ParseRtpSingle"],
  ["nal.cpp"], [dict(h=x, opts=["--conc", 300], shards=n, time=60) for x, n in (("h_rtp_single", 2), ("h_rtp_slice", 2), ("h_rtp_other", 1), ("h_rtp_fua", 2), ("h_stapa_short", 1), ("h_stapa_two", 6), ("h_stapa_escape", 1), ("h_stapa_sps", 1), ("h_stapa_dep", 2), ("h_stapa_many", 1))] + [dict(h=x, shards=3, opts=["--conc", 300, "--steps", 60000000], time=60) for x in ("h_stapa_far", "h_rtp_far")] + [dict(h="h_stapa_count", shards=2, opts=["--conc", 300, "--steps", 60000000], time=60), dict(h="h_stapa_order", opts=["--conc", 300], time=60)],
  "whole packets over real bytes; the oracle for each unit is its own parser called on the unit's bytes",
  ["single NAL unit and FU-A packets: up to 2 symbolic payload bytes, all types (FU-A of types with a header extension excluded)", "STAP-A: up to two units of up to 3 bytes, and three to five short units of which the last two have free content; arbitrary size fields in packets of up to 5 bytes; units and packets of 11 sizes up to the largest the size field can say, alone or behind three short units; 6 to 257 units in a packet; the same PPS id twice in a packet"],
  ["one stray byte after the last STAP-A unit is outside the claim"])

P("C18", "The last valid parameter set of each id is remembered, through any history",
  "Whatever sequence of NAL units has been parsed with one parser state, looking up an SPS, PPS or subset SPS id returns the last valid one received with that id and nothing for an id never received; the three kinds do not affect one another, and a unit that fails to parse changes nothing. A slice is read with the PPS and SPS that are current when it arrives and is rejected if either is unknown. A parameter set already handed out never changes.",
  ["histories", "inputs"], "every sequence of parameter sets, ids, versions and failures",
  "tests parse each parameter set once",
  ["src/h264_bitstream_parser_state.cc", "src/h264_nal_unit_payload_parser.cc"], [("GetSps/GetPps/GetSubsetSps", "src/h264_bitstream_parser_state.cc"), ("ParseNalUnitPayload", "src/h264_nal_unit_payload_parser.cc")], ["H264BitstreamParserState::GetSps", "H264BitstreamParserState::GetPps", "H264BitstreamParserState::GetSubsetSps"],
  ["hist.cpp"], [dict(h="h_hist2", opts=["--conc", 300], reach=["done"]), dict(h="h_hist3", opts=["--conc", 300], shards=6, reach=["done"], thorough=dict(h="h_hist4")), dict(h="h_hist_ids", opts=["--conc", 300], reach=["done"]), dict(h="h_hist_many", opts=["--conc", 300, "--steps", 60000000], reach=["done"]), dict(h="h_hist_slice", opts=["--conc", 300], shards=2, reach=["accept", "reject"]), dict(h="h_hist_slices", opts=["--conc", 300], shards=2, reach=["done"])],
  "every history within the bound against a ghost map; ids, versions and contents are solver variables",
  ["3 units (4 in the thorough tier), ids 3..6, valid or out-of-range parameter sets", "slice lookups: 2 to 3 parameter sets, two ids, two frame_num widths", "every id of a kind in use (256 or 32), one received again", "two or three slices with parameter sets, also invalid ones, delimiters and end-of-sequence units between them"])

P("C22", "End-of-RBSP detection and the NAL unit checksum are exact",
  "more_rbsp_data() says whether data precedes the rbsp_trailing_bits, and rbsp_trailing_bits() accepts exactly a one bit followed by zero bits up to the byte boundary, wherever the position is, without moving a position they only inspect. The NAL unit checksum is the one's complement sum of the remaining bytes taken as big-endian 32-bit words, zero padded, for every length, does not move the position, and is printed as the hexadecimal of its four bytes.",
  ["inputs"], "every buffer content, length and position",
  "tests have a handful of buffers, none with carries or odd tails at every position",
  ["src/h264_common.cc"], [("more_rbsp_data", "src/h264_common.cc"), ("NaluChecksum", "src/h264_common.cc")], ["more_rbsp_data", "rbsp_trailing_bits", "NaluChecksum::GetNaluChecksum", "NaluChecksum::GetPrintableChecksum"],
  ["bytes.cpp"], [dict(h="h_checksum"), dict(h="h_more", reach=["trailing"]), dict(h="h_checksum_far", opts=["--steps", 60000000], reach=["done"]), dict(h="h_more_far"), dict(h="h_checksum_print")],
  "all contents, lengths and positions up to the bound against 7.2 and the documented checksum", ["checksum: up to 13 bytes from up to 3 bytes in, and 20 lengths up to 262 kB with 4 symbolic bytes", "RBSP end: buffers of up to 3 bytes, every bit position, and 16 lengths up to 131 kB at 32 positions with 3 symbolic bytes"],
  ["the last byte of an RBSP is not zero (7.4.1), and a position behind the last one bit is outside the claim"])

P("C21", "Dumps show every parsed element by name, in order, with its value",
  "Dumping a parsed structure prints each element the bitstream carried, once, in syntax order, under the standard's name for it and with its value as a signed or unsigned decimal number, and prints no element that is absent; nested structures appear inside their parent. With an indentation level every element is on a line of its own, indented two spaces per level; without one the whole dump is on a single line. Offset, length, parsed length, checksum and resolution are shown exactly when asked for.",
  ["inputs", "configurations"], "every parsed structure and dump option",
  "no test looks at the dump at all",
  ["src/h264_common.cc", "src/h264_sps_parser.cc", "src/h264_pps_parser.cc", "src/h264_slice_header_parser.cc", "src/h264_nal_unit_parser.cc"], [("fdump of every state", "src/h264_*_parser.cc"), ("fdump_indent_level", "src/h264_common.cc")], ["*State::fdump", "BitstreamState::fdump"],
  ["dump_hrd.cpp", "dump_sps.cpp", "dump_pps.cpp", "dump_slice.cpp", "dump_svc.cpp", "dump.cpp"],
  [dict(h=x, opts=["--conc", 200], reach=["done"]) for x in ("h_dump_payload", "h_dump_parts", "h_dump_unit", "h_dump_stream", "h_dump_rtp", "h_dump_indent")]
  + [dict(h="h_hrd", reach=["accept"]), dict(h="h_vui", opts=["--unwind", 1], reach=["accept"]),
   dict(h="h_sps_main", shards=8, opts=["--unwind", 2, "--cut", "scaling_list", "--cut", "ParseVui"], reach=["accept"]), dict(h="h_sps_end", opts=["--cut", "ParseVui"], reach=["accept"]), dict(h="h_sps_vui", opts=["--unwind", 1], reach=["accept"]), dict(h="h_sps_scaling"), dict(h="h_scaling16"), dict(h="h_sps_cycle", opts=["--conc", 300], reach=["accept", "reject"]), dict(h="h_pps_groups", opts=["--conc", 300], shards=2, reach=["accept"]), dict(h="h_rplm_long", opts=["--conc", 300]), dict(h="h_drpm_long", opts=["--conc", 300]), dict(h="h_pwt_long", opts=["--conc", 300]),
   dict(h="h_pps_main", shards=8, opts=["--unwind", 2, "--cut", "scaling_list"], reach=["accept"]), dict(h="h_pps_scaling"), dict(h="h_pscaling16"),
   dict(h="h_rplm", opts=["--iters", 4], reach=["accept"]), dict(h="h_drpm", opts=["--iters", 3], reach=["accept"]), dict(h="h_pwt", opts=["--unwind", 2], reach=["accept"])]
  + [dict(h=x, opts=SL, shards=n, time=40, reach=["accept"]) for x, n in (("h_slice_ids", 2), ("h_slice_pos", 2), ("h_slice_refs", 4), ("h_slice_mark", 4), ("h_slice_groups", 2), ("h_slice_qp", 2))]
  + [dict(h=x, reach=["accept"]) for x in ("h_nalhdr", "h_svchdr", "h_spssvc")] + [dict(h="h_spsext", opts=["--conc", 200], reach=["accept"]), dict(h="h_ssps", opts=["--conc", 200, "--iters", 9], reach=["accept"]), dict(h="h_prefix", opts=["--iters", 9], reach=["accept"])]
  + [dict(h=x, opts=SL, shards=n, time=40, reach=["accept"]) for x, n in (("h_shise_ids", 2), ("h_shise_pos", 2), ("h_shise_refs", 2), ("h_shise_mark", 4), ("h_shise_il", 4), ("h_shise_il2", 4), ("h_layer", 2))]
  + [dict(h=x, opts=["--unwind", 0, "--iters", 1, "--conc", 300], shards=4, time=40, reach=["accept"]) for x in ("h_slice_wpd", "h_shise_wpd", "h_slice_wpd1", "h_shise_wpd1")]
  + [dict(h=x, opts=o, reach=["accept"]) for x, o in (("h_hrd1", []), ("h_sps_end1", ["--cut", "ParseVui"]), ("h_sps_vui1", ["--unwind", 1]), ("h_pps_line", ["--unwind", 1, "--cut", "scaling_list"]), ("h_rplm1", SL), ("h_drpm1", SL), ("h_pwt1", SL), ("h_nalhdr1", []), ("h_spssvc1", []), ("h_spsext1", ["--conc", 200]), ("h_prefix1", ["--iters", 9]), ("h_shise_il1", SL), ("h_shise_il21", SL), ("h_rplm_long", ["--conc", 300]), ("h_drpm_long", ["--conc", 300]), ("h_pwt_long", ["--conc", 300]), ("h_sps_cycle", ["--conc", 300]), ("h_ssps_mvc", ["--conc", 200, "--iters", 9]))]
  + [dict(h="h_pps_groups", opts=["--conc", 300], shards=6, time=60, reach=["accept"])],
  "every bit string within the parsing harnesses' bounds: the dump of what the real parser returns against the text the reference derives from the same bits; values stay symbolic inside the text",
  ["the bounds of C06, C08 and C10 to C16"],
  TAPE + ["profile name and resolution in a dump are what profileTypeToString() and getResolution() give, which C09 decides", "extension data bits of prefix NAL units with nal_ref_idc 0 are not shown"])

P("C19", "Any input at any entry point: memory safe, no undefined behaviour, terminates",
  "Whatever bytes, sizes, prefix widths and parser state are given, parsing a NAL unit, a NAL unit stream, a length-prefixed stream, an RTP packet or a single structure, then dumping and destroying the result, touches no memory outside the buffers handed in and the library's own objects, executes no undefined operation, never aborts the process, releases everything it allocated, and ends after work bounded by the input.",
  ["inputs", "histories"], "every byte string, every parser state",
  "tests feed valid units; the library is meant for untrusted data and its fuzzers only sample",
  ["src/h264_bitstream_parser.cc", "src/h264_nal_unit_parser.cc", "src/rtc_common.cc", "src/h264_rtp_stapa_parser.cc"], [("ParseBitstream", "src/h264_bitstream_parser.cc"), ("ParseNalUnit", "src/h264_nal_unit_parser.cc"), ("ParseRtp", "src/h264_rtp_parser.cc")], ["H264BitstreamParser::ParseBitstream", "H264NalUnitParser::ParseNalUnit", "H264RtpParser::ParseRtp", "every Parse* and fdump"],
  ["rob_hrd.cpp", "rob_sps.cpp", "rob_pps.cpp", "rob_slice.cpp", "rob_svc.cpp", "rob.cpp"],
  [dict(h=x, leak=True, opts=["--conc", 300], shards=n, time=60, reach=w) for x, n, w in (("r_nal", 2, ["accept", "reject"]), ("r_nal_slice", 2, ["accept"]), ("r_nal_idr", 2, ["accept"]), ("r_nal_sps", 2, ["accept"]), ("r_nal_pps", 2, ["accept"]), ("r_nal_prefix", 2, ["accept"]), ("r_nal_ssps", 2, ["accept"]), ("r_nal_ext", 2, ["accept"]),
     ("r_stream", 4, ["accept"]), ("r_lenstream", 4, ["accept"]), ("r_rtp", 2, ["accept", "reject"]), ("r_rtp_stapa", 4, ["accept", "reject"]), ("r_rtp_fua", 2, ["accept", "reject"]), ("r_unescape", 1, ["accept"]), ("r_checksum", 1, ["accept"]))]
  + [dict(h=x, leak=True, opts=SL, shards=4, time=60, reach=["accept", "reject"]) for x in ("r_pay_slice", "r_pay_pps", "r_pay_prefix", "r_pay_ext")]
  + [dict(h=x, leak=True, opts=o, shards=n, time=40, reach=["accept"]) for x, n, o in (("h_hrd", 1, []), ("h_vui", 1, ["--unwind", 1]), ("h_sps_main", 4, ["--unwind", 2, "--cut", "scaling_list", "--cut", "ParseVui"]), ("h_sps_vui", 1, ["--unwind", 1]), ("h_pps_main", 4, ["--unwind", 2, "--cut", "scaling_list"]),
     ("h_rplm", 1, ["--iters", 4]), ("h_drpm", 1, ["--iters", 3]), ("h_pwt", 1, ["--unwind", 2]), ("h_rplm_long", 1, ["--conc", 300]), ("h_drpm_long", 1, ["--conc", 300]), ("h_pwt_long", 1, ["--conc", 300]), ("h_slice_groups", 1, SL), ("h_slice_mark", 2, SL), ("h_nalhdr", 1, []), ("h_svchdr", 1, []), ("h_spssvc", 1, []), ("h_spsext", 1, ["--conc", 200]), ("h_ssps", 1, ["--conc", 200, "--iters", 9]), ("h_prefix", 1, ["--iters", 9]), ("h_shise_il", 2, SL), ("h_shise_mark", 2, SL), ("h_sps_cycle", 1, ["--conc", 300]), ("h_pps_groups", 2, ["--conc", 300]))]
  + [dict(h=x, leak=True, opts=["--conc", 300, "--steps", 60000000], shards=n, time=60) for x, n in (("r_nal_far", 4), ("r_rtp_far", 1), ("r_stream_many", 1))]
  + [dict(h=x, leak=True) for x in ("h_sps_scaling", "h_scaling16", "h_pps_scaling", "h_pscaling16")]
  + [dict(h=x, leak=True, opts=["--conc", 300], shards=8, time=60, tier="thorough") for x in ("r_lenstream5", "r_nal_pps4")],
  "every byte string up to the bound through the public entry points with the real bit reader, and every bit string (no length bound) through each structure's parser and dump", ["byte entry points: every byte string of up to 3 to 6 bytes depending on the NAL unit type, from an empty state and from one that holds parameter sets; stream framing with up to 5 bytes, prefix widths 0..5, 8, 9 and 17; long units, packets and streams: 16 sizes up to 100 kB, mostly concrete", "structures: the bounds of C06, C08 and C10 to C16 on list lengths"], TAPE)

WRAP = "fopen fclose fseek ftell fread feof ferror fgetc rewind".split()
P("C20", "Unsupported syntax is told apart from broken data",
  "Every unit that needs syntax the library does not parse is counted once per such structure, in the NAL unit header, prefix NAL unit or slice header, and rejected rather than misread; complete and broken units are never counted. Resetting clears the count and reading it does not change it. The command line tool ends with status 2 when the stream needed unsupported syntax, else 1 when any NAL unit was dropped (in a stream with start codes) or left unparsed, else 0, whatever was parsed before.",
  ["inputs", "histories"], "every sequence of complete, broken and unsupported units",
  "no test runs the tool, and unit tests look at one unit at a time",
  ["src/h264_common.cc", "tools/h264nal.cc", "src/h264_nal_unit_payload_parser.cc"], [("report_unimplemented", "src/h264_common.cc"), ("IsPayloadParsed", "src/h264_nal_unit_payload_parser.cc"), ("exit status", "tools/h264nal.cc")], ["get_unimplemented_count", "h264nal exit status"],
  ["cli.cpp", "cnt_slice.cpp", "cnt_svc.cpp"], [dict(h="h_nalhdr", reach=["unimplemented", "other"]), dict(h="h_prefix", opts=["--iters", 9], reach=["unimplemented", "other"]), dict(h="h_slice_ids", opts=SL, shards=2, time=40, reach=["unimplemented", "other"]), dict(h="h_shise_mark", opts=SL, shards=2, time=60, reach=["unimplemented", "other"]), dict(h="h_layer", opts=SL, shards=2, time=60, reach=["unimplemented", "other"]), dict(h="h_slice_mark", opts=SL, shards=2, time=40, reach=["other"])] + [dict(h="c_count", opts=["--conc", 300], shards=4, reach=["done"]), dict(h="c_exit", opts=["--conc", 300], shards=8, reach=["ok", "broken", "unimplemented"]), dict(h="c_exit_len", opts=["--conc", 300], shards=4, reach=["ok", "broken", "unimplemented"]), dict(h="c_count_many", opts=["--steps", 60000000], reach=["done"]), dict(h="c_exit_many", opts=["--conc", 300, "--steps", 60000000], shards=4, reach=["done"])],
  "for each structure that can meet unsupported syntax (NAL unit header, prefix NAL unit, slice header, scalable slice header), every bit string and every parameter-set value of its feature group: counted once exactly when the standard puts an unsupported structure there, and given up; for the tool, main() itself, with getopt and a virtual file, over every sequence of units from a menu of nine kinds", ["per structure: the bounds of C06, C12 and C15", "tool: up to 3 units (2 with length prefixes) of 9 kinds; 128 to 257 broken or unsupported units", "up to 65537 reports counted"], wrap=WRAP)

P("C23", "The command line tool shows what was parsed, as its options ask",
  "Run on a file, the tool prints for each NAL unit the parser returned, in stream order, the unit's dump on one line or indented, with offset, length, parsed length, checksum, resolution and contents exactly when the options ask for them, the last of contradicting options counting; or, for --dump-length, the CSV table with one numbered row per unit, a row per frame with the frame's slice bytes and bit rate, and the slice's first macroblock. The input is read completely and byte for byte; bad arguments, an unreadable input or an unwritable output end it with an error status.",
  ["inputs", "configurations", "fault_sequences"], "every file content, option sequence and file error within the bounds",
  "no test runs the tool",
  ["tools/h264nal.cc", "src/h264_utils.cc"], [("main", "tools/h264nal.cc"), ("ReadFile", "src/h264_utils.cc")], ["h264nal", "H264Utils::ReadFile"],
  ["cli.cpp"], [dict(h="c_csv", opts=["--conc", 300], shards=8, reach=["done"]), dict(h="c_csv_fps", opts=["--conc", 300], shards=2, reach=["done"]), dict(h="c_dump", opts=["--conc", 300], shards=8, reach=["done"]), dict(h="c_dump_all", opts=["--conc", 300], shards=4, reach=["done"]), dict(h="c_contents", opts=["--conc", 300], shards=2, reach=["done"]), dict(h="c_contents_far", opts=["--conc", 300, "--steps", 60000000], shards=2, reach=["done"]), dict(h="c_args", reach=["ran", "exit"]), dict(h="c_readfile", reach=["read", "fault"]), dict(h="c_stdin", reach=["done"]), dict(h="c_readfile_far", opts=["--steps", 60000000], reach=["done"]), dict(h="c_csv_long", opts=["--conc", 300, "--steps", 60000000], shards=4, time=90, reach=["done"])],
  "main() itself over a virtual file; the oracle for each unit's dump is the unit's own fdump (C21), the CSV is computed independently", ["up to 3 units after the parameter sets", "two option flags in any order plus one fixed set of four", "input files of up to 6 bytes with symbolic content for ReadFile; every open, size and short-read failure; standard input of 0 to 12289 bytes with 12 symbolic ones at the chunk edges", "argument lists from a menu of 18", "contents of 12 lengths from 127 to 70000 bytes", "streams of 3 to 130 frames of up to 3 slices, one of them up to 65 kB longer than its header; files of 16 sizes from 255 to 131072 bytes with symbolic bytes at the chunk edges"], ["getopt_long and strtol behave as POSIX and GNU define (modelled; replay uses the C library's)"], wrap=WRAP)

P("C24", "The small-footprint build parses exactly as the normal build",
  "Compiled without the dump, RTP and error-message code (the small-footprint configuration), the library reads the same values, accepts and rejects the same data, stops at the same positions and remembers the same parameter sets as the normal build: each structure is parsed per the standard's syntax and ranges.",
  ["inputs", "configurations"], "every bit string, in the second build configuration",
  "the tests are only built and run in the normal configuration",
  ["include/h264_common.h", "src/h264_sps_parser.cc", "src/h264_slice_header_parser.cc", "src/h264_bitstream_parser.cc"], [("#ifdef FPRINT_ERRORS / FDUMP_DEFINE / RTP_DEFINE blocks", "src/*.cc")], ["every Parse* function"],
  ["hrd.cpp", "sps.cpp", "pps.cpp", "slice.cpp", "svc.cpp", "small.cpp"],
  [dict(h="h_hrd", reach=["accept", "reject"]), dict(h="h_vui", opts=["--unwind", 1], reach=["accept", "reject"]), dict(h="h_sps_main", shards=4, opts=["--unwind", 2, "--cut", "scaling_list", "--cut", "ParseVui"], reach=["accept", "reject"]), dict(h="h_sps_scaling"), dict(h="h_scaling16"),
   dict(h="h_pps_main", shards=4, opts=["--unwind", 2, "--cut", "scaling_list"], reach=["accept", "reject"]), dict(h="h_pps_scaling"), dict(h="h_rplm", opts=["--iters", 4], reach=["accept", "reject"]), dict(h="h_drpm", opts=["--iters", 3], reach=["accept", "reject"]), dict(h="h_pwt", opts=["--unwind", 2], reach=["accept", "reject"]),
   dict(h="h_nalhdr", reach=["accept", "reject"]), dict(h="h_svchdr", reach=["accept", "reject"]), dict(h="h_spssvc", reach=["accept", "reject"]), dict(h="h_ssps", opts=["--conc", 200, "--iters", 9], reach=["accept", "reject"]), dict(h="h_prefix", opts=["--iters", 9], reach=["accept", "reject"]), dict(h="h_spsext", opts=["--conc", 200], reach=["accept", "reject"])]
  + [dict(h=x, opts=SL, shards=2, time=40, reach=["accept", "reject"]) for x in ("h_slice_ids", "h_slice_pos", "h_slice_len", "h_slice_refs", "h_slice_mark", "h_slice_groups", "h_slice_qp", "h_shise_ids", "h_shise_pos", "h_shise_refs", "h_shise_mark", "h_shise_il", "h_shise_il2", "h_layer")]
  + [dict(h=x, opts=["--conc", 300], shards=4, reach=["done"]) for x in ("s_hist", "s_stream", "s_lenstream")],
  "the parsing harnesses of C04 to C18 against /repo compiled with SMALL_FOOTPRINT", ["the bounds of C06, C08 and C10 to C16", "streams of up to 2 units, histories of 2 parameter sets"], TAPE, defs=["-DSMALL_FOOTPRINT"])

ENT = "e_drpm e_rplm e_pwt e_pps e_spsdata e_sps e_ssps e_vui e_hrd e_spssvc e_svchdr e_nalhdr e_spsext e_prefsvc e_prefix e_slice e_layer e_shise e_ext e_payload e_single e_fua e_raw".split()
P("C27", "Every parser's byte entry point parses exactly the unescaped bytes",
  "Each parser that takes escaped bytes accepts the same data, returns the same contents and remembers the same parameter sets as it does when given the bits left after removing the emulation prevention bytes, wherever those bytes fall in the structure and wherever the data ends; the entry point for unescaped NAL units removes no byte.",
  ["inputs"], "every byte string handed to every parser",
  "tests feed data without emulation prevention bytes to nearly all parsers",
  ["src/h264_common.cc", "src/h264_sps_parser.cc", "src/h264_slice_header_parser.cc", "src/h264_nal_unit_parser.cc"], [("Parse*(data, length)", "src/*.cc")], ["every Parse*(const uint8_t* data, size_t length, ...)"],
  ["ent.cpp"], [dict(h=x, opts=["--conc", 300], reach=["accept"] if x in ("e_payload", "e_single", "e_fua", "e_nalhdr", "e_prefsvc", "e_prefix") else ["accept", "reject"]) for x in ENT],
  "both entry points of each of the 23 parsers executed on the same symbolic bytes around an emulation prevention byte; results compared by their dumps", ["one buffer shape per parser, 4 to 10 bytes, with an emulation prevention byte inside the structure and up to 3 symbolic bytes after it; the last 0 to 3 bytes cut off"])

P("C29", "Parses with separate states are independent, in sequence and in parallel",
  "What parsing a stream returns and what its parser state remembers depend only on the bytes, the options and that state: another parse with a state of its own, before it, after it or at the same time in another thread, changes neither the result nor what is remembered, and results already handed out stay as they were. Reports of unsupported syntax add up over all threads.",
  ["inputs", "schedules", "histories"], "every pair of streams, order of parses and interleaving",
  "tests parse one thing at a time, mostly once per process, on one thread",
  ["src/h264_common.cc", "src/h264_bitstream_parser.cc", "src/h264_nal_unit_parser.cc"], [("no mutable state outside the parser state; atomic count of unsupported syntax", "src/h264_common.cc")], ["ParseBitstreamNALULength", "get_unimplemented_count", "fdump"],
  ["iso.cpp"], [dict(h="h_iso", opts=["--conc", 300], shards=4, reach=["done"], time=90), dict(h="h_iso_count", opts=["--conc", 300], reach=["done", "switched"])],
  "one parse executed symbolically with the other run, whole, before any one of its accesses to mutable global memory (the switch point is a symbolic variable); both compared with the same parses alone",
  ["5 kinds of stream each (parameter sets, slice, unsupported extension, prefix unit, broken units), 3 bits of one byte symbolic in each", "one context switch, before any of the first 16 accesses to mutable global memory; the other thread's parse runs to its end there", "a counterexample is replayed with two real threads over 20000 parses"],
  ["sequentially consistent memory; a switch between two accesses to memory no other thread can reach changes nothing"])

PYA = ["the scripts run under CPython; CrossHair's model of int, bytes, str, list and dict agrees with it (every counterexample is replayed on the plain interpreter before it is reported)", "the h264nal process is replaced by its output as C21/C23 define it; files are virtual"]
P("C25", "The split script cuts the file exactly where the resolution changes",
  "h264nal-split.py cuts a stream exactly before the start code (three or four bytes) of each SPS whose width or height differs from the previous SPS's, and nowhere else; SPSs without a known size and other NAL units never cause a cut. The numbered pieces, in order, are the input file byte for byte, the input is left alone, no file is written when there is nothing to cut, and an error of h264nal ends the script with an error status and no output.",
  ["inputs", "fault_sequences"], "every stream content, NAL unit sequence and sequence of sizes",
  "no test runs the script",
  ["tools/h264nal-split.py"], [("find_split_points", "tools/h264nal-split.py"), ("find_start_code_offset", "tools/h264nal-split.py"), ("split_file", "tools/h264nal-split.py"), ("parse_nal_units", "tools/h264nal-split.py")], ["parse_nal_units", "find_start_code_offset", "find_split_points", "split_file", "run_h264nal", "main"],
  [], [dict(h=x) for x in "p_start p_points p_points_long p_files p_parse p_main p_main_kinds p_args p_main_names p_main_many".split()],
  "the script's functions, and the script as a whole, against an independent statement of where the cuts are", ["file contents of up to 7 symbolic bytes for the start-code search and up to 6 for the cutting", "up to 3 NAL units with any integer type, width and height; up to 5 NAL units from a menu of 3", "h264nal output of up to 2 units (4 for the whole script)", "whole script on up to 130 cuts with one unit of up to 70 kB; any 3 of 8 kinds of unit (unknown sizes, subset SPSs of another size, PPS, SEI) between two SPSs; 6 forms of input name"], PYA, py="split")

P("C26", "The conformance script's table says what h264nal reported",
  "h264nal-conformance.py writes one CSV row per regular input file, in the order given, with every distinct resolution, profile and level of the file's parameter sets in stream order (level 1b as the profiles signal it), the exact numbers of NAL units, slice NAL units and parsed slice headers, and two statuses: 0 exactly when h264nal ended with status 0 and no message, otherwise why, each distinct message once with its count; and a shortfall of slice headers. Timeouts, failures to start and non-zero exits are reported, never hidden.",
  ["inputs", "fault_sequences"], "every sequence of units, messages, exit status and process failure",
  "no test runs the script",
  ["tools/h264nal-conformance.py"], [("analyze_file", "tools/h264nal-conformance.py"), ("run_h264nal", "tools/h264nal-conformance.py"), ("format_level", "tools/h264nal-conformance.py")], ["run_h264nal", "summarize_errors", "get_int_field", "format_level", "parse_sps_lines", "add_unique", "count_slice_nalus", "count_slice_headers", "get_slice_header_status", "analyze_file", "main", "write_csv"],
  [], [dict(h=x) for x in "p_level p_level_1b p_header_status p_status p_slices p_row p_big p_main p_args".split()] + [dict(h="p_files", shards=4)],
  "the script's functions, and the script as a whole over a virtual file system, against an independent statement of the table", ["up to 3 error messages of 4 kinds, exit statuses -1..4, timeout and failure to start", "2 units of 11 types with and without a parsed header", "2 parameter sets of 6 kinds and up to 2 further units per file; up to 3 files, one of them a directory; 2 or 3 files of 8 kinds each (contents, messages with quotes and commas, statuses, timeout, failure to start), the table to a file or stdout", "the 20 level numbers of Table A-1 and 8 profiles", "files of 300 units and runs with 101 messages"], PYA, py="conf")

P("C28", "The DPB script marks and lists reference frames as the standard does",
  "h264nal-dpb_parse.py prints one row per picture (slices with first_mb_in_slice 0), in stream order, with the reference pictures held before and after decoding it, list 0 as used by a P or SP picture, and the marking done. For frame-coded streams with one SPS the pictures held follow 8.2.5 (IDR, sliding window, every memory management control operation, frame_num wrap-around, long-term indices) and list 0 follows 8.2.4 (order by PicNum and LongTermPicNum, modification commands, number of active entries from the slice or its PPS). An error of h264nal ends the script with an error status and no output.",
  ["inputs", "histories"], "every sequence of pictures, marking and modification commands",
  "no test runs the script; marking depends on the whole history of the stream",
  ["tools/h264nal-dpb_parse.py"], [("simulate_dpb", "tools/h264nal-dpb_parse.py"), ("apply_rplm", "tools/h264nal-dpb_parse.py"), ("build_ref_pic_list0", "tools/h264nal-dpb_parse.py"), ("parse_frames", "tools/h264nal-dpb_parse.py")], ["run_h264nal", "parse_frames", "build_ref_pic_list0", "apply_rplm", "refs_used_str", "mmco_str", "simulate_dpb", "main"],
  [], [dict(h="p_list"), dict(h="p_one", shards=5), dict(h="p_two", shards=8), dict(h="p_window", shards=4), dict(h="p_mods", shards=6), dict(h="p_row", shards=4), dict(h="p_both", shards=4), dict(h="p_both3"), dict(h="p_args"), dict(h="p_wide", shards=4), dict(h="p_long", shards=4), dict(h="p_gop"), dict(h="p_pps", shards=3), dict(h="p_noise", shards=4), dict(h="p_maxfn", shards=4)],
  "the whole script on h264nal's text, against 8.2.4 and 8.2.5 written independently for frames; streams the standard does not allow (a command that names no picture, more reference frames than max_num_ref_frames) are outside the claim", ["MaxFrameNum 16, frame_num starting at 0, 13 or 15 so that it wraps at every place", "3 reference frames, then two pictures with any of 22 command lists each (up to two commands per picture), then one more; max_num_ref_frames 0..5", "any two modification commands of 10 on 3 short-term and 1 long-term frames", "initial list: any three frame numbers and current frame number (fully symbolic)", "one picture with any of 22 command lists and any of 10 modification commands; up to 16 reference frames, long-term indices up to 15, lists up to 32; streams of up to 36 pictures; every MaxFrameNum; PPS ids 0, 1, 7, 10, 255, re-sent with another default; any two of 7 other kinds of unit between the pictures"], PYA + ["B slices, fields, gaps in frame_num and streams with several SPSs are outside the claim (the script does not simulate them)"], py="dpb")

NOT_APPLICABLE = []
