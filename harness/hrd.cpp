#include "vk.h"
#include "ref_vui.h"
using namespace h264nal;
extern "C" void h_hrd() {
  VkStream st(0);
  auto s = H264HrdParametersParser::ParseHrdParameters(st.bb);
  Ref r(0);
  ref_hrd(r, s.get());
  VK_END(s, st, true, "hrd");
}
extern "C" void h_vui() {
  VkStream st(0);
  auto s = H264VuiParametersParser::ParseVuiParameters(st.bb);
  Ref r(0);
  ref_vui(r, s.get());
  VK_END(s, st, true, "vui");
}
