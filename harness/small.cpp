// histories and streams in the small-footprint build (C24): no dump is available, units are compared by their fields
#define VK_SMALL 1
#include "hist.cpp"
extern "C" void s_hist() { history(2); }
extern "C" void s_stream() { stream(2); }
extern "C" void s_lenstream() { lenstream(2); }
