// the harnesses of slice.cpp with the dump as the observation (C21)
#define VK_DUMP 1
#include "slice.cpp"
// on a single line
extern "C" void h_slice_mark1() { g_lvl = -1; h_slice_mark(); }
extern "C" void h_rplm1() { g_lvl = -1; h_rplm(); }
extern "C" void h_drpm1() { g_lvl = -1; h_drpm(); }
extern "C" void h_pwt1() { g_lvl = -1; h_pwt(); }
extern "C" void h_slice_wpd1() { g_lvl = -1; h_slice_wpd(); }
