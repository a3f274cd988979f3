// the harnesses of svc.cpp with the dump as the observation (C21)
#define VK_DUMP 1
#include "svc.cpp"
// on a single line
extern "C" void h_nalhdr1() { g_lvl = -1; h_nalhdr(); }
extern "C" void h_spssvc1() { g_lvl = -1; h_spssvc(); }
extern "C" void h_spsext1() { g_lvl = -1; h_spsext(); }
extern "C" void h_prefix1() { g_lvl = -1; h_prefix(); }
extern "C" void h_shise_wpd1() { g_lvl = -1; h_shise_wpd(); }
extern "C" void h_shise_il1() { g_lvl = -1; h_shise_il(); }
extern "C" void h_shise_il21() { g_lvl = -1; h_shise_il2(); }
