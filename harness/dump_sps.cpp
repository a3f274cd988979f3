// the harnesses of sps.cpp with the dump as the observation (C21)
#define VK_DUMP 1
#include "sps.cpp"
// on a single line
extern "C" void h_sps_end1() { g_lvl = -1; h_sps_end(); }
extern "C" void h_sps_vui1() { g_lvl = -1; h_sps_vui(); }
