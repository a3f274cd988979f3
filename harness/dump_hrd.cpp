// the harnesses of hrd.cpp with the dump as the observation (C21)
#define VK_DUMP 1
#include "hrd.cpp"
// on a single line
extern "C" void h_hrd1() { g_lvl = -1; h_hrd(); }
