// the harnesses of pps.cpp with the dump as the observation (C21)
#define VK_DUMP 1
#include "pps.cpp"
extern "C" void h_pps_line() { vk_tape_ue(0, 3); vk_tape_ue(0, 1); vk_tape_u(0, 2, vk_u("f", 2)); g_lvl = -1; run(1); }
