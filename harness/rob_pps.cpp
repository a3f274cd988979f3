// the harnesses of pps.cpp, observing only memory safety, defined behaviour, leaks and termination (C19)
#define VK_ROB 1
#include "pps.cpp"
