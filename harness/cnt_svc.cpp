// the harnesses of svc.cpp with the count of unsupported structures as the observation (C20)
#define VK_COUNT 1
#include "svc.cpp"
