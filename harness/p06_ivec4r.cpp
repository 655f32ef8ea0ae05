#include "p06.hpp"
#define SET(M, V, W) M(V, W, r, g, b, a)
SWZ(s_ivec4_4r, ivec4, ivec4, SET, N4_L4)
