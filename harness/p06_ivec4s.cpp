#include "p06.hpp"
#define SET(M, V, W) M(V, W, s, t, p, q)
SWZ(s_ivec4_4s, ivec4, ivec4, SET, N4_L4)
