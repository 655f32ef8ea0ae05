#include "p06.hpp"
#define SET(M, V, W) M(V, W, s, t, p, q)
SWZ(s_vec4_4s, vec4, vec4, SET, N4_L4)
