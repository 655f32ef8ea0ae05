#include "p06.hpp"
SWZ(s_ivec2_2, ivec2, ivec2, SETS2, N2_L2)
SWZ(s_ivec3_2, ivec3, ivec2, SETS3, N3_L2)
SWZ(s_ivec3_3, ivec3, ivec3, SETS3, N3_L3)
SWZ(s_ivec4_2, ivec4, ivec2, SETS4, N4_L2)
SWZ(s_ivec4_3, ivec4, ivec3, SETS4, N4_L3)
