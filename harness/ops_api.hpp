// A uniform view of every public operation, so that the same generated calls can be made in several builds of the library.
#pragma once
#include <stdint.h>
struct OpIn { float f[16][16]; int32_t i[16][4]; uint8_t b[16][4]; uint8_t shift[16]; uint8_t alias[16]; uint8_t part[16]; };      // raw material of operand k; its place: that many alignments into its allocation, or (alias j+1) byte part[k] of operand j
struct OpOut { int n; uint32_t v[160]; uint8_t kind[160]; bool constChanged; };   // kind 0 float bits, 1 exact word
enum OpType : uint8_t { O_float, O_int, O_unsigned, O_bool, O_vec2, O_vec3, O_vec4, O_quat, O_mat2, O_mat3, O_mat4, O_ivec2, O_ivec3, O_ivec4, O_bvec2, O_bvec3, O_bvec4 };
struct Op { const char* label; char dom; unsigned mut; uint8_t nargs; uint8_t types[16]; void (*call)(const OpIn&, OpOut&); };
struct OpTable { const Op* ops; int n; };
extern "C" const OpTable* zcm_ops_table();
