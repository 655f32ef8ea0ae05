// The registry ops.inc compiled against one build of the library.  C++11, public headers only.
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include "ops_api.hpp"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define OPS_MSAN 1
#endif
#endif
namespace {
using namespace zcm;
template<class T> struct Info;
#define INFO(T, E, N, src) template<> struct Info<T> { enum { code = O_##T, size = sizeof(E) * N }; static const void* from(const OpIn& in, int k) { return in.src[k]; } static void to(OpOut& o, const void* p) { for (int i = 0; i < N; ++i) word(o, (const char*)p + i * sizeof(E)); } \
    static void word(OpOut& o, const void* p) { E e; memcpy(&e, p, sizeof e); one(o, e); } static void one(OpOut& o, float x) { memcpy(&o.v[o.n], &x, 4); o.kind[o.n++] = 0; } static void one(OpOut& o, int32_t x) { o.v[o.n] = uint32_t(x); o.kind[o.n++] = 1; } \
    static void one(OpOut& o, uint32_t x) { o.v[o.n] = x; o.kind[o.n++] = 1; } static void one(OpOut& o, uint8_t x) { o.v[o.n] = x; o.kind[o.n++] = 1; } };
INFO(float, float, 1, f) INFO(int, int32_t, 1, i) INFO(unsigned, uint32_t, 1, i) INFO(bool, uint8_t, 1, b)
INFO(vec2, float, 2, f) INFO(vec3, float, 3, f) INFO(vec4, float, 4, f) INFO(quat, float, 4, f) INFO(mat2, float, 4, f) INFO(mat3, float, 9, f) INFO(mat4, float, 16, f)
INFO(ivec2, int32_t, 2, i) INFO(ivec3, int32_t, 3, i) INFO(ivec4, int32_t, 4, i) INFO(bvec2, uint8_t, 2, b) INFO(bvec3, uint8_t, 3, b) INFO(bvec4, uint8_t, 4, b)
// an operand at the very end of an allocation, by default one of exactly its size
template<class T> struct Box {
    char* mem; T* p; const void* src; bool mut;
    Box(const OpIn& in, int k, unsigned m, void** places) : mem(in.alias[k] ? nullptr : (char*)malloc(in.shift[k] * alignof(T) + sizeof(T))),
        p((T*)(void*)(mem ? mem + in.shift[k] * alignof(T) : (char*)places[in.alias[k] - 1] + in.part[k])), src(Info<T>::from(in, k)), mut((m >> k) & 1) {
        static_assert(sizeof(T) == size_t(Info<T>::size), "size"); if (mem) memcpy((void*)p, src, sizeof(T)); places[k] = (void*)p; }
    ~Box() { if (mem) free((void*)mem); }
    void after(OpOut& o) const { if (mut) Info<T>::to(o, p); else if (mem && memcmp((const void*)p, src, sizeof(T))) o.constChanged = true; }
    Box(const Box&) = delete; Box& operator=(const Box&) = delete;
};
inline void chk(const void* p, size_t n) {
#ifdef OPS_MSAN
    __msan_check_mem_is_initialized(p, n);
#else
    (void)p; (void)n;
#endif
}
template<class T> void put(OpOut& o, const T& t) { chk(&t, sizeof t); Info<T>::to(o, &t); }
inline void put(OpOut& o, const size_t& t) { chk(&t, sizeof t); for (int i = 0; i < 2; ++i) { o.v[o.n] = uint32_t(t >> (32 * i)); o.kind[o.n++] = 1; } }
template<class T> const T& kst(T& t) { return t; }
template<class T> const char* bytes(const T& t) { return (const char*)(const void*)&t; }
#define TAB(...)
#define BEG(id) static void op_##id(const OpIn& IN, OpOut& OUT) { (void)IN; void* places[16]; (void)places; OUT.n = 0; OUT.constChanged = false;
#define V(T, n, k, m) Box<T> n##_(IN, k, m, places); T& n = *n##_.p; (void)n;
#define IDC(a, b) a##b
#define ID(b) IDC(x, b)
#define OP0(lb_, dm_, mu_, ex_) BEG0(__LINE__) put(OUT, ex_); }
#define BEG0(id) BEG1(id)
#define BEG1(id) BEG(id)
#define OP1(lb_, dm_, mu_, T0, ex_) BEG0(__LINE__) V(T0, a, 0, mu_) put(OUT, ex_); a_.after(OUT); }
#define OP2(lb_, dm_, mu_, T0, T1, ex_) BEG0(__LINE__) V(T0, a, 0, mu_) V(T1, b, 1, mu_) put(OUT, ex_); a_.after(OUT); b_.after(OUT); }
#define OP3(lb_, dm_, mu_, T0, T1, T2, ex_) BEG0(__LINE__) V(T0, a, 0, mu_) V(T1, b, 1, mu_) V(T2, c, 2, mu_) put(OUT, ex_); a_.after(OUT); b_.after(OUT); c_.after(OUT); }
#define OP4(lb_, dm_, mu_, T0, T1, T2, T3, ex_) BEG0(__LINE__) V(T0, a, 0, mu_) V(T1, b, 1, mu_) V(T2, c, 2, mu_) V(T3, d, 3, mu_) put(OUT, ex_); a_.after(OUT); b_.after(OUT); c_.after(OUT); d_.after(OUT); }
#define OP5(lb_, dm_, mu_, T0, T1, T2, T3, T4, ex_) BEG0(__LINE__) V(T0, a, 0, mu_) V(T1, b, 1, mu_) V(T2, c, 2, mu_) V(T3, d, 3, mu_) V(T4, e, 4, mu_) put(OUT, ex_); a_.after(OUT); b_.after(OUT); c_.after(OUT); d_.after(OUT); e_.after(OUT); }
#define OP6(lb_, dm_, mu_, T0, T1, T2, T3, T4, T5, ex_) BEG0(__LINE__) V(T0, a, 0, mu_) V(T1, b, 1, mu_) V(T2, c, 2, mu_) V(T3, d, 3, mu_) V(T4, e, 4, mu_) V(T5, f, 5, mu_) put(OUT, ex_); a_.after(OUT); b_.after(OUT); c_.after(OUT); d_.after(OUT); e_.after(OUT); f_.after(OUT); }
#define OP9(lb_, dm_, mu_, T0, T1, T2, T3, T4, T5, T6, T7, T8, ex_) BEG0(__LINE__) V(T0, a, 0, mu_) V(T1, b, 1, mu_) V(T2, c, 2, mu_) V(T3, d, 3, mu_) V(T4, e, 4, mu_) V(T5, f, 5, mu_) V(T6, g, 6, mu_) V(T7, h, 7, mu_) V(T8, i, 8, mu_) put(OUT, ex_); a_.after(OUT); b_.after(OUT); c_.after(OUT); d_.after(OUT); e_.after(OUT); f_.after(OUT); g_.after(OUT); h_.after(OUT); i_.after(OUT); }
#define OP16(lb_, dm_, mu_, T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15, ex_) BEG0(__LINE__) V(T0, a, 0, mu_) V(T1, b, 1, mu_) V(T2, c, 2, mu_) V(T3, d, 3, mu_) V(T4, e, 4, mu_) V(T5, f, 5, mu_) V(T6, g, 6, mu_) V(T7, h, 7, mu_) V(T8, i, 8, mu_) V(T9, j, 9, mu_) V(T10, k, 10, mu_) V(T11, l_, 11, mu_) V(T12, m, 12, mu_) V(T13, n, 13, mu_) V(T14, o_, 14, mu_) V(T15, p, 15, mu_) put(OUT, ex_); a_.after(OUT); b_.after(OUT); c_.after(OUT); d_.after(OUT); e_.after(OUT); f_.after(OUT); g_.after(OUT); h_.after(OUT); i_.after(OUT); j_.after(OUT); k_.after(OUT); l__.after(OUT); m_.after(OUT); n_.after(OUT); o__.after(OUT); p_.after(OUT); }
#include "ops.inc"
#undef OP0
#undef OP1
#undef OP2
#undef OP3
#undef OP4
#undef OP5
#undef OP6
#undef OP9
#undef OP16
#define T_(A) Info<A>::code
#define NM0(id) NM1(id)
#define NM1(id) op_##id
#define OP0(l, d, m, e) {l, d, m, 0, {0}, NM0(__LINE__)},
#define OP1(l, d, m, A, e) {l, d, m, 1, {T_(A)}, NM0(__LINE__)},
#define OP2(l, d, m, A, B, e) {l, d, m, 2, {T_(A), T_(B)}, NM0(__LINE__)},
#define OP3(l, d, m, A, B, C, e) {l, d, m, 3, {T_(A), T_(B), T_(C)}, NM0(__LINE__)},
#define OP4(l, d, m, A, B, C, D, e) {l, d, m, 4, {T_(A), T_(B), T_(C), T_(D)}, NM0(__LINE__)},
#define OP5(l, d, m, A, B, C, D, E, e) {l, d, m, 5, {T_(A), T_(B), T_(C), T_(D), T_(E)}, NM0(__LINE__)},
#define OP6(l, d, m, A, B, C, D, E, F, e) {l, d, m, 6, {T_(A), T_(B), T_(C), T_(D), T_(E), T_(F)}, NM0(__LINE__)},
#define OP9(l, d, m, A, ...) {l, d, m, 9, {T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A)}, NM0(__LINE__)},
#define OP16(l, d, m, A, ...) {l, d, m, 16, {T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A), T_(A)}, NM0(__LINE__)},
const Op g_ops[] = {
#include "ops.inc"
};
const OpTable g_table = {g_ops, int(sizeof g_ops / sizeof *g_ops)};
}
extern "C" const OpTable* zcm_ops_table() { return &g_table; }
