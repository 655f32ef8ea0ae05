// Draws arguments for an operation of the registry, inside its domain.
#pragma once
#include "gen.hpp"
#include "ops_api.hpp"
namespace pbt {
inline int opWidth(uint8_t t) { switch (t) { case O_vec2: case O_ivec2: case O_bvec2: return 2; case O_vec3: case O_ivec3: case O_bvec3: return 3; case O_vec4: case O_ivec4: case O_bvec4: case O_quat: case O_mat2: return 4; case O_mat3: return 9; case O_mat4: return 16; default: return 1; } }
inline char opKind(uint8_t t) { switch (t) { case O_int: case O_unsigned: case O_ivec2: case O_ivec3: case O_ivec4: return 'i'; case O_bool: case O_bvec2: case O_bvec3: case O_bvec4: return 'b'; default: return 'f'; } }
inline int opColumns(uint8_t t) { switch (t) { case O_mat2: return 2; case O_mat3: return 3; case O_mat4: return 4; default: return opWidth(t); } }
inline const char* opTypeName(uint8_t t) { static const char* N[] = {"float", "int", "unsigned", "bool", "vec2", "vec3", "vec4", "quat", "mat2", "mat3", "mat4", "ivec2", "ivec3", "ivec4", "bvec2", "bvec3", "bvec4"}; return N[t]; }

inline void drawFloats(Case& c, const Op& op, int k, float* f, const OpIn& in) {
    uint8_t t = op.types[k]; int n = opWidth(t);
    if (op.dom == 'T' && t == O_float) { f[0] = c.chance(4) ? float(c.below(2)) : float(c.below(1u << 24)) / float(1u << 24); c.payload(bitsOf(f[0])); return; }
    if (op.dom == 'P') { float u = float(c.below(1u << 20)) / float(1u << 20); f[0] = k == 0 ? 0.05f + 3.0f * u : k == 1 ? 0.1f + 8 * u : k == 2 ? 0.001f + 10 * u : in.f[2][0] * 1.01f + 1000 * u; c.payload(bitsOf(f[0])); return; }
    if (op.dom == 'M') { for (int i = 0; i < n; ++i) { f[i] = float(c.range(0, 60)) - 30.0f; c.payload(bitsOf(f[i])); } return; }
    unsigned shape = unsigned(c.below(8));
    if (shape == 7) { for (int i = 0; i < n; ++i) f[i] = anyFloat(c); return; }                         // anything, non-finite included
    if (shape == 6 && k > 0) {                                                                           // related to an earlier operand
        int j = int(c.below(unsigned(k))); const float* g = in.f[j]; float s = c.pick({1.0f, -1.0f, 2.0f, 0.5f, 1.00001f});
        for (int i = 0; i < n; ++i) f[i] = g[i] * s;
        if (c.coin()) f[c.below(unsigned(n))] = finite(c, 6);
        return;
    }
    if (shape >= 4 && (t == O_vec2 || t == O_vec3 || t == O_vec4 || t == O_quat)) {
        double s = 0, d[4]; for (int i = 0; i < n; ++i) { d[i] = finite(c, 3); s += d[i] * d[i]; }
        if (s == 0) { d[n - 1] = 1; s = 1; }
        for (int i = 0; i < n; ++i) f[i] = float(d[i] / std::sqrt(s));
        return;
    }
    if (shape >= 4 && (t == O_mat2 || t == O_mat3 || t == O_mat4)) {
        if (t == O_mat2) { auto m = matGen<2>(c); memcpy((void*)f, (const void*)&m, 16); } else if (t == O_mat3) { auto m = matGen<3>(c); memcpy((void*)f, (const void*)&m, 36); }
        else { auto m = matGen<4>(c); memcpy((void*)f, (const void*)&m, 64); }
        return;
    }
    if (shape == 3) { float a = finite(c, 6), b = finite(c, 6); for (int i = 0; i < n; ++i) f[i] = c.coin() ? a : b; return; }
    int e = shape == 2 ? 30 : 6;
    for (int i = 0; i < n; ++i) f[i] = finite(c, e);
}
inline void drawInts(Case& c, const Op& op, int k, int32_t* v, const OpIn& in) {
    int n = opWidth(op.types[k]); bool related = k > 0 && c.chance(5);
    if (op.dom == 'A') {
        for (int i = 0; i < n; ++i) { v[i] = anyInt(c); }
        for (;;) { int64_t up = 0, down = 0; for (int i = 0; i < n; ++i) (v[i] > 0 ? up : down) += v[i]; if (up <= INT32_MAX && down >= INT32_MIN) return; for (int i = 0; i < n; ++i) v[i] = v[i] / 2 + (v[i] & 1 ? i & 1 : 0); }
    }
    if (op.dom == 'K') {
        int64_t lim = INT32_MAX; int k0 = int(c.below(unsigned(n)));
        for (int i = 0; i < n; ++i) { int64_t x = anyInt(c), r = x < 0 ? -x : x; if (r > lim) r = r % lim + (r % lim == 0); if (r > 1) lim /= r; v[(k0 + i) % n] = int32_t(x < 0 ? -r : r); }
        return;
    }
    for (int i = 0; i < n; ++i) {
        int32_t x;
        if (op.dom == 'X') x = int32_t(c.below(unsigned(opColumns(op.types[0]))));
        else if (op.dom == 'S') x = k == 0 ? int32_t(c.below(1001)) : int32_t(c.below(16));
        else if (op.dom == 'M') x = int32_t(c.range(0, 60)) - 30;
        else if (op.dom == 'I') {
            if (related && c.coin()) x = in.i[c.below(unsigned(k))][i];
            else switch (c.below(4)) { case 0: x = int32_t(c.range(1, 9)); break; case 1: x = -int32_t(c.range(1, 9)); break; case 2: x = int32_t(c.range(1, 40000)); break; default: x = -int32_t(c.range(1, 40000)); }
            if (x == 0) x = 1;
        }
        else { x = related && c.coin() ? in.i[c.below(unsigned(k))][i] : anyInt(c); }
        v[i] = x; c.payload(uint32_t(x));
    }
}
inline void drawOperand(Case& c, const Op& op, int k, OpIn& in) {
    switch (opKind(op.types[k])) {
    case 'f': drawFloats(c, op, k, in.f[k], in); break;
    case 'i': drawInts(c, op, k, in.i[k], in); break;
    default: for (int i = 0; i < opWidth(op.types[k]); ++i) { in.b[k][i] = uint8_t(c.coin()); c.payload(in.b[k][i] + 2u * unsigned(i) + 16u * unsigned(k)); }
    }
}
inline std::string showOp(const Op& op, const OpIn& in) {
    std::string s = op.label; s += " on";
    for (int k = 0; k < op.nargs; ++k) { s += fmt(" %s(", opTypeName(op.types[k])); for (int i = 0; i < opWidth(op.types[k]); ++i) {
        char kd = opKind(op.types[k]); s += i ? "," : ""; s += kd == 'f' ? fmt("%.9g", double(in.f[k][i])) : kd == 'i' ? fmt("%d", in.i[k][i]) : fmt("%d", in.b[k][i]); } s += ")"; }
    return s;
}
inline void drawOp(Case& c, const Op& op, OpIn& in, const char* name = "call") {
    memset((void*)&in, 0, sizeof in);
    bool v = c.verbose; c.verbose = false;
    for (int k = 0; k < op.nargs; ++k) drawOperand(c, op, k, in);
    c.verbose = v;
    // where the operands lie: usually as malloc places them, sometimes only as aligned as their type asks for
    if (c.chance(4)) for (int k = 0; k < op.nargs; ++k) in.shift[k] = uint8_t(c.below(4));
    if (op.nargs == 0) { c.payload(1); c.payload(2); }
    if (c.verbose) c.say(std::string(name) + ": " + showOp(op, in) + ";");
}
inline std::string showOut(const OpOut& o, int i) { return o.kind[i] ? fmt("0x%08x", o.v[i]) : fmt("%.9g (%a)", fromBits(o.v[i]), fromBits(o.v[i])); }
} // namespace pbt
