// P15: orthogonal directions and the octahedral encoding of unit vectors.
#include "gen.hpp"
using namespace pbt;
LAW_W(orthogonal, 3) {
    vec3 v = vScaled<vec3>(c, 30, "v"); D3 d = dbl(v); double l = norm(d); c.require(l > 0);
    vec3 o = zcm::orthogonal(v); D3 e = dbl(o);
    CHECK(norm(e) > 0.3 * l, "orthogonal(%s) = %s is (nearly) zero", show(v).c_str(), show(o).c_str());
    near(c, dotd(d, e), 0, 4 * EPS * l * norm(e), "orthogonal . v");
}
LAW_W(orthogonalUnit, 3) {
    vec3 v = unitV<vec3>(c, "v"); D3 d = dbl(v);
    for (int k = 0; k < 2; ++k) { vec3 o = k ? zcm::orthogonal_branchless(v) : zcm::orthogonal(v); D3 e = dbl(o);
        CHECK(norm(e) > 0.1, "orthogonal(%s) = %s is (nearly) zero", show(v).c_str(), show(o).c_str());
        near(c, dotd(d, e), 0, 8 * EPS * (norm(e) + 1), k ? "orthogonal_branchless . v" : "orthogonal . v"); }
}
static vec3 dir(Case& c) {       // unit vectors incl. the equator, the poles and the octahedron's edges
    vec3 v = unitV<vec3>(c, "v");
    switch (c.below(5)) { case 0: put(v, 2, c.coin() ? -0.0f : 0.0f); break; case 1: put(v, unsigned(c.below(3)), std::ldexp(c.coin() ? -1.0f : 1.0f, -int(c.range(10, 140)))); break; default: return v; }
    double n = norm(dbl(v)); if (n < 1e-3) { put(v, 0, 1.0f); n = norm(dbl(v)); }
    for (unsigned i = 0; i < 3; ++i) put(v, i, float(at(v, i) / n));
    return shown(c, "v", v);
}
LAW_W(octRoundTrip, 4) {
    vec3 v = dir(c); vec2 e = zcm::encode_octahedral(v);
    CHECK(std::fabs(at(e, 0)) <= 1.000001f && std::fabs(at(e, 1)) <= 1.000001f, "encoding %s outside [-1,1]^2", show(e).c_str());
    vec3 r = zcm::decode_octahedral(e); near(c, dist(dbl(r), dbl(v)), 0, 1.5e-6, "|decode(encode(v)) - v|");
    // hemispheres map to the inside and the outside of the diamond
    double s = std::fabs(double(at(e, 0))) + std::fabs(double(at(e, 1)));
    if (at(v, 2) > 1e-5f) CHECK(s < 1, "upper hemisphere outside the diamond"); if (at(v, 2) < -1e-5f) CHECK(s > 1, "lower hemisphere inside the diamond");
}
LAW_W(octDecode, 4) {
    vec2 e; float x = float(int64_t(c.below(131073)) - 65536) / 65536.0f, y = float(int64_t(c.below(131073)) - 65536) / 65536.0f;
    switch (c.below(6)) { case 0: y = 1 - std::fabs(x); if (c.coin()) y = -y; break; case 1: x = c.coin() ? -1.0f : 1.0f; break; case 2: y = c.coin() ? -1.0f : 1.0f; break; case 3: x = 0; break; }
    x = recF(c, "x", x); y = recF(c, "y", y); put(e, 0, x); put(e, 1, y);
    vec3 d = zcm::decode_octahedral(e); near(c, norm(dbl(d)), 1, 16 * EPS, "|decode(e)|");
    // reference: unfold the octahedron in double
    double X = x, Y = y, Z = 1 - std::fabs(X) - std::fabs(Y); if (Z < 0) { X = (1 - std::fabs(double(y))) * (x >= 0 ? 1 : -1); Y = (1 - std::fabs(double(x))) * (y >= 0 ? 1 : -1); }
    D3 w{{X, Y, Z}}; near(c, dist(dbl(d), scaled(w, 1 / norm(w))), 0, 1e-6, "|decode(e) - reference|");
    vec3 b = zcm::decode_octahedral(zcm::encode_octahedral(d)); near(c, dist(dbl(b), dbl(d)), 0, 1.5e-6, "|decode(encode(decode(e))) - decode(e)|");
    if (std::fabs(x) < 0.999f && std::fabs(y) < 0.999f) { vec2 f = zcm::encode_octahedral(d); near(c, dist(dbl(f), dbl(e)), 0, 3e-6, "|encode(decode(e)) - e|"); }
}
