// P30: the same calls in builds of the library made with other compilers, optimisation levels and settings.
#include "ops_gen.hpp"
#include <dlfcn.h>
using namespace pbt;
namespace {
struct Lib { std::string name; const OpTable* t; };
const std::vector<Lib>& libs() {
    static std::vector<Lib> v;
    if (v.empty()) {
        const char* e = getenv("OPS_LIBS"); std::istringstream s(e ? e : ""); std::string w;
        while (std::getline(s, w, ':')) { auto p = w.find('='); void* h = dlopen(w.substr(p + 1).c_str(), RTLD_NOW | RTLD_LOCAL);
            auto f = h ? (const OpTable* (*)())dlsym(h, "zcm_ops_table") : nullptr; if (!f) { fprintf(stderr, "%s\n", dlerror()); _exit(3); }
            v.push_back({w.substr(0, p), f()}); }
        for (auto& l : v) if (l.t->n != v[0].t->n) _exit(3);
        if (v.size() < 2) _exit(3);
    }
    return v;
}
bool close(uint32_t a, uint32_t b, double big) {
    float x = fromBits(a), y = fromBits(b);
    if (x == y || (std::isnan(x) && std::isnan(y))) return true;
    return ulps(x, y) <= 64 || std::fabs(double(x) - y) <= 1e-5 * big;
}
void agree(Case& c, int idx) {
    auto& L = libs(); const Op& op = L[0].t->ops[idx]; OpIn in; drawOp(c, op, in);
    OpOut o, p; op.call(in, o);
    double big = 0; for (int i = 0; i < o.n; ++i) if (!o.kind[i] && std::isfinite(fromBits(o.v[i]))) big = std::max(big, double(std::fabs(fromBits(o.v[i]))));
    for (size_t l = 1; l < L.size(); ++l) {
        const Op& q = L[l].t->ops[idx]; q.call(in, p);
        CHECK(p.n == o.n, "%s", op.label);
        for (int i = 0; i < o.n; ++i) {
            ++c.oracle;
            if (o.kind[i] ? o.v[i] != p.v[i] : !close(o.v[i], p.v[i], big))
                throw Fail{fmt("%s, word %d of the result: %s in build '%s' but %s in build '%s'", op.label, i, showOut(o, i).c_str(), L[0].name.c_str(), showOut(p, i).c_str(), L[l].name.c_str())};
        }
    }
}
}
LAW(every_operation_agrees) { agree(c, int(c.below(unsigned(libs()[0].t->n)))); }
