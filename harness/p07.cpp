// P07: in checked builds an out-of-range index stops the program; an in-range one never does.
#include "gen.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/time.h>
using namespace pbt;

// runs f in a child; true if the child was stopped by abort() or a trap
template<class F> int childEnds(F f) {
    pid_t p = fork();
    if (p == 0) {
        signal(SIGABRT, SIG_DFL);
        int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 2); }
        itimerval lim = {{0, 0}, {20, 0}}; setitimer(ITIMER_PROF, &lim, nullptr);
        f(); _exit(0);
    }
    int st = 0; if (p < 0 || waitpid(p, &st, 0) != p) throw Discard{};
    if (WIFEXITED(st)) return WEXITSTATUS(st) ? -1 : 0;
    int s = WTERMSIG(st);
    return s == SIGABRT || s == SIGTRAP || s == SIGILL ? 1 : -s;
}
static volatile unsigned char g_sink;
template<class T> void touch(const T& t) { const unsigned char* p = (const unsigned char*)(const void*)&t; for (size_t i = 0; i < sizeof t; ++i) g_sink = (unsigned char)(g_sink + p[i]); }

template<class V> void bounds(Case& c, unsigned N) {
    // bad indices: near the end, powers of two, wrap-around values, anything
    unsigned idx; bool bad = !c.chance(4);
    if (!bad) idx = unsigned(c.below(N));
    else switch (c.below(5)) {
        case 0: idx = N; break; case 1: idx = N + unsigned(c.below(4)); break; case 2: idx = 1u << (3 + c.below(29)); break;
        case 3: idx = 0xffffffffu - unsigned(c.below(5)); break; default: idx = N + unsigned(c.below(0xffffffffull - N));
    }
    bool viaConst = c.coin(), write = !viaConst && c.coin();
    c.payload(idx); c.payload(~uint64_t(idx)); if (c.verbose) c.say(fmt("%s[%u] %s", Tr<V>::name(), idx, viaConst ? "const" : write ? "write" : "read"));
    V v; { std::vector<unsigned char> raw(sizeof(V)); bool b8 = sizeof(typename Tr<V>::T) == 1; unsigned how = unsigned(c.below(4));      // the contents are no business of the check
      for (size_t i = 0; i < raw.size(); i += b8 ? 1 : 4) if (b8) raw[i] = (unsigned char)c.coin(); else { uint32_t u = how == 0 ? 0 : how == 1 ? bitsOf(1.5f) : how == 2 ? uint32_t(c.below(1ull << 32)) : c.pick({0x7fc00000u, 0xffc00000u, 0x7f800000u, 0xff800000u, 0x80000000u, 0xffffffffu, 1u}); memcpy(&raw[i], &u, 4); }
      memcpy((void*)&v, raw.data(), sizeof v); if (c.verbose) c.say(fmt("contents %u", how)); }
    const V& k = v; ++c.oracle;
    int r = childEnds([&] { if (viaConst) { auto t = k[idx]; touch(t); } else if (write) { v[idx] = v[0]; touch(v); } else { auto t = v[idx]; touch(t); } });
    if (bad && r != 1) throw Fail{fmt("%s[%u] %s was not stopped (child result %d)", Tr<V>::name(), idx, viaConst ? "const read" : write ? "write" : "read", r)};
    if (!bad && r != 0) throw Fail{fmt("%s[%u] is in range but was stopped (child result %d)", Tr<V>::name(), idx, r)};
}
#define B(V, N) LAW(V##_) { bounds<V>(c, N); }
B(vec2, 2) B(vec3, 3) B(vec4, 4) B(ivec2, 2) B(ivec3, 3) B(ivec4, 4) B(bvec2, 2) B(bvec3, 3) B(bvec4, 4) B(mat2, 2) B(mat3, 3) B(mat4, 4) B(quat, 4)
