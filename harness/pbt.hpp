// Property-based testing engine used by every C++ harness in this directory.
//
// A "law" is a function over a stream of choices.  Choices come from a seeded
// generator (search), from a recorded list (shrinking and replay) or from the
// bytes of a libFuzzer input (coverage-guided search).  Cases run in worker
// processes; the choices drawn so far live in shared memory, so a case that
// aborts, traps, is killed by a sanitizer or never ends is still known exactly.
// Shrinking works on the choice list, one forked child per attempt.
#pragma once
#include <algorithm>
#include <array>
#include <cfenv>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <string>
#include <sstream>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define PBT_UNPOISON(p, n) __msan_unpoison(p, n)
#define PBT_MUTE 1      // libstdc++'s strings are not instrumented: inputs are rendered by the other builds
#endif
#endif
#ifndef PBT_UNPOISON
#define PBT_UNPOISON(p, n) (void)0
#define PBT_MUTE 0
#endif
namespace pbt {

constexpr int MAXCH = 8192, MAXLAW = 640, MSGLEN = 6000;
constexpr uint64_t FPBITS = 1ull << 26;

struct Shm {
    volatile uint64_t tick;          // bumped at the start of every case
    volatile uint32_t busy, law, n;
    uint64_t ch[MAXCH];
    char msg[MSGLEN];
    uint64_t evals, discarded, nontrivial, oracle;
    uint64_t lawEvals[MAXLAW], lawNontriv[MAXLAW];
};

struct Fail { std::string msg; };
struct Discard {};

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t mixh(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

extern std::vector<float> g_dict;    // numeric literals mined from the tree under test
extern std::vector<int32_t> g_idict;

enum Mode { SEARCH, LIST, BYTES };

struct Case {
    Mode mode = SEARCH;
    uint64_t rng = 0;
    Shm* shm = nullptr;
    const uint64_t* list = nullptr; size_t nlist = 0, ilist = 0;
    const uint8_t* by = nullptr; size_t nby = 0;
    bool verbose = false; int vfd = -1;
    std::string text;                // rendered inputs (verbose only)
    uint64_t fp = 0;
    bool interesting = true;
    unsigned oracle = 0;
    std::vector<float> pool;         // floats drawn so far in this case
    std::vector<int32_t> ipool;
    uint64_t first = 0; bool haveFirst = false, varied = false;

    void reset() { fp = 0x1234567; interesting = true; oracle = 0; pool.clear(); ipool.clear();
                   haveFirst = varied = false; text.clear(); shm->n = 0; }
    uint64_t below(uint64_t n) {
        uint64_t v = 0;
        if (n == 1) return 0;
        if (mode == SEARCH) { v = splitmix(rng); if (n) v = uint64_t((__uint128_t(v) * n) >> 64); }
        else if (mode == LIST) { v = ilist < nlist ? list[ilist] : 0; ++ilist; if (n) v %= n; }
        else {
            int k = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
            for (int i = 0; i < k && nby; ++i, ++by, --nby) v |= uint64_t(*by) << (8 * i);
            if (n) v %= n;
        }
        if (shm->n < MAXCH) { shm->ch[shm->n] = v; shm->n = shm->n + 1; }
        fp = mixh(fp, v);
        return v;
    }
    bool coin() { return below(2); }
    bool chance(unsigned k) { return below(k) == k - 1; }   // 1 in k, simplest = false
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
    template<class T> T pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }

    void payload(uint64_t v) { if (!haveFirst) { first = v; haveFirst = true; } else if (v != first) varied = true; }
    template<class... A> void note(const char* name, const char* fmt, A... a) {
        if (!verbose) return;
        char b[512]; snprintf(b, sizeof b, fmt, a...);
        say(std::string(name) + "=" + b);
    }
    void say(const std::string& s) { if (verbose) { text += s; text += " "; if (vfd >= 0) { (void)!write(vfd, (s + " ").data(), s.size() + 1); } } }
    [[noreturn]] void discard() { throw Discard{}; }
    void require(bool c) { if (!c) discard(); }
};

inline std::string fmt(const char* f, ...) {
    char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}

using LawFn = void (*)(Case&);
struct Law { const char* name; LawFn fn; unsigned weight; bool mute, sweep; };
std::vector<Law>& laws();
struct Reg { Reg(const char* n, LawFn f, unsigned w, bool sweep = false) { laws().push_back({n, f, w, strchr(n, '.') != nullptr, sweep}); } };
// PBT_NO_ORACLE: the laws of another property run for what a sanitizer says about them; their comparisons do not count here
#ifdef PBT_NO_ORACLE
#define PBT_LAW_NAME(name) PBT_NO_ORACLE "." #name
#else
#define PBT_LAW_NAME(name) #name
#endif
#define LAW_W(name, w) static void law_##name(pbt::Case&); static pbt::Reg reg_##name(PBT_LAW_NAME(name), law_##name, w); static void law_##name(pbt::Case& c)
#define LAW(name) LAW_W(name, 1)
// a law whose single draw is everyFloat(): random in a search, every one of the 2^32 floats in the thorough tier
#define LAW_SWEEP(name) static void law_##name(pbt::Case&); static pbt::Reg reg_##name(PBT_LAW_NAME(name), law_##name, 1, true); static void law_##name(pbt::Case& c)

// ---- oracle comparisons -------------------------------------------------------------------
#define CHECK(cond, ...) do { ++c.oracle; if (!(cond)) throw pbt::Fail{pbt::fmt("%s: ", #cond) + pbt::fmt(__VA_ARGS__)}; } while (0)

inline uint32_t bitsOf(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float fromBits(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline bool same(float a, float b) { return bitsOf(a) == bitsOf(b) || (std::isnan(a) && std::isnan(b)); }
inline bool sameVal(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }   // 0 == -0

inline void eqBits(Case& c, float got, float want, const char* what, int i = -1) {
    ++c.oracle;
    if (!same(got, want)) throw Fail{fmt("%s[%d]: got %.9g (%a) expected %.9g (%a)", what, i, got, got, want, want)};
}
inline void eqVal(Case& c, float got, float want, const char* what, int i = -1) {
    ++c.oracle;
    if (!sameVal(got, want)) throw Fail{fmt("%s[%d]: got %.9g (%a) expected %.9g (%a)", what, i, got, got, want, want)};
}
inline void eqInt(Case& c, int64_t got, int64_t want, const char* what, int i = -1) {
    ++c.oracle;
    if (got != want) throw Fail{fmt("%s[%d]: got %lld expected %lld", what, i, (long long)got, (long long)want)};
}
// |got - want| <= tol, everything finite
inline void near(Case& c, double got, double want, double tol, const char* what, int i = -1) {
    ++c.oracle;
    if (!(std::fabs(got - want) <= tol))
        throw Fail{fmt("%s[%d]: got %.9g expected %.9g, off by %.3g, tolerance %.3g", what, i, got, want, std::fabs(got - want), tol)};
}

// ---- number generators ---------------------------------------------------------------------
inline float recF(Case& c, const char* name, float v) {
    c.pool.push_back(v); c.payload(bitsOf(v)); c.note(name, "%.9g", v); return v;
}
inline float rawFinite(Case& c, int emax) {
    switch (c.below(10)) {
    case 0: return float(c.range(0, 16)) - 8.0f + 0.0f;
    case 1: return float(int(c.range(-64, 64))) / 8.0f;
    case 2: { static const float S[] = {0.0f, 1.0f, -1.0f, -0.0f, 0.5f, -0.5f, 2.0f, -2.0f, 1.5f, 0.25f, 3.0f, 1.00000012f, 0.99999994f,
                1e-6f, 1e-3f, 10.0f, 100.0f, 1e-4f, 0.1f, 0.3f, -0.1f, 1.5707964f, 3.1415927f, 6.2831855f, 0.70710678f, -0.70710678f, 0.57735027f};
              return S[c.below(sizeof S / sizeof *S)]; }
    case 3: { if (g_dict.empty()) return 1.0f;
              float v = g_dict[c.below(g_dict.size())];
              switch (c.below(6)) { case 1: v = std::nextafterf(v, INFINITY); break; case 2: v = std::nextafterf(v, -INFINITY); break;
                                    case 3: v = -v; break; case 4: v *= 1.01f; break; case 5: v *= 0.99f; break; }
              return v; }
    case 4: { if (c.pool.empty()) return 0.0f;
              float v = c.pool[c.below(c.pool.size())];
              switch (c.below(6)) { case 1: return -v; case 2: return std::nextafterf(v, INFINITY); case 3: return std::nextafterf(v, -INFINITY);
                                    case 4: return v * 2.0f; case 5: return v * 0.5f; }
              return v; }
    case 5: { float v = std::ldexp(1.0f, int(c.range(0, 2 * emax)) - emax); return c.coin() ? -v : v; }
    case 6: case 7: { float v = std::ldexp(1.0f + float(c.below(1u << 23)) / float(1 << 23), int(c.range(0, 2 * emax)) - emax); return c.coin() ? -v : v; }
    default: { float v = float(c.below(1u << 24)) / float(1 << 24); v *= float(1 << c.below(6)); return c.coin() ? -v : v; }
    }
}
// finite, |x| in {0} u [2^-emax-1, 2^emax+1]
inline float finite(Case& c, int emax, const char* name = "x") {
    float v = rawFinite(c, emax);
    if (!(std::fabs(v) <= std::ldexp(1.0f, std::min(emax, 126) + 1))) v = 1.0f;
    if (v != 0.0f && std::fabs(v) < std::ldexp(1.0f, -emax - 1)) v = std::copysign(std::ldexp(1.0f, -emax), v);
    return recF(c, name, v);
}
// any float at all: infinities, NaNs, denormals, extremes, random bits
inline float anyFloat(Case& c, const char* name = "x") {
    float v;
    switch (c.below(5)) {
    case 0: case 1: v = rawFinite(c, 40); break;
    case 2: { static const uint32_t S[] = {0, 0x80000000u, 0x3f800000u, 0xbf800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00000u, 0x7f800001u,
                1u, 0x80000001u, 0x007fffffu, 0x00800000u, 0x80800000u, 0x7f7fffffu, 0xff7fffffu, 0x4b000000u, 0x4b800000u, 0x4affffffu, 0xcb000000u, 0x3effffffu, 0x3f000000u, 0x4f000000u, 0xcf000000u, 0x5f000000u};
              v = fromBits(S[c.below(sizeof S / 4)]); break; }
    case 3: v = fromBits(uint32_t(c.below(1ull << 32))); break;
    default: v = std::ldexp(1.0f + float(c.below(1u << 23)) / float(1 << 23), int(c.range(0, 253)) - 126); if (c.coin()) v = -v;
    }
    return recF(c, name, v);
}
inline float everyFloat(Case& c, const char* name = "x") { c.payload(~0ull); return recF(c, name, fromBits(uint32_t(c.below(1ull << 32)))); }
// any finite float
inline float anyFinite(Case& c, const char* name = "x") {
    float v = anyFloat(c, name);
    if (!std::isfinite(v)) { v = std::isnan(v) ? 0.75f : std::copysign(3.0e38f, v); c.pool.back() = v; c.note(name, "->%.9g", v); }
    return v;
}
inline int32_t anyInt(Case& c, const char* name = "i") {
    int32_t v;
    switch (c.below(7)) {
    case 0: v = int32_t(c.range(0, 16)) - 8; break;
    case 1: { static const int32_t S[] = {0, 1, -1, 2, -2, 7, 8, 15, 16, 31, 32, 255, 256, 65535, 65536, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1};
              v = S[c.below(sizeof S / 4)]; break; }
    case 2: v = c.ipool.empty() ? 3 : c.ipool[c.below(c.ipool.size())]; break;
    case 3: v = int32_t(c.range(-1000, 1000)); break;
    case 4: v = g_idict.empty() ? 4 : g_idict[c.below(g_idict.size())]; if (c.coin()) v = v == INT32_MIN ? v : -v; break;
    case 5: v = int32_t(1u << c.below(32)); if (c.coin()) v = int32_t(uint32_t(v) - 1u); break;
    default: v = int32_t(uint32_t(c.below(1ull << 32)));
    }
    c.ipool.push_back(v); c.payload(uint32_t(v)); c.note(name, "%d", v);
    return v;
}

// ---- engine --------------------------------------------------------------------------------
#ifdef PBT_MAIN
std::vector<float> g_dict; std::vector<int32_t> g_idict;
std::vector<Law>& laws() { static std::vector<Law> v; return v; }

static Shm* newShm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Shm*>(p);
}
// processor time a child has used: a loaded or suspended machine makes a case slow, not endless
static double cpuOf(pid_t p) { clockid_t k; timespec t; if (clock_getcpuclockid(p, &k) || clock_gettime(k, &t)) return 0; return t.tv_sec + 1e-9 * t.tv_nsec; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// 0 passed, 1 failed, 2 discarded
static int evalCase(Case& c, unsigned law) {
    Shm* s = c.shm; s->law = law; c.reset(); c.fp = mixh(c.fp, law);
    s->msg[0] = 0; s->busy = 1; s->tick = s->tick + 1;
    int r = 0;
    try { laws()[law].fn(c); }
    catch (const Fail& f) { snprintf(s->msg, MSGLEN, "%s", f.msg.c_str()); r = laws()[law].mute ? 0 : 1; }
    catch (const Discard&) { r = 2; }
    s->busy = 0;
    return r;
}
static bool nontrivialCase(const Case& c) { return c.interesting && c.oracle > 0 && c.varied; }

struct Found { unsigned law = 0; std::vector<uint64_t> ch; std::string msg; };

// run one recorded case in a child; "" if it passes, otherwise what happened
static std::string runIsolated(Shm* s, unsigned law, const std::vector<uint64_t>& ch, std::string* text, bool verbose, double limit = 10) {
    int pf[2]; if (pipe(pf)) exit(3);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
        close(pf[0]);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (!verbose) { if (!freopen("/dev/null", "w", stderr)) _exit(9); }
        Case c; c.mode = LIST; c.shm = s; c.list = ch.data(); c.nlist = ch.size(); c.verbose = verbose && !PBT_MUTE; c.vfd = verbose ? pf[1] : -1;
        // the list must not alias the buffer that is being rewritten
        std::vector<uint64_t> copy = ch; c.list = copy.data();
        int r = evalCase(c, law);
        _exit(r == 1 ? 10 : 0);
    }
    close(pf[1]);
    if (text) { char b[4096]; ssize_t k; text->clear();
        struct timeval tv; fd_set fs; double end = now() + limit;
        for (;;) { FD_ZERO(&fs); FD_SET(pf[0], &fs); tv.tv_sec = 0; tv.tv_usec = 200000;
            if (select(pf[0] + 1, &fs, nullptr, nullptr, &tv) > 0) { k = read(pf[0], b, sizeof b); if (k <= 0) break; text->append(b, k); }
            else if (now() > end) break; } }
    close(pf[0]);
    int st = 0; double end = now() + limit; bool hung = false;
    while (waitpid(p, &st, WNOHANG) == 0) { if (now() > end && (cpuOf(p) > limit || now() > end + 20 * limit)) { hung = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; } usleep(200); }
    if (hung) return "does not terminate";
    if (WIFSIGNALED(st)) return fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    if (WEXITSTATUS(st) == 0) return "";
    if (WEXITSTATUS(st) == 10) return s->msg;
    return fmt("exited with status %d (sanitizer report or abort)", WEXITSTATUS(st));
}

static void shrink(Shm* s, Found& f) {
    double end = now() + 12; int budget = 1500;
    auto bad = [&](const std::vector<uint64_t>& ch, std::string& m) {
        if (--budget < 0 || now() > end) return false;
        m = runIsolated(s, f.law, ch, nullptr, false, 2); return !m.empty(); };
    bool progress = true; std::string m;
    while (progress && budget > 0 && now() < end) {
        progress = false;
        for (size_t blk = f.ch.size() / 2 + 1; blk >= 1; blk /= 2) {
            for (size_t i = 0; i + blk <= f.ch.size();) {
                auto t = f.ch; t.erase(t.begin() + i, t.begin() + i + blk);
                if (bad(t, m)) { f.ch = t; f.msg = m; progress = true; } else i += blk;
                if (budget < 0) return;
            }
            if (blk == 1) break;
        }
        for (size_t i = 0; i < f.ch.size(); ++i) {
            if (!f.ch[i]) continue;
            auto t = f.ch; t[i] = 0;
            if (bad(t, m)) { f.ch = t; f.msg = m; progress = true; continue; }
            for (uint64_t step = f.ch[i] / 2; step; step /= 2) {
                t = f.ch; t[i] -= step;
                if (bad(t, m)) { f.ch = t; f.msg = m; progress = true; }
                if (f.ch[i] <= step) step = f.ch[i];
                if (budget < 0) return;
            }
        }
    }
}

static std::string jstr(const std::string& s) {
    PBT_UNPOISON(s.data(), s.size()); std::string o = "\"";
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
    return o + "\"";
}
struct Out {
    std::string s;
    Out& operator<<(const std::string& x) { s += x; return *this; }
    Out& operator<<(const char* x) { s += x; return *this; }
    Out& operator<<(uint64_t x) { s += fmt("%llu", (unsigned long long)x); return *this; }
    Out& operator<<(double x) { s += fmt("%.6g", x); return *this; }
    std::string str() const { return s; }
};
static void writeFile(const std::string& path, const void* p, size_t n) { FILE* h = fopen(path.c_str(), "wb"); if (!h || fwrite(p, 1, n, h) != n || fclose(h)) { perror(path.c_str()); exit(3); } }
static std::string replayText(const Found& f) {
    Out o; o << laws()[f.law].name << "\n";
    for (auto v : f.ch) o << v << " ";
    o << "\n"; return o.str();
}

static void loadDict(const char* path) {
    FILE* d = fopen(path, "r"); double v = 0; if (!d) return;
    while (fscanf(d, "%lf", &v) == 1) { if (std::fabs(v) < 3e38) g_dict.push_back(float(v)); if (v == std::floor(v) && std::fabs(v) < 2e9) g_idict.push_back(int32_t(v)); }
    fclose(d);
}

int realMain(int argc, char** argv) {
    uint64_t seed = 1, cases = 10000; unsigned workers = 4; double limit = 60; std::string out, replay, only, dict, bytes, fpfile; bool list = false, fast = false, sweep = false; uint64_t salt = 0;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto nx = [&] { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--cases") cases = strtoull(nx().c_str(), 0, 10);
        else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--time") limit = atof(nx().c_str());
        else if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--law") only = nx();
        else if (a == "--dict") dict = nx(); else if (a == "--bytes") bytes = nx(); else if (a == "--fp") fpfile = nx(); else if (a == "--list") list = true; else if (a == "--fast") fast = true; else if (a == "--sweep") sweep = true; else if (a == "--sweeps") list = sweep = true; else if (a == "--salt") salt = strtoull(nx().c_str(), 0, 10); }
    if (!dict.empty()) loadDict(dict.c_str());
    std::sort(laws().begin(), laws().end(), [](const Law& a, const Law& b) { return strcmp(a.name, b.name) < 0; });
    if (list) { for (auto& l : laws()) if (!sweep || l.sweep) puts(l.name); return 0; }
    if (laws().empty() || laws().size() > MAXLAW) { fprintf(stderr, "bad law count\n"); return 3; }
    if (!replay.empty()) {
        std::ifstream in(replay); std::string line, name; std::vector<uint64_t> ch;
        while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; if (name.empty()) { name = line; continue; }
            std::istringstream ls(line); uint64_t v; while (ls >> v) ch.push_back(v); }
        for (unsigned l = 0; l < laws().size(); ++l) if (name == laws()[l].name) {
            std::string text, m = runIsolated(newShm(), l, ch, &text, true);
            printf("law: %s\ninputs: %s\n%s\n", name.c_str(), text.c_str(), m.empty() ? "PASS" : ("FAIL " + m).c_str());
            return m.empty() ? 0 : 1; }
        fprintf(stderr, "replay: unknown law '%s'\n", name.c_str()); return 3;
    }
    std::vector<unsigned> order; for (unsigned l = 0; l < laws().size(); ++l) if (only.empty() || ("," + only + ",").find(std::string(",") + laws()[l].name + ",") != std::string::npos) for (unsigned k = 0; k < laws()[l].weight; ++k) order.push_back(l);
    if (order.empty()) return 3;
    std::vector<Shm*> sh; std::vector<pid_t> pid; double t0 = now();
    auto fpmap = static_cast<uint64_t*>(mmap(nullptr, FPBITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<uint8_t> raw;
    if (!bytes.empty()) { workers = 1; std::ifstream in(bytes, std::ios::binary); raw.assign(std::istreambuf_iterator<char>(in), {}); if (raw.size() < 2) return 3; }
    for (unsigned w = 0; w < workers; ++w) {
        sh.push_back(newShm()); fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            Shm* s = sh[w]; Case c; c.shm = s; uint64_t st = seed * 0x9E3779B97F4A7C15ull + w * 7919 + salt * 104729;
            if (!bytes.empty()) { c.mode = BYTES; c.by = raw.data() + 1; c.nby = raw.size() - 1; _exit(evalCase(c, raw[0] % laws().size()) == 1 ? 10 : 0); }
            uint64_t nn = cases / workers + 1; double end = t0 + limit;
            if (sweep) {            // the only law, all of its inputs
                for (uint64_t i = w; i < (1ull << 32); i += workers) {
                    if ((i & 0xffff) == w && now() > end) _exit(0);
                    uint64_t one = uint32_t(uint32_t(i) * 2654435761u); c.mode = LIST; c.list = &one; c.nlist = 1; c.ilist = 0;
                    int r = evalCase(c, order[0]); if (r == 1) _exit(10);
                    ++s->evals; s->oracle += c.oracle; if (r == 2) ++s->discarded; else if (c.oracle) ++s->nontrivial;
                }
                _exit(0);
            }
            for (uint64_t i = 0; i < nn; ++i) {
                if ((i & 255) == 0 && now() > end) break;
                c.rng = splitmix(st); unsigned l = order[(i + w) % order.size()];
                int r = evalCase(c, l);
                if (r == 1) _exit(10);
                ++s->evals; ++s->lawEvals[l]; s->oracle += c.oracle;
                if (r == 2) { ++s->discarded; continue; }
                if (nontrivialCase(c)) { ++s->nontrivial; ++s->lawNontriv[l]; uint64_t b = c.fp % FPBITS; __atomic_fetch_or(&fpmap[b / 64], 1ull << (b % 64), __ATOMIC_RELAXED); }
            }
            _exit(0);
        }
        pid.push_back(p);
    }
    bool failed = false; Found f; unsigned alive = workers; std::vector<uint64_t> lastTick(workers, 0); std::vector<double> since(workers, now()), cpu(workers, 0);
    while (alive) {
        usleep(20000);
        for (unsigned w = 0; w < workers; ++w) {
            if (!pid[w]) continue;
            int st; pid_t r = waitpid(pid[w], &st, WNOHANG); bool hang = false;
            if (r == 0) { if (sh[w]->tick != lastTick[w]) { lastTick[w] = sh[w]->tick; since[w] = now(); cpu[w] = cpuOf(pid[w]); continue; }
                else if (sh[w]->busy && now() - since[w] > 20 && (cpuOf(pid[w]) - cpu[w] > 20 || now() - since[w] > 200)) { hang = true; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); } else continue; }
            pid[w] = 0; --alive;
            if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (!hang && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !sh[w]->busy) { fprintf(stderr, "worker killed from outside\n"); return 3; }
            if (!failed) { failed = true; f.law = sh[w]->law; f.ch.assign(sh[w]->ch, sh[w]->ch + sh[w]->n);
                f.msg = hang ? "does not terminate" : WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : WEXITSTATUS(st) == 10 ? std::string(sh[w]->msg) : fmt("exited with status %d", WEXITSTATUS(st)); }
        }
        if (failed) for (unsigned w = 0; w < workers; ++w) if (pid[w]) { kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); pid[w] = 0; --alive; }
    }
    if (fast) { if (failed) printf("%s\n", laws()[f.law].name); return failed; }      // no shrinking, no report
    Shm tot; memset((void*)&tot, 0, sizeof tot);
    for (auto* s : sh) { tot.evals += s->evals; tot.discarded += s->discarded; tot.nontrivial += s->nontrivial; tot.oracle += s->oracle;
        for (unsigned l = 0; l < laws().size(); ++l) { tot.lawEvals[l] += s->lawEvals[l]; tot.lawNontriv[l] += s->lawNontriv[l]; } }
    uint64_t distinct = 0; for (uint64_t i = 0; i < FPBITS / 64; ++i) distinct += __builtin_popcountll(fpmap[i]);
    if (!fpfile.empty()) writeFile(fpfile, fpmap, FPBITS / 8);
    Shm* s0 = newShm(); bool confirmed = false; std::string text;
    if (failed) {
        std::string m = runIsolated(s0, f.law, f.ch, nullptr, false);
        confirmed = !m.empty();
        if (confirmed) { f.msg = m; shrink(s0, f); f.msg = runIsolated(s0, f.law, f.ch, &text, true); }
    }
    Out o;
    o << "{\"evals\":" << tot.evals << ",\"discarded\":" << tot.discarded << ",\"nontrivial\":" << tot.nontrivial << ",\"oracle\":" << tot.oracle << ",\"distinct\":" << distinct << ",\"wall\":" << now() - t0 << ",\"laws\":{";
    for (unsigned l = 0; l < laws().size(); ++l) o << (l ? "," : "") << jstr(laws()[l].name) << ":[" << tot.lawEvals[l] << "," << tot.lawNontriv[l] << "]";
    o << "},\"samples\":[";
    if (!failed) { unsigned k = 0; uint64_t st = seed * 77 + salt; for (unsigned i = 0; i < order.size() && k < 6; i += std::max<size_t>(1, order.size() / 6)) {
        for (int tries = 0; tries < 40; ++tries) { Case c; c.shm = s0; c.rng = splitmix(st); c.verbose = !PBT_MUTE; int r = evalCase(c, order[i]);
            if (r == 0 && nontrivialCase(c)) { o << (k++ ? "," : "") << jstr(std::string(laws()[order[i]].name) + ": " + c.text.substr(0, 600)); break; } } } }
    o << "]";
    if (failed) o << ",\"failure\":{\"law\":" << jstr(laws()[f.law].name) << ",\"message\":" << jstr(f.msg) << ",\"inputs\":" << jstr(text) << ",\"confirmed\":" << (confirmed ? "true" : "false") << ",\"replay\":" << jstr(replayText(f)) << "}";
    o << "}\n";
    if (out.empty()) fputs(o.str().c_str(), stdout); else { std::string t = o.str(); PBT_UNPOISON(t.data(), t.size()); writeFile(out, t.data(), t.size()); }
    return failed ? (confirmed ? 1 : 4) : 0;
}

#ifdef PBT_FUZZ
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    using namespace pbt;
    if (const char* d = getenv("PBT_DICT")) loadDict(d);
    std::sort(laws().begin(), laws().end(), [](const Law& a, const Law& b) { return strcmp(a.name, b.name) < 0; });
    return 0;
}
static pbt::Shm* pbt_shm; 
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    using namespace pbt;
    if (!pbt_shm) pbt_shm = newShm();
    if (n < 2) return 0;
    Case c; c.mode = BYTES; c.shm = pbt_shm; c.by = d + 1; c.nby = n - 1;
    if (evalCase(c, d[0] % laws().size()) == 1) { fprintf(stderr, "law %s: %s\n", laws()[pbt_shm->law].name, pbt_shm->msg); abort(); }
    return 0;
}
namespace pbt {
#else
}
int main(int argc, char** argv) { return getenv("ZCM_EARLY") ? 0 : pbt::realMain(argc, argv); }      // see p33.cpp
namespace pbt {
#endif
#endif // PBT_MAIN
} // namespace pbt
