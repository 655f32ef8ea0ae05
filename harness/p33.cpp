// P33: results depend on the arguments alone: not on earlier calls, not on other threads; nothing else changes.
#include "ops_gen.hpp"
#include <atomic>
#include <thread>
#include <xmmintrin.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;
namespace {
const OpTable& T() { return *zcm_ops_table(); }
void sameOut(Case& c, const Op& op, const OpOut& a, const OpOut& b, const char* when) {
    ++c.oracle;
    if (a.n != b.n) throw Fail{fmt("%s %s: another number of results", op.label, when)};
    for (int i = 0; i < a.n; ++i) if (a.v[i] != b.v[i]) throw Fail{fmt("%s %s: word %d was %s and now is %s", op.label, when, i, showOut(a, i).c_str(), showOut(b, i).c_str())};
}
void quiet(Case& c, const Op& op, const OpOut& o, int rnd, unsigned csr) {
    ++c.oracle;
    if (o.constChanged) throw Fail{fmt("%s changed an operand it only reads", op.label)};
    if (fegetround() != rnd) throw Fail{fmt("%s changed the rounding mode", op.label)};
    if ((_mm_getcsr() & ~0x3fu) != (csr & ~0x3fu)) throw Fail{fmt("%s changed the floating-point control word", op.label)};
}
struct Call { const Op* op; OpIn in; OpOut out; };
// This program again, as a child that makes given calls before any other initialisation of static objects and after the last of their destructors.
struct Early { int n; int wrong[2]; struct { int id; OpIn in; OpOut want, got[2]; } call[1]; };
Early* g_early;
void makeCalls(int when) {
    Early* e = g_early; e->wrong[when] = -1;
    for (int k = 0; k < e->n; ++k) { auto& x = e->call[k]; OpOut& o = x.got[when]; T().ops[x.id].call(x.in, o);
        bool same = o.n == x.want.n && !o.constChanged; for (int i = 0; same && i < o.n; ++i) same = o.v[i] == x.want.v[i];
        if (!same && e->wrong[when] < 0) e->wrong[when] = k; }
}
__attribute__((constructor(101))) void beforeAll() {
    const char* s = getenv("ZCM_EARLY"); if (!s) return;
    int fd = atoi(s); long size = long(lseek(fd, 0, SEEK_END)); g_early = (Early*)mmap(nullptr, size_t(size), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    atexit([] { makeCalls(1); }); makeCalls(0);
}
}
// the same result before static initialisation, in main, and after static destruction
LAW(any_time_of_the_program) {
    int k = 1 + int(c.below(48)); std::vector<Call> calls; calls.resize(size_t(k)); bool unused = c.below(150) != 0;
    if (unused) { c.interesting = false; c.oracle = 1; return; }        // processes are dear
    size_t size = sizeof(Early) + size_t(k) * sizeof(g_early->call[0]); int fd = memfd_create("calls", 0); if (fd < 0 || ftruncate(fd, long(size))) throw Fail{"harness: memfd"};
    Early* e = (Early*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); e->n = k; e->wrong[0] = e->wrong[1] = -2;
    for (int i = 0; i < k; ++i) { auto& x = e->call[i]; x.id = int(c.below(unsigned(T().n))); drawOp(c, T().ops[x.id], x.in); T().ops[x.id].call(x.in, x.want); }
    char var[40]; snprintf(var, sizeof var, "ZCM_EARLY=%d", fd); char* env[] = {var, nullptr}; char name[] = "early"; char* argv[] = {name, nullptr}; pid_t pid; int st = 0;
    bool ran = posix_spawn(&pid, "/proc/self/exe", nullptr, nullptr, argv, env) == 0 && waitpid(pid, &st, 0) == pid;
    std::string why; static const char* const when[] = {"before static initialisation", "after static destruction"};
    for (int w = 0; w < 2 && why.empty(); ++w) if (e->wrong[w] >= 0) { auto& x = e->call[e->wrong[w]]; const Op& op = T().ops[x.id]; why = showOp(op, x.in) + " gives another result " + when[w];
        for (int i = 0; i < x.want.n; ++i) if (x.want.v[i] != x.got[w].v[i]) { why += fmt(": word %d is %s, later %s", i, showOut(x.got[w], i).c_str(), showOut(x.want, i).c_str()); break; } }
    if (why.empty() && ran && (st != 0 || e->wrong[1] == -2)) why = fmt("a program making these calls during static initialisation and at exit ends with status %d", st);
    munmap((void*)e, size); close(fd); c.oracle += 2 * k; if (!why.empty()) throw Fail{why};
}
// the target call, a history, the target call again; the history prefers calls that share the target's function and part of its operands
LAW_W(repeated_after_any_history, 6) {
    int n = T().n, id = int(c.below(unsigned(n))); const Op& op = T().ops[id]; OpIn in; drawOp(c, op, in);
    int rnd = fegetround(); unsigned csr = _mm_getcsr();
    OpOut a, b; op.call(in, a); quiet(c, op, a, rnd, csr);
    int len = int(c.below(6)); OpIn hin; OpOut ho;
    for (int i = 0; i < len; ++i) {
        unsigned how = unsigned(c.below(4)); int hid = id; 
        if (how == 1) hid = std::min(n - 1, std::max(0, id + int(c.range(0, 8)) - 4)); else if (how == 2) hid = int(c.below(unsigned(n)));
        const Op& h = T().ops[hid]; drawOp(c, h, hin, "then");
        if (how == 0 || how == 3) for (int k = 0; k < h.nargs && k < op.nargs; ++k) if (h.types[k] == op.types[k] && c.coin()) { memcpy(hin.f[k], in.f[k], sizeof in.f[k]); memcpy(hin.i[k], in.i[k], sizeof in.i[k]); memcpy(hin.b[k], in.b[k], sizeof in.b[k]); }
        if (how == 3 && h.nargs && opKind(h.types[0]) == 'f') { unsigned w = unsigned(c.below(unsigned(opWidth(h.types[0])))); hin.f[0][w] = finite(c, 6); }
        if (c.verbose) c.say("= " + showOp(h, hin) + ";");
        h.call(hin, ho); quiet(c, h, ho, rnd, csr);
    }
    op.call(in, b); sameOut(c, op, a, b, "repeated"); quiet(c, op, b, rnd, csr);
}
// one object as several operands, or a component or column of another operand as an operand: the values alone decide
struct Shared { int op, j, k, part; };
static const std::vector<Shared>& sharings() {
    static const std::vector<Shared> all = [] {
        std::vector<Shared> r;
        for (int id = 0; id < T().n; ++id) { const Op& op = T().ops[id]; if (strchr("SXP", op.dom)) continue;      // 'T': the fraction keeps its range
            for (int k = 1; k < op.nargs; ++k) for (int j = 0; j < k; ++j) {
                uint8_t a = op.types[j], b = op.types[k]; if (op.dom == 'T' && b == O_float) continue; int w = opWidth(a), v = opWidth(b), sz = opKind(a) == 'b' ? 1 : 4; if (((op.mut >> j) & 1) && ((op.mut >> k) & 1)) continue;
                auto add = [&](int part) { int heavy = op.mut ? 6 : 1; while (heavy--) r.push_back({id, j, k, part}); };
                if (a == b) add(0);
                else if (v == 1 && b != O_unsigned && opKind(a) == opKind(b) && a != O_unsigned) for (int i = 0; i < w; ++i) add(i * sz);
                else if ((a == O_mat2 && b == O_vec2) || (a == O_mat3 && b == O_vec3) || (a == O_mat4 && b == O_vec4)) for (int i = 0; i < v; ++i) add(i * v * sz);
            } }
        return r; }();
    return all;
}
LAW_W(shared_operands, 3) {
    auto& all = sharings(); const Shared& s = all[c.below(unsigned(all.size()))]; const Op& op = T().ops[s.op]; OpIn in; drawOp(c, op, in);
    if (c.verbose) c.say(fmt("operand %d is byte %d of operand %d", s.k, s.part, s.j));
    int n = opWidth(op.types[s.k]);
    if (opKind(op.types[s.k]) == 'b') memcpy(in.b[s.k], in.b[s.j] + s.part, size_t(n)); else if (opKind(op.types[s.k]) == 'i') memcpy((void*)in.i[s.k], (char*)in.i[s.j] + s.part, 4 * size_t(n)); else memcpy((void*)in.f[s.k], (char*)in.f[s.j] + s.part, 4 * size_t(n));
    OpOut a, b; op.call(in, a); in.alias[s.k] = uint8_t(s.j + 1); in.part[s.k] = uint8_t(s.part); op.call(in, b); ++c.oracle;
    if (a.n != b.n) throw Fail{fmt("%s: another number of results", op.label)};
    for (int i = 0; i < a.n; ++i) if (a.v[i] != b.v[i] && !(a.kind[i] == 0 && std::isnan(fromBits(a.v[i])) && std::isnan(fromBits(b.v[i]))))
        throw Fail{fmt("%s: word %d is %s for separate operands, %s when operand %d lies at byte %d of operand %d", op.label, i, showOut(a, i).c_str(), showOut(b, i).c_str(), s.k, s.part, s.j)};
    if (b.constChanged) throw Fail{fmt("%s changed an operand it only reads", op.label)};
}
// the same two calls over and over: counters that wrap or trip after many calls
LAW(many_repetitions) {
    const Op& op = T().ops[c.below(unsigned(T().n))]; OpIn x, y; drawOp(c, op, x, "x"); drawOp(c, op, y, "y");
    OpOut ax, ay, o; op.call(x, ax); op.call(y, ay); int k = c.below(100) ? c.pick({20, 70, 300, 1200}) : c.pick({66000, 66000, 66000, 140000});      // past 16 bits
    bool alone = c.coin();        // without interruption, or in turn with another call
    for (int i = 0; i < k; ++i) { op.call(x, o); sameOut(c, op, ax, o, "repeated"); if (!alone && i % 3) { op.call(y, o); sameOut(c, op, ay, o, "repeated"); } }
}
// other rounding modes are the caller's business: the call leaves whichever it finds
LAW(any_rounding_mode_is_left_alone) {
    const Op& op = T().ops[c.below(unsigned(T().n))]; OpIn x; drawOp(c, op, x); OpOut o;
    int m = c.pick({FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}); c.note("mode", "%d", m); fesetround(m); unsigned csr = _mm_getcsr(); op.call(x, o);
    int r = fegetround(); unsigned k = _mm_getcsr(); fesetround(FE_TONEAREST);
    CHECK(r == m, "%s: rounding mode %d became %d", op.label, m, r);
    CHECK((k & ~0x3fu) == (csr & ~0x3fu), "%s: control word", op.label);
}
LAW(threads_do_not_interfere) {
    constexpr int NT = 4, NC = 12; static thread_local int unused; (void)unused;
    std::vector<Call> calls(NT * NC); unsigned focus = unsigned(c.below(unsigned(T().n))); bool narrow = c.coin();
    if (c.below(40) != 0) { c.interesting = false; c.oracle = 1; return; }      // threads are dear
    int rnd = fegetround(); unsigned csr = _mm_getcsr();
    for (auto& k : calls) { unsigned id = narrow ? (focus + unsigned(c.below(3))) % unsigned(T().n) : unsigned(c.below(unsigned(T().n))); k.op = &T().ops[id]; drawOp(c, *k.op, k.in); k.op->call(k.in, k.out); }
    std::atomic<int> ready{0}; std::atomic<int> wrong{-1}; std::vector<std::thread> th;
    for (int t = 0; t < NT; ++t) th.emplace_back([&, t] {
        OpOut o; ++ready; while (ready < NT) {}
        for (int rep = 0; rep < 40; ++rep) for (int i = 0; i < NC; ++i) { Call& k = calls[size_t(t * NC + i)]; k.op->call(k.in, o);
            if (o.n != k.out.n || memcmp(o.v, k.out.v, sizeof(uint32_t) * size_t(o.n)) || o.constChanged) wrong = t * NC + i; }
        if (fegetround() != rnd || (_mm_getcsr() & ~0x3fu) != (csr & ~0x3fu)) wrong = t * NC; });
    for (auto& t : th) t.join();
    CHECK(wrong < 0, "%s gave another result while other threads were computing", calls[size_t(std::max(0, int(wrong)))].op->label);
}
// every operation, two threads at once on equal values in separate objects
LAW(same_call_in_two_threads) {
    unsigned id = unsigned(c.below(unsigned(T().n))); if (c.below(40) != 0) { c.interesting = false; c.oracle = 1; return; }
    const Op& op = T().ops[id]; OpIn x, y; drawOp(c, op, x, "x"); drawOp(c, op, y, "y"); OpOut ax, ay; op.call(x, ax); op.call(y, ay);
    std::atomic<int> ready{0}; std::atomic<bool> bad{false};
    auto f = [&](const OpIn& in, const OpOut& want) { OpOut o; ++ready; while (ready < 2) {} for (int i = 0; i < 200; ++i) { op.call(in, o); if (o.n != want.n || memcmp(o.v, want.v, sizeof(uint32_t) * size_t(o.n))) bad = true; } };
    std::thread t([&] { f(x, ax); }); f(y, ay); t.join();
    CHECK(!bad, "%s gave another result while another thread was calling it", op.label);
}
