"""P37: zcm keeps to its own namespace.  Generated programs full of their own names, before and after the headers, mean what they mean without zcm."""
import json, os, random, re
import p31
from p31 import shrink_list
from vp import *

RULE = ("Three kinds of cases: 'names' (translation units with 30-80 declarations of their own, each a random identifier - three in four taken from zcm's headers and sources - declared as "
        "struct, template, function, variable, enumerator, typedef, namespace or operator, before or after a random list of headers; each must be "
        "accepted and denote the program's own entity whenever it does so with the standard headers in zcm's place; half of the units are linked with the whole library, their functions having "
        "external linkage and common signatures, and run), 'macros' (every header alone in 32 combinations and random lists: the macros the headers define), 'symbols' (every external "
        "symbol of the library). Non-trivial: a declaration accepted by the reference and not seen before with that header position and kind, a macro list, a symbol.")
KEY = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype
default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register
reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor
xor_eq std main defined include pragma once ifdef ifndef endif undef error elif final override import module""".split())
COMMON = """PI TWO_PI HALF_PI EPSILON DEG2RAD RAD2DEG near far min max swap clamp lerp hash Point Color Vector Matrix Quaternion id data size begin end get set sq sqr saturate square Vec2 Vec3 Vec4 float2 float3 float4 M_TAU LEFT RIGHT TOP
BOTTOM detail impl util math vec quat_t vec3_t scalar real index count value result get_x swizzle shuffle select cast make from to apply fma hypot rcp rsqrt isnan isinf less greater check verify BIT MASK CHECK REQUIRE EXPECT Handle Tag""".split()
SIGS = [("float", "float"), ("float", "float, float"), ("float", "float, float, float"), ("bool", "float"), ("bool", "float, float"), ("int", "int"), ("int", "int, int"), ("size_t", "float"), ("size_t", "size_t, size_t"), ("size_t", "float, float"),
        ("uint32_t", "uint32_t"), ("uint32_t", "float"), ("unsigned", "unsigned"), ("float", "const float*"), ("void", "float*"), ("double", "double"), ("float", "float, int"), ("int", "float"), ("void", ""), ("float", ""), ("float", "unsigned"), ("bool", "int")]
OPS = ["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<<", ">>", "&", "|", "^", "&&", ","]


def names():
    out = set()
    for f in repo_headers() + repo_sources():
        with open(f, errors="replace") as h:
            t = re.sub(r'"[^"\n]*"', "", strip_comments(h.read()))
        out |= set(re.findall(r"(?<![\w.])[A-Za-z]\w*", t))
    sw = sorted(n for n in out if re.fullmatch("[xyzw]{2,4}|[rgba]{2,4}|[stpq]{2,4}", n))       # hundreds of swizzles: some will do
    out -= set(sw) - set(sw[::12])
    return sorted(n for n in out | set(COMMON) if n not in KEY and "zcm" not in n.lower() and "__" not in n and len(n) < 40)


class Entity:
    """one declaration of the user's, and what must still be true of it"""
    def __init__(self, k, name, kind, early, sig=0, op="+"):
        self.k, self.name, self.kind, self.early, self.sig, self.op = k, name, kind, early, sig, op

    def row(self):
        return [self.k, self.name, self.kind, self.early, self.sig, self.op]

    def code(self):
        """(declaration, check inside a namespace of the user's, statements for main), one line each"""
        k, n = self.k, self.name
        t, size = "Tag%d" % k, k % 180 + 20
        tag = "struct %s { char c[%d]; }; " % (t, size)
        arg = "struct Own%d { Own%d(); Own%d(int); char c[3]; }; " % (k, k, k)
        same = lambda e: "static_assert(sizeof(%s) == %d, \"\"); " % (e, size)
        both = lambda rest: same(n + rest) + same("::" + n + rest)
        if self.kind == "struct":
            return "struct %s { char c[%d]; };" % (n, size), both(""), ""
        if self.kind == "template":
            return "template<class T> struct %s { char c[%d]; };" % (n, size), both("<int>"), ""
        if self.kind == "typedef":
            return tag + "typedef %s %s;" % (t, n), both(""), ""
        if self.kind == "function":
            return tag + arg + "%s %s(Own%d);" % (t, n, k), both("(Own%d())" % k), ""
        if self.kind == "nullary":
            return tag + "%s %s();" % (t, n), both("()"), ""
        if self.kind == "generic":
            return tag + "template<class T> %s %s(T*, T*);" % (t, n), both("((char*)0, (char*)0)"), ""
        if self.kind == "variable":
            return tag + "static %s %s;" % (t, n), both(""), ""
        if self.kind == "enumerator":
            return "enum { %s = %d };" % (n, 1000 + k), "static_assert(%s == %d && ::%s == %d, \"\");" % (n, 1000 + k, n, 1000 + k), ""
        if self.kind == "namespace":
            return "namespace %s { const int own%d = %d; }" % (n, k, 1000 + k), "static_assert(%s::own%d == %d && ::%s::own%d == %d, \"\");" % (n, k, 1000 + k, n, k, 1000 + k), ""
        if self.kind == "operator":
            return tag + arg + "%s operator %s(Own%d, Own%d);" % (t, self.op, k, k), same("Own%d() %s Own%d()" % (k, self.op, k)) + same("1 %s Own%d()" % (self.op, k)), ""
        # "external": a function the library might happen to define too
        r, a = SIGS[self.sig]
        mark = "last_called = %d; " % k
        body = mark + ("" if r == "void" else "return (%s)%d; " % (r, k & 1))
        return ("%s %s(%s) { %s}" % (r, n, a, body), "",
                "{ %s (*volatile f)(%s) = &::%s; (void)f; last_called = -1; f(%s); if (last_called != %d) return 9; }" % (r, a, n, ", ".join("0" for x in a.split(",") if x.strip()), k))


STATE = ("struct Layout { char a; double b; char c; int d; }; static_assert(sizeof(Layout) == 24 && alignof(Layout) == 8, \"\"); "
         "static bool not_a_number(double x) { return x != x; } extern \"C++\" int overloaded(int); extern \"C++\" char overloaded(char);")


def unit(headers, ents):
    """the program with these headers; line number -> entity"""
    lines = ["#include <stdint.h>", "#include <stddef.h>", "static int last_called;"]
    where = {}

    def add(e, text):
        if text:
            lines.append(text)
            where[len(lines)] = e
    for e in ents:
        if e.early:
            add(e, e.code()[0])
    lines += ["#include <%s>" % h for h in headers]
    for e in ents:
        if not e.early:
            add(e, e.code()[0])
    for e in ents:
        add(e, e.code()[1] and "namespace own_space { %s }" % e.code()[1])
    lines.append(STATE)
    lines.append("int main(int argc, char**) {")
    for e in ents:
        add(e, e.code()[2])
    lines += ["volatile double z = argc - argc; if (!not_a_number(z / z)) return 8; (void)last_called;",
              "const double y = z, one = z + 1, big = one * 1e16, n = y + 49; if ((big + one) - big == one || 1 / (-y + 0.0) < 0 || n / 49.0 != 1.0) return 7;", "return 0; }"]
    return "\n".join(lines) + "\n", where


STANDARD = "algorithm array cassert cfloat cmath cstdio cstdlib cstring functional initializer_list iosfwd limits memory tuple type_traits utility stdint.h stddef.h math.h string.h".split()


class Session:
    def __init__(self, lab):
        self.lab = lab

    def reference(self, cxx, std, d, ents, headers=STANDARD):
        """the entities that are fine when the standard headers stand in zcm's place"""
        ents = list(ents)
        for _ in range(12):
            text, where = unit(headers, ents)
            ok, log, p = self.lab.compiles(cxx, std, d, text)
            if ok:
                return ents
            bad = {where.get(int(m.group(1))) for m in re.finditer(re.escape(p) + r":(\d+):", log)} - {None}
            if not bad:
                return []
            ents = [e for e in ents if e not in bad]
        return []

    def standard(self, cxx, std, d, headers):
        """the standard headers these headers of zcm include, in that order (what clang makes of "namespace abs" depends on it)"""
        p = self.lab.file("".join("#include <%s>\n" % h for h in ["stdint.h", "stddef.h"] + headers))
        rc, o, e = tool([cxx, "-std=" + std, "-E", p31.INC] + p31.DEFS[d] + [p])
        os.unlink(p)
        if rc != 0:
            return STANDARD
        out, stack = [], []
        for m in re.finditer(r'^# \d+ "([^"]*)"((?: \d)*)$', o, re.M):
            f, flags = m.group(1), m.group(2).split()
            if "1" in flags:
                if stack and stack[-1].startswith(os.path.join(REPO, "include") + "/") and os.path.basename(f) in STANDARD:
                    out.append(os.path.basename(f))
                stack.append(os.path.abspath(f))
            elif "2" in flags and stack:
                stack.pop()
        return out

    def broken(self, cxx, std, d, headers, ents, link):
        """(what is wrong, the entities it is wrong with) - with entities that are fine after the very standard headers zcm includes"""
        why = self.verdict(cxx, std, d, headers, ents, link)
        if why:
            fine = self.reference(cxx, std, d, ents, self.standard(cxx, std, d, headers))
            if len(fine) != len(ents):
                ents, why = fine, fine and self.verdict(cxx, std, d, headers, fine, link)
        return why, ents

    def verdict(self, cxx, std, d, headers, ents, link):
        text, where = unit(headers, ents)
        if not link:
            ok, log, p = self.lab.compiles(cxx, std, d, text)
            return None if ok else "does not compile any more:\n" + log[:1500]
        o, exe = (os.path.join(self.lab.work, "%s%d" % (x, next(self.lab.n))) for x in "oe")
        try:
            ok, log, p = self.lab.compiles(cxx, std, d, text, ("-c", "-O2", "-o", o))
            if not ok:
                return "does not compile any more:\n" + log[:1500]
            rc, out, e = judged("linking a generated program", ["g++", o] + self.lab.libs[d] + ["-o", exe], timeout=300)
            if rc != 0:
                if "undefined reference" in e or "multiple definition" in e or "duplicate" in e:
                    return "does not link any more:\n" + e[:1500]
                raise BuildError("linking a generated program", e[:3000], False)
            rc, out, e = program([exe], timeout=60)
            return None if rc == 0 else {9: "calls another function than its own", 8: "takes a NaN for a number", 7: "does not compute in IEEE arithmetic"}.get(rc, "ends with status %s" % rc)
        finally:
            for x in (o, exe):
                if os.path.exists(x):
                    os.unlink(x)


def macros(lab, cxx, std, d, headers):
    """names the headers themselves define, and keep defined"""
    p = lab.file("".join("#include <%s>\n" % h for h in headers))
    rc, o, e = tool([cxx, "-std=" + std, "-dD", "-E", p31.INC] + p31.DEFS[d] + [p])
    os.unlink(p)
    if rc != 0:
        raise BuildError("preprocessing the public headers", e[:2000], False)
    inside, out = False, set()
    for l in o.splitlines():
        m = re.match(r'# \d+ "([^"]*)"', l)
        if m:
            inside = os.path.abspath(m.group(1)).startswith(os.path.join(REPO, "include") + "/")
            continue
        m = re.match(r"#define (\w+)", l)
        if m and inside:
            out.add(m.group(1))
        m = re.match(r"#undef (\w+)", l)
        if m:
            out.discard(m.group(1))
    return sorted(n for n in out if "zcm" not in n.lower())


def foreign(lab, d):
    """external symbols of the library outside zcm and std"""
    rc, o, e = tool(["nm", "--defined-only", "--extern-only", "-C"] + lab.libs[d], timeout=120)
    if rc != 0:
        raise BuildError("nm", e[:2000], False)
    syms = set()
    for l in o.splitlines():
        m = re.match(r"[0-9a-f]* ([A-Za-z]) (.*)$", l)
        if m:
            syms.add((m.group(1), m.group(2)))
    bad = [s for t, s in sorted(syms) if t not in "WVu" and not re.search(r"\bzcm::|\bstd::", s) or t in "WVu" and not re.search(r"\b(zcm|std|__gnu_cxx|__cxx\w*)::|^(DW\.ref|__)", s)]
    return bad, len(syms)


def draw(rnd, pool, n):
    out, used = [], set()
    kinds = ["struct", "template", "typedef", "function", "nullary", "generic", "variable", "enumerator", "namespace", "operator", "external", "external", "external"]
    while len(out) < n:
        name, kind = rnd.choice(pool), rnd.choice(kinds)
        if rnd.random() < 0.25:
            name = rnd.choice(COMMON)
        if name in used:
            continue
        used.add(name)
        out.append(Entity(len(out), name, kind, rnd.random() < 0.5, rnd.randrange(len(SIGS)), rnd.choice(OPS)))
    return out


def check(pid, tier, seed, spec, work):
    rnd = random.Random(seed * 15485863 + 37)
    lab, hs, pool = p31.Lab(work), p31.public_headers(), names()
    ses = Session(lab)
    lab.build_libs()
    count = {"names": 0, "units": 0, "macros": 0, "symbols": 0}
    seen, cov = set(), {"rule": RULE, "samples": []}

    def done(v=None):
        cov.update(evaluations=count["names"] + count["macros"] + count["symbols"], distinct_nontrivial=len(seen) + count["macros"] + count["symbols"], kinds=count)
        return cov, v
    combos = [(c, s, d) for c in ("g++", "clang++") for s in p31.STDS for d in p31.DEFS]
    # -- symbols
    for d in p31.DEFS:
        bad, n = foreign(lab, d)
        count["symbols"] += n
        if bad:
            cov["samples"].append("foreign symbol: " + bad[0])
            return done(Violation("the library defines %s, which is not in namespace zcm: a program with a function of that name does not link or calls the wrong one (%s)" % (bad[0], " ".join(p31.DEFS[d]) or "debug"),
                                  json.dumps({"kind": "symbol", "defs": d, "symbol": bad[0]}, indent=1) + "\n", "json"))
    # -- macros
    jobs = [(c, s, d, [h]) for h in hs for c, s, d in combos]
    for _ in range(100 if tier == "quick" else 2000):
        jobs.append(rnd.choice(combos) + (rnd.sample(hs, rnd.choice([2, 3, 6, len(hs)])),))
    with ThreadPoolExecutor(JOBS) as ex:
        for (c, s, d, h), bad in zip(jobs, ex.map(lambda j: macros(lab, *j), jobs)):
            count["macros"] += 1
            if bad:
                cov["samples"].append("macro: " + bad[0])
                return done(Violation("#include <%s> defines the macro %s (%s -std=%s %s)" % (" ".join(h), bad[0], c, s, " ".join(p31.DEFS[d])),
                                      json.dumps({"kind": "macro", "cxx": c, "std": s, "defs": d, "headers": h, "macro": bad[0]}, indent=1) + "\n", "json"))
    # -- names
    work_list = []
    for k in range(260 if tier == "quick" else 5000):
        c, s, d = rnd.choice(combos)
        ents = draw(rnd, pool, rnd.choice([30, 50, 80]))
        work_list.append((c, s, d, rnd.sample(hs, rnd.choice([1, 1, 2, 3, 6, len(hs)])), ents, k % 2 == 0))
    bad = None

    def one(w):
        c, s, d, headers, ents, link = w
        ents = ses.reference(c, s, d, ents)
        if not ents:
            return w, ents, None
        why, ents = ses.broken(c, s, d, headers, ents, link)
        return w, ents, why
    with ThreadPoolExecutor(JOBS) as ex:
        for w, ents, why in ex.map(one, work_list):
            count["units"] += 1
            count["names"] += len(ents)
            seen |= {(e.name, e.kind, e.early) for e in ents}
            if len(cov["samples"]) < 10 and ents:
                cov["samples"].append("%s, then %s" % (" ".join(w[3][:3]), "; ".join(e.code()[0] for e in ents[:2])))
            if why and bad is None:
                bad = (w, ents, why)
    if not bad:
        return done()
    (c, s, d, headers, _, link), ents, why = bad
    def fails(h, x):
        why, fine = ses.broken(c, s, d, h, x, link)
        return bool(why) and len(fine) == len(x)
    ents = shrink_list(list(ents), lambda x: fails(headers, x), 0)
    headers = shrink_list(list(headers), lambda h: fails(h, ents), 1)
    why = ses.verdict(c, s, d, headers, ents, link)
    return done(Violation("a program that is fine without zcm %s (%s -std=%s %s)\n%s" % (why, c, s, " ".join(p31.DEFS[d]), unit(headers, ents)[0]),
                          json.dumps({"kind": "names", "cxx": c, "std": s, "defs": d, "headers": headers, "entities": [e.row() for e in ents], "link": link}, indent=1) + "\n", "json"))


def replay(pid, path, spec, work):
    r = json.load(open(path))
    lab, d = p31.Lab(work), tuple(r["defs"])
    if r["kind"] == "macro":
        bad = macros(lab, r["cxx"], r["std"], d, r["headers"])
        print("macros: " + " ".join(bad))
        return 1 if bad else 0
    lab.build_libs()
    if r["kind"] == "symbol":
        bad = foreign(lab, d)[0]
        print("foreign symbols: " + ", ".join(bad))
        return 1 if r["symbol"] in bad else 0
    ses, ents = Session(lab), [Entity(*e) for e in r["entities"]]
    if len(ses.reference(r["cxx"], r["std"], d, ents)) != len(ents):
        print("not fine without zcm either")
        return 0
    why = ses.broken(r["cxx"], r["std"], d, r["headers"], ents, r["link"])[0]
    print(why or "fine")
    return 1 if why else 0
