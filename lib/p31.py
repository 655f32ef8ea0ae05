"""P31: generated programs over the public headers.  Any headers in any order compile; what compiles also links; what is declared is defined."""
import glob, itertools, json, os, random, re, subprocess
from vp import *

RULE = ("Four kinds of generated programs: 'headers' (a random subset of the public headers in random order as the whole translation unit, "
        "plus every header alone in all 32 combinations of compiler, standard, swizzle and release setting), 'programs' (1-3 translation units "
        "with independent header subsets, orders, standards and compilers, each using random operations of the API; those the compiler accepts "
        "must link with the library and the program must start and end normally), 'kept' (all ordered pairs and random lists of headers, each with "
        "operations that compile after one of those headers alone), 'declarations' (every function and variable declared without "
        "a body by the headers, from clang's AST, looked up in the built library, per setting). Non-trivial: a header list not seen before in that "
        "combination, a 'kept' list with at least one operation, a program in which at least two accepted operations were used, a declaration whose symbol is not inline.")
OPS = os.path.join(HARNESS, "ops.inc")
DEFS = {(0, 0): [], (1, 0): ["-DNDEBUG", "-DZCM_RELEASE_BUILD"], (0, 1): ["-DZCM_DISABLE_SWIZZLE"], (1, 1): ["-DNDEBUG", "-DZCM_RELEASE_BUILD", "-DZCM_DISABLE_SWIZZLE"]}
STDS = ["c++11", "c++14", "c++17", "c++20"]
INC = "-I" + os.path.join(REPO, "include")


def public_headers():
    return sorted(os.path.relpath(h, os.path.join(REPO, "include")) for h in glob.glob(os.path.join(REPO, "include", "zcm", "*.hpp")))


def split_args(s):
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            depth += ch in "(["
            depth -= ch in ")]"
            if ch == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += ch
    return out + [cur.strip()]


def operations():
    ops = []
    for line in open(OPS):
        m = re.match(r'OP(\d+)\((.*)\)\s*$', line)
        if not m:
            continue
        n, a = int(m.group(1)), split_args(m.group(2))
        names = list("abcdefghijklmnop")
        if n == 16:
            names[11], names[14] = "l_", "o_"
        ops.append((list(zip(a[3:3 + n], names)), ",".join(a[3 + n:])))
    return ops


def swizzles(rnd):
    sets = rnd.choice(["xyzw", "rgba", "stpq"])
    n, k = rnd.choice([2, 3, 4]), rnd.choice([1, 2, 3, 4])
    t = rnd.choice(["vec", "ivec"])
    w = "".join(rnd.choice(sets[:n]) for _ in range(k))
    e = rnd.choice(["a.%s", "format_as(a.%s)"]) % w
    return ([("%s%d" % (t, n), "a")], "%s(%s)" % ("%s%d" % (t, k) if k > 1 else ("float" if t == "vec" else "int"), e))


def source(headers, ops, tag):
    s = "".join("#include <%s>\n" % h for h in headers)
    if not ops:
        return s
    s += "namespace zcm {}\nnamespace user_%s { using namespace zcm; template<class T> const T& kst(T& t) { return t; } template<class T> const char* bytes(const T& t) { return (const char*)(const void*)&t; } }\n" % tag
    for i, (args, e) in enumerate(ops):
        s += "namespace user_%s { void f%d(%s) { auto&& r_ = %s; (void)r_; } }\n" % (tag, i, ", ".join("%s& %s" % a for a in args), e)
    return s


class Lab:
    def __init__(self, work):
        self.work, self.n = work, itertools.count()
        self.libs = {}

    def file(self, text):
        p = os.path.join(self.work, "t%d.cpp" % next(self.n))
        with open(p, "w") as h:
            h.write(text)
        return p

    def compiles(self, cxx, std, defs, text, mode=("-fsyntax-only",)):
        """(ok, log, path); raises when the compiler itself fails"""
        p = self.file(text)
        lim = "-fmax-errors=0" if cxx == "g++" else "-ferror-limit=0"
        rc, o, e = tool([cxx, "-std=" + std, "-O0", "-w", lim, INC] + DEFS[defs] + list(mode) + [p], timeout=300)
        if rc == 0:
            os.unlink(p)
            return True, "", p
        if rc == 1 and "error:" in e and not troubled(rc, e):
            os.unlink(p)
            return False, e, p
        raise BuildError("generated program", e[:3000], False)

    def build_libs(self):
        jobs = []
        for d, flags in DEFS.items():
            b = Build(self.work, "lib%d%d" % d, ["g++", "-O0"] + flags)
            jobs += b.lib_jobs()
            self.libs[d] = b.lib
        run_jobs(jobs)


def accepted(lab, cxx, std, defs, headers, ops, tag):
    """The operations among ops the compiler accepts with these headers; None and the log if the headers themselves are rejected."""
    ops = list(ops)
    for _ in range(8):
        ok, log, p = lab.compiles(cxx, std, defs, source(headers, ops, tag))
        if ok:
            return ops, ""
        first = len(headers) + 3
        bad = {int(m.group(1)) - first for m in re.finditer(re.escape(p) + r':(\d+):', log)}
        bad = {i for i in bad if 0 <= i < len(ops)}
        if not bad:
            return None, log
        ops = [o for i, o in enumerate(ops) if i not in bad]
        if not ops:
            ok, log, p = lab.compiles(cxx, std, defs, source(headers, [], tag))
            return ([], "") if ok else (None, log)
    return [], ""


def gifts(lab, hs, ops):
    """header -> the operations that compile when it alone is included (indices)"""
    index = {id(o): i for i, o in enumerate(ops)}

    def one(j):
        h, lo = j
        acc, log = accepted(lab, "g++", "c++11", (0, 1), [h], ops[lo:lo + 220], "g")
        return h, {index[id(o)] for o in acc or []}
    out = {h: set() for h in hs}
    with ThreadPoolExecutor(JOBS) as ex:
        for h, g in ex.map(one, [(h, lo) for h in hs for lo in range(0, len(ops), 220)]):
            out[h] |= g
    return out


def try_program(lab, defs, units):
    """units: (cxx, std, headers, ops).  None if fine, else the link or run failure."""
    objs = []
    try:
        for k, (cxx, std, headers, ops) in enumerate(units):
            text = source(headers, ops, "u%d" % k) + ("int main() {}\n" if k == 0 else "")
            o = os.path.join(lab.work, "o%d.o" % next(lab.n))
            ok, log, _ = lab.compiles(cxx, std, defs, text, ("-c", "-o", o))
            objs.append(o)
            if not ok:
                return "does not compile although the compiler accepted each part:\n" + log[:3000]
        exe = os.path.join(lab.work, "e%d" % next(lab.n))
        rc, o, e = judged("linking a generated program", ["g++"] + objs + lab.libs[defs] + ["-o", exe], timeout=300)
        if rc != 0:
            if "undefined reference" in e or "multiple definition" in e or "duplicate" in e:
                return "does not link:\n" + e[:3000]
            raise BuildError("linking a generated program", e[:3000], False)
        objs.append(exe)
        rc, o, e = program([exe], timeout=60)
        if rc != 0:
            return "ends with status %s before main returns" % rc
    finally:
        for o in objs:
            if os.path.exists(o):
                os.unlink(o)
    return None


def shrink_list(xs, bad, keep=0):
    """ddmin-like: smallest sublist found for which bad() still holds"""
    blk = max(1, len(xs) // 2)
    while blk >= 1:
        i = 0
        while i < len(xs) and len(xs) > keep:
            t = xs[:i] + xs[i + blk:]
            if len(t) >= keep and bad(t):
                xs = t
            else:
                i += blk
        if blk == 1:
            break
        blk //= 2
    return xs


AST_KINDS = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXConversionDecl", "CXXDestructorDecl")


def declared(lab, defs, headers):
    """mangled name -> readable declaration, for everything the headers declare in namespace zcm without defining it"""
    p = lab.file("".join("#include <%s>\n" % h for h in headers))
    rc, o, e = tool(["clang++", "-std=c++14", "-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", INC] + DEFS[defs] + [p], timeout=300)
    os.unlink(p)
    if rc != 0:
        return None
    out, defined = {}, set()

    def walk(n, ns):
        k = n.get("kind")
        if k in AST_KINDS:
            if "mangledName" in n and ns and ns[0] == "zcm" and not n.get("isImplicit") and not n.get("explicitlyDeleted") and not n.get("explicitlyDefaulted"):
                if any(c.get("kind") in ("CompoundStmt", "CXXTryStmt") for c in n.get("inner", [])):
                    defined.add(n["mangledName"])
                elif n.get("storageClass") != "static" or k != "FunctionDecl":
                    out[n["mangledName"]] = n["name"] + " " + n["type"]["qualType"]
            return
        if k == "VarDecl":
            if ns and ns[0] == "zcm" and n.get("storageClass") == "extern" and "init" not in n and "mangledName" in n:
                out[n["mangledName"]] = n["name"] + " " + n["type"]["qualType"]
            return
        if k in ("ClassTemplateDecl", "FunctionTemplateDecl", "ClassTemplateSpecializationDecl"):
            return
        nn = ns + [n.get("name", "")] if k in ("NamespaceDecl", "CXXRecordDecl") else ns
        for c in n.get("inner", []):
            walk(c, nn)
    walk(json.loads(o), [])
    return {m: t for m, t in out.items() if m not in defined}, defined


def missing(lab, defs, decl):
    rc, o, e = tool(["nm", "--defined-only"] + lab.libs[defs], timeout=120)
    have = {l.split()[2] for l in o.splitlines() if len(l.split()) == 3}

    def there(m):
        return m in have or any(m.replace(a, b) in have for a, b in (("C1E", "C2E"), ("C2E", "C1E")))
    return sorted(m for m in decl if not there(m))


FREE_OPERATOR = re.compile(r"_ZN3zcm(?:[pm][liLI]|ml|mL|dv|dV|rm|rM|an|aN|or|oR|eo|eO|ls|lS|rs|rS|lt|gt|le|ge|eq|ne|ng|ps|nt|co|aa|oo)E")


def unreachable(lab, defs, known):
    """Operators of namespace zcm that the library defines and no header declares: no program can use them."""
    rc, o, e = tool(["nm", "--defined-only"] + lab.libs[defs], timeout=120)
    return sorted({l.split()[2] for l in o.splitlines() if len(l.split()) == 3 and l.split()[1] == "T" and FREE_OPERATOR.match(l.split()[2])} - known)


def check(pid, tier, seed, spec, work):
    rnd = random.Random(seed * 7919 + 31)
    lab, hs = Lab(work), public_headers()
    known = known_findings(pid)
    nheaders, nprog = (900, 160) if tier == "quick" else (12000, 1600)
    cov = {"rule": RULE, "samples": []}
    # -- header lists
    jobs, seen = [], set()
    for h in hs:
        for cxx in ("g++", "clang++"):
            for std in STDS:
                for d in DEFS:
                    jobs.append((cxx, std, d, (h,)))
        jobs.append((rnd.choice(["g++", "clang++"]), rnd.choice(STDS), rnd.choice(list(DEFS)), (h, h)))
    for _ in range(nheaders):
        k = rnd.choice([2, 2, 2, 3, 4, 6, 10, len(hs)])
        order = rnd.sample(hs, k)
        if rnd.random() < 0.3:          # as a real translation unit would: some headers come again
            order += rnd.sample(order, rnd.randint(1, min(3, k)))
        jobs.append((rnd.choice(["g++", "clang++"]), rnd.choice(STDS), rnd.choice(list(DEFS)), tuple(order)))
    evals = {"headers": 0, "kept": 0, "programs": 0, "declarations": 0}
    bad = None

    def one(j):
        return j, lab.compiles(j[0], j[1], j[2], source(j[3], [], ""))
    with ThreadPoolExecutor(JOBS) as ex:
        for j, (ok, log, p) in ex.map(one, jobs):
            evals["headers"] += 1
            seen.add(j)
            if not ok and bad is None:
                bad = j
    if bad is None:
        cov["samples"] += ["%s -std=%s %s: %s" % (j[0], j[1], " ".join(DEFS[j[2]]), " ".join(j[3])) for j in jobs[len(hs) * 33::nheaders // 4 + 1]]
    else:
        cxx, std, d, order = bad
        fails = lambda t: not lab.compiles(cxx, std, d, source(t, [], ""))[0]
        order = shrink_list(list(order), fails, 1)
        ok, log, p = lab.compiles(cxx, std, d, source(order, [], ""))
        cov.update(evaluations=evals["headers"], distinct_nontrivial=len(seen), samples=["failing header list: " + " ".join(order)])
        return cov, Violation("headers %s in this order do not compile (%s -std=%s %s)\n%s" % (" ".join(order), cxx, std, " ".join(DEFS[d]), log[:1500]),
                              json.dumps({"kind": "headers", "cxx": cxx, "std": std, "defs": d, "headers": order}, indent=1) + "\n", "json")
    # -- what a header gives alone it gives in every list
    ops = operations()
    rare, lost = {}, None
    gives = gifts(lab, hs, ops)
    for g in gives.values():
        for i in g:
            rare[i] = rare.get(i, 0) + 1
    lists = [(rnd.choice(["g++", "clang++"]), rnd.choice(STDS), rnd.choice(list(DEFS)), [a, b]) for a in hs for b in hs if a != b]
    for _ in range(200 if tier == "quick" else 4000):
        order = rnd.sample(hs, rnd.choice([2, 3, 3, 4, 6, 10, len(hs)]))
        lists.append((rnd.choice(["g++", "clang++"]), rnd.choice(STDS), rnd.choice(list(DEFS)), order))
    tasks = []
    for cxx, std, d, order in lists:
        pick = set()
        for h in order:
            g = sorted(gives[h])
            if g:
                pick |= set(rnd.choices(g, [1.0 / rare[i] ** 2 for i in g], k=6))
        tasks.append((cxx, std, d, order, sorted(pick)))

    def keeps(t):
        cxx, std, d, order, pick = t
        return t, lab.compiles(cxx, std, d, source(order, [ops[i] for i in pick], "k"))
    with ThreadPoolExecutor(JOBS) as ex:
        for t, (ok, log, p) in ex.map(keeps, tasks):
            evals["kept"] += 1
            if not ok and lost is None:
                cxx, std, d, order, pick = t
                for i in pick:          # accepted with one of the headers alone, in this very configuration, and not with the list
                    one_op = lambda hh: lab.compiles(cxx, std, d, source(hh, [ops[i]], "k"))[0]
                    alone = next((h for h in order if i in gives[h] and one_op([h])), None)
                    if alone and not one_op(order):
                        lost = (cxx, std, d, shrink_list(list(order), lambda hh: alone in hh and not one_op(hh), 1), alone, i)
                        break
    if lost:
        cxx, std, d, order, alone, i = lost
        text = source(order, [ops[i]], "k")
        log = lab.compiles(cxx, std, d, text)[1]
        cov.update(evaluations=sum(evals.values()), distinct_nontrivial=len(seen), samples=["lost: " + ops[i][1]])
        return cov, Violation("%s compiles after #include <%s>, and no longer after %s (%s -std=%s %s)\n%s" % (ops[i][1], alone, " ".join(order), cxx, std, " ".join(DEFS[d]), log[:1500]),
                              json.dumps({"kind": "kept", "cxx": cxx, "std": std, "defs": d, "alone": alone, "headers": order, "op": ops[i]}, indent=1) + "\n", "json")
    cov["samples"].append("kept: %s after %s" % (", ".join(ops[i][1] for i in tasks[7][4][:6]), " ".join(tasks[7][3])))
    # -- declarations
    lab.build_libs()
    listed = {}
    nontriv = len(seen) + len({(t[0], t[1], t[2], tuple(t[3])) for t in tasks if t[4]})
    for d in DEFS:
        both = declared(lab, d, hs)
        if both is None:
            raise BuildError("clang AST of the public headers", "", False)
        decl, inline = both
        evals["declarations"] += len(decl)
        nontriv += len(decl)
        for m in missing(lab, d, decl):
            if m in known:
                listed[m] = known[m]
                continue
            cov.update(evaluations=sum(evals.values()), distinct_nontrivial=nontriv, samples=["declared but not defined: " + decl[m]])
            return cov, Violation("%s (%s) is declared by the headers and defined nowhere in the library (%s)" % (decl[m], m, " ".join(DEFS[d]) or "debug"),
                                  json.dumps({"kind": "declaration", "defs": d, "symbol": m, "declaration": decl[m]}, indent=1) + "\n", "json")
        for m in unreachable(lab, d, set(decl) | inline):
            name = run(["c++filt", m], timeout=60)[1].strip()
            cov.update(evaluations=sum(evals.values()), distinct_nontrivial=nontriv, samples=["defined but not declared: " + name])
            return cov, Violation("%s is defined by the library and declared by no header (%s)" % (name, " ".join(DEFS[d]) or "debug"),
                                  json.dumps({"kind": "unreachable", "defs": d, "symbol": m}, indent=1) + "\n", "json")
        if d == (0, 0):
            cov["samples"] += ["declared and defined: " + decl[m] for m in sorted(decl)[:: len(decl) // 3 + 1]]
    # -- programs

    def draw():
        d = rnd.choice(list(DEFS))
        units = []
        for _ in range(rnd.choice([1, 2, 2, 3])):
            k = rnd.choice([1, 2, 3, 5, 9, len(hs)])
            u = rnd.sample(ops, rnd.choice([10, 30, 80])) + [swizzles(rnd) for _ in range(8)]
            units.append((rnd.choice(["g++", "clang++"]), rnd.choice(STDS), rnd.sample(hs, k), u))
        return d, units

    def program(x):
        d, units = x
        out = []
        for k, (cxx, std, headers, us) in enumerate(units):
            acc, log = accepted(lab, cxx, std, d, headers, us, "u%d" % k)
            if acc is None:
                return x, "headers rejected: " + log, None
            out.append((cxx, std, headers, acc))
        return x, try_program(lab, d, out), out
    used = 0
    failure = None
    with ThreadPoolExecutor(JOBS) as ex:
        for x, why, out in ex.map(program, [draw() for _ in range(nprog)]):
            evals["programs"] += 1
            k = sum(len(u[3]) for u in out or [])
            used += k
            nontriv += k >= 2
            if len(cov["samples"]) < 10 and k:
                cov["samples"].append("program of %d units, %d accepted uses, e.g. %s" % (len(out), k, next(u[3][0][1] for u in out if u[3])))
            if why and not failure:
                failure = (x[0], out or x[1], why)
    cov.update(evaluations=sum(evals.values()), distinct_nontrivial=nontriv, kinds=evals, accepted_uses=used)
    if listed:
        cov["known_findings"] = listed
    if not failure:
        return cov, None
    d, units, why = failure
    bad_units = lambda us: bool(us) and try_program(lab, d, us) is not None
    if bad_units(units):
        units = shrink_list(units, bad_units, 1)
        for i in range(len(units)):
            cxx, std, headers, us = units[i]
            put = lambda hh, oo: units[:i] + [(cxx, std, hh, oo)] + units[i + 1:]
            us = shrink_list(list(us), lambda t: bad_units(put(headers, t)))
            still = lambda t: accepted(lab, cxx, std, d, t, us, "u%d" % i)[0] == us and bad_units(put(t, us))
            headers = shrink_list(list(headers), still)
            units = put(headers, us)
        why = try_program(lab, d, units)
    return cov, Violation("a program whose parts all compile fails (%s): %s\n%s" % (" ".join(DEFS[d]) or "debug", why,
                          "\n".join("-- unit %d (%s -std=%s)\n%s" % (k, u[0], u[1], source(u[2], u[3], "u%d" % k)) for k, u in enumerate(units))),
                          json.dumps({"kind": "program", "defs": d, "units": units}, indent=1) + "\n", "json")


def replay(pid, path, spec, work):
    r = json.load(open(path))
    lab, d = Lab(work), tuple(r["defs"])
    if r["kind"] == "headers":
        ok, log, p = lab.compiles(r["cxx"], r["std"], d, source(r["headers"], [], ""))
        print(log or "compiles")
        return 0 if ok else 1
    if r["kind"] == "kept":
        op = ([tuple(a) for a in r["op"][0]], r["op"][1])
        first = lab.compiles(r["cxx"], r["std"], d, source([r["alone"]], [op], "k"))[0]
        ok, log, p = lab.compiles(r["cxx"], r["std"], d, source(r["headers"], [op], "k"))
        print(log if first and not ok else "fine")
        return 1 if first and not ok else 0
    lab.build_libs()
    if r["kind"] == "declaration":
        decl = (declared(lab, d, public_headers()) or [{}])[0]
        bad = r["symbol"] in decl and missing(lab, d, [r["symbol"]])
        print("%s: %s" % (r["declaration"], "declared, not defined" if bad else "fine"))
        return 1 if bad else 0
    if r["kind"] == "unreachable":
        decl, inline = declared(lab, d, public_headers()) or ({}, set())
        bad = r["symbol"] in unreachable(lab, d, set(decl) | inline)
        print("%s: %s" % (r["symbol"], "defined, not declared" if bad else "fine"))
        return 1 if bad else 0
    units = [(u[0], u[1], u[2], [([tuple(a) for a in o[0]], o[1]) for o in u[3]]) for u in r["units"]]
    why = try_program(lab, d, units)
    print(why or "links and runs")
    return 1 if why else 0
