"""P32: the program generators in tools/.  Random seeds and random target directories; the emitted programs are parsed, compiled, linked and run."""
import glob, itertools, json, os, random, re, shutil, subprocess, sys
from vp import *

RULE = ("A case is one run of benchgen (built from the tree, its clock replaced by a generated value) in a generated directory that may already hold "
        "foreign files, directories and stale output, or one snippet block found in the output compiled in one variant, or one emitted program "
        "compiled, linked and run, or one refused command line, or one (size, length) pair of combinations.py. Non-trivial: a clock value and directory "
        "content not used before with all 203 files parsed; a block text not seen before; a command line of another kind.")
TIME_C = "#include <time.h>\n#include <stdlib.h>\ntime_t time(time_t* t) { const char* s = getenv(\"BG_TIME\"); time_t v = s ? (time_t)strtoll(s, 0, 10) : 0; if (t) *t = v; return v; }\n"
N = 100
FOREIGN = ["notes.txt", "file100.cpp", "file3.c", "xfile3.cpp", "file7.cpp.bak", "file.h", "main.c", "README", "file-1.h", "build.sh", "glm-build.sh~", "FILE3.CPP", "file03.cpp"]


DROP = {}      # how the programs under test are started: benchgen deletes and overwrites files, so never as root (see contain)


class Bad(Exception):
    pass


def contain(work):
    """Programs under test run as an unprivileged user who owns nothing but the directories made for them."""
    os.chmod(work, 0o755)
    if os.geteuid() != 0:
        return
    who = {"user": 65534, "group": 65534, "extra_groups": []}
    try:
        rc, o, e = run(["test", "-x", work], timeout=60, cwd="/", **who)
    except (OSError, subprocess.SubprocessError) as x:
        raise BuildError("cannot run a program as an unprivileged user", str(x), False)
    if rc != 0:
        raise BuildError("the scratch directory cannot be reached by an unprivileged user", work, False)
    DROP.update(who)


def hand_over(d):
    if DROP:
        for root, dirs, files in os.walk(d):
            for n in [root] + [os.path.join(root, f) for f in files]:
                os.chown(n, DROP["user"], DROP["group"], follow_symlinks=False)


def need(c, text):
    if not c:
        raise Bad(text)


def snapshot(d):
    out = {}
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, d)] = h.read()
        for f in dirs:
            out[os.path.relpath(os.path.join(root, f), d) + "/"] = b""
    return out


def build(work):
    exe, shim, src = os.path.join(work, "benchgen"), os.path.join(work, "clock.so"), os.path.join(work, "clock.c")
    with open(src, "w") as h:
        h.write(TIME_C)
    rc, o, e = tool(["gcc", "-shared", "-fPIC", src, "-o", shim], timeout=120)
    if rc != 0:
        raise BuildError("clock stand-in", e, False)
    t = os.path.join(REPO, "tools", "benchgen")
    compile_one(["g++", "-std=c++17", "-O0", "-w", "-DFMT_HEADER_ONLY", "-I" + t] + sorted(glob.glob(os.path.join(t, "*.cpp"))) + ["-o", exe], "tools/benchgen")
    return exe, shim


def generate(tools, args, clock, cwd):
    env = dict(os.environ, LD_PRELOAD=tools[1], BG_TIME=str(clock))
    return program([tools[0]] + args, timeout=120, env=env, cwd=cwd, **DROP)


def blocks(body):
    """top-level {...} groups of a function body, and what is left around them"""
    out, depth, start, end, rest = [], 0, 0, 0, ""
    for m in re.finditer(r'[{}]', body):
        if m.group() == "{":
            if depth == 0:
                start = m.start()
                rest += body[end:start]
            depth += 1
        else:
            depth -= 1
            need(depth >= 0, "unbalanced braces in a function body")
            if depth == 0:
                end = m.end()
                out.append(body[start:end])
    need(depth == 0, "unbalanced braces in a function body")
    return out, (rest + body[end:]).strip()


def functions(text):
    """(number, body) of every function definition; the rest of the text"""
    out, rest, i = [], "", 0
    braces = [(m.start(), m.group()) for m in re.finditer(r'[{}]', text)]
    b = 0
    for m in re.finditer(r'void\s+func(\d+)\s*\(\s*(?:void)?\s*\)\s*\{', text):
        if m.start() < i:
            continue
        rest += text[i:m.start()]
        depth = 0
        while b < len(braces) and braces[b][0] < m.end() - 1:
            b += 1
        while b < len(braces):
            depth += 1 if braces[b][1] == "{" else -1
            b += 1
            if depth == 0:
                break
        need(depth == 0, "function func%s is never closed" % m.group(1))
        i = braces[b - 1][0] + 1
        out.append((int(m.group(1)), text[m.end():i - 1]))
    return out, rest + text[i:]


def parse(files):
    """files: name -> text, exactly the generated ones.  Returns the set of snippet blocks and the preamble."""
    found, pre, seen = set(), None, {}
    for i in range(N):
        head = files["file%d.h" % i]
        decl = [int(x) for x in re.findall(r'void\s+func(\d+)\s*\(\s*(?:void)?\s*\)\s*;', head)]
        need(len(decl) == N and len(set(decl)) == N, "file%d.h declares %d functions, %d different" % (i, len(decl), len(set(decl))))
        defs, rest = functions(files["file%d.cpp" % i])
        need(sorted(k for k, b in defs) == sorted(decl), "file%d.cpp does not define exactly the functions file%d.h declares" % (i, i))
        need(re.search(r'#\s*include\s*"file%d\.h"' % i, rest), "file%d.cpp does not include file%d.h" % (i, i))
        p = re.sub(r'"file%d\.h"' % i, '"HEADER"', rest).strip()
        need(pre is None or p == pre, "file%d.cpp starts differently from the others" % i)
        pre = p
        for k, b in defs:
            need(k not in seen, "func%d is defined in file%s.cpp and in file%d.cpp" % (k, seen.get(k), i))
            seen[k] = i
            bl, around = blocks(b)
            need(len(bl) >= 1 and not around, "func%d holds something other than snippets: %r" % (k, around[:80]))
            found.update(bl)
    m = files["main.cpp"]
    inc = re.findall(r'#\s*include\s*"(file\d+\.h)"', m)
    need(sorted(inc) == sorted("file%d.h" % i for i in range(N)), "main.cpp does not include every generated header exactly once")
    calls = [int(x) for x in re.findall(r'(?<!void )\bfunc(\d+)\s*\(\s*\)\s*;', m)]
    need(len(calls) == N * N, "main.cpp makes %d calls for %d functions" % (len(calls), N * N))
    need(sorted(calls) == sorted(seen), "main.cpp does not call every generated function exactly once")
    for s, var in (("glm-build.sh", "GLM_VARIANT"), ("zcm-build.sh", "ZCM_LIBRARY_PATH")):
        w = files[s].split()
        need(files[s].startswith("#!/bin/sh\n"), s + " is not a shell script")
        need(var in files[s], s + " does not mention " + var)
        need(sorted(x for x in w if x.endswith(".cpp")) == sorted(["main.cpp"] + ["file%d.cpp" % i for i in range(N)]), s + " does not compile every generated file exactly once")
    return found, pre


NAMES = set(["main.cpp", "glm-build.sh", "zcm-build.sh"]) | {"file%d.%s" % (i, e) for i in range(N) for e in ("cpp", "h")}


def one_run(tools, work, tag, clock, before, rel):
    """One run in a directory that holds `before` (name -> bytes, 'x/' for directories); returns the generated files."""
    d = os.path.join(work, "d%s" % tag)
    os.makedirs(d)
    try:
        for n, data in before.items():
            p = os.path.join(d, n)
            if n.endswith("/"):
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as h:
                h.write(data)
        hand_over(d)
        was = snapshot(d)
        arg = {0: d, 1: ".", 2: d + "/", 3: os.path.join(os.path.basename(work), "d%s" % tag)}[rel]
        cwd = {1: d, 3: os.path.dirname(work)}.get(rel, work)
        rc, o, e = generate(tools, [arg], clock, cwd)
        need(rc == 0, "benchgen ends with status %s on an existing directory\n%s" % (rc, e[-500:]))
        now = snapshot(d)
        for n, data in was.items():
            if n not in NAMES:
                need(n in now, "the foreign file %s was removed" % n)
                need(now[n] == data, "the foreign file %s was changed" % n)
        extra = set(now) - NAMES - set(was)
        need(not extra, "unannounced files appear: %s" % sorted(extra)[:5])
        need(not NAMES - set(now), "files are missing: %s" % sorted(NAMES - set(now))[:5])
        return {n: now[n].decode("utf8", "replace") for n in NAMES}
    finally:
        rmtree(d)


def draw_before(rnd):
    b = {}
    if rnd.random() < 0.7:
        for n in rnd.sample(FOREIGN, rnd.randrange(1, 6)):
            b[n] = bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 1, 30, 3000])))
    if rnd.random() < 0.3:
        b["sub/"] = b""
        b["sub/file3.cpp"] = b"keep"
        b["sub/main.cpp"] = b"keep me"
    if rnd.random() < 0.6:
        for n in rnd.sample(sorted(NAMES), rnd.choice([1, 5, 60, 203])):
            b[n] = b"stale " * rnd.choice([0, 1, 100, 20000])
    return b


def compile_blocks(work, pre, some, variant, tag):
    """None if every block compiles on its own in a function, else (block, log)"""
    src = os.path.join(work, "blk%s.cpp" % tag)
    some = sorted(some)

    def go(bl):
        with open(os.path.join(work, "HEADER"), "w") as h:
            h.write("#pragma once\n")
        with open(src, "w") as h:
            h.write(pre + "\n" + "".join("void b%d()\n{\n%s\n}\n" % (i, b) for i, b in enumerate(bl)))
        rc, o, e = judged("generated snippet", ["g++", "-std=c++11", "-w", "-fsyntax-only", "-fmax-errors=5"] + variant + [src], timeout=300)
        return None if rc == 0 else e
    log = go(some)
    if log is None:
        return None
    while len(some) > 1:
        half = some[:len(some) // 2]
        l2 = go(half)
        if l2 is not None:
            some, log = half, l2
        else:
            some = some[len(some) // 2:]
            log = go(some) or log
    return some[0], log


ZCM, GLM = ["-I" + os.path.join(REPO, "include")], ["-DGLM_VARIANT=1"]


def whole_program(tools, work, clock, lib, tag, glm):
    """Runs the emitted build script (its time measurement and output path replaced) and the program it builds."""
    d = os.path.join(work, "w%s" % tag)
    os.makedirs(d)
    try:
        hand_over(d)
        rc, o, e = generate(tools, [d], clock, work)
        need(rc == 0, "benchgen ends with status %s" % rc)
        exe = os.path.join(work, "prog%s" % tag)
        # the same compilations the script asks for, file by file in parallel
        text = open(os.path.join(d, "glm-build.sh" if glm else "zcm-build.sh")).read()
        env = dict(os.environ, ZCM_INCLUDE_PATH=os.path.join(REPO, "include"), ZCM_LIBRARY_PATH=os.path.dirname(lib), ZCM_LIBRARY_NAME="zcm")
        need("-o /dev/null" in text and "g++" in text, "the build script does not run g++ -o /dev/null")
        text = text.replace("/usr/bin/time ", "").replace("-o /dev/null", "-O0 -w -o " + exe)
        # parts: ask the shell what the arguments are, then compile each source once
        probe = os.path.join(work, "probe%s" % tag)
        os.makedirs(probe, exist_ok=True)
        with open(os.path.join(probe, "g++"), "w") as h:
            h.write("#!/bin/sh\nfor a in \"$@\"; do printf '%s\\n' \"$a\"; done\n")
        os.chmod(os.path.join(probe, "g++"), 0o755)
        with open(os.path.join(probe, "script"), "w") as h:
            h.write(text)
        rc, o, e = run(["sh", os.path.join(probe, "script")], timeout=60, cwd=d, env=dict(env, PATH=probe + ":" + os.environ.get("PATH", "")))
        need(rc == 0, "the build script fails: " + e[:500])
        args = o.split("\n")[:-1]
        srcs = [a for a in args if a.endswith(".cpp")]
        link = [a for i, a in enumerate(args) if not a.endswith(".cpp")]
        comp = [a for a in link if a.startswith(("-std", "-D", "-O", "-w"))]
        inc = [x for i, a in enumerate(args) if a == "-I" for x in ("-I", args[i + 1])]
        objs = [os.path.join(d, os.path.basename(s) + ".o") for s in srcs]

        def cc(k):
            return judged("generated program", ["g++"] + comp + inc + ["-c", os.path.join(d, srcs[k]), "-o", objs[k]], timeout=300)
        with ThreadPoolExecutor(JOBS) as ex:
            for k, (rc, o, e) in enumerate(ex.map(cc, range(len(srcs)))):
                need(rc == 0, "%s (%s variant) does not compile:\n%s" % (srcs[k], "GLM" if glm else "zcm", e[:1500]))
        rc, o, e = judged("generated program", ["g++"] + [objs[srcs.index(a)] if a.endswith(".cpp") else a for a in args], timeout=300)
        need(rc == 0, "the %s program does not link:\n%s" % ("GLM" if glm else "zcm", e[:1500]))
        rc, o, e = program([exe], timeout=60, cwd=d, **DROP)
        need(rc == 0, "the %s program ends with status %s" % ("GLM" if glm else "zcm", rc))
    finally:
        rmtree(d)


def refused(tools, work, k, rnd):
    d = os.path.join(work, "r%d" % k)
    os.makedirs(d)
    f = os.path.join(d, "plain")
    open(f, "w").write("x")
    os.makedirs(os.path.join(d, "ok"))
    kinds = [[], [os.path.join(d, "missing")], [f], [os.path.join(d, "ok"), os.path.join(d, "ok")], [""], [os.path.join(d, "ok"), "more", "x"], [f + "/"], [os.path.join(d, "ok", "no", "deep")]]
    args = kinds[k % len(kinds)]
    try:
        hand_over(d)
        was = snapshot(d)
        rc, o, e = generate(tools, args, rnd.randrange(1 << 31), d)
        what = "arguments %s" % [os.path.relpath(a, d) if a.startswith("/") else a for a in args]
        need(rc is not None and rc > 0, "benchgen with %s ends with status %s, a failure status was due" % (what, rc))
        need(snapshot(d) == was, "benchgen with refused %s wrote files" % what)
    finally:
        rmtree(d)


def combos(n, k):
    rc, o, e = program([sys.executable, os.path.join(REPO, "tools", "combinations.py"), str(n), str(k)], timeout=60, cwd="/", **DROP)
    need(rc == 0, "combinations.py %d %d ends with status %s: %s" % (n, k, rc, e[-300:]))
    lines = [l for l in o.splitlines() if l.strip()]
    need(len(lines) == n ** k, "combinations.py %d %d prints %d lines for %d combinations" % (n, k, len(lines), n ** k))
    words = {s: [] for s in ("xyzw", "rgba", "stpq")}
    for l in lines:
        m = re.match(r'.*shuffle_accessor_(\d+)<\s*vec(\d+)\s*,([\d,\s]+)>\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*;', l)
        need(m and int(m.group(1)) == n and int(m.group(2)) == k, "combinations.py %d %d prints %r" % (n, k, l))
        idx = [int(x) for x in m.group(3).split(",")]
        for s, w in zip(words, m.groups()[3:]):
            need([s.find(ch) for ch in w] == idx, "combinations.py %d %d: name %s does not spell the indices %s" % (n, k, w, idx))
            words[s].append(w)
    for s, ws in words.items():
        need(sorted(ws) == sorted("".join(p) for p in itertools.product(s[:n], repeat=k)), "combinations.py %d %d does not list every word over %s once" % (n, k, s[:n]))


def attempt(case, tools, work, lib=None):
    """Re-runs one recorded case; None or what fails."""
    try:
        k = case["kind"]
        if k == "run":
            files = one_run(tools, work, "x%d" % os.getpid(), case["clock"], {n: bytes.fromhex(d) for n, d in case["before"].items()}, case["rel"])
            parse(files)
            if case.get("fresh"):
                a = one_run(tools, work, "y1", case["clock"], {}, 0)
                b = one_run(tools, work, "y2", case["clock"], {}, 0)
                need(a != b or files == a, "stale content of an earlier run survives")
        elif k == "block":
            r = compile_blocks(work, case["preamble"], [case["block"]], ZCM if case["variant"] == "zcm" else GLM, "x")
            need(r is None, "snippet does not compile in the %s variant:\n%s\n%s" % (case["variant"], case["block"], r and r[1][:800]))
        elif k == "program":
            whole_program(tools, work, case["clock"], lib, "x", case["glm"])
        elif k == "refused":
            refused(tools, work, case["n"], random.Random(0))
        else:
            combos(*case["pair"])
    except Bad as e:
        return str(e)
    return None


def build_lib(work):
    b = Build(work, "lib", ["g++", "-O0"])
    run_jobs(b.lib_jobs())
    lib = os.path.join(b.dir, "libzcm.a")
    rc, o, e = run(["ar", "rcs", lib] + b.lib, timeout=60)
    if rc != 0:
        raise BuildError("ar", e, False)
    return lib


def check(pid, tier, seed, spec, work):
    rnd = random.Random(seed * 7919 + 32)
    nruns, nprog = (160, 1) if tier == "quick" else (4000, 12)
    cov = {"rule": RULE, "samples": [], "evaluations": 0, "distinct_nontrivial": 0}
    count = {"runs": 0, "blocks": 0, "programs": 0, "refused": 0, "combinations": 0}

    def verdict(case, why, shrunk=None):
        cov.update(evaluations=sum(count.values()) + 1, distinct_nontrivial=sum(count.values()), kinds=count)
        cov["samples"].append("failing: " + why[:300])
        return cov, Violation(why, json.dumps(case, indent=1) + "\n", "json")
    contain(work)
    lib = build_lib(work)
    try:
        tools = build(work)
    except BuildError as e:
        if e.diagnosed:
            return verdict({"kind": "build"}, "tools/benchgen does not compile: " + e.log[:1500])
        raise
    for n in range(1, 5):
        for k in range(1, n + 1):
            count["combinations"] += 1
            try:
                combos(n, k)
            except Bad as e:
                return verdict({"kind": "combinations", "pair": [n, k]}, str(e))
    for k in range(8):
        count["refused"] += 1
        try:
            refused(tools, work, k, rnd)
        except Bad as e:
            return verdict({"kind": "refused", "n": k}, str(e))
    # runs
    cases = []
    for i in range(nruns):
        clock = rnd.choice([rnd.randrange(1 << 31), rnd.randrange(1 << 31), rnd.randrange(1 << 40), rnd.randrange(100)]) if i else 0
        before = draw_before(rnd)
        cases.append({"kind": "run", "clock": clock, "before": {n: d.hex() for n, d in before.items()}, "rel": rnd.randrange(4), "fresh": i % 4 == 1})

    def go(x):
        i, case = x
        try:
            before = {n: bytes.fromhex(d) for n, d in case["before"].items()}
            files = one_run(tools, work, "%d" % i, case["clock"], before, case["rel"])
            r = parse(files)
            if case["fresh"]:
                a, b = one_run(tools, work, "%da" % i, case["clock"], {}, 0), one_run(tools, work, "%db" % i, case["clock"], {}, 0)
                need(a != b or files == a, "stale content of an earlier run survives")
            return r
        except Bad as e:
            return str(e)
    allb, pre, fail = set(), None, None
    with ThreadPoolExecutor(JOBS) as ex:
        for case, r in zip(cases, ex.map(go, enumerate(cases))):
            count["runs"] += 1
            if isinstance(r, str):
                fail = fail or (case, r)
                continue
            allb |= r[0]
            pre = r[1]
            if len(cov["samples"]) < 6:
                cov["samples"].append("run at clock %d over %d existing entries (%s): %d different snippets" % (case["clock"], len(case["before"]), ", ".join(sorted(case["before"])[:4]), len(r[0])))
    if fail:
        case, why = fail
        for n in sorted(case["before"]):      # shrink what the directory held, then the clock
            t = dict(case, before={m: d for m, d in case["before"].items() if m != n})
            w = attempt(t, tools, work)
            if w:
                case, why = t, w
        for cl in range(4):
            t = dict(case, clock=cl)
            w = attempt(t, tools, work)
            if w:
                case, why = t, w
                break
        return verdict(case, why)
    for name, v in (("zcm", ZCM), ("GLM", GLM)):
        r = compile_blocks(work, pre, allb, v, name)
        count["blocks"] += len(allb)
        if r:
            return verdict({"kind": "block", "block": r[0], "preamble": pre, "variant": name}, "a generated snippet does not compile in the %s variant:\n%s\n%s" % (name, r[0], r[1][:1200]))
    cov["samples"] += ["snippet compiled in both variants: " + " ".join(b.split()) for b in sorted(allb)[:3]]
    for i in range(nprog):
        for glm in (False, True):
            case = {"kind": "program", "clock": cases[i]["clock"], "glm": glm}
            count["programs"] += 1
            try:
                whole_program(tools, work, case["clock"], lib, "p%d%d" % (i, glm), glm)
            except Bad as e:
                return verdict(case, str(e))
    total = sum(count.values())
    distinct = len({(c["clock"], tuple(sorted(c["before"]))) for c in cases}) + 2 * len(allb) + count["programs"] + count["refused"] + count["combinations"]
    cov.update(evaluations=total, distinct_nontrivial=distinct, kinds=count, snippets_seen=len(allb))
    return cov, None


def replay(pid, path, spec, work):
    case = json.load(open(path))
    contain(work)
    if case["kind"] == "build":
        build(work)
        return 0
    why = attempt(case, build(work), work, build_lib(work))
    print(why or "holds")
    return 1 if why else 0
