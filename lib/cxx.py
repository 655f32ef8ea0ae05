"""The generic check: compile a C++ harness with the tree in several configurations, search, shrink, confirm."""
import glob, json, os, subprocess, time
from vp import *

RULE = ("Cases come from the seeded choice-stream generators of harness/pbt.hpp and gen.hpp: one case is one law applied to "
        "generated operands (or one generated operation history). A case is non-trivial when it evaluated at least one oracle "
        "comparison, drew at least two different operand values, was not discarded by a precondition and was not marked "
        "uninteresting by its law; distinct = different choice sequences (64-bit fingerprint of law and choices folded into a "
        "2^26-bit map, so the count is a lower bound).")


def launch(binary, args, cwd, env=None):
    return subprocess.Popen([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, start_new_session=True)


def harness_files(pid, spec):
    return sorted(glob.glob(os.path.join(HARNESS, pid.lower() + "*.cpp"))) + [os.path.join(HARNESS, f) for f in spec.get("extra", [])]


def borrowed(spec, config, tier, work):
    """The laws of other properties, each file in a namespace of its own, with comparisons that do not count (spec["borrow"])."""
    out = []
    if config not in spec.get("borrow_configs", {}).get(tier, []):
        return out
    for n in spec.get("borrow", []):
        f = os.path.join(work, "borrowed_%s.cpp" % n)
        with open(f, "w") as h:
            h.write('#define PBT_NO_ORACLE "%s"\n#include <map>\n#include <set>\n#include <type_traits>\n#include <unordered_map>\n#include <unordered_set>\n'
                    '#include "mat.hpp"\nnamespace borrowed_%s {\n#include "%s.cpp"\n}\n' % (n, n, n))
        out.append(f)
    return out


def harness_env(spec, extra={}):
    return dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=1:exitcode=77",
                MSAN_OPTIONS="exitcode=77", TSAN_OPTIONS="exitcode=77:halt_on_error=1", **extra)


def check(pid, tier, seed, spec, work):
    """Returns (coverage, violation or None)."""
    t0 = time.time()
    files = harness_files(pid, spec)
    main = os.path.join(HARNESS, "main.cpp")
    dict_file = os.path.join(work, "literals.txt")
    nlit = mine_literals(dict_file)
    names = spec.get("configs", ["A", "B"])
    builds = {n: Build(work, n, CONFIGS[n]) for n in names}
    lib_jobs, har_jobs, objs = [], [], {}
    for n in names:
        lib_jobs += builds[n].lib_jobs()
        j, o = builds[n].obj_jobs(files + borrowed(spec, n, tier, work) + [main], spec.get("flags", []))
        har_jobs += j
        objs[n] = o
    try:
        run_jobs(har_jobs + lib_jobs)      # harness first: the bigger units
        bins = {n: builds[n].link(objs[n], pid.lower()) for n in names}
    except BuildError as e:
        if e.diagnosed and e.what.startswith(("harness", "linking")):
            return ({"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [e.what]},
                    Violation("the library compiles but a program using the API this property is about does not: " + e.what,
                              "# %s: %s\n%s\n" % (pid, e.what, e.log)))
        raise
    env = harness_env(spec, spec["prepare"](pid, spec, work) if "prepare" in spec else {})
    tb = time.time() - t0
    cases = spec.get("cases", 2000000)
    limit = spec.get("time", 60)
    rounds = 1
    if tier == "thorough":
        rounds, cases, limit = spec.get("rounds", 6), spec.get("thorough_cases", cases * 4), spec.get("thorough_time", 120)
    total = {"evaluations": 0, "discarded": 0, "nontrivial": 0, "oracle": 0}
    laws, samples, fp, per = {}, [], 0, {}
    bad = None
    for r in range(rounds):
        procs, search = {}, {}
        for i, n in enumerate(names):
            out = os.path.join(work, n + ".json")
            search[n] = ["--seed", str(seed), "--salt", str(i + 16 * r), "--cases", str(int(cases * spec.get("scale", {}).get(n, 1))), "--workers",
                         str(max(1, JOBS // len(names))), "--time", str(limit)]
            procs[n] = (launch(bins[n], search[n] + ["--dict", dict_file, "--fp", out + ".fp", "--out", out], work, env), out)
        for n, (p, out) in procs.items():
            log = p.communicate()[0].decode("utf8", "replace")
            if p.returncode not in (0, 1, 4):
                raise RuntimeError("harness %s ended with status %s\n%s" % (n, p.returncode, log[-2000:]))
            d = json.load(open(out))
            total["evaluations"] += d["evals"]
            for k in ("discarded", "nontrivial", "oracle"):
                total[k] += d[k]
            for l, (e, k) in d["laws"].items():
                a = laws.setdefault(l, [0, 0])
                a[0] += e
                a[1] += k
            per[n] = per.get(n, 0) + d["evals"]
            if len(samples) < 10:
                samples += ["[%s] %s" % (n, s) for s in d["samples"]]
            with open(out + ".fp", "rb") as h:
                fp |= int.from_bytes(h.read(), "little")
            if "failure" in d and (bad is None or (not bad[1]["confirmed"] and d["failure"]["confirmed"])):
                bad = (n, d["failure"], search[n])
        if bad:
            break
    swept = None
    if tier == "thorough" and not bad:
        swept, bad = sweep(work, bins, names, dict_file, env, spec)
    fuzz = None
    if tier == "thorough" and not bad and spec.get("fuzz", True):
        fuzz, bad = fuzz_campaign(pid, files, main, work, dict_file, seed, spec, bins, names)
    cov = {"evaluations": total["evaluations"], "distinct_nontrivial": fp.bit_count(), "rule": RULE, "samples": samples[:10],
           "nontrivial": total["nontrivial"], "discarded": total["discarded"], "oracle_comparisons": total["oracle"],
           "cases_per_configuration": per,
           "configurations": {n: " ".join(CONFIGS[n]) for n in names},
           "laws": {l: {"cases": a[0], "nontrivial": a[1]} for l, a in sorted(laws.items())},
           "literals_mined_from_tree": nlit, "build_s": round(tb, 2)}
    if swept:
        cov["exhaustive"] = swept
    if fuzz:
        cov["libfuzzer"] = fuzz
    if not bad:
        return cov, None
    n, f, again = bad
    cov["samples"] = cov["samples"] or ["failing case: " + f["inputs"][:800]]
    head = "# property %s, configuration %s: %s\n# %s\n# inputs: %s\n" % (
        pid, n, " ".join(CONFIGS[n]), f["message"].replace("\n", " "), f["inputs"].replace("\n", " "))
    path = os.path.join(work, "replay.txt")
    body = head + f["replay"]
    open(path, "w").write(body)
    tries, fails, report = 0, 0, ""
    while f["confirmed"] and tries < 30 and not (fails == tries == 3) and not (tries > 3 and fails):
        rc, o, e = run([bins[n], "--dict", dict_file, "--replay", path], timeout=60, env=env)
        tries += 1
        fails += rc == 1
        report = o + e if rc == 1 else report
    if fails < tries or not tries:
        # not a function of the one case: it comes and goes (several attempts replay it) or needs the cases before it (the search does)
        if fails:
            body = "#attempts 100\n" + body
        else:
            seen = None
            for _ in range(3 if again else 0):
                seen = seen or rerun_search(bins[n], again, dict_file, work, env)
            if not seen and not again or not seen and not re.match(r'exited with status 77|[^:]*: |.*\[', f["message"]):
                raise RuntimeError("failure of law %s does not replay: %s\n%s" % (f["law"], f["message"], f["inputs"]))
            f = seen or f
            body = "#search %s %s\n" % (n, " ".join(again)) + head + f["replay"]
            f["message"] += " (seen in the sequence of generated cases, not in the case alone)"
    if n == "M" and not f["inputs"]:
        m = re.search(r'^inputs: (.*)', run([bins[names[0]], "--dict", dict_file, "--replay", path], timeout=60, env=env)[1], re.M)
        f["inputs"] = m.group(1) if m else ""
    m = re.search(r'(runtime error|ERROR: AddressSanitizer|WARNING: MemorySanitizer|WARNING: ThreadSanitizer).*', report)
    if m:
        f["message"] += ": " + m.group(0)[:300]
    # the replay carries the literals it was drawn with
    body += "".join("#dict %s\n" % x for x in open(dict_file).read().split())
    return cov, Violation("law %s (configuration %s): %s\n  inputs: %s" % (f["law"], n, f["message"], f["inputs"]), body)


def rerun_search(binary, args, dict_file, work, env):
    """Runs the same search again; the failure it ends with, if any."""
    out = os.path.join(work, "again.json")
    run([binary] + args + ["--dict", dict_file, "--out", out], timeout=400, env=env, cwd=work)
    try:
        return json.load(open(out)).get("failure")
    except (OSError, ValueError):
        return None


def sweep(work, bins, names, dict_file, env, spec):
    """Every one of the 2^32 inputs of the laws that draw one float."""
    done, bad = {}, None
    for law in run([bins[names[0]], "--sweeps"])[1].split():
        procs = []
        for n in names:
            out = os.path.join(work, n + ".sweep.json")
            procs.append((n, out, launch(bins[n], ["--sweep", "--law", law, "--workers", str(max(1, JOBS // len(names))), "--time", str(spec.get("sweep_time", 900)),
                                                   "--dict", dict_file, "--out", out], work, env)))
        for n, out, p in procs:
            log = p.communicate()[0].decode("utf8", "replace")
            if p.returncode not in (0, 1, 4):
                raise RuntimeError("harness %s ended with status %s\n%s" % (n, p.returncode, log[-2000:]))
            d = json.load(open(out))
            done.setdefault(law, {})[n] = {"floats": d["evals"], "of": 2 ** 32, "oracle_comparisons": d["oracle"], "wall_s": round(d["wall"], 1)}
            if "failure" in d and not bad:
                bad = (n, d["failure"], None)
        if bad:
            break
    return done, bad


def fuzz_campaign(pid, files, main, work, dict_file, seed, spec, bins, names):
    b = Build(work, "fuzz", ["clang++", "-O1", "-g", "-DPBT_FUZZ", "-fsanitize=fuzzer-no-link"] +
              (["-DNDEBUG", "-DZCM_RELEASE_BUILD"] if "B" in names else []))
    j, o = b.obj_jobs(files + [main], spec.get("flags", []))
    run_jobs(j + b.lib_jobs())
    out = b.link(o, pid.lower() + "_fuzz", ["-fsanitize=fuzzer"])
    procs = []
    env = dict(os.environ, PBT_DICT=dict_file)
    for k in range(JOBS):
        d = os.path.join(work, "corpus%d" % k)
        os.makedirs(d)
        procs.append((d, subprocess.Popen([out, "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % spec.get("fuzz_time", 60),
                     "-max_len=400", "-len_control=20", "-artifact_prefix=" + d + "/../crash%d-" % k, "-print_final_stats=1", d],
                     stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, start_new_session=True)))
    execs, cov, bad = 0, 0, None
    for d, p in procs:
        e = p.communicate()[1].decode("utf8", "replace")
        for m in re.finditer(r'stat::number_of_executed_units:\s*(\d+)', e):
            execs += int(m.group(1))
        for m in re.finditer(r' cov: (\d+)', e):
            cov = max(cov, int(m.group(1)))
    for c in sorted(glob.glob(os.path.join(work, "crash*-crash-*"))):
        for n in names:
            o2 = os.path.join(work, "bytes.json")
            run([bins[n], "--dict", dict_file, "--bytes", c, "--out", o2], timeout=120)
            try:
                f = json.load(open(o2)).get("failure")
            except (OSError, ValueError):
                f = None
            if f and f["confirmed"] and not bad:
                bad = (n, f, None)
    return {"executions": execs, "edges_covered": cov, "seconds": spec.get("fuzz_time", 60), "processes": JOBS}, bad


def replay(pid, path, spec, work):
    files = harness_files(pid, spec)
    env = harness_env(spec, spec["prepare"](pid, spec, work) if "prepare" in spec else {})
    dict_file = os.path.join(work, "literals.txt")
    lits = [l.split()[1] for l in open(path) if l.startswith("#dict ")]
    open(dict_file, "w").write("\n".join(lits) + "\n")
    text = open(path).read()
    attempts = int((re.findall(r'(?m)^#attempts (\d+)', text) or [1])[0])
    search = (re.findall(r'(?m)^#search (.*)', text) or [""])[0].split()
    failed = False
    for n in spec.get("configs", ["A", "B"]):
        b = Build(work, n, CONFIGS[n])
        j, o = b.obj_jobs(files + borrowed(spec, n, "thorough", work) + [os.path.join(HARNESS, "main.cpp")], spec.get("flags", []))
        run_jobs(j + b.lib_jobs())
        binary, rc = b.link(o, pid.lower()), 0
        if search and search[0] == n:
            f = rerun_search(binary, search[1:], dict_file, work, env)
            print("configuration %s, the search again: %s" % (n, json.dumps(f) if f else "PASS"))
            failed |= bool(f)
        if not search:
            for _ in range(attempts):
                rc, out, e = run([binary, "--dict", dict_file, "--replay", path], timeout=120, env=env)
                if rc == 1:
                    break
            print("configuration %s:\n%s%s" % (n, out, e))
        failed |= rc == 1
    return 1 if failed else 0
