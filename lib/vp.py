"""Shared machinery of the checks: builds the tree under test, runs harnesses, writes evidence."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZCM_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
JOBS = 8

# the two standing configurations: unoptimised-with-assertions and optimised release
CONFIGS = {
    "A": ["g++", "-O1", "-fwrapv"],
    "B": ["clang++", "-O2", "-DNDEBUG", "-DZCM_RELEASE_BUILD"],
    # sanitized builds; out-of-range float conversions and division by zero are IEEE behaviour the library documents by using it
    "S1": ["clang++", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=float-cast-overflow,float-divide-by-zero,function,vptr", "-fno-sanitize-recover=all"],
    "S2": ["g++", "-O2", "-g", "-DNDEBUG", "-DZCM_RELEASE_BUILD", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    "M": ["clang++", "-O1", "-g", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fsanitize=memory"],
    "T": ["clang++", "-O1", "-g", "-fsanitize=thread"],
}
QUIET = ["-Wno-misleading-indentation", "-w"]


class BuildError(Exception):
    """The tree or a harness did not compile.  .diagnosed: the compiler itself rejected it."""
    def __init__(self, what, log, diagnosed):
        super().__init__(what)
        self.what, self.log, self.diagnosed = what, log, diagnosed


class Violation(Exception):
    def __init__(self, text, replay_body, ext="txt"):
        super().__init__(text)
        self.text, self.body, self.ext = text, replay_body, ext


def run(cmd, timeout=None, **kw):
    """Runs cmd in a session of its own; kills the whole group on timeout (returncode None)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        rc = None
    return rc, o.decode("utf8", "replace"), e.decode("utf8", "replace")


def repo_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


def repo_headers():
    return sorted(glob.glob(os.path.join(REPO, "include", "**", "*.hpp"), recursive=True) +
                  glob.glob(os.path.join(REPO, "src", "**", "*.hpp"), recursive=True))


def strip_comments(s):
    return re.sub(r'//[^\n]*|/\*.*?\*/', ' ', s, flags=re.S)


def mine_literals(path):
    """Numeric literals of the tree under test: the generators draw boundary values from them."""
    vals = set()
    for f in repo_sources() + repo_headers():
        with open(f, errors="replace") as h:
            t = strip_comments(h.read())
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[fFuUlL]*(?![\w.])', t):
            try:
                v = float(int(m.group(1), 16)) if m.group(1)[:2].lower() == "0x" else float(m.group(1))
            except ValueError:
                continue
            vals.add(v)
    vals = sorted(vals)[:4000]
    with open(path, "w") as h:
        h.write("\n".join(repr(v) for v in vals) + "\n")
    return len(vals)


TROUBLE = ("internal compiler error", "No space left", "Killed signal", "terminated signal", "terminated program", "unable to execute command", "frontend command failed", "PLEASE submit a bug report", "LLVM ERROR",
           "out of memory", "virtual memory exhausted", "Cannot allocate memory", "std::bad_alloc", "Resource temporarily unavailable", "linker command failed due to signal")


def troubled(rc, e):
    """the compiler or another tool failed for want of resources or by a fault of its own: no judgement on its input"""
    return rc is None or rc < 0 or rc > 128 or any(t in e for t in TROUBLE)


def tool(cmd, timeout=600, **kw):
    """run(), again if the tool itself was in trouble"""
    for wait in (1, 20, 0):
        rc, o, e = run(cmd, timeout=timeout, **kw)
        if rc is None or not troubled(rc, o + e):
            break
        time.sleep(wait)
    return rc, o, e


def judged(what, cmd, **kw):
    """tool(), whose failure must be a judgement on its input"""
    rc, o, e = tool(cmd, **kw)
    if troubled(rc, o + e):
        raise BuildError(what, "status %s\n" % rc + (o + e)[-3000:], False)
    return rc, o, e


def program(cmd, **kw):
    """runs a program made from the tree, with bounded memory; a program somebody else killed is run again"""
    import resource
    for wait in (1, 20, 0):
        rc, o, e = run(cmd, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)), **kw)
        if rc != -signal.SIGKILL:
            return rc, o, e
        time.sleep(wait)
    raise BuildError("running a generated program", "killed", False)


def compile_one(cmd, what):
    rc, o, e = tool(cmd)
    if rc == 0:
        return
    if rc == 1 and "error:" in e and not troubled(rc, e):
        raise BuildError(what, " ".join(cmd) + "\n" + e[:6000], True)
    raise BuildError(what, " ".join(cmd) + "\nstatus %s\n" % rc + e[:6000], False)


class Build:
    """Objects of one configuration of the tree, built into a directory of our own."""
    def __init__(self, root, name, flags, lib_std="c++14", har_std="c++17"):
        self.dir = os.path.join(root, name)
        os.makedirs(self.dir, exist_ok=True)
        self.name, self.flags, self.lib_std, self.har_std = name, flags, lib_std, har_std
        self.lib = []

    def lib_jobs(self):
        jobs = []
        for f in repo_sources():
            o = os.path.join(self.dir, "lib_" + os.path.relpath(f, REPO).replace("/", "_") + ".o")
            self.lib.append(o)
            cmd = [self.flags[0], "-std=" + self.lib_std] + self.flags[1:] + QUIET + \
                ["-I" + os.path.join(REPO, "include"), "-c", f, "-o", o]
            jobs.append((cmd, "library source %s (configuration %s)" % (os.path.relpath(f, REPO), self.name)))
        return jobs

    def obj_jobs(self, files, extra=()):
        jobs, objs = [], []
        for f in files:
            o = os.path.join(self.dir, "h_" + os.path.basename(f) + ".o")
            objs.append(o)
            cmd = [self.flags[0], "-std=" + self.har_std] + self.flags[1:] + QUIET + list(extra) + \
                ["-I" + os.path.join(REPO, "include"), "-I" + HARNESS, "-c", f, "-o", o]
            jobs.append((cmd, "harness %s (configuration %s)" % (os.path.basename(f), self.name)))
        return jobs, objs

    def link(self, objs, out, extra=()):
        out = os.path.join(self.dir, out)
        compile_link([self.flags[0]] + self.flags[1:] + objs + self.lib + ["-o", out, "-lpthread"] + list(extra),
                     "linking %s" % os.path.basename(out))
        return out


def compile_link(cmd, what):
    rc, o, e = tool(cmd)
    if rc != 0:
        raise BuildError(what, " ".join(cmd)[:2000] + "\n" + e[:6000], not troubled(rc, e) and (rc == 1 and "undefined reference" in e or "multiple definition" in e))


def run_jobs(jobs):
    """Compiles everything in parallel; raises the first library failure, else the first failure."""
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(compile_one, *j) for j in jobs]
        for f in fs:
            try:
                f.result()
            except BuildError as e:
                errs.append(e)
    if errs:
        errs.sort(key=lambda e: 0 if e.what.startswith("library") else 1)
        raise errs[0]


def scratch(pid):
    base = os.environ.get("VP_SCRATCH", os.path.join(VERIF, "build"))
    os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=pid + "-", dir=base)


def rmtree(path):
    shutil.rmtree(path, ignore_errors=True)


def known_findings(pid):
    """Lines 'known: property=<id> key=<identification> <what fails>' of known_findings.txt."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as h:
        for line in h:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def write_replay(pid, body, ext="txt"):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.%s" % (pid, hashlib.sha1(body.encode()).hexdigest()[:12], ext))
    with open(p, "w") as h:
        h.write(body)
    return p


def write_evidence(pid, tier, seed, coverage, assumptions, wall, violations, level="exploration"):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + ".json")
    with open(p + ".tmp", "w") as h:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 3), "violations": violations}, h, indent=1)
        h.write("\n")
    os.replace(p + ".tmp", p)
