"""P35: generated consumer projects of zcm's CMake target.  Each configures, builds, links, runs and computes what the others compute."""
import json, os, random, shutil
import cxx
from vp import *

# option -> values, the first is the plain one a failure is shrunk towards
SPACE = {
    "type": ["Debug", "Release", "", "RelWithDebInfo", "MinSizeRel"],
    "coverage": ["OFF", None, "ON"],
    "compiler": ["g++", "clang++"],
    "generator": ["Ninja", "Unix Makefiles", "Ninja Multi-Config"],
    "std": ["14", "11", "17", "20"],
    "defines": ["", "-DZCM_DISABLE_SWIZZLE"],
    "lto": [False, True],
    "target": ["zcm::zcm", "zcm"],
    "layout": ["subdirectory", "nested", "excluded", "toplevel"],
    "shared": [False, True],
    "values": [[1, 2, 3, 4, 5, 6]],
}
PROJECT = '''cmake_minimum_required(VERSION 3.13)
project(consumer C CXX)
set(CMAKE_CXX_STANDARD %(std)s)
set(CMAKE_CXX_STANDARD_REQUIRED ON)
%(lto)s
%(add)s
add_executable(app main.cpp "%(ops)s")
target_include_directories(app PRIVATE "%(harness)s")
target_link_libraries(app PRIVATE %(target)s)
add_library(ops MODULE "%(ops)s")
set_target_properties(ops PROPERTIES PREFIX "")
target_include_directories(ops PRIVATE "%(harness)s")
target_link_libraries(ops PRIVATE %(target)s)
target_link_options(ops PRIVATE -Wl,-Bsymbolic)
'''
RULE = ("A case of the outer search is a consumer project with a random CMake configuration (build type, coverage option, compiler, generator, C++ "
        "standard, globally disabled swizzles, link-time optimisation, target name, how the tree is added, shared libraries on); it must configure, "
        "build, link and its program must start and compute exact values. The libraries so built are then called side by side as in P30: a case is a "
        "generated call of one registry operation. Non-trivial: as in P30.")


def describe(c):
    return " ".join("%s=%s" % (k, c[k]) for k in SPACE if c[k] != SPACE[k][0] and k != "values") or "plain"


def draw(rnd):
    c = {k: rnd.choice(v) for k, v in SPACE.items()}
    c["values"] = [rnd.randint(-99, 99) for _ in range(6)]
    if c["compiler"] == "clang++":
        c["lto"] = False          # needs the LLVM linker plugin, which is not part of every installation
    return c


def attempt(work, n, c):
    """(module path or None, failure or None)"""
    d = os.path.join(work, "cmake%d" % n)
    rmtree(d)
    os.makedirs(d + "/src/parts")
    os.makedirs(d + "/home")
    app = open(os.path.join(HARNESS, "consumer.cpp.in")).read()
    for k, v in zip(("A0", "A1", "A2", "B0", "B1", "B2"), c["values"]):
        app = app.replace("@" + k, "(%d)" % v)
    with open(d + "/src/main.cpp", "w") as h:
        h.write(app)
    opts = ["set(ZCM_ENABLE_TESTS OFF)"]
    if c["coverage"] is not None:
        opts.append("set(ZCM_ENABLE_COVERAGE_IN_DEBUG %s)" % c["coverage"])
    add = {"subdirectory": 'add_subdirectory("%s" zcm)' % REPO, "excluded": 'add_subdirectory("%s" zcm EXCLUDE_FROM_ALL)' % REPO,
           "nested": 'add_subdirectory(parts)', "toplevel": ""}[c["layout"]]
    target = c["target"]
    if c["layout"] == "nested":
        with open(d + "/src/parts/CMakeLists.txt", "w") as h:
            h.write('\n'.join(opts) + '\nadd_subdirectory("%s" zcm)\n' % REPO)
    env = dict(os.environ, HOME=d + "/home", CXXFLAGS="", CFLAGS="", LDFLAGS="", CC="gcc" if c["compiler"] == "g++" else "clang", CXX=c["compiler"])
    common = ["-G", c["generator"], "-DCMAKE_BUILD_TYPE=" + c["type"], "-DCMAKE_POSITION_INDEPENDENT_CODE=ON", "-DCMAKE_CXX_FLAGS=" + c["defines"],
              "-DBUILD_SHARED_LIBS=%s" % ("ON" if c["shared"] else "OFF"), "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"]
    config = c["type"] or "RelWithDebInfo"
    if c["generator"] == "Ninja Multi-Config":
        common[2] = "-DCMAKE_CONFIGURATION_TYPES=Debug;Release;RelWithDebInfo;MinSizeRel"
        if "zcm_DIR" in os.environ:
            env.pop("zcm_DIR")
    lto = "set(CMAKE_INTERPROCEDURAL_OPTIMIZATION ON)" if c["lto"] else ""

    def step(what, cmd, cwd):
        rc, o, e = judged("%s of a generated project (%s)" % (what, describe(c)), cmd, env=env, cwd=cwd)
        return None if rc == 0 else "%s fails (%s)\n%s" % (what, describe(c), "\n".join([l for l in (o + e).splitlines() if "rror" in l or "undefined" in l][:12]) or (o + e)[-1500:])
    if c["layout"] == "toplevel":          # the tree on its own, its library and headers used directly
        bad = step("configuring the tree itself", ["cmake", "-S", REPO, "-B", d + "/lib", "-DZCM_ENABLE_TESTS=OFF", "-DCMAKE_CXX_STANDARD=" + c["std"]] +
                   (["-DZCM_ENABLE_COVERAGE_IN_DEBUG=" + c["coverage"]] if c["coverage"] is not None else []) + (["-DCMAKE_INTERPROCEDURAL_OPTIMIZATION=ON"] if c["lto"] else []) + common, d) or \
            step("building the tree itself", ["cmake", "--build", d + "/lib", "--config", config, "-j", "4"], d)
        if bad:
            return None, bad
        # export(PACKAGE) leaves no package file, so the user names the library and the definitions
        lib = [os.path.join(r, f) for r, _, fs in os.walk(d + "/lib") for f in fs if f.startswith("libzcm.")]
        if len(lib) != 1:
            return None, "the tree built on its own leaves %d libraries named zcm (%s)" % (len(lib), describe(c))
        release = "Debug" not in c["type"] or c["generator"] == "Ninja Multi-Config"
        add = 'add_library(given STATIC IMPORTED)\nset_target_properties(given PROPERTIES IMPORTED_LOCATION "%s" INTERFACE_INCLUDE_DIRECTORIES "%s/include")\n' % (lib[0], REPO)
        add += "set_target_properties(given PROPERTIES INTERFACE_COMPILE_DEFINITIONS ZCM_RELEASE_BUILD)\n" if release else ""
        # a library with coverage counters asks its user for gcov
        add += 'target_link_libraries(given INTERFACE gcov)\n' if c["coverage"] != "OFF" and c["type"] == "Debug" and c["compiler"] == "g++" else ""
        target = "given"
        opts = []
    with open(d + "/src/CMakeLists.txt", "w") as h:
        h.write(PROJECT % dict(std=c["std"], lto=lto, add="\n".join(opts) + "\n" + add, ops=os.path.join(HARNESS, "ops_impl.cpp"), harness=HARNESS, target=target))
    bad = step("configuring", ["cmake", "-S", d + "/src", "-B", d + "/b"] + common, d) or step("building", ["cmake", "--build", d + "/b", "--config", config, "-j", "4"], d)
    if bad:
        return None, bad
    found = {f: os.path.join(r, f) for r, _, fs in os.walk(d + "/b") for f in fs if f in ("app", "ops.so")}
    if len(found) != 2:
        raise BuildError("outputs of a generated project (%s)" % describe(c), str(found), False)
    rc, o, e = program([found["app"]], timeout=120, env=env, cwd=d)
    if rc != 0:
        return None, "the program ends with status %s and prints %r (%s)" % (rc, (o + e)[-300:], describe(c))
    return found["ops.so"], None


def shrink(work, c, why):
    for k in SPACE:
        if c[k] == SPACE[k][0]:
            continue
        t = dict(c, **{k: SPACE[k][0]})
        so, w = attempt(work, 900, t)
        if w:
            c, why = t, w
    return c, why


def prepare(pid, spec, work):
    rnd = random.Random(spec["seed"] * 104729 + 35)
    n = 10 if spec["tier"] == "quick" else 50
    cs = [{k: v[0] for k, v in SPACE.items()}]
    cs.append(dict(cs[0], coverage=None))          # what the defaults give a GNU user
    # every combination of debug or release, compiler and swizzles comes up, with each standard in turn; the rest is random
    stds, types = rnd.sample(SPACE["std"], 4), rnd.sample(SPACE["type"][1:], 4)
    k = 0
    while len(cs) < n:
        c = draw(rnd)
        c.update(compiler=SPACE["compiler"][k & 1], defines=SPACE["defines"][k >> 1 & 1], type="Debug" if k >> 2 & 1 else types[(k + (k >> 3)) % 4], std=stds[(k + (k >> 2)) % 4])
        if c["compiler"] == "clang++":
            c["lto"] = False
        k += 1
        if c not in cs:
            cs.append(c)
    spec["configurations"] = [describe(c) for c in cs]
    libs, bad = [], None
    with ThreadPoolExecutor(4) as ex:
        for k, c, f in [(k, c, ex.submit(attempt, work, k, c)) for k, c in enumerate(cs)]:
            so, why = f.result()
            if why and not bad:
                bad = (c, why)
            elif so:
                libs.append("%s=%s" % (describe(c).replace(":", ".").replace("=", "-"), so))
    if bad:
        c, why = shrink(work, *bad)
        raise Violation("a project that uses the CMake target fails: " + why, json.dumps(c, indent=1) + "\n", "json")
    return {"OPS_LIBS": ":".join(libs)}


def check(pid, tier, seed, spec, work):
    spec = dict(spec, prepare=prepare, tier=tier, seed=seed)
    cov, bad = cxx.check(pid, tier, seed, spec, work)
    cov["rule"] = RULE + " " + cov.get("rule", "")
    cov["configurations_built"] = spec.get("configurations", [])
    return cov, bad


def replay(pid, path, spec, work):
    if path.endswith(".json"):
        so, why = attempt(work, 0, json.load(open(path)))
        print(why or "configures, builds and runs")
        return 1 if why else 0
    return cxx.replay(pid, path, dict(spec, prepare=prepare, tier="quick", seed=int(os.environ.get("VERIF_SEED", "1"))), work)
