"""P30: the library and the operation registry as shared objects, one per build configuration of the tree."""
from vp import *

SO = ["-fPIC", "-shared", "-Wl,-Bsymbolic", "-fvisibility=default"]
REL = ["-DNDEBUG", "-DZCM_RELEASE_BUILD"]
VARIANTS = [     # name, flags, library standard, user standard
    ("g++ -O0 debug", ["g++", "-O0", "-fno-gnu-unique"], "c++14", "c++14"),
    ("g++ -O2 release", ["g++", "-O2", "-fno-gnu-unique"] + REL, "c++14", "c++14"),
    ("clang++ -O2 release", ["clang++", "-O2"] + REL, "c++14", "c++14"),
    ("clang++ -O0 debug", ["clang++", "-O0"], "c++14", "c++11"),
    ("g++ -O2 no swizzle", ["g++", "-O2", "-fno-gnu-unique", "-DZCM_DISABLE_SWIZZLE"], "c++14", "c++11"),
    ("clang++ -O1 release no swizzle", ["clang++", "-O1", "-DZCM_DISABLE_SWIZZLE"] + REL, "c++14", "c++14"),
    ("g++ -O3 c++20, no build type", ["g++", "-O3", "-fno-gnu-unique", "-DZCM_RELEASE_BUILD"], "c++20", "c++20"),
    ("clang++ -Os c++17 release", ["clang++", "-Os"] + REL, "c++17", "c++17"),
    ("clang++ -O3 debug, user c++20", ["clang++", "-O3"], "c++14", "c++20"),
    # the library as a release, its user in debug mode and the other way round
    ("g++ mixed, library release", ["g++", "-O1", "-fno-gnu-unique"], "c++14", "c++14"),
    # the dialects and switches of embedded and game projects
    ("g++ -Os gnu++23 bare release", ["g++", "-Os", "-fno-gnu-unique", "-fno-exceptions", "-fno-rtti", "-funsigned-char", "-fshort-enums", "-fno-math-errno"] + REL, "gnu++20", "gnu++23"),
    ("clang++ -O2 gnu++2b hardened", ["clang++", "-O2", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-D_FORTIFY_SOURCE=2", "-fstack-protector-strong", "-ftrivial-auto-var-init=pattern"], "gnu++14", "gnu++2b"),
    ("g++ -O2 link-time optimised", ["g++", "-O2", "-fno-gnu-unique", "-flto", "-flto-partition=one"] + REL, "c++14", "c++14"),
]


def cpu_flags():
    try:
        with open("/proc/cpuinfo") as h:
            return set(next((l for l in h if l.startswith("flags")), "").split())
    except OSError:
        return set()


# with the wider instruction set where the machine has it; no contraction into fma, which may round differently by design
if {"avx2", "fma", "bmi2", "f16c", "movbe"} <= cpu_flags():
    VARIANTS.append(("g++ -O2 x86-64-v3", ["g++", "-O2", "-fno-gnu-unique", "-march=x86-64-v3", "-ffp-contract=off"], "c++14", "c++14"))
    VARIANTS.append(("clang++ -O3 x86-64-v3", ["clang++", "-O3", "-march=x86-64-v3", "-ffp-contract=off"] + REL, "c++17", "c++17"))


def prepare(pid, spec, work):
    """Builds every variant; returns the environment that names them to the harness."""
    jobs, links = [], []
    for k, (name, flags, std, ustd) in enumerate(VARIANTS):
        b = Build(work, "so%d" % k, flags + ["-fPIC"], lib_std=std, har_std=ustd)
        b.name = name
        j, o = b.obj_jobs([os.path.join(HARNESS, "ops_impl.cpp")])
        if "mixed" in name:
            b.flags = b.flags + REL
        jobs += j + b.lib_jobs()
        links.append((name, b, o))
    failed = {}
    with ThreadPoolExecutor(JOBS) as ex:
        for (cmd, what), f in [(j, ex.submit(compile_one, *j)) for j in jobs]:
            try:
                f.result()
            except BuildError as e:
                failed[what] = e
    if failed:
        base = VARIANTS[0][0]
        for what, e in sorted(failed.items()):
            if not e.diagnosed:
                raise e
        bad = sorted(failed.values(), key=lambda e: e.what)
        if any("(configuration %s)" % base in e.what and e.what.startswith("library") for e in bad):
            raise bad[0]          # does not build at all
        raise Violation("does not compile in one of the supported configurations: " + bad[0].what, "# %s\n%s\n" % (bad[0].what, bad[0].log))
    out = []
    for name, b, o in links:
        so = os.path.join(b.dir, "ops.so")
        compile_link([b.flags[0]] + b.flags[1:] + SO + o + b.lib + ["-o", so], "linking %s" % name)
        out.append("%s=%s" % (name, so))
    return {"OPS_LIBS": ":".join(out)}
