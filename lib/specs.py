"""Per-property settings of the checks (case counts are per configuration, fixed; time is only a safety cap)."""
import builds

COMMON = [
    "IEEE-754 single arithmetic in round-to-nearest, x86-64, gcc 13 and clang 18, no -ffast-math",
    "harnesses use only the public headers; values are read and written through memcpy",
]


def S(**k):
    k.setdefault("assumptions", COMMON)
    return k


SPECS = {
    "P01": S(cases=40000000),
    "P02": S(cases=40000000),
    "P03": S(cases=30000000),
    "P04": S(cases=30000000),
    "P05": S(cases=24000000),
    "P06": S(cases=12000000),
    "P07": S(cases=150000, configs=["A"], fuzz=False),
    "P08": S(cases=24000000),
    "P09": S(cases=24000000),
    "P10": S(cases=24000000),
    "P11": S(cases=24000000),
    "P12": S(cases=24000000),
    "P13": S(cases=24000000),
    "P14": S(cases=24000000),
    "P15": S(cases=24000000),
    "P16": S(cases=14000000),
    "P17": S(cases=14000000),
    "P18": S(cases=16000000),
    "P19": S(cases=24000000),
    "P20": S(cases=24000000),
    "P21": S(cases=24000000),
    "P22": S(cases=24000000),
    "P23": S(cases=24000000),
    "P24": S(cases=24000000),
    "P25": S(cases=16000000),
    "P26": S(cases=10000000),
    "P27": S(cases=24000000),
    "P28": S(cases=24000000),
    "P29": S(cases=10000000),
    "P30": S(cases=6000000, configs=["A"], prepare=builds.prepare, fuzz=False),
    "P31": S(engine="p31", assumptions=["g++ 13 and clang 18 with libstdc++ 13; the library built by g++ from every source in src/"]),
    "P32": S(engine="p32", assumptions=["benchgen is built with the system's fmt 9 header-only instead of the (empty) third_party/fmt submodule", "the wall clock is replaced by a generated value; GLM 0.9.9.8 for the GLM variant"]),
    "P37": S(engine="p37", assumptions=["g++ 13 and clang 18 with libstdc++ 13; names taken by the usual standard headers are not asked about"]),
    "P36": S(engine="p36", assumptions=["g++ 13 and clang 18; the registry of operations (harness/ops.inc) lists every overload of the public API"]),
    "P35": S(engine="p35", cases=3000000, configs=["A"], fuzz=False,
             assumptions=["CMake 3.28 with Ninja and Make, g++ 13, clang 18; tests and benchmarks off, since their submodules are not in the tree"]),
    "P33": S(cases=3000000, configs=["A", "B", "T"], scale={"T": 0.02}, extra=["ops_impl.cpp"], fuzz=False),
    "P34": S(cases=4000000, configs=["S1", "S2", "M"], extra=["ops_impl.cpp"], fuzz=False, scale={"S1": 2},
             borrow=["p%02d" % k for k in (1, 2, 4, 5) + tuple(range(8, 29)) if k not in ()], borrow_configs={"quick": ["S1"], "thorough": ["S1", "S2", "M"]}),
}
