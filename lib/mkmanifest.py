"""Writes MANIFEST.json from properties.jsonl: mkmanifest.py [highest claimed number]"""
import json,sys
N=int(sys.argv[1]) if len(sys.argv)>1 else 99
tech={
"P03":"property-based testing: order axioms and model-based container histories over generated integer vectors",
"P07":"property-based testing: generated indices, each access in a forked child, oracle = how the child ends",
"P26":"property-based testing: metamorphic hash/equality relations and model-based container histories",
"P29":"differential property-based testing against GLM 0.9.9.8",
"P30":"differential property-based testing of one operation registry across build configurations",
"P31":"property-based testing: generated programs (header subsets, orders, uses of the API) testing compiled, linked and run; every declared symbol looked up",
"P32":"property-based testing of the generators: random seeds and directories, generated programs compiled, linked and run",
"P35":"property-based testing: generated consumer projects of the CMake target, then differential testing of the operation registry across them",
"P37":"property-based testing: generated programs full of names of their own, compiled, linked and run with zcm and compared with the same programs without it",
"P36":"property-based testing: generated well- and ill-typed expressions judged by a reference type checker and put to both compilers",
"P33":"stateful property-based testing: histories and concurrent schedules of generated calls, plus ThreadSanitizer",
"P34":"sanitizer-instrumented property-based testing and fuzzing of every operation",
}
base="property-based testing: seeded structured generators against a double-precision / exact reference model, shrinking to a replay"
note={
"P31":"The symbol part enumerates every declaration; header subsets and orders are sampled. A missing definition recorded in known_findings.txt is reported as KNOWN-FINDING.",
"P30":"Fifteen builds (g++ and clang++, -O0 to -O3 and -Os, release, debug and no build type, swizzle on and off, C++11 to 23 and GNU dialects, LTO, mixed) are compared with each other; agreement is to 64 ulp or 1e-5 of the largest component.",
"P32":"Seeds and directories are sampled; symbolic links and unwritable directories are not generated. fmt comes from the system because the submodule is empty here.",
"P35":"Configurations are sampled (10 quick, 50 thorough; every combination of debug or release, compiler and swizzle setting among them), with one CMake version; tests and benchmarks of the tree stay off, their submodules are empty here; clang is not combined with link-time optimisation.",
"P33":"Histories, threads and schedules are sampled; ThreadSanitizer sees races on executed paths.",
"P37":"Names, kinds and header lists are sampled (names mined from the tree itself with weight); macros and symbols are enumerated. Names that the usual standard headers take are not asked about.",
"P36":"Expressions and substituted operand lists are sampled; the answers are overload resolution in g++ 13 and clang 18; expressions the specification leaves open (bool mixed with numbers, narrowing scalars) are not judged.",
"P34":"Sanitizers (ASan, UBSan, MSan) observe executed cases only; operands are allocated one by one so that any access past them is seen.",
}
dn="Search, not proof: tens of millions of generated cases per run, biased to special values, boundaries and related operands; trusts the compilers, libm in double and the reference in the harness."
c=[]
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); i=d["id"]
    if int(i[1:])>N: continue
    c.append({"property":i,"quick_cmd":"python3 check.py "+i,"thorough_cmd":"python3 check.py %s --tier thorough"%i,"technique":tech.get(i,base),"level":"exploration","level_note":note.get(i,dn)})
json.dump({"version":1,"setup_cmd":"python3 -c \"import json;json.load(open('MANIFEST.json'))\" && g++ --version >/dev/null && clang++ --version >/dev/null","checks":c,"not_applicable":[{"property":json.loads(l)["id"],"reason":"check under construction"} for l in open('/verif/properties.jsonl') if int(json.loads(l)["id"][1:])>N],"notes":"Checks build /repo's working tree themselves, in scratch directories under /verif/build; no hooks in /repo are needed."},open('/verif/MANIFEST.json','w'),indent=1)
open('/verif/MANIFEST.json','a').write("\n")
