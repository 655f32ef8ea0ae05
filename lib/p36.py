"""P36: a reference type checker against the compilers.  Well-typed expressions have their type and cannot throw; operands of different shapes do not mix."""
import json, os, random, re
import p31
from vp import *
from vp import program as run_program

RULE = ("Four kinds of cases, each a question put to a compiler by overload resolution alone: 'expressions' (random trees of operators, functions, "
        "constructors, swizzles and indexing over variables of all types; half well-typed by construction, half with one ill-typed node in a random place; a reference "
        "type checker says which type the whole has or that it must be rejected), 'substitutions' (the operand list of a registry operation with one vector, matrix or "
        "quaternion replaced by one of another type: rejected unless the new list is itself in the registry; unchanged lists: accepted and noexcept), 'conversions' (the numbers of a registry operation given as other arithmetic types: accepted where no overload tells numbers apart), 'types' (implicit conversions "
        "between all pairs, size, layout and copying of each type). Each is asked under a random combination of compiler, standard, swizzle and release setting. "
        "Non-trivial: an expression of at least two operations, a substitution, a conversion, a type fact; distinct texts are counted.")
SC = {"f": "float", "i": "int", "b": "bool"}
CLS = {"%s%d" % (s, n): "%s%d" % (l, n) for s, l in (("v", "vec"), ("iv", "ivec"), ("bv", "bvec"), ("m", "mat")) for n in (2, 3, 4)}
CLS["q"] = "quat"
SHORT = {l: s for s, l in CLS.items()}
VARS = ["f", "i", "b"] + sorted(CLS)
CXX = dict([(k, "zcm::" + v) for k, v in CLS.items()], **SC)
REJECT, FREE = "reject", "free"
FLOATING = ["v2", "v3", "v4"]


def kind(t):
    return t.rstrip("234")


def size(t):
    return int(t[-1]) if t[-1] in "234" else 0


# ---- the reference type checker -------------------------------------------------------------------------------------

def binary(op, a, b):
    """type of a op b, REJECT if the operands must not mix, FREE if the specification leaves it open"""
    ka, kb, ca, cb = kind(a), kind(b), a in CLS, b in CLS
    if not ca and not cb:
        if op in "+-*/" and "b" not in (a, b):
            return "f" if "f" in (a, b) else "i"
        if op in ("==", "!=", "<", ">", "<=", ">=") and a == b:
            return "b"
        if op in ("&&", "||") and a == b == "b":
            return "b"
        return FREE
    if ca and cb and a != b:
        if op in ("*", "/") and {ka, kb} == {"m", "v"} and size(a) == size(b):
            return a if ka == "v" else b
        if op == "*" and {a, b} == {"q", "v3"}:
            return "v3"
        if {ka, kb} == {"iv", "bv"} and size(a) == size(b):
            return FREE
        return REJECT
    if ca and cb:
        if op in ("==", "!="):
            return "b"
        if op in ("<", ">", "<=", ">="):
            return "b" if ka == "iv" else FREE
        if ka == "v" or ka == "m":
            return a if op in "+-*/" else FREE
        if ka == "iv":
            return a if op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>") else FREE
        if ka == "bv":
            return a if op in ("&&", "||", "^") else FREE
        return a if op in "+-*" else FREE        # quat
    c, s = (a, b) if ca else (b, a)
    k = kind(c)
    if k == "v" and op in "+-*/" and s != "b":
        return c
    if k == "iv" and op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>") and s == "i":
        return c
    if k == "bv" and op in ("&&", "||", "^") and s == "b":
        return c
    if k in ("m", "q") and op in "*/" and s != "b":
        return c
    return FREE


def compound(op, a, b):
    """whether lvalue a may stand left of op= b"""
    if a in CLS and b in CLS and a != b:
        if {kind(a), kind(b)} == {"iv", "bv"} and size(a) == size(b):
            return FREE
        return REJECT if op == "" or not (op in "*/" and (binary(op, a, b) not in (REJECT, FREE))) else FREE
    if a == b and a in CLS:
        if op == "":
            return "any"
        ok = {"v": "+-*/", "m": "+-*/", "q": "+-*", "iv": ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"], "bv": "&|^"}[kind(a)]
        return "any" if op in ok else FREE
    if kind(a) == "v" and b == "f" and op in list("+-*/"):
        return "any"
    if a == "q" and b == "f" and op in ("*", "/"):
        return "any"
    if kind(a) == "iv" and b == "i" and op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"):
        return "any"
    return FREE


def functions():
    """result, name, operand types"""
    out = []
    for n in "234":
        v, iv, bv, m = "v" + n, "iv" + n, "bv" + n, "m" + n
        for f in "sin cos tan asin acos atan sinh cosh tanh radians degrees exp exp2 log log2 sqrt inversesqrt abs sign floor ceil round roundEven trunc fract normalize".split():
            out.append((v, f, (v,)))
        for f in "pow atan min max step reflect mod".split():
            out.append((v, f, (v, v)))
        for f in ("faceforward", "clamp", "smoothstep", "mix"):
            out.append((v, f, (v, v, v)))
        out += [("f", "dot", (v, v)), ("f", "distance", (v, v)), ("f", "length", (v,)), (v, "refract", (v, v, "f")), (v, "mix", (v, v, "f")), (iv, "abs", (iv,))]
        for f in "lessThan lessThanEqual greaterThan greaterThanEqual equal notEqual".split():
            out.append((bv, f, (v, v)))
        out += [("b", "any", (bv,)), ("b", "all", (bv,)), (bv, "equal", (bv, bv))]
        for f in "compAdd compMul compMin compMax".split():
            out += [("f", f, (v,)), ("i", f, (iv,))]
        out += [(m, "transpose", (m,)), (m, "inverse", (m,)), ("f", "determinant", (m,)), (m, "matrixCompMult", (m, m))]
    out += [("v3", "cross", ("v3", "v3")), ("m3", "mat3_cast", ("q",)), ("m4", "mat4_cast", ("q",)), ("q", "quat_cast", ("m3",)), ("q", "quat_cast", ("m4",)), ("q", "conjugate", ("q",)), ("q", "inverse", ("q",)),
            ("q", "normalize", ("q",)), ("f", "dot", ("q", "q")), ("q", "slerp", ("q", "q", "f")), ("q", "angleAxis", ("f", "v3")), ("v3", "axis", ("q",)), ("f", "angle", ("q",)), ("v3", "eulerAngles", ("q",)),
            ("m4", "translate", ("m4", "v3")), ("m4", "rotate", ("m4", "f", "v3")), ("m4", "scale", ("m4", "v3")), ("m4", "lookAtRH", ("v3", "v3", "v3")), ("m4", "perspectiveRH_NO", ("f", "f", "f", "f")), ("f", "sqrt", ("f",)), ("f", "abs", ("f",)), ("f", "sin", ("f",))]
    ctors = [("v3", ("v2", "f")), ("v3", ("f", "v2")), ("v4", ("v3", "f")), ("v4", ("f", "v3")), ("v4", ("v2", "v2")), ("v4", ("v2", "f", "f")), ("v2", ("f", "f")), ("v3", ("f", "f", "f")), ("v3", ("f",)), ("v4", ("f",)),
             ("iv2", ("i", "i")), ("iv3", ("i", "i", "i")), ("iv4", ("i",)), ("bv2", ("b", "b")), ("bv3", ("iv3",)), ("bv2", ("iv2",)), ("bv4", ("iv4",)), ("m2", ("v2", "v2")), ("m3", ("v3", "v3", "v3")), ("m4", ("v4", "v4", "v4", "v4")),
             ("m3", ("m4",)), ("m4", ("m3",)), ("m2", ("m3",)), ("m3", ("m2",)), ("q", ("f", "v3")), ("m4", ("f",)), ("q", ("v3", "v3")), ("q", ("f", "f", "f", "f"))]
    return out, ctors


class Grammar:
    def __init__(self, rnd, swizzle, registered):
        self.rnd, self.swizzle, self.reg = rnd, swizzle, registered
        fs, cs = functions()
        self.by = {}
        for r, f, a in fs:
            self.by.setdefault(r, []).append(("zcm::" + f, a))
        for r, a in cs:
            self.by.setdefault(r, []).append((CXX[r], a))
        self.all = [("zcm::" + f, a) for r, f, a in fs] + [(CXX[r], a) for r, a in cs]
        self.size = 0

    def leaf(self, t, plain=False):
        r = self.rnd
        if not plain and r.random() < 0.4:
            if t in ("f", "i"):
                v = r.choice(["v", "iv"][t == "i":][:1]) + r.choice("234")
                return "%s.%s" % (v, r.choice("xyzw"[:size(v)]))
            if self.swizzle and kind(t) in ("v", "iv"):
                v = kind(t) + r.choice([n for n in "234" if int(n) >= size(t)])       # a vector has swizzles of up to its own size
                names = r.choice(["xyzw", "rgba", "stpq"])[:size(v)]
                return "%s.%s" % (v, "".join(r.choice(names) for _ in range(size(t))))
            if kind(t) == "v" and r.random() < 0.3:
                return "m%d[%d]" % (size(t), r.randrange(size(t)))
        return t

    def pairs(self, t):
        """(op, a, b) with binary(op, a, b) == t"""
        if not hasattr(self, "cache"):
            self.cache = {}
            for op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||"):
                for a in VARS:
                    for b in VARS:
                        self.cache.setdefault(binary(op, a, b), []).append((op, a, b))
        return self.cache.get(t, [])

    def gen(self, t, depth, plain=False):
        r = self.rnd
        if depth <= 0 or r.random() < 0.12:
            return self.leaf(t, plain)
        self.size += 1
        k = r.random()
        if k < 0.5 and self.pairs(t):
            op, a, b = r.choice(self.pairs(t))
            return "(%s %s %s)" % (self.gen(a, depth - 1), op, self.gen(b, depth - 1))
        if k < 0.6:
            u = {"v": ["-", "+"], "iv": ["-", "+"], "bv": ["!"], "m": ["-"], "q": ["-"], "f": ["-"], "i": ["-"], "b": ["!"]}[kind(t)]
            if kind(t) != "m":
                return "(%s%s)" % (r.choice(u), self.gen(t, depth - 1))
        if k < 0.65:
            return "(b ? %s : %s)" % (t, t)
        if self.by.get(t):
            f, a = r.choice(self.by[t])
            return "%s(%s)" % (f, ", ".join(self.gen(x, depth - 1, f == CXX[t]) for x in a))      # no swizzle straight into a constructor: two conversions
        return self.leaf(t, plain)

    def wrong(self, depth):
        """an ill-typed node: operands the specification keeps apart"""
        r = self.rnd
        for _ in range(100):
            k = r.random()
            if k < 0.55:
                op, a, b = r.choice(self.pairs(REJECT))
                return "(%s %s %s)" % (self.gen(a, depth), op, self.gen(b, depth))
            if k < 0.7:
                a, b, op = r.choice(sorted(CLS)), r.choice(sorted(CLS)), r.choice(["", "", "+", "-", "*", "/", "%", "&", "|", "^"])
                if compound(op, a, b) == REJECT:
                    return "(%s %s= %s)" % (a, op, self.gen(b, depth))
                continue
            f, a = r.choice(self.all)
            at = [n for n, x in enumerate(a) if x in CLS]
            if not at:
                continue
            n = r.choice(at)
            new = list(a)
            new[n] = r.choice(sorted(CLS))
            if new[n] == a[n] or (kind(new[n]) == "iv" and kind(a[n]) == "bv") or self.reg(f, tuple(new)) or (len(new) == 1 and CXX[new[0]] == f):
                continue
            return "%s(%s)" % (f, ", ".join(self.gen(x, depth) for x in new))
        return "(v2 + v3)"

    def expression(self):
        """(text, expected)"""
        r = self.rnd
        self.size = 0
        depth = r.choice([1, 1, 2, 2, 3, 4])
        if r.random() < 0.1:
            a, op = r.choice(sorted(CLS)), r.choice(["", "+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
            b = r.choice([a, a, "f", "i"])
            if compound(op, a, b) == "any":
                return "(%s %s= %s)" % (a, op, self.gen(b, depth - 1)), "any", self.size + 1
        t = r.choice(VARS)
        if r.random() < 0.5:
            for _ in range(20):
                e = self.gen(t, depth)
                if e.startswith("(") or e.startswith("zcm::"):
                    return e, t, self.size
        bad = self.wrong(depth - 1)
        if r.random() < 0.4:        # somewhere inside another expression
            bad = r.choice(["zcm::abs(%s)", "(f * %s)", "(%s, f)", "(b ? f : (%s, f))", "zcm::vec3(%s)", "(-%s)"]) % bad
        return bad, REJECT, self.size + 1


# ---- questions to the compilers -------------------------------------------------------------------------------------

class Question:
    def __init__(self, text, types, expect, what, size=2):
        self.text, self.types, self.expect, self.what, self.size = text, types, expect, what, size     # types: (C++ type, name) of each variable

    def key(self):
        return (self.text, tuple(self.types), self.expect)


def preamble(headers):
    s = "".join("#include <%s>\n" % h for h in headers)
    s += "#include <cstdio>\n#include <type_traits>\n#include <utility>\nstruct No {}; template<class T> const char* nm() { return \"another type\"; }\n"
    for t, n in [("void", "void")] + [(CXX[v], v) for v in VARS]:
        s += "template<> const char* nm<%s>() { return \"%s\"; }\n" % (t, n)
    s += ("namespace user { using namespace zcm; template<class T> const T& kst(T& t) noexcept { return t; } "
          "template<class T> const char* bytes(const T& t) noexcept { return (const char*)(const void*)&t; } }\n")
    return s, s.count("\n") + 1


def overloads(k, q):
    tp = ",".join("class T%d" % n for n in range(len(q.types)))
    pr = ",".join(["T%d& %s" % (n, name) for n, (_, name) in enumerate(q.types)] + ["int"])
    no = ",".join(["T%d&" % n for n in range(len(q.types))] + ["..."])
    return "namespace user { template<%s> auto p%d(%s) noexcept(noexcept(%s)) -> decltype(%s); template<%s> No p%d(%s); }" % (tp, k, pr, q.text, q.text, tp, k, no)


def program(headers, qs):
    s, first = preamble(headers)
    body = ""
    for k, q in enumerate(qs):
        s += overloads(k, q) + "\n"
        arg = "".join("std::declval<%s&>()," % t for t, _ in q.types) + "0"
        body += "{ typedef std::decay<decltype(user::p%d(%s))>::type D; std::printf(\"%d %%s %%d\\n\", std::is_same<D, No>::value ? \"reject\" : nm<D>(), int(noexcept(user::p%d(%s)))); }\n" % (k, arg, k, k, arg)
    return s + "int main() {\n" + body + "}\n", first


def ask(lab, cxx, std, d, headers, qs):
    """what the compiler makes of each question: type name or 'reject', then whether it is noexcept; None with the log if the program itself fails"""
    text, first = program(headers, qs)
    exe = os.path.join(lab.work, "q%d" % next(lab.n))
    ok, log, p = lab.compiles(cxx, std, d, text, ("-Wl,--unresolved-symbols=ignore-all", "-o", exe))
    if not ok:
        return None, log
    rc, o, e = run_program([exe], timeout=60)
    os.unlink(exe)
    if rc != 0:
        raise BuildError("generated program", e[:2000], False)
    return [(l.split(" ", 1)[1].rsplit(" ", 1)[0], l.endswith("1")) for l in o.splitlines()], ""


def suspects(lab, cxx, std, d, headers, qs):
    """the questions whose expected answer a compiler does not confirm: all of them as assertions of one program"""
    text, first = preamble(headers)
    for k, q in enumerate(qs):
        text += overloads(k, q)
        arg = "".join("std::declval<%s&>()," % t for t, _ in q.types) + "0"
        call = "user::p%d(%s)" % (k, arg)
        if q.expect == REJECT:
            text += " static_assert(std::is_same<decltype(%s), No>::value, \"\");\n" % call
        else:
            want = "!std::is_same<D%d, No>::value" % k if q.expect == "any" else "std::is_same<D%d, %s>::value" % (k, CXX[q.expect])
            text += " typedef std::decay<decltype(%s)>::type D%d; static_assert(%s && noexcept(%s), \"\");\n" % (call, k, want, call)
    ok, log, p = lab.compiles(cxx, std, d, text)
    if ok:
        return []
    lines = {int(m.group(1)) - first for m in re.finditer(re.escape(p) + r":(\d+):", log)}
    return sorted(k for k in lines if 0 <= k < len(qs)) or list(range(len(qs)))


def judge(q, got):
    t, nothrow = got
    if q.expect == REJECT:
        return None if t == "reject" else "%s is accepted as %s, although the operands have different shapes" % (q.text, t)
    if t == "reject":
        return "%s is rejected" % q.text
    if q.expect != "any" and t != q.expect:
        return "%s has type %s instead of %s" % (q.text, t, q.expect)
    if not nothrow:
        return "%s may throw" % q.text
    return None


def registry():
    """(expression text, operand types) of every operation, and the expression texts with their operand lists"""
    sigs = {}
    for args, e in p31.operations():
        sigs.setdefault(e, set()).add(tuple(SHORT.get(t, t) for t, _ in args))
    return sigs


NAMES = list("abcdefghijk") + ["l_", "m", "n", "o_", "p"]


def substitutions(rnd, count):
    sigs = registry()
    ops = [(e, a) for e in sorted(sigs) for a in sorted(sigs[e])]
    out = []

    def q(e, a, expect, what):
        return Question(e, [(CXX.get(t, t), NAMES[n]) for n, t in enumerate(a)], expect, what)
    # whole registry unchanged
    for e, a in ops:
        if a:
            out.append(q(e, a, "any", "registry"))
    multi = [(e, a, n) for e, a in ops for n, t in enumerate(a) if t in CLS and not re.search(r"\b[a-p]\.[a-z]|void\*|bytes", e)]       # components exist, and objects have addresses, whatever the size
    for _ in range(count):
        e, a, n = rnd.choice(multi)
        new = list(a)
        new[n] = rnd.choice(sorted(CLS))
        if len(a) > 1 and rnd.random() < 0.2:
            m = rnd.randrange(len(a))
            if a[m] in CLS:
                new[m] = rnd.choice(sorted(CLS))
        if open_question(sigs, e, a, tuple(new)):
            continue
        out.append(q(e, tuple(new), REJECT, "substitution"))
    return out


LIKE_FLOAT = ["double", "int", "unsigned", "short", "long long", "unsigned char", "unsigned long", "long double"]
LIKE_INT = ["short", "signed char", "unsigned char", "unsigned short"]


def conversions(rnd, count):
    """registry operations with their numbers given as other arithmetic types: accepted where the overloads leave no choice"""
    sigs = registry()
    ops = [(e, a) for e in sorted(sigs) for a in sorted(sigs[e]) if ("float" in a or "int" in a) and not re.search(r"void\*|bytes", e)]
    out = []

    def alone(e, a):
        """no other overload tells these operands apart by the type of a number"""
        return not any(k != a and len(k) == len(a) and all(x == y or (x not in CLS and y not in CLS) for x, y in zip(k, a)) for k in sigs[e])
    for k in range(count):
        e, a = ops[k] if k < len(ops) else rnd.choice(ops)
        new = list(a)
        at = [n for n, t in enumerate(a) if t in ("float", "int")]
        for n in (at if k < len(ops) or rnd.random() < 0.6 else rnd.sample(at, rnd.randint(1, len(at)))):
            if a[n] == "int":
                new[n] = rnd.choice(LIKE_INT)
            elif alone(e, a):
                new[n] = "double" if k < len(ops) else rnd.choice(LIKE_FLOAT)
        if tuple(new) != a:
            out.append(Question(e, [(CXX.get(t, t), NAMES[n]) for n, t in enumerate(new)], "any", "conversion"))
    return out


def open_question(sigs, e, old, new):
    """in the registry itself, or one of it up to what may stand for what: an ivec for the bvec of its size, a scalar for another or for a vector"""
    def fits(k, t):
        return k == t or (kind(k) == "bv" and t == "iv" + k[2:]) or t not in CLS
    if e == "(a = b)" and fits(new[0], new[1]):
        return True
    return any(len(k) == len(new) and all(fits(x, y) for x, y in zip(k, new)) for k in sigs[e])


def type_facts():
    out = []
    for a in sorted(CLS):
        t = CXX[a]
        el = {"v": "float", "iv": "int", "bv": "bool", "m": "float", "q": "float"}[kind(a)]
        n = {"q": 4, "m": size(a) ** 2}.get(kind(a), size(a))
        for f in ("sizeof(T) == %d * sizeof(%s)" % (n, el), "std::is_standard_layout<T>::value", "std::is_trivially_destructible<T>::value", "std::is_trivially_copy_constructible<T>::value",
                  "std::is_nothrow_default_constructible<T>::value", "std::is_nothrow_copy_constructible<T>::value", "std::is_nothrow_copy_assignable<T>::value", "!std::is_polymorphic<T>::value", "std::is_constructible<T, const T&>::value"):
            out.append((f.replace("T>", t + ">").replace("(T)", "(" + t + ")").replace("const T&", "const %s&" % t).replace("<T,", "<%s," % t), True))
        for b in sorted(CLS):
            if a != b and not (kind(a) == "iv" and kind(b) == "bv" and size(a) == size(b)):
                out.append(("std::is_convertible<%s, %s>::value" % (t, CXX[b]), False))
            elif a != b:
                out.append(("std::is_convertible<%s, %s>::value" % (t, CXX[b]), True))
        for s in ("float", "int", "bool", "double", "void*"):
            out.append(("std::is_convertible<%s, %s>::value" % (t, s), False))
        out.append(("std::is_convertible<zcm::no_init_t, %s>::value" % t, False))
        out.append(("std::is_convertible<void*, %s>::value" % t, False))
        if kind(a) in ("bv", "m", "q"):
            out.append(("std::is_convertible<float, %s>::value" % t, False))
        if kind(a) == "v":
            out += [("std::is_constructible<%s, %s>::value" % (t, s), False) for s in ("double", "int64_t")] + [("std::is_nothrow_constructible<%s, float>::value" % t, True)]
        if kind(a) == "iv":
            out += [("std::is_constructible<%s, %s>::value" % (t, s), False) for s in ("float", "double", "int64_t")] + [("std::is_nothrow_constructible<%s, int>::value" % t, True)]
        n = {"m": size(a), "q": 4}.get(kind(a), size(a))
        out.append(("std::is_nothrow_constructible<%s, %s>::value" % (t, ", ".join([CXX["v%d" % n] if kind(a) == "m" else el] * n)), True))
    return out


def facts(lab, cxx, std, d, headers, fs):
    s = "".join("#include <%s>\n" % h for h in headers) + "#include <cstdio>\n#include <cstdint>\n#include <type_traits>\nint main() {\n" + "".join("std::printf(\"%%d\\n\", int(%s));\n" % f for f, _ in fs) + "}\n"
    exe = os.path.join(lab.work, "q%d" % next(lab.n))
    ok, log, p = lab.compiles(cxx, std, d, s, ("-Wl,--unresolved-symbols=ignore-all", "-o", exe))
    if not ok:
        return None, log
    rc, o, e = run_program([exe], timeout=60)
    os.unlink(exe)
    return [l == "1" for l in o.split()], ""


def batch_answers(lab, cxx, std, d, headers, qs):
    got, log = ask(lab, cxx, std, d, headers, qs)
    if got is not None:
        return got
    if len(qs) == 1:        # an error outside overload resolution: the compiler rejects the program
        return [("reject", False)]
    h = len(qs) // 2
    return batch_answers(lab, cxx, std, d, headers, qs[:h]) + batch_answers(lab, cxx, std, d, headers, qs[h:])


def check(pid, tier, seed, spec, work):
    rnd = random.Random(seed * 104729 + 36)
    lab, hs = p31.Lab(work), p31.public_headers()
    sigs = registry()
    text = {}
    for e in sigs:
        m = re.match(r"(?:zcm::)?(\w+)\(([a-p_, ]*)\)$", e)
        if m and [x.strip() for x in m.group(2).split(",")] == NAMES[:len(m.group(2).split(","))]:
            text.setdefault("zcm::" + m.group(1), set()).update(sigs[e])

    def registered(f, new):
        return any(len(k) == len(new) and all(x == y or (kind(x) == "bv" and kind(y) == "iv" and size(x) == size(y)) or (x not in CLS and y not in CLS) or (x in CLS and y not in CLS) for x, y in zip(k, new)) for k in text.get(f, ()))
    tus, per, nsub = (128, 220, 16000) if tier == "quick" else (900, 260, 60000)
    combos = [(c, s, d) for c in ("g++", "clang++") for s in p31.STDS for d in p31.DEFS]
    subs = substitutions(rnd, nsub) + conversions(rnd, 3000 if tier == "quick" else 20000)
    rnd.shuffle(subs)
    jobs = []
    allv = [(CXX[v], v) for v in VARS]
    for k in range(tus):
        cxx, std, d = combos[k % len(combos)]
        g = Grammar(rnd, d[1] == 0, registered)
        qs = []
        while len(qs) < per:
            e, expect, n = g.expression()
            used = set(re.findall(r"[a-z]+\d?", re.sub(r"\.\w+|zcm::\w+", "", e)))
            qs.append(Question(e, [v for v in allv if v[1] in used], expect, "expression", n))
        jobs.append((cxx, std, d, qs))
    for lo in range(0, len(subs), 300):
        cxx, std, d = rnd.choice(combos)
        jobs.append((cxx, std, d, subs[lo:lo + 300]))
    counts = {"expressions": 0, "substitutions": 0, "registry": 0, "conversions": 0, "types": 0, "rejected": 0, "typed": 0}
    seen, bad = set(), None
    cov = {"rule": RULE, "samples": []}

    def one(j):
        cxx, std, d, qs = j
        left = suspects(lab, cxx, std, d, hs, qs)[:400]
        answers = dict(zip(left, batch_answers(lab, cxx, std, d, hs, [qs[k] for k in left]))) if left else {}
        return j, [answers.get(k) for k in range(len(qs))]
    with ThreadPoolExecutor(JOBS) as ex:
        for (cxx, std, d, qs), got in ex.map(one, jobs):
            for q, a in zip(qs, got):
                counts[{"expression": "expressions", "substitution": "substitutions", "registry": "registry", "conversion": "conversions"}[q.what]] += 1
                counts["rejected" if q.expect == REJECT else "typed"] += 1
                if q.size >= 2 or q.what != "expression":
                    seen.add(q.key())
                why = a and judge(q, a)
                if why and os.environ.get('P36_DEBUG'):
                    print(cxx, std, d, why)
                if why and (bad is None or len(q.text) < len(bad[3].text)):
                    bad = (cxx, std, d, q, why)
        fs = type_facts()
        for (cxx, std, d), (got, log) in zip(combos, ex.map(lambda c: facts(lab, c[0], c[1], c[2], hs, fs), combos)):
            if got is None:
                raise BuildError("generated program", log, True)
            for (f, want), a in zip(fs, got):
                counts["types"] += 1
                seen.add(f)
                if a != want and bad is None:
                    bad = (cxx, std, d, f, "%s is %s" % (f, str(a).lower()))
    for q in [x for j in jobs[:: max(1, len(jobs) // 8)] for x in j[3][5:6]]:
        cov["samples"].append("%s: %s" % (q.text, q.expect))
    cov.update(evaluations=counts["expressions"] + counts["substitutions"] + counts["registry"] + counts["conversions"] + counts["types"], distinct_nontrivial=len(seen), kinds=counts)
    if bad is None:
        return cov, None
    cxx, std, d, q, why = bad
    where = "(%s -std=%s %s)" % (cxx, std, " ".join(p31.DEFS[d]))
    if isinstance(q, str):
        return cov, Violation("%s %s" % (why, where), json.dumps({"kind": "fact", "cxx": cxx, "std": std, "defs": d, "fact": q, "want": dict(fs)[q]}, indent=1) + "\n", "json")
    return cov, Violation("%s, where %s %s" % (why, ", ".join("%s %s" % v for v in q.types if re.search(r"\b%s\b" % v[1], q.text)), where),
                          json.dumps({"kind": q.what, "cxx": cxx, "std": std, "defs": d, "text": q.text, "types": q.types, "expect": q.expect}, indent=1) + "\n", "json")


def replay(pid, path, spec, work):
    r = json.load(open(path))
    lab, d, hs = p31.Lab(work), tuple(r["defs"]), p31.public_headers()
    if r["kind"] == "fact":
        got, log = facts(lab, r["cxx"], r["std"], d, hs, [(r["fact"], r["want"])])
        print("%s is %s" % (r["fact"], got))
        return 0 if got == [r["want"]] else 1
    q = Question(r["text"], [tuple(t) for t in r["types"]], r["expect"], r["kind"])
    why = judge(q, batch_answers(lab, r["cxx"], r["std"], d, hs, [q])[0])
    print(why or "as specified")
    return 1 if why else 0
