"""Generated C/C++ programs with an interpreter: what the program must print, and which
floating-point operations it must execute, are computed here from the same syntax tree
that is printed as source text."""
import json

from fp import *           # noqa: F401,F403
from opgen import cmp_ref
import vprecmodel as vm

BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
# C relational operator -> LLVM predicate emitted for it
CMP = {"<": 4, "<=": 5, ">": 2, ">=": 3, "==": 1, "!=": 14}
FM = {"d": F64, "f": F32}
CT = {"d": "double", "f": "float"}
NARR = 16


class Unclear(Exception):
    """the reference does not determine the output"""


def lit(u, t):
    v = b2f(u, FM[t])
    return v.hex() + ("f" if t == "f" else "")


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, r, opt, allow_fma=True, lang="c", feats=None):
        self.r, self.opt, self.allow_fma, self.lang = r, opt, allow_fma, lang
        self.funcs = []
        self.uid = 0

    def fresh(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def const(self, t):
        r = self.r
        if self.opt == "-O0" and r.random() < 0.2:
            return ("const", f2b(r.choice([0.0, -0.0, 1.0, -1.0]), FM[t]), t)
        while True:
            v = r.choice([r.uniform(0.01, 3), r.uniform(-50, 50), r.choice([0.1, 0.3, 1.5, 3.0, 7.0, 0.7])])
            u = f2b(v, FM[t])
            if b2f(u, FM[t]) not in (0.0, 1.0, -1.0):
                return ("const", u, t)

    def leaf(self, env, t):
        c = [("var", n, t) for n, ty in env["vars"].items() if ty == t]
        a = [n for n, ty in env["arrs"].items() if ty == t]
        k = self.r.random()
        if a and k < 0.4:
            n = self.r.choice(a)
            if env["ivars"] and self.r.random() < 0.8:
                iv, bound = self.r.choice(env["ivars"])
                return ("arr", n, iv, self.r.randint(0, NARR - bound), t)
            return ("arr", n, None, self.r.randrange(NARR), t)
        if c and k < 0.88:
            return self.r.choice(c)
        return self.const(t) if not c else (self.r.choice(c) if self.r.random() < 0.4 else self.const(t))

    def nonconst(self, env, t):
        for _ in range(20):
            e = self.leaf(env, t)
            if e[0] != "const":
                return e
        return self.other(env, t)

    def other(self, env, t):
        o = "d" if t == "f" else "f"
        for n, ty in env["vars"].items():
            if ty == t:
                return ("var", n, t)
        for n, ty in env["vars"].items():
            if ty == o:
                return ("cast" if t == "f" else "ext", ("var", n, o))
        raise AssertionError

    def expr(self, env, t, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            return self.leaf(env, t) if depth < 0 else self.nonconst(env, t)
        if self.opt == "-O0" and r.random() < 0.04:   # folded above -O0 when the sign of zeros allows
            return ("bin", "sub", t, ("const", 0, t), self.nonconst(env, t))
        k = r.random()
        if k < 0.66:
            op = r.choice(["add", "sub", "mul", "add", "sub", "mul", "div"])
            a = self.expr(env, t, depth - 1)
            b = self.expr(env, t, depth - 1)
            if a[0] == "const" and b[0] == "const":
                a = self.nonconst(env, t)
            return ("bin", op, t, a, b)
        if k < 0.72:
            return ("neg", t, self.expr(env, t, depth - 1))
        if k < 0.80 and self.allow_fma:
            return ("fma", t, self.nonconst(env, t), self.expr(env, t, depth - 1), self.expr(env, t, depth - 2))
        if k < 0.86:
            o = "d" if t == "f" else "f"
            if any(ty == o for ty in env["vars"].values()):
                return ("cast" if t == "f" else "ext", self.expr(env, o, depth - 1))
        if k < 0.94:
            ct = r.choice("df")
            if any(ty == ct for ty in env["vars"].values()):
                return ("sel", r.choice(list(CMP)), ct, self.nonconst(env, ct), self.leaf(env, ct),
                        self.expr(env, t, depth - 1), self.nonconst(env, t))
        cand = [f for f in env["callable"] if f["ret"] == t]
        if cand and env["calls"] > 0 and depth >= 2:
            env["calls"] -= 1
            f = r.choice(cand)
            args = []
            for _, pt in f["params"]:
                if any(ty == pt for ty in env["vars"].values()):
                    args.append(self.nonconst(env, pt))
                else:
                    args.append(self.other(env, pt))
            return ("call", f["name"], args, t)
        return ("bin", r.choice(["add", "sub", "mul"]), t, self.nonconst(env, t), self.expr(env, t, depth - 1))

    def block(self, env, n, depth):
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            t = r.choice("df") if len(set(env["vars"].values())) > 1 else list(env["vars"].values())[0]
            if k < 0.4:
                e = self.expr(env, t, 3)
                v = self.fresh("v")
                out.append(("let", v, t, e))
                env["vars"][v] = t
            elif k < 0.55:
                v = r.choice([n for n, ty in env["vars"].items() if ty == t])
                out.append(("set", v, t, self.expr(env, t, 3), r.random() < 0.5))
            elif k < 0.72 and env["arrs"] and depth < 2:
                bound = r.choice([2, 3, 4, 8, 12, 16])
                iv = self.fresh("i")
                e2 = dict(env, ivars=env["ivars"] + [(iv, bound)], vars=dict(env["vars"]))
                body = []
                for _ in range(r.randint(1, 3)):
                    a = r.choice(list(env["arrs"]))
                    ty = env["arrs"][a]
                    if not any(x == ty for x in e2["vars"].values()):
                        continue
                    if r.random() < 0.7:
                        body.append(("aset", a, iv, r.randint(0, NARR - bound), ty, self.expr(e2, ty, 2)))
                    else:
                        v = r.choice([n for n, x in e2["vars"].items() if x == ty])
                        body.append(("set", v, ty, ("bin", r.choice(["add", "sub"]), ty, ("var", v, ty),
                                                    self.expr(e2, ty, 2)), False))
                if r.random() < 0.25:
                    body += self.block(e2, 1, depth + 1)
                if body:
                    out.append(("loop", iv, bound, body))
            elif k < 0.82 and depth < 2:
                ct = t
                th = self.block(dict(env, vars=dict(env["vars"])), r.randint(1, 2), depth + 1)
                el = self.block(dict(env, vars=dict(env["vars"])), r.randint(0, 2), depth + 1)
                out.append(("if", r.choice(list(CMP)), ct, self.nonconst(env, ct), self.leaf(env, ct), th, el))
            elif env["arrs"]:
                a = r.choice(list(env["arrs"]))
                ty = env["arrs"][a]
                same = [x for x, y in env["arrs"].items() if y == ty]
                n = r.choice([2, 2, 4, 8, 16])

                def off():
                    return r.randint(0, NARR - n)
                if r.random() < 0.7:
                    out.append(("vec", n, ty, r.choice(list(BIN)), a, off(), r.choice(same), off(), r.choice(same), off()))
                else:
                    out.append(("vcmp", n, ty, r.choice(list(CMP)), a, off(), r.choice(same), off(), r.choice(same), off()))
        return out

    def func(self, idx):
        r = self.r
        params = [(self.fresh("p"), r.choice("df")) for _ in range(r.randint(1, 4))]
        ret = r.choice("df")
        if not any(t == ret for _, t in params):
            params.append((self.fresh("p"), ret))
        arrs = {}
        for t in "df":
            if r.random() < 0.6:
                for _ in range(r.randint(1, 2)):
                    arrs[self.fresh("A")] = t
        env = {"vars": dict(params), "arrs": arrs, "ivars": [], "callable": list(self.funcs), "calls": 2}
        body = self.block(env, r.randint(2, 6), 0)
        f = {"name": "fn%d" % idx, "params": params, "ret": ret, "arrs": arrs, "body": body,
             "result": self.expr(env, ret, 2), "noinline": r.random() < 0.5,
             "style": r.choice(["plain", "plain", "ptr", "plain"] if self.lang == "c" else
                               ["plain", "method", "template", "lambda"])}
        self.funcs.append(f)
        return f


def value(r, t):
    k = r.random()
    if k < 0.8:
        v = r.uniform(-10, 10)
    elif k < 0.95:
        v = r.uniform(0.5, 2) * 2.0 ** r.randint(-20, 20)
    else:
        v = r.choice([0.0, -0.0, 1.0, -1.0, float("inf"), 1e-30, 1e30])
    return f2b(v, FM[t])


def generate(r, opt, nfun, nmod=1, lang="c", allow_fma=True):
    g = Gen(r, opt, allow_fma, lang)
    for i in range(nfun):
        f = g.func(i)
        f["mod"] = r.randrange(nmod)
    data = {"d": [value(r, "d") for _ in range(NARR * 2)], "f": [value(r, "f") for _ in range(NARR * 2)]}
    calls = []
    for f in g.funcs:
        for _ in range(r.randint(1, 2)):
            calls.append([f["name"], [value(r, t) for _, t in f["params"]]])
    return json.loads(json.dumps({"funcs": g.funcs, "data": data, "calls": calls, "nmod": nmod, "lang": lang}))


def etype(e):
    k = e[0]
    return {"var": 2, "const": 2, "arr": 4, "bin": 2, "neg": 1, "fma": 1, "call": 3}.get(k) and e[
        {"var": 2, "const": 2, "arr": 4, "bin": 2, "neg": 1, "fma": 1, "call": 3}[k]] or (
        "f" if k == "cast" else "d" if k == "ext" else etype(e[5]))


# ------------------------------------------------------------------ printing
def p_expr(e, P):
    k = e[0]
    if k == "var":
        return e[1]
    if k == "const":
        return lit(e[1], e[2])
    if k == "arr":
        return "%s[%s]" % (e[1], str(e[3]) if e[2] is None else "%s + %d" % (e[2], e[3]) if e[3] else e[2])
    if k == "bin":
        return "(%s %s %s)" % (p_expr(e[3], P), BIN[e[1]], p_expr(e[4], P))
    if k == "neg":
        return "(-%s)" % p_expr(e[2], P)
    if k == "fma":
        return "%s(%s, %s, %s)" % ("__builtin_fma" if e[1] == "d" else "__builtin_fmaf",
                                   p_expr(e[2], P), p_expr(e[3], P), p_expr(e[4], P))
    if k == "cast":
        return "to_f(%s)" % p_expr(e[1], P)
    if k == "ext":
        return "to_d(%s)" % p_expr(e[1], P)
    if k == "sel":
        return "((%s %s %s) ? keep_%s(%s) : %s)" % (p_expr(e[3], P), e[1], p_expr(e[4], P), etype(e[5]), p_expr(e[5], P), p_expr(e[6], P))
    if k == "call":
        return call_text(P, e[1], [p_expr(a, P) for a in e[2]])
    raise AssertionError(e)


def call_text(P, name, args):
    f = P["_by"][name]
    a = ", ".join(args)
    if f["style"] == "ptr":
        return "(*pt_%s)(%s)" % (name, a)
    if f["style"] == "method":
        return "S_%s().%s(%s)" % (name, name, a)
    if f["style"] == "template":
        return "%s<%s>(%s)" % (name, CT[f["ret"]], a)
    return "%s(%s)" % (name, a)


def p_block(b, P, ind):
    o = []
    s = "  " * ind
    for st in b:
        k = st[0]
        if k == "let":
            o.append("%s%s %s = %s;" % (s, CT[st[2]], st[1], p_expr(st[3], P)))
        elif k == "set":
            e = st[3]
            if st[4] and e[0] == "bin" and list(e[3]) == ["var", st[1], st[2]]:
                o.append("%s%s %s= %s;" % (s, st[1], BIN[e[1]], p_expr(e[4], P)))
            else:
                o.append("%s%s = %s;" % (s, st[1], p_expr(e, P)))
        elif k == "aset":
            o.append("%s%s[%s + %d] = %s;" % (s, st[1], st[2], st[3], p_expr(st[5], P)))
        elif k == "loop":
            o.append("%sfor (int %s = 0; %s < %d; %s++) {" % (s, st[1], st[1], st[2], st[1]))
            o += p_block(st[3], P, ind + 1)
            o.append(s + "}")
        elif k == "if":
            o.append("%sif (%s %s %s) {" % (s, p_expr(st[3], P), st[1], p_expr(st[4], P)))
            P["_fence"] = P.get("_fence", 0) + 2    # all different: identical ones would be merged
            fence = P["_fence"]
            o.append(s + "  FENCE(%d);" % fence)
            o += p_block(st[5], P, ind + 1)
            if st[6]:
                o.append(s + "} else {")
                o.append(s + "  FENCE(%d);" % (fence + 1))
                o += p_block(st[6], P, ind + 1)
            o.append(s + "}")
        elif k in ("vec", "vcmp"):
            _, n, t, op, d, do, a, ao, b2, bo = st
            o.append("%s{ %s%d x, y, z; __builtin_memcpy(&x, %s + %d, sizeof x); __builtin_memcpy(&y, %s + %d, sizeof y);"
                     % (s, CT[t], n, a, ao, b2, bo))
            if k == "vec":
                o.append("%s  z = x %s y; __builtin_memcpy(%s + %d, &z, sizeof z); }" % (s, BIN[op], d, do))
            else:
                o.append("%s  __asm__ volatile(\"\" : \"+m\"(x), \"+m\"(y));" % s)
                o.append("%s  %s%d m = x %s y; for (int k = 0; k < %d; k++) z[k] = m[k] ? x[k] : y[k];" % (
                    s, "long" if t == "d" else "int", n, op, n))
                o.append("%s  __builtin_memcpy(%s + %d, &z, sizeof z); }" % (s, d, do))
        else:
            raise AssertionError(k)
    return o


def sig(f, name):
    return "%s %s(%s)" % (CT[f["ret"]], name, ", ".join("%s %s" % (CT[t], n) for n, t in f["params"]))


def p_func(f, P):
    lang = P["lang"]
    body = []
    for a, t in f["arrs"].items():
        body.append("  %s %s[%d];" % (CT[t], a, NARR))
        body.append("  for (int q = 0; q < %d; q++) %s[q] = in_%s[(q + %d) %% %d];" % (
            NARR, a, t, h(a) % (2 * NARR), 2 * NARR))
    body += p_block(f["body"], P, 1)
    body.append("  %s result_ = %s;" % (CT[f["ret"]], p_expr(f["result"], P)))
    for a, t in f["arrs"].items():
        body.append("  for (int q = 0; q < %d; q++) out_%s(%s[q]);" % (NARR, t, a))
    body.append("  return result_;")
    ni = "__attribute__((noinline)) " if f["noinline"] else ""
    st = f["style"]
    if st == "method":
        return ["struct S_%s { %s; };" % (f["name"], sig(f, f["name"])),
                ni + sig(f, "S_%s::%s" % (f["name"], f["name"])) + " {"] + body + ["}"]
    if st == "template":
        return ["template <typename T_> " + ni + sig(f, f["name"]) + " {"] + body + ["}"]
    if st == "lambda":
        return ["static auto %s = [](%s) -> %s {" % (
            f["name"], ", ".join("%s %s" % (CT[t], n) for n, t in f["params"]), CT[f["ret"]])] + body + ["};"]
    out = [ni + sig(f, f["name"]) + " {"] + body + ["}"]
    if st == "ptr":
        out.append("%s = %s;" % (sig(f, "(*volatile pt_%s)" % f["name"]), f["name"]))
    return out


def h(s):
    v = 7
    for c in s:
        v = (v * 31 + ord(c)) & 0xFFFF
    return v


PRE = """#include <stdio.h>
#include <string.h>
#include <stdint.h>
"""


def decls(P):
    o = []
    for t in "df":
        for n in (2, 4, 8, 16):
            o.append("typedef %s %s%d __attribute__((ext_vector_type(%d)));" % (CT[t], CT[t], n, n))
            i = "long" if t == "d" else "int"
            o.append("typedef %s %s%d __attribute__((ext_vector_type(%d)));" % (i, i, n, n))
    ext = 'extern "C" ' if P["lang"] == "c++" else "extern "
    o.append("%svolatile double in_d[%d]; %svolatile float in_f[%d];" % (ext, 2 * NARR, ext, 2 * NARR))
    o.append("%svoid out_d(double x); %svoid out_f(float x);" % (ext, ext))
    # an optimiser may turn c ? a + b : a into a + (c ? b : -0.0), which executes another operation
    o.append("#define FENCE(n) __asm__ volatile(\"# \" #n ::: \"memory\")")
    for t in "df":
        o.append("static __attribute__((always_inline)) inline %s keep_%s(%s x) { __asm__ volatile(\"\" : \"+m\"(x)); return x; }" % (
            CT[t], t, CT[t]))
    o.append("static __attribute__((always_inline)) inline float to_f(double x) { volatile double y = x; float z = (float)y; __asm__ volatile(\"\" : \"+x\"(z)); return z; }")
    o.append("static __attribute__((always_inline)) inline double to_d(float x) { volatile float y = x; return (double)y; }")
    return o


def sources(P):
    """{file name: text}; module 0 also holds the data and main"""
    P["_fence"] = 0
    P["_by"] = {f["name"]: f for f in P["funcs"]}
    ext = "cpp" if P["lang"] == "c++" else "c"
    out = {}
    for m in range(P["nmod"]):
        L = [PRE] + decls(P)
        if P["nmod"] > 1:
            for f in P["funcs"]:
                if f["mod"] != m:
                    L.append(("extern " + sig(f, "(*volatile pt_%s)" % f["name"]) if f["style"] == "ptr" else sig(f, f["name"])) + ";")
        for f in P["funcs"]:
            if f["mod"] == m:
                L += p_func(f, P)
        if m == 0:
            e = 'extern "C" ' if P["lang"] == "c++" else ""
            for t, ut in (("d", "uint64_t"), ("f", "uint32_t")):
                L.append("static const %s bits_%s[%d] = {%s};" % (
                    ut, t, 2 * NARR, ", ".join("0x%x%s" % (x, "ull" if t == "d" else "u") for x in P["data"][t])))
                if P["lang"] == "c++":
                    L.append('extern "C" { volatile %s in_%s[%d]; }' % (CT[t], t, 2 * NARR))
                else:
                    L.append("volatile %s in_%s[%d];" % (CT[t], t, 2 * NARR))
                L.append("%svoid out_%s(%s x) { %s u; memcpy(&u, &x, sizeof u); printf(\"%%llx\\n\", (unsigned long long)u); }"
                         % (e, t, CT[t], ut))
            L.append("static double mk_d(uint64_t u) { volatile uint64_t v = u; u = v; double x; memcpy(&x, &u, 8); return x; }")
            L.append("static float mk_f(uint32_t u) { volatile uint32_t v = u; u = v; float x; memcpy(&x, &u, 4); return x; }")
            L.append("int main(void) {")
            L.append("  for (int i = 0; i < %d; i++) { in_d[i] = mk_d(bits_d[i]); in_f[i] = mk_f(bits_f[i]); }" % (2 * NARR))
            for name, args in P["calls"]:
                f = P["_by"][name]
                L.append("  out_%s(%s);" % (f["ret"], call_text(P, name, [
                    "mk_%s(0x%x%s)" % (t, u, "ull" if t == "d" else "u") for (_, t), u in zip(f["params"], args)])))
            L.append("  return 0;\n}")
        out["mod%d.%s" % (m, ext)] = "\n".join(L) + "\n"
    del P["_by"], P["_fence"]
    return out


# ------------------------------------------------------------------ interpretation
class Interp:
    """sem: dict with keys backend ('ieee' or vprec configuration), fma/cast/cmp flags,
    inst: set of instrumented function names (None: all)"""

    def __init__(self, P, fma=False, cast_=False, cmp=False, inst=None, vprec=None, limit=60000):
        self.P, self.fma, self.cast, self.cmp, self.inst, self.vprec = P, fma, cast_, cmp, inst, vprec
        self.by = {f["name"]: f for f in P["funcs"]}
        self.out = []
        self.trace = []
        self.n = 0
        self.limit = limit

    def run(self):
        for name, args in self.P["calls"]:
            f = self.by[name]
            self.out.append(self.call(name, list(args)))
            self.fmts_add(f["ret"])
        return self.out

    fm = None

    def fmts_add(self, t):
        if self.fm is None:
            self.fm = []
        self.fm.append(t)

    def canon(self, u, f):
        return u

    def op(self, kind, t, args, on):
        self.n += 1
        if self.n > self.limit:
            raise Unclear("too long")
        f = FM[t]
        if on:
            self.trace.append((kind, t) + tuple("nan" if a == "nan" or is_nan(f, a) else a for a in args))
        a = [qnan(f) if x == "nan" else x for x in args]
        if on and self.vprec:
            v = self.vprec
            rng, prec = v["r" + t], v["p" + t]
            s = vm.model(f, kind, a, v["mode"], rng, prec, False, False)
            if len(s) != 1:
                raise Unclear("open case")
            return next(iter(s))
        return ieee(f, kind, *a)

    def compare(self, rel, t, a, b, on):
        f = FM[t]
        if on and self.cmp:
            self.trace.append(("cmp", t, CMP[rel]) + tuple("nan" if x == "nan" or is_nan(f, x) else x for x in (a, b)))
        a = qnan(f) if a == "nan" else a
        b = qnan(f) if b == "nan" else b
        return bool(cmp_ref(f, CMP[rel], a, b))

    def tof(self, u, on):
        u = qnan(F64) if u == "nan" else u
        if on and self.cast:
            self.trace.append(("cast", "d", "nan" if is_nan(F64, u) else u))
            if self.vprec:
                v = self.vprec
                s = vm.model_cast(u, v["mode"], (v["rf"], v["pf"]), (v["rd"], v["pd"]), False, False)
                if len(s) != 1:
                    raise Unclear("open case")
                return next(iter(s))
        return cast(u)

    def call(self, name, args):
        f = self.by[name]
        on = self.inst is None or name in self.inst
        vars_ = {n: a for (n, _), a in zip(f["params"], args)}
        arrs = {}
        for a, t in f["arrs"].items():
            o = h(a) % (2 * NARR)
            arrs[a] = [self.P["data"][t][(q + o) % (2 * NARR)] for q in range(NARR)]
        on = (on,)
        self.block(f["body"], vars_, arrs, on)
        res = self.ev(f["result"], vars_, arrs, on)
        for a, t in f["arrs"].items():
            for q in range(NARR):
                self.out.append(arrs[a][q])
                self.fmts_add(t)
        return res

    def ev(self, e, V, A, on):
        k = e[0]
        if k == "var":
            return V[e[1]]
        if k == "const":
            return e[1]
        if k == "arr":
            return A[e[1]][(V[e[2]] if e[2] is not None else 0) + e[3]]
        if k == "bin":
            return self.op(e[1], e[2], (self.ev(e[3], V, A, on), self.ev(e[4], V, A, on)), on[0])
        if k == "neg":
            x = self.ev(e[2], V, A, on)
            return x if x == "nan" else x ^ (1 << (FM[e[1]].w - 1))
        if k == "fma":
            a = tuple(self.ev(x, V, A, on) for x in e[2:5])
            return self.op("fma", e[1], a, on[0] and self.fma)
        if k == "cast":
            return self.tof(self.ev(e[1], V, A, on), on[0])
        if k == "ext":
            x = self.ev(e[1], V, A, on)
            return x if x == "nan" else ("nan" if is_nan(F32, x) else widen(x))
        if k == "sel":
            c = self.compare(e[1], e[2], self.ev(e[3], V, A, on), self.ev(e[4], V, A, on), on[0])
            return self.ev(e[5] if c else e[6], V, A, on)
        if k == "call":
            return self.call(e[1], [self.ev(a, V, A, on) for a in e[2]])
        raise AssertionError(e)

    def block(self, b, V, A, on):
        for st in b:
            k = st[0]
            if k in ("let", "set"):
                V[st[1]] = self.ev(st[3], V, A, on)
            elif k == "aset":
                x = self.ev(st[5], V, A, on)
                A[st[1]][V[st[2]] + st[3]] = x
            elif k == "loop":
                for i in range(st[2]):
                    V[st[1]] = i
                    self.block(st[3], V, A, on)
            elif k == "if":
                c = self.compare(st[1], st[2], self.ev(st[3], V, A, on), self.ev(st[4], V, A, on), on[0])
                self.block(st[5] if c else st[6], V, A, on)
            elif k in ("vec", "vcmp"):
                _, n, t, op, d, do, a, ao, b2, bo = st
                x, y = A[a][ao:ao + n], A[b2][bo:bo + n]
                if k == "vec":
                    z = [self.op(op, t, (p, q), on[0]) for p, q in zip(x, y)]
                else:
                    z = [p if self.compare(op, t, p, q, on[0]) else q for p, q in zip(x, y)]
                A[d][do:do + n] = z


def out_match(got, want, types):
    """index of the first difference between printed patterns and expectation, or None"""
    if len(got) != len(want):
        return min(len(got), len(want))
    for i, (g, w, t) in enumerate(zip(got, want, types)):
        f = FM[t]
        if w == "nan" or is_nan(f, w):
            if not is_nan(f, g):
                return i
        elif g != w:
            return i
    return None
