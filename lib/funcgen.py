"""Programs made of functions calling each other, for the function instrumentation: generation, C text, and a
reference interpreter with the VPREC formats of the functions and of their arguments."""
import math
import random
import sys

from fp import F32, F64, cast, widen, f2b, b2f, ieee, is_nan, dec, zero, FIN, ZERO
from vprecmodel import model, vround

FM = {"f": F32, "d": F64}
CT = {"f": "float", "d": "double", "v": "void", "i": "int"}
NATIVE = (52, 11, 23, 8)          # precision/range of double, precision/range of float
LIB = {  # C name -> (called symbol, library, intrinsic, type, arity)
    "sqrt": ("sqrt", 1, 0, "d", 1), "sqrtf": ("sqrtf", 1, 0, "f", 1),
    "fabs": ("llvm.fabs.f64", 0, 1, "d", 1), "fabsf": ("llvm.fabs.f32", 0, 1, "f", 1),
    "floor": ("llvm.floor.f64", 0, 1, "d", 1), "ceilf": ("llvm.ceil.f32", 0, 1, "f", 1),
    "fmax": ("llvm.maxnum.f64", 0, 1, "d", 2), "fminf": ("llvm.minnum.f32", 0, 1, "f", 2),
    "copysign": ("llvm.copysign.f64", 0, 1, "d", 2),
}
sys.setrecursionlimit(20000)
NA = {"pd": 3, "pf": 2, "sd": 1, "sf": 1}           # elements of the arrays; s: a single variable
WHOLE = "auwzk"                   # arrays: plain, single variable, two dimensions (passed whole, by row), constant


class Ambiguous(Exception):
    pass


class TooLong(Exception):
    pass


# ---------------------------------------------------------------- generation
def lit(r, t):
    f = FM[t]
    e = r.randint(-6, 6)
    m = r.getrandbits(f.mant)
    if r.random() < 0.4:
        k = r.randint(0, f.mant)
        m = (m >> k) << k
    return (f.bias + e) << f.mant | m | (r.getrandbits(1) << (f.w - 1))


def gen(r):
    nf = r.choice([1, 2, 2, 3, 4])
    funcs = []
    deep = r.randint(150, 1200) if r.random() < 0.06 else 0
    if deep:
        # a recursive function of its own: deep call stacks
        t = r.choice("df")
        funcs.append({"name": "deep", "params": ["i"] + [r.choice([t, t, "p" + t, "s" + t]) for _ in range(r.randint(0, 2))], "ret": r.choice([t, "v"]), "rec": True,
                      "glue": False, "types": t, "deep": deep, "body": []})
    for i in range(nf):
        kind = r.random()
        types = r.choice(["df", "df", "d", "f"])
        ps = []
        if r.random() < 0.3:
            ps.append("i")
        if kind < 0.85:
            ps += [r.choice(["i"] + [x for x in ["d", "d", "f", "f", "pd", "pf", "pd", "pf", "sd", "sf"] if x[-1] in types] * 2) for _ in range(r.randint(0, 4))] if kind > 0.2 else []
        ret = r.choice([x for x in ["d", "d", "f", "f"] if x in types] + ["v", "i"]) if kind > 0.2 else r.choice("vvi")
        rec = "i" in ps and r.random() < 0.4
        glue = kind >= 0.85                      # no floating-point type at all
        if glue:
            ret = r.choice(["v", "i"])
        funcs.append({"name": "fun%d" % i, "params": ps, "ret": ret, "rec": rec and not glue, "glue": glue,
                      "types": "" if glue else types, "body": []})
    funcs.append({"name": "main", "params": [], "ret": "i", "rec": False, "glue": False, "types": "df", "body": []})
    n = len(funcs)
    for i, f in enumerate(funcs):
        # functions call the functions of lower index only
        if f["name"] == "deep":
            t = f["types"]
            f["body"] = [["op", r.choice(["g%s0" % t, t + "0"]), r.choice(["add", "mul", "sub", "div"]), var(r, t, f), var(r, t, f)]]
            continue
        f["body"] = body(r, funcs, i, r.randint(3, 8) if not f["glue"] else 3, 0)
        if not f["glue"]:
            # operations and values after the calls
            for t in f["types"]:
                f["body"].append(["op", "g%s1" % t, r.choice(["add", "mul", "sub"]), var(r, t, f), var(r, t, f)])
                f["body"] += [["out", "g%s1" % t], ["out", t + "0"]]
        if i == n - 1 and i > 0:
            for k in range(i):
                f["body"].insert(r.randint(0, len(f["body"])), call(r, funcs, k, f))
    return {"funcs": funcs, "gd": [lit(r, "d") for _ in range(2)], "gf": [lit(r, "f") for _ in range(2)]}


def var(r, t, f, dst=False):
    if t not in f["types"]:
        return "0"
    c = [t + str(i) for i in range(3)] + ["g%s%d" % (t, r.randrange(2))]
    if dst:
        return r.choice(c)
    c += ["p%d" % i for i, p in enumerate(f["params"]) if p == t] * 2
    c += [elem(r, t)]
    if r.random() < 0.1:
        c += ["k%s[%d]" % (t, r.randrange(NA["p" + t]))]
    k = [i for i, p in enumerate(f["params"]) if p in ("p" + t, "s" + t)]
    if k:
        i = r.choice(k)
        c += ["p%d[%d]" % (i, r.randrange(NA[f["params"][i]]))]
    return r.choice(c)


def elem(r, t):
    """an element of a local array"""
    n = r.choice("aaauwz")
    if n == "z":
        return "z%s%d[%d]" % (t, r.randrange(2), r.randrange(NA["p" + t]))
    return "%s%s[%d]" % (n, t, r.randrange({"a": NA["p" + t], "u": 1, "w": 2 * NA["p" + t]}[n]))


def locals_(t):
    """local arrays of elements t: name -> number of elements"""
    n = NA["p" + t]
    return {"a" + t: n, "u" + t: 1, "w" + t: 2 * n, "z%s0" % t: n, "z%s1" % t: n}


def call(r, funcs, k, f):
    g = funcs[k]
    args = []
    if not f["glue"] and any(p[-1] in "df" and p[-1] not in f["types"] for p in g["params"] + [g["ret"]]):
        return ["nop"]
    for p in g["params"]:
        if p == "i":
            args.append(str(r.randint(0, 2)) if "deep" not in g or f["name"] != "main" else str(g["deep"]))
        elif p in NA:
            args.append(r.choice(["u", "u", "u", "k"] if p[0] == "s" else ["a", "a", "a", "w", "z0", "z1", "k"]) if not f["glue"] else "g" + p)
            if not f["glue"]:
                args[-1] = args[-1][0] + p[1] + args[-1][1:]
        else:
            args.append(var(r, p, f) if not f["glue"] else None)
    if f["glue"] and None in args:
        return ["nop"]
    if f["glue"] and g["ret"] in ("d", "f"):
        return ["nop"]
    dst = None
    if g["ret"] in ("d", "f") and r.random() < 0.9:
        dst = var(r, g["ret"], f, True)
    return ["call", dst, k, args, "indirect" if r.random() < 0.12 else "direct"]


def body(r, funcs, i, n, depth):
    f = funcs[i]
    out = []
    for _ in range(n):
        x = r.random()
        if i > 0 and (x < 0.3 or f["glue"]):
            c = call(r, funcs, r.randrange(i), f)
            out.append(c)
            if x < 0.06 and c[0] == "call":
                out[-1] = ["line", [c, call(r, funcs, c[2] if r.random() < 0.6 else r.randrange(i), f)]]
        elif f["glue"]:
            out.append(["nop"])
        elif x < 0.37:
            nme = r.choice([x for x in sorted(LIB) if LIB[x][3] in f["types"]])
            t, a = LIB[nme][3], LIB[nme][4]
            out.append(["lib", var(r, t, f, True), nme, [var(r, t, f) for _ in range(a)]])
        elif x < 0.45 and depth < 1:
            out.append(["loop", r.randint(0, 3), body(r, funcs, i, r.randint(1, 3), depth + 1)])
        elif x < 0.52 and f["types"] == "df":
            t = r.choice("df")
            out.append(["mov", var(r, t, f, True), var(r, "d" if t == "f" else "f", f)])
        elif x < 0.6:
            t = r.choice(f["types"])
            out.append(["out", var(r, t, f)])
        elif x < 0.64:
            t = r.choice(f["types"])
            out.append(["set", elem(r, t), var(r, t, f)])
        else:
            t = r.choice("ddf" if f["types"] == "df" else f["types"])
            out.append(["op", var(r, t, f, True), r.choice(["add", "sub", "mul", "div", "add", "mul"]), var(r, t, f), var(r, t, f)])
    return out


def vtype(v, f):
    if v[0] == "p":
        return f["params"][int(v[1:].split("[")[0])][-1]
    return v[1] if v[0] in "g" + WHOLE else v[0]


# ---------------------------------------------------------------- C text
def hexlit(t, u):
    return b2f(u, FM[t]).hex() + ("f" if t == "f" else "")


def emit(prog):
    """C text and call sites: {id(statement) -> (parent, symbol, line, library, intrinsic)} in order of emission"""
    L = ["#include <math.h>", "#include <stdint.h>", "#include <stdio.h>",
         "static uint64_t LOG[20000];", "static int NLOG;"]
    for t in "df":
        for i in range(2):
            L.append("%s g%s%d = %s;" % (CT[t], t, i, hexlit(t, prog["g" + t][i])))
        L.append("%s gp%s[%d] = {%s};" % (CT[t], t, NA["p" + t], ", ".join("%d.5%s" % (k + 1, "f" if t == "f" else "") for k in range(NA["p" + t]))))
        L.append("%s gs%s_ = 2.25;" % (CT[t], t))
        L.append("const %s k%s_[%d] = {%s};" % (CT[t], t, NA["p" + t], ", ".join(hexlit(t, u) for u in consts(prog, t))))
        L.append("#define gs%s (&gs%s_)" % (t, t))
        L.append("#define k%s ((%s *)k%s_)" % (t, CT[t], t))
        L.append("#define u%s (&u%s_)" % (t, t))
        L.append("#define w%s ((%s *)&w%s_)" % (t, CT[t], t))
        L.append("#define z%s0 (z%s_[0])" % (t, t))
        L.append("#define z%s1 (z%s_[1])" % (t, t))
    sites, order, flines = {}, [], {}

    def proto(f):
        ps = []
        for i, p in enumerate(f["params"]):
            ps.append("%s p%d" % (CT[p], i) if p not in NA else "%s *p%d" % (CT[p[1]], i))
        return "%s %s(%s)" % (CT[f["ret"]], f["name"], ", ".join(ps) or "void")
    for f in prog["funcs"]:
        L.append(proto(f) + " {")
        flines[f["name"]] = len(L)
        if not f["glue"]:
            for t in f["types"]:
                L.append("  %s %s;" % (CT[t], ", ".join("%s%d = %s" % (t, i, hexlit(t, init(prog, f, t, i))) for i in range(3))))
                n = NA["p" + t]
                v = {x: [hexlit(t, u) for u in arrinit(prog, f, t, x, k)] for x, k in locals_(t).items()}
                L.append("  %s a%s[%d] = {%s};" % (CT[t], t, n, ", ".join(v["a" + t])))
                L.append("  %s u%s_ = %s;" % (CT[t], t, v["u" + t][0]))
                L.append("  %s w%s_[%d][2] = {%s};" % (CT[t], t, n, ", ".join("{%s, %s}" % (x, y) for x, y in zip(v["w" + t][::2], v["w" + t][1::2]))))
                L.append("  %s z%s_[2][%d] = {{%s}, {%s}};" % (CT[t], t, n, ", ".join(v["z%s0" % t]), ", ".join(v["z%s1" % t])))

        def ctext(s):
            if s[0] == "nop":
                return ";"
            g = prog["funcs"][s[2]] if s[0] == "call" else None
            if s[0] == "call":
                n = g["name"]
                if s[4] == "indirect":
                    c = "{ %s (*volatile q)(%s) = %s; %sq(%s); }" % (
                        CT[g["ret"]], ", ".join(CT[p] if p not in NA else CT[p[1]] + " *" for p in g["params"]) or "void", n,
                        s[1] + " = " if s[1] else "", ", ".join(s[3]))
                    return c
                sites[id(s)] = len(order)
                order.append((f["name"], n, len(L) + 1, 0, 0))
                return "%s%s(%s);" % (s[1] + " = " if s[1] else "", n, ", ".join(s[3]))
            sym, lib, intr, _, _ = LIB[s[2]]
            sites[id(s)] = len(order)
            order.append((f["name"], sym, len(L) + 1, lib, intr))
            return "%s = %s(%s);" % (s[1], s[2], ", ".join(s[3]))

        def stmts(b, ind):
            for s in b:
                if s[0] in ("call", "lib", "nop"):
                    L.append(ind + ctext(s))
                elif s[0] == "line":
                    L.append(ind + " ".join([ctext(x) for x in s[1]]))
                elif s[0] == "op":
                    L.append(ind + "%s = %s %s %s;" % (s[1], s[3], {"add": "+", "sub": "-", "mul": "*", "div": "/"}[s[2]], s[4]))
                elif s[0] in ("mov", "set"):
                    L.append(ind + "%s = %s;" % (s[1], s[2]))
                elif s[0] == "out":
                    t = vtype(s[1], f)
                    L.append(ind + "{ union { %s x; uint%d_t u; } w; w.x = %s; if (NLOG < 20000) LOG[NLOG++] = w.u; }" % (CT[t], FM[t].w, s[1]))
                elif s[0] == "loop":
                    k = len(L)
                    L.append(ind + "for (int i%d = 0; i%d < %d; i%d++) {" % (k, k, s[1], k))
                    stmts(s[2], ind + "  ")
                    L.append(ind + "}")
        stmts(f["body"], "  ")
        if f["rec"]:
            k = f["params"].index("i")
            args = [("p%d" % i if i != k else "p%d - 1" % k) if p not in NA else recarr(p) for i, p in enumerate(f["params"])]
            L.append("  if (p%d > 0)" % k)
            sites[("rec", f["name"])] = len(order)
            order.append((f["name"], f["name"], len(L) + 1, 0, 0))
            L.append("    %s%s(%s);" % (f["ret"] + "0 = " if f["ret"] in "df" else "", f["name"], ", ".join(args)))
        if f["name"] == "main":
            L.append("  for (int k = 0; k < NLOG; k++)")
            L.append("    printf(\"%llx\\n\", (unsigned long long)LOG[k]);")
        if f["ret"] in "df":
            L.append("  return %s0;" % f["ret"])
        elif f["ret"] == "i":
            L.append("  return 0;")
        L.append("}")
    return "\n".join(L) + "\n", sites, order, flines


def init(prog, f, t, i):
    r = random.Random("%s/%s/%s/%d" % (prog["gd"], f["name"], t, i))
    return lit(r, t)


def arrinit(prog, f, t, name, n):
    r = random.Random("%s/%s/%s" % (prog["gd"], f["name"], name))
    return [lit(r, t) for _ in range(n)]


def consts(prog, t):
    r = random.Random("%s/%s" % (prog["gd"], t))
    return [lit(r, t) for _ in range(NA["p" + t])]


def recarr(p):
    """the array passed by a recursive call for a parameter"""
    return ("a" if p[0] == "p" else "u") + p[1]


# ---------------------------------------------------------------- interpretation
class Site:
    def __init__(self):
        self.calls = 0
        self.inp = self.out = None      # argument records: [name, type, prec, range, min, max]


class Interp:
    """ops=(p64,r64,p32,r32) of the command line; prof: {site index or 'main': (ops formats, inputs, outputs)}"""

    def __init__(self, prog, sites, order, mode="ob", inst="none", ops=NATIVE, prof=None, daz=False, ftz=False):
        self.p, self.sites, self.order = prog, sites, order
        self.mode, self.inst, self.ops, self.daz, self.ftz = mode, inst, tuple(ops), daz, ftz
        self.prof = prof or {}
        self.map = {}
        self.stack = []
        self.log = []
        self.events = []                # what the log file describes
        self.steps = 0
        self.g = {}
        for t in "df":
            for i in range(2):
                self.g["g%s%d" % (t, i)] = prog["g" + t][i]
            self.g["gs" + t] = [f2b(2.25, FM[t])]
            self.g["k" + t] = consts(prog, t)
            self.g["gp" + t] = [f2b(k + 1.5, FM[t]) for k in range(NA["p" + t])]
        self.usage = {f["name"]: self.uses(f) for f in prog["funcs"]}
        self.effects = 0                # values changed by an argument rounding or a function format

    @staticmethod
    def uses(f):
        return "f" in f["types"], "d" in f["types"]      # the types of the locals

    def one(self, s):
        if len(s) > 1:
            raise Ambiguous()
        return next(iter(s))

    def nan(self, f, u):
        return "nan" if u != "nan" and is_nan(f, u) else u

    def rnd(self, t, u, prec, rng, inp):
        if u == "nan":
            return u
        x = self.one(vround(FM[t], u, rng, prec, self.daz if inp else self.ftz))
        if x != u:
            self.effects += 1
        return x

    def op(self, t, op, a, b):
        f = FM[t]
        prec, rng = (self.ops[0], self.ops[1]) if t == "d" else (self.ops[2], self.ops[3])
        x = self.one(model(f, op, [a, b], self.mode, rng, prec, self.daz, self.ftz))
        return self.nan(f, x)

    # -- variables
    def get(self, fr, v):
        if "[" in v:
            n, k = v[:-1].split("[")
            return self.arr(fr, n)[int(k)]
        return self.g[v] if v[0] == "g" else fr["v"][v]

    def arr(self, fr, n):
        return self.g[n] if n[0] in "gk" else fr["v"][n]

    def set(self, fr, v, x):
        if "[" in v:
            n, k = v[:-1].split("[")
            self.arr(fr, n)[int(k)] = x
        elif v[0] == "g":
            self.g[v] = x
        else:
            fr["v"][v] = x

    # -- hooks
    def record(self, key, side, args):
        """args: [name, type, [values]]: rounds and records; returns the values"""
        s = self.map[key]
        cur = s.inp if side == "in" else s.out
        new = cur is None and len(args) > 0
        if new:
            cur = [[n, t, NATIVE[0] if t[-1] == "d" else NATIVE[2], NATIVE[1] if t[-1] == "d" else NATIVE[3], None, None] for n, t, _ in args]
            if side == "in":
                s.inp = cur
            else:
                s.out = cur
        act = self.inst in ("arguments", "all") and self.mode in (("ib", "full") if side == "in" else ("ob", "full"))
        for (n, t, vals), rec in zip(args, cur or []):
            for j, u in enumerate(vals):
                before = u
                if act and not new:
                    u = vals[j] = self.rnd(t[-1], u, rec[2], rec[3], side == "in")
                self.events.append((side, key, j if t[0] == "p" else None, t, n, before, u, rec[2], rec[3]))
                if u == "nan":
                    continue
                x = b2f(u, FM[t[-1]])
                if math.isinf(x):
                    continue
                lo, hi = max(min(math.floor(x), 2 ** 31 - 1), -2 ** 31), max(min(math.ceil(x), 2 ** 31 - 1), -2 ** 31)
                rec[4] = lo if rec[4] is None else min(rec[4], lo)
                rec[5] = hi if rec[5] is None else max(rec[5], hi)

    def enter(self, key, user, fp, args):
        self.stack.append((key, user, fp))
        if not fp:
            return
        if key not in self.map:
            s = self.map[key] = Site()
            s.fmt = NATIVE
            if key in self.prof:
                s.fmt, inp, out, n = self.prof[key]
                s.calls = n
                s.inp = [list(x) for x in inp]
                s.out = [list(x) for x in out]
        s = self.map[key]
        s.calls += 1
        self.events.append(("enter", key, s.fmt))
        if user and self.inst in ("operations", "all"):
            self.ops = s.fmt
        self.record(key, "in", args)

    def leave(self, key, user, fp, args):
        if fp:
            if self.inst in ("operations", "all"):
                for k, u, q in reversed(self.stack[:-1]):
                    if u and q:
                        self.ops = self.map[k].fmt
                        break
            self.events.append(("exit", key, self.map[key].fmt))
            self.record(key, "out", args)
        self.stack.pop()

    # -- execution
    def run(self):
        m = self.p["funcs"][-1]
        self.enter("main", True, True, [])
        self.func(m, [])
        self.leave("main", True, True, [])
        return self.log

    def func(self, f, args):
        fr = {"f": f, "v": {}}
        if not f["glue"]:
            for t in f["types"]:
                for i in range(3):
                    fr["v"]["%s%d" % (t, i)] = init(self.p, f, t, i)
                for x, n in locals_(t).items():
                    fr["v"][x] = arrinit(self.p, f, t, x, n)
        for i, a in enumerate(args):
            fr["v"]["p%d" % i] = a
        self.body(fr, f["body"])
        if f["rec"]:
            k = f["params"].index("i")
            if fr["v"]["p%d" % k] > 0:
                vals, ptr = [], set()
                for i, p in enumerate(f["params"]):
                    if i == k:
                        vals.append(fr["v"]["p%d" % k] - 1)
                    elif p in NA:
                        vals.append(fr["v"][recarr(p)])
                        ptr.add(i)
                    else:
                        vals.append(fr["v"]["p%d" % i])
                x = self.hook(self.sites["rec", f["name"]], f, vals, ptr)
                if f["ret"] in "df":
                    fr["v"][f["ret"] + "0"] = x
        return fr["v"].get(f["ret"] + "0") if f["ret"] in "df" else None

    def hook(self, key, f, vals, ptr):
        fp = any(self.usage[f["name"]])
        vals = [v if p in NA else v for v, p in zip(vals, f["params"])]
        cells = [[v] if p in FM else v for v, p in zip(vals, f["params"])]
        a = [["p%d" % i, p if p in FM else "p" + p[1], c] for i, (p, c) in enumerate(zip(f["params"], cells)) if p in FM or (p in NA and i in ptr)]
        self.enter(key, True, fp, a)
        x = self.func(f, [c[0] if p in FM else c for p, c in zip(f["params"], cells)])
        o = []
        if f["ret"] in "df":
            o.append(["return_value", f["ret"], [x]])
        o += [y for y in a if y[1] in NA]
        self.leave(key, True, fp, o)
        return o[0][2][0] if f["ret"] in "df" else None

    def body(self, fr, b):
        f = fr["f"]
        for s in b:
            self.steps += 1
            if self.steps > 8000 or len(self.log) > 3000:
                raise TooLong()
            if s[0] == "op":
                t = vtype(s[1], f)
                self.set(fr, s[1], self.op(t, s[2], self.get(fr, s[3]), self.get(fr, s[4])))
            elif s[0] == "set":
                self.set(fr, s[1], self.get(fr, s[2]))
            elif s[0] == "mov":
                x = self.get(fr, s[2])
                t = vtype(s[1], f)
                self.set(fr, s[1], x if x == "nan" else self.nan(FM[t], cast(x) if t == "f" else widen(x)))
            elif s[0] == "out":
                self.log.append((vtype(s[1], f), self.get(fr, s[1])))
            elif s[0] == "loop":
                for _ in range(s[1]):
                    self.body(fr, s[2])
            elif s[0] == "line":
                self.body(fr, s[1])
            elif s[0] == "call":
                g = self.p["funcs"][s[2]]
                vals, ptr = [], set()
                for i, (p, a) in enumerate(zip(g["params"], s[3])):
                    if p == "i":
                        vals.append(int(a))
                    elif p in NA:
                        vals.append(self.arr(fr, a))
                        if a[0] != "k":
                            ptr.add(i)          # constant arrays are not arguments of the hooks
                    else:
                        vals.append(self.get(fr, a))
                if s[4] == "indirect":
                    x = self.func(g, vals)
                else:
                    x = self.hook(self.sites[id(s)], g, vals, ptr)
                if s[1]:
                    self.set(fr, s[1], x)
            elif s[0] == "lib":
                sym, lib, intr, t, n = LIB[s[2]]
                a = [["parameter_%d" % (i + 1), t, [self.get(fr, v)]] for i, v in enumerate(s[3])]
                key = self.sites[id(s)]
                self.enter(key, False, True, a)
                o = [["return_value", t, [self.libcall(s[2], t, [y[2][0] for y in a])]]]
                self.leave(key, False, True, o)
                self.set(fr, s[1], o[0][2][0])

    def libcall(self, n, t, v):
        f = FM[t]
        if n in ("fmax", "fminf"):
            if "nan" in v:
                r = [x for x in v if x != "nan"]
                return r[0] if r else "nan"
            a, b = (b2f(x, f) for x in v)
            if a == b and v[0] != v[1]:
                raise Ambiguous()
            return v[0] if (a > b) == (n == "fmax") or a == b else v[1]
        if n == "copysign":
            if "nan" in v:
                raise Ambiguous()
            m = (1 << (f.w - 1)) - 1
            return (v[0] & m) | (v[1] & ~m)
        if v[0] == "nan":
            return "nan"
        x = b2f(v[0], f)
        s = v[0] >> (f.w - 1)
        if n in ("sqrt", "sqrtf"):
            if x < 0:
                return "nan"
            if math.isinf(x) or x == 0:
                return v[0]
            y = math.sqrt(x)
            return f2b(y) if t == "d" else cast(f2b(y))       # the double root of a float rounds correctly
        if n.startswith("fabs"):
            return v[0] & ((1 << (f.w - 1)) - 1)
        if math.isinf(x) or x == 0:
            return v[0]
        y = math.floor(x) if n == "floor" else math.ceil(x)
        return (s << (f.w - 1)) if y == 0 else f2b(float(y), f)
