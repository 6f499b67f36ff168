"""C21: the run-time filters of delta-debug select exactly the operations they name."""
import random
import re

import numpy as np

import progrun as pr
from vcommon import Check, Stats, h64

BE = "libinterflop_vlog.so --ulp=%d"
LINE = re.compile(r"^(0x[0-9a-fA-F]+): (.*) at ([^ ]+):(\d+)$")
NT = {"f": np.float32, "d": np.float64}
UT = {"f": np.uint32, "d": np.uint64}
SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
KIND = {"add": 0, "sub": 1, "mul": 2, "div": 3, "fma": 4}


def cname(t, n):
    return {"f": "float", "d": "double"}[t] + ("" if n == 1 else str(n))


def lit(t, x):
    return float(x).hex() + ("f" if t == "f" else "")


def gen_program(r, opt, nfun, fma, big):
    fs = []
    for k in range(nfun):
        t = r.choice("fdd")
        n = r.choice([1, 1, 1, 2, 4, 8, 16])
        body = []
        m = r.randint(20, 60) if big else r.randint(1, 6)
        for i in range(m):
            o = r.choice(["add", "sub", "mul", "div", "add", "mul"] + (["fma"] if fma and n == 1 else []))
            prev = ["x" if i == 0 else "t%d" % (i - 1)]
            if o == "fma":
                body.append([o, prev[0], r.choice([0.5, 2.0, 4.0]), 1 + r.randint(1, 999) / 1024.0])
            elif o in ("mul", "div") or r.random() < 0.5:
                body.append([o, prev[0], 1 + (r.randint(1, 15) * 2 + 1) / 4096.0 + i / 65536.0])
            else:
                body.append([o, prev[0], r.choice(["y"] + ["t%d" % j for j in range(i - 1)])])
        fs.append({"name": "fn%d" % k, "t": t, "n": n, "body": body, "mod": r.randint(0, 1)})
    return fs


def text(fs, mod, lang, nthreads):
    """source of a module; sets the line of every operation"""
    L = ["#include <stdio.h>", "#include <stdlib.h>", "#include <string.h>", "#include <stdint.h>", "#include <math.h>", "#include <pthread.h>"]
    for t in ("float", "double"):
        for n in (2, 4, 8, 16):
            L.append("typedef %s %s%d __attribute__((ext_vector_type(%d)));" % (t, t, n, n))
    ex = 'extern "C" ' if lang == "c++" else ""
    for f in fs:
        T = cname(f["t"], f["n"])
        if f["n"] == 1:
            f["sig"] = "%s%s %s(%s x, %s y)" % (ex, T, f["name"], T, T)
        else:
            f["sig"] = "%svoid %s(const %s *p, const %s *q, %s *r)" % (ex, f["name"], T, T, T)
        L.append(f["sig"] + ";")
    for f in fs:
        if f["mod"] != mod:
            continue
        L.append("__attribute__((noinline)) " + f["sig"] + " {")
        T = cname(f["t"], f["n"])
        if f["n"] > 1:
            L.append("  %s x = *p, y = *q;" % T)
        f["lines"] = []
        for i, s in enumerate(f["body"]):
            last = i == len(f["body"]) - 1
            if s[0] == "fma":
                e = "__builtin_fma%s(%s, %s, %s)" % ("f" if f["t"] == "f" else "", s[1], lit(f["t"], s[2]), lit(f["t"], s[3]))
            else:
                b = s[2] if isinstance(s[2], str) else lit(f["t"], s[2])
                e = "%s %s %s" % (s[1], SYM[s[0]], b)
            if last and f["n"] == 1:
                L.append("  return %s;" % e)
            elif last:
                L.append("  *r = %s;" % e)
            else:
                L.append("  %s t%d = %s;" % (T, i, e))
            f["lines"].append(len(L))
        L.append("}")
    if mod == 0:
        L.append("static volatile double A[8] = {1.25, 3.0000001, 0.3, 7.5, 1e-3, 12345.678, 0.7, 2.0};")
        L.append("static int C, calls[256]; static uint64_t out[%d][1<<14]; static int nout[%d];" % (nthreads, nthreads))
        L.append("static void put(int k, const void *p, int w) { uint64_t u = 0; memcpy(&u, p, w); out[k][nout[k]++] = u; }")
        L.append("static void *work(void *arg) {\n  int k = (int)(intptr_t)arg;\n  for (int c = 0; c < C; c++) {")
        L.append("    switch (calls[c]) {")
        for i, f in enumerate(fs):
            T, B = cname(f["t"], f["n"]), cname(f["t"], 1)
            L.append("    case %d: {" % i)
            if f["n"] == 1:
                L.append("      %s v = %s((%s)A[c %% 8], (%s)A[(c * 3 + 1) %% 8]); put(k, &v, sizeof v);" % (T, f["name"], T, T))
            else:
                L.append("      %s x, y, v; for (int l = 0; l < %d; l++) { x[l] = (%s)A[(c + l) %% 8]; y[l] = (%s)A[(c * 3 + 1 + l) %% 8]; }" % (
                    T, f["n"], B, B))
                L.append("      %s(&x, &y, &v); for (int l = 0; l < %d; l++) { %s e = v[l]; put(k, &e, sizeof e); }" % (f["name"], f["n"], B))
            L.append("    } break;")
        L.append("    }\n  }\n  return 0;\n}")
        L.append("int main(int argc, char **argv) {\n  for (int i = 1; i < argc; i++) calls[C++] = atoi(argv[i]);")
        if nthreads == 1:
            L.append("  work(0);")
        else:
            L.append("  pthread_t t[%d]; for (intptr_t i = 0; i < %d; i++) pthread_create(&t[i], 0, work, (void *)i);" % (nthreads, nthreads))
            L.append("  for (int i = 0; i < %d; i++) pthread_join(t[i], 0);" % nthreads)
        L.append('  for (int k = 0; k < %d; k++) for (int i = 0; i < nout[k]; i++) printf("%%llx\\n", (unsigned long long)out[k][i]);' % nthreads)
        L.append("  return 0;\n}")
    return "\n".join(L) + "\n"


A = [1.25, 3.0000001, 0.3, 7.5, 1e-3, 12345.678, 0.7, 2.0]


def model(fs, calls, ulp, perturbed):
    """(printed values, operations of the perturbed sites) when the operations of `perturbed` go through the back-end"""
    out, trace = [], []
    with np.errstate(all="ignore"):
        for c, k in enumerate(calls):
            f = fs[k]
            t, U, n = NT[f["t"]], UT[f["t"]], f["n"]
            env = {"x": np.array([A[(c + l) % 8] for l in range(n)], dtype=t), "y": np.array([A[(c * 3 + 1 + l) % 8] for l in range(n)], dtype=t)}
            for i, s in enumerate(f["body"]):
                a = env[s[1]]
                b = env[s[2]] if isinstance(s[2], str) else np.full(n, s[2], dtype=t)
                if s[0] == "fma":
                    d = np.full(n, s[3], dtype=t)
                    v = a * b + d                      # the product is exact
                else:
                    d = None
                    v = {"add": a + b, "sub": a - b, "mul": a * b, "div": a / b}[s[0]]
                if (k, i) in perturbed:
                    for l in range(n):
                        trace.append((KIND[s[0]], "fd".index(f["t"]), int(a.view(U)[l]), int(b.view(U)[l]), int(d.view(U)[l]) if d is not None else 0))
                    v = (v.view(U) + U(ulp)).view(t)
                env["t%d" % i] = v
            out += [int(u) for u in v.view(U)]
    return out, trace


class CHECK(Check):
    id = "C21"
    shrink_budget = 90.0
    rule = ("generated C and C++ programs (scalar and vector operations, one per source line, some in tail position, 1 or 2 modules, 1 or 4 "
            "threads) compiled with --ddebug at -O0 to -O3; the operations listed under VFC_DDEBUG_GEN are compared with the executed ones, and "
            "runs under generated VFC_DDEBUG_INCLUDE and VFC_DDEBUG_EXCLUDE lists with a back-end that shifts results are compared with a model "
            "that shifts the selected operations only; an evaluation is one run; non-trivial = run where a filter separates executed operations")
    assumptions = ["each operation is on a line of its own", "addresses stay valid because --ddebug programs are linked -no-pie, as the driver does"]

    def setup(self, b, tier):
        b.toolchain()
        b.logbackend()

    def plan(self, tier, seed):
        n = 240 if tier == "quick" else 6000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    def gen_case(self, r, i):
        big = i % 24 == 7
        nth = 4 if i % 8 == 5 else 1
        opt = r.choice(["-O0", "-O0", "-O1", "-O2", "-O3"])
        fma = r.random() < 0.4
        fs = gen_program(r, opt, r.randint(1, 5), fma, big)
        calls = [r.randrange(len(fs)) for _ in range(r.randint(1, 8))]
        runs = []
        for _ in range(r.randint(2, 4)):
            k = r.random()
            c2 = calls if r.random() < 0.6 else [r.randrange(len(fs)) for _ in range(r.randint(1, 8))]
            runs.append({"inc": r.choice([r.random(), 0.0, 1.0, 0.5]) if k < 0.75 else None,
                         "exc": r.choice([r.random(), 0.0, 1.0, 0.3]) if k > 0.4 else None,
                         "calls": c2, "seed": r.randrange(10 ** 9), "fmt": r.choice(["full", "full", "addr", "mix"]),
                         "gen": r.random() < 0.3})
        return {"fs": fs, "opt": opt, "lang": "c++" if i % 4 == 3 else "c", "flags": ["--inst-fma"] if fma else [], "threads": nth,
                "calls": calls, "runs": runs, "old": r.choice([None, None, 0, 1]), "ulp": r.choice([1, 1, 3, 1000]),
                "driver": i % 40 == 11, "bad": r.choice([None, None, None, "both", "garbage"])}

    def run_job(self, b, job):
        st = Stats()
        case = self.gen_case(random.Random(job["seed"]), job["i"])
        info = {"evals": 0, "nt": []}
        msg = self.evaluate(b, case, info)
        st.evals = info["evals"]
        st.nt += info["nt"]
        st.cls("%s %s%s" % (case["opt"], case["lang"], " threads" if case["threads"] > 1 else ""))
        if info.get("sample"):
            st.samples.append(info["sample"])
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(b, case, {"evals": 0, "nt": []})

    def reductions(self, case):
        if case["bad"]:
            yield dict(case, bad=None)
        for k, v in (("threads", 1), ("lang", "c"), ("old", None), ("opt", "-O0"), ("ulp", 1)):
            if case[k] != v:
                yield dict(case, **{k: v})
        for i in range(len(case["runs"])):
            yield dict(case, runs=case["runs"][:i] + case["runs"][i + 1:])
        if len(case["calls"]) > 1:
            yield dict(case, calls=case["calls"][:len(case["calls"]) // 2])
            yield dict(case, calls=case["calls"][len(case["calls"]) // 2:])
        if len(case["fs"]) > 1:
            yield dict(case, fs=case["fs"][:-1], calls=[c for c in case["calls"] if c < len(case["fs"]) - 1] or [0],
                       runs=[dict(x, calls=[c for c in x["calls"] if c < len(case["fs"]) - 1] or [0]) for x in case["runs"]])
        for i, f in enumerate(case["fs"]):
            if len(f["body"]) > 1:
                yield dict(case, fs=case["fs"][:i] + [dict(f, body=f["body"][:-1])] + case["fs"][i + 1:])

    def evaluate(self, b, case, info):
        fs = [dict(f) for f in case["fs"]]
        nth = case["threads"]
        with pr.Work() as w:
            ext = "cpp" if case["lang"] == "c++" else "c"
            files = []
            for m in (0, 1):
                if m == 0 or any(f["mod"] == 1 for f in fs):
                    w.write("mod%d.%s" % (m, ext), text(fs, m, case["lang"], nth))
                    files.append("mod%d.%s" % (m, ext))
            cc = pr.vfc if case["driver"] else pr.fast
            res = cc(b, w, [case["opt"], "-ffp-contract=off", "--ddebug"] + case["flags"] + files + ["-o", "prog", "-lm", "-lpthread"], case["lang"])
            if res.rc:
                return "compilation failed: %s" % res.err[-500:]
            fma = "--inst-fma" in case["flags"]
            sites = [(k, i) for k, f in enumerate(fs) for i in range(len(f["body"])) if fma or f["body"][i][0] != "fma"]
            where = {s: ("mod%d.%s" % (fs[s[0]]["mod"], ext), fs[s[0]]["lines"][s[1]]) for s in sites}
            site_at = {v: k for k, v in where.items()}

            def run(calls, env, perturbed, what, ulp=case["ulp"]):
                log = w.p("log")
                w.write("log", "")
                res = pr.run(b, w, w.p("prog"), BE % ulp, env=dict(env, VLOG=log), args=[str(c) for c in calls], timeout=60)
                info["evals"] += 1
                if res.timeout or res.rc:
                    return "%s: the program ended with status %s: %s" % (what, res.rc, res.err[-300:])
                want, trace = model(fs, calls, ulp, perturbed)
                got = pr.patterns(res.out)
                if got != want * nth:
                    bad = [i for i in range(min(len(got), len(want * nth))) if got[i] != (want * nth)[i]][:1]
                    return "%s: the selected operations (%d of %d) give %s, the program prints %s (first difference at output %s)" % (
                        what, len(perturbed), len(sites), [hex(x) for x in want[:6]], [hex(x) for x in got[:6]], bad)
                rec = [(x[0], x[1], x[5], x[6], x[7]) for x in pr.read_log(log) if x[0] < 5]
                if len(rec) != nth * len(trace):
                    return "%s: the back-end received %d operations, the selected ones are executed %d times" % (what, len(rec), nth * len(trace))
                if case["opt"] == "-O0" and nth == 1 and rec != trace:
                    i = [i for i in range(len(rec)) if rec[i] != trace[i]][0]
                    return "%s: operation %d received is %r, expected %r" % (what, i, rec[i], trace[i])
                return None

            def listed(path, executed, what):
                """{site: line} of a generated list, which must name each executed operation once"""
                got = {}
                seen = set()
                for l in open(path).read().splitlines():
                    m = LINE.match(l)
                    if not m:
                        return "%s: unreadable line %r in the generated list" % (what, l), None
                    s = site_at.get((m.group(3), int(m.group(4))))
                    if s is None or s not in executed:
                        return "%s: the list names %r, which is no executed operation" % (what, l), None
                    if s in got or int(m.group(1), 16) in seen:
                        return "%s: the list names the operation %r twice" % (what, l), None
                    if case["lang"] == "c" and m.group(2) != fs[s[0]]["name"]:
                        return "%s: the operation of %s is said to be in %s" % (what, fs[s[0]]["name"], m.group(2)), None
                    seen.add(int(m.group(1), 16))
                    got[s] = l
                miss = [s for s in executed if s not in got]
                if miss:
                    return "%s: the executed operation of %s at line %d is not in the list" % (what, fs[miss[0][0]]["name"], where[miss[0]][1]), None
                return None, got

            def filt(name, lines, how, rr):
                o = []
                for l in lines:
                    o.append(l.split(":")[0] if how == "addr" or (how == "mix" and rr.random() < 0.5) else l)
                w.write(name, "".join(x + "\n" for x in o))
                return w.p(name)

            alls = set(sites)
            msg = run(case["calls"], {}, alls, "no filter")
            if msg:
                return msg
            ex = {s for s in sites if s[0] in case["calls"]}
            if case["old"] is not None:
                w.write("gen", "x" * 50 + "\n" if case["old"] == 0 else "0x0000000000401000: old at old.c:1\n" * (len(ex) + 5))
            msg = run(case["calls"], {"VFC_DDEBUG_GEN": w.p("gen")}, alls, "VFC_DDEBUG_GEN")
            if msg:
                return msg
            msg, lines = listed(w.p("gen"), ex, "VFC_DDEBUG_GEN")
            if msg:
                return msg
            for n, k in enumerate(case["runs"]):
                rr = random.Random(k["seed"])
                env, per = {}, set(alls)
                ks = sorted(lines)
                if k["inc"] is not None:
                    S = [s for s in ks if rr.random() < k["inc"]]
                    rr.shuffle(S)
                    env["VFC_DDEBUG_INCLUDE"] = filt("inc", [lines[s] for s in S], k["fmt"], rr)
                    per &= set(S)
                if k["exc"] is not None:
                    T = [s for s in ks if rr.random() < k["exc"]]
                    env["VFC_DDEBUG_EXCLUDE"] = filt("exc", [lines[s] for s in T], k["fmt"], rr)
                    per -= set(T)
                what = "run %d under %s" % (n, " and ".join(sorted(env)) or "no filter")
                gen2 = k["gen"] and k["inc"] is None
                if gen2:
                    env["VFC_DDEBUG_GEN"] = w.p("gen2")
                msg = run(k["calls"], env, per, what)
                if msg:
                    return msg
                e2 = {s for s in sites if s[0] in k["calls"]}
                if 0 < len(e2 & per) < len(e2):
                    info["nt"].append(h64([sorted(per), k["calls"], case["seed"] if "seed" in case else repr(fs)[:2000]]))
                if gen2:
                    msg, _ = listed(w.p("gen2"), e2 & per, what)
                    if msg:
                        return msg
            if case["bad"]:
                if case["bad"] == "both":
                    env = {"VFC_DDEBUG_INCLUDE": w.p("gen"), "VFC_DDEBUG_GEN": w.p("gen3")}
                    what = "VFC_DDEBUG_INCLUDE and VFC_DDEBUG_GEN together"
                else:
                    w.write("junk", open(w.p("gen")).read() + "not an address\n")
                    env = {"VFC_DDEBUG_INCLUDE": w.p("junk")}
                    what = "a filter with a line that is no address"
                res = pr.run(b, w, w.p("prog"), BE % 1, env=env, args=[str(c) for c in case["calls"]], quiet=False)
                info["evals"] += 1
                if res.timeout or res.rc in (0, None) or res.rc < 0:
                    return "%s: the program ended with status %s instead of an error" % (what, res.rc)
            info["sample"] = {"opt": case["opt"], "functions": [(f["name"], f["t"], f["n"], len(f["body"])) for f in fs],
                              "generated": [lines[s] for s in sorted(lines)[:3]], "runs": case["runs"][:2]}
        return None
