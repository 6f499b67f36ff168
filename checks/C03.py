"""C03: under exact back-ends an instrumented program behaves as the program compiled natively."""
import json
import os
import random

import progrun as pr
import richgen as rg
from vcommon import Check, Stats, h64

EXACT = [
    "libinterflop_ieee.so",
    "libinterflop_ieee.so --count-op",
    "libinterflop_mca.so --mode=ieee",
    "libinterflop_mca_int.so --mode=ieee",
    "libinterflop_bitmask.so --mode=ieee",
    "libinterflop_vprec.so",
    "libinterflop_vprec.so --mode=ieee --precision-binary64=4 --precision-binary32=3",
    "libinterflop_vprec.so --mode=full --precision-binary64=52 --range-binary64=11 --precision-binary32=23 --range-binary32=8",
    "libinterflop_ieee.so; libinterflop_mca.so --mode=ieee",
]
try:
    CPU = open("/proc/cpuinfo").read()
except OSError:
    CPU = ""
ARCH = [["-march=native", "-mno-avx"], ["-msse4.2"], ["-mtune=native"], ["-march=native", "-mno-fma"]]
if " avx2 " in CPU:
    ARCH += [["-mavx2"], ["-march=x86-64-v3"], ["-mavx"]]
if " avx512f " in CPU:
    ARCH += [["-march=native", "-mno-avx512f"], ["-march=native", "-mprefer-vector-width=512"], ["-mavx512f"]]


STRICT = os.environ.get("VERIF_STRICT") == "1"      # when developing the generator


class CHECK(Check):
    id = "C03"
    rule = ("generated C and C++ programs built from features (by-value structs, variadic, recursive and indirect calls, exceptions, "
            "setjmp, threads, constructors, long double, _Float16, complex, vectors of every width, libm calls, ...) compiled at -O0..-O3 "
            "with generated instrumentation flags (--inst-fma/cast/fcmp/func, --ddebug) and run under a generated exact back-end "
            "configuration; oracle: standard output and exit status of the native compilation of the same text with the same options. "
            "An evaluation is one output line; non-trivial = line printed by a program whose instrumented executable differs from the "
            "native one; distinct by feature and value")
    assumptions = ["-ffp-contract=off (contraction is a choice of the code generator, not of the program)", "clang 18, x86-64"]
    shrink_budget = 90.0

    def setup(self, b, tier):
        b.toolchain()

    def plan(self, tier, seed):
        n = 220 if tier == "quick" else 8000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    def gen_case(self, r, i):
        lang = "c++" if i % 3 == 2 else "c"
        flags = [f for f in ("--inst-fma", "--inst-cast", "--inst-fcmp") if r.random() < 0.4]
        k = r.random()
        if k < 0.3:
            flags.append("--inst-func")
        elif k < 0.4:
            flags.append("--ddebug")
        opts = [r.choice(["-O0", "-O1", "-O2", "-O3", "-O3", "-Os"]), "-ffp-contract=off"]
        for o, p in (("-march=native", 0.15), ("-g", 0.15), ("-fno-inline", 0.15), ("-funroll-loops", 0.1), 
                     ("-fno-strict-aliasing", 0.1), ("-fomit-frame-pointer", 0.1)):
            if r.random() < p:
                opts.append(o)
        if r.random() < 0.25:
            opts += r.choice(ARCH)
        be = [x for x in EXACT if "--inst-fcmp" not in flags or x.startswith("libinterflop_ieee")]
        return {"P": rg.generate(r, lang, r.randint(3, 9)), "opts": opts, "flags": flags,
                "backends": r.sample(be, min(2, len(be))), "driver": r.random() < 0.1}

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        case = self.gen_case(r, job["i"])
        info = {}
        msg = self.evaluate(b, case, info)
        st.evals = info.get("evals", 0)
        st.nt += info.get("nt", [])
        for n, _, _ in case["P"]["parts"]:
            st.cls(n)
        for f in case["flags"] + case["opts"]:
            st.cls(f)
        if info.get("skip"):
            st.cls("skipped: does not compile or run natively")
        if "sample" in info:
            st.samples.append(info["sample"])
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(b, case, {})

    def reductions(self, case):
        P = case["P"]
        n = len(P["parts"])
        if len(case["backends"]) > 1:
            for x in case["backends"]:
                yield dict(case, backends=[x])
        if n > 1:
            for s in (n // 2, 1):
                for i in range(0, n, s):
                    yield dict(case, P=dict(P, parts=P["parts"][:i] + P["parts"][i + s:]))
        for k in ("flags", "opts"):
            for i in range(len(case[k])):
                if case[k][i] != "-ffp-contract=off":
                    yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        if case["driver"]:
            yield dict(case, driver=False)

    def evaluate(self, b, case, info):
        P = case["P"]
        with pr.Work() as w:
            name = "prog.cpp" if P["lang"] == "c++" else "prog.c"
            src = rg.source(P)
            w.write(name, src)
            libs = ["-lm", "-lpthread"]
            nr = pr.native(b, w, case["opts"] + ["-w", name, "-o", "native"] + libs, P["lang"])
            if nr.rc:
                if STRICT:
                    raise RuntimeError("generated program does not compile: " + nr.err[:1500])
                info["skip"] = True
                return None
            want = pr.run(b, w, w.p("native"), env={"LD_LIBRARY_PATH": ""})
            if want.timeout or want.rc != 3:
                if STRICT:
                    raise RuntimeError("generated program ends with %s natively: %s" % (want.rc, src[-3000:]))
                info["skip"] = True
                return None
            cc = pr.vfc if case["driver"] else pr.fast
            rc = cc(b, w, case["opts"] + ["-w"] + case["flags"] + [name, "-o", "prog"] + libs, P["lang"])
            if rc.rc:
                return "compilation with %s fails: %s" % (case["opts"] + case["flags"], (rc.out + rc.err)[-900:])
            wl = want.out.split("\n")
            for be in case["backends"]:
                got = pr.run(b, w, w.p("prog"), be)
                if got.timeout:
                    return "the instrumented program (%s, %s) does not end" % (case["opts"] + case["flags"], be)
                if got.rc != want.rc:
                    return "the instrumented program (%s, %s) ends with status %s instead of %s: %s" % (
                        case["opts"] + case["flags"], be, got.rc, want.rc, got.err[-300:])
                if got.out != want.out:
                    gl = got.out.split("\n")
                    for x, y in zip(gl + ["(nothing)"] * len(wl), wl + ["(nothing)"]):
                        if x != y:
                            return "the instrumented program (%s, %s) prints '%s' instead of '%s'" % (case["opts"] + case["flags"], be, x, y)
                info["evals"] = info.get("evals", 0) + len(wl) - 1
            info["nt"] = [h64(x) for x in set(wl) if x]
            info["sample"] = {"features": [n for n, _, _ in P["parts"]], "opts": case["opts"] + case["flags"], "backends": case["backends"],
                              "lines": wl[:3]}
        return None
