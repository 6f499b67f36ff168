"""C17: VPREC gives each call site the formats of its profile."""
import copy
import os
import random

import funcgen as fg
import progrun as pr
from fp import F32, F64, is_nan
from vcommon import Check, Stats, HANG, h64

TNUM = {"f": "0", "d": "1", "pf": "3", "pd": "4"}


class CHECK(Check):
    id = "C17"
    rule = ("generated programs (user functions with scalar, integer and array arguments, recursion, loops, indirect calls, library functions and "
            "intrinsics, functions without floating-point) compiled with --inst-func; a first run writes the profile, which is compared with the calls "
            "of a reference interpreter; then generated formats are written in the profile and the program runs under generated rounding and "
            "instrumentation modes. Oracle: the interpreter, with the exact model of the VPREC formats. An evaluation is one printed value or profile "
            "line; non-trivial = value of a run where some profile format changes a value")
    assumptions = ["programs compiled at -O0 (inlining removes call sites)", "sign of zero on underflow and the tie at half of the smallest simulated "
                   "sub-normal are left open: runs that meet them are dropped"]
    shrink_budget = 90.0

    def setup(self, b, tier):
        b.toolchain()
        pr.wrapper(b, ["--inst-func"])

    def plan(self, tier, seed):
        n = 720 if tier == "quick" else 6000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    def gen(self, r):
        prog = fg.gen(r)
        runs = []
        for _ in range(10):
            k = r.random()
            runs.append({"mode": r.choice(["ib", "ob", "full", "ob", "full", "ieee"]), "inst": r.choice(["arguments", "operations", "all", "all", "none", None]),
                         "ops": [r.randint(1, 52), r.randint(6, 11), r.randint(1, 23), r.randint(6, 8)] if k < 0.5 else list(fg.NATIVE),
                         "flush": r.choice(["", "", "", "--daz", "--ftz"]), "salt": r.getrandbits(40), "dens": r.choice([0.1, 0.5, 1.0]),
                         "log": r.random() < 0.35, "out": r.random() < 0.4, "drop": r.choice([0, 0, 0.3])})
        return {"prog": prog, "runs": runs, "driver": r.random() < 0.05}

    def run_job(self, b, job):
        st = Stats()
        case = self.gen(random.Random(job["seed"]))
        info = {"evals": 0, "nt": [], "cls": {}}
        msg = self.evaluate(b, case, info)
        st.evals = max(1, info["evals"])
        st.nt += info["nt"]
        for c, n in info["cls"].items():
            for _ in range(n):
                st.cls(c)
        if job["i"] % 20 == 0:
            st.samples.append({"functions": [[f["name"], f["params"], f["ret"]] for f in case["prog"]["funcs"]], "runs": case["runs"][:2]})
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(b, case, {"evals": 0, "nt": [], "cls": {}})

    def reductions(self, case):
        if len(case["runs"]) > 1:
            for x in case["runs"]:
                yield dict(case, runs=[x])
        if case["runs"]:
            yield dict(case, runs=[])
        for i, x in enumerate(case["runs"]):
            for k, v in (("log", False), ("out", False), ("flush", ""), ("drop", 0), ("ops", list(fg.NATIVE))):
                if x[k] != v:
                    yield dict(case, runs=case["runs"][:i] + [dict(x, **{k: v})] + case["runs"][i + 1:])

        def bodies(b):
            for i in range(len(b)):
                yield b[:i] + b[i + 1:]
                if b[i][0] == "loop":
                    yield b[:i] + b[i][2] + b[i + 1:]
                    for x in bodies(b[i][2]):
                        yield b[:i] + [["loop", b[i][1], x]] + b[i + 1:]
                if b[i][0] == "line":
                    yield b[:i] + b[i][1] + b[i + 1:]
        fs = case["prog"]["funcs"]
        for i, f in enumerate(fs):
            if len(f["body"]) > 3:
                for h in (f["body"][:len(f["body"]) // 2], f["body"][len(f["body"]) // 2:]):
                    yield dict(case, prog=dict(case["prog"], funcs=fs[:i] + [dict(f, body=h)] + fs[i + 1:]))
            for nb in bodies(f["body"]):
                yield dict(case, prog=dict(case["prog"], funcs=fs[:i] + [dict(f, body=nb)] + fs[i + 1:]))
            if f["rec"]:
                yield dict(case, prog=dict(case["prog"], funcs=fs[:i] + [dict(f, rec=False)] + fs[i + 1:]))

    # ------------------------------------------------------------------
    def evaluate(self, b, case, info):
        # statements are identified by their address: no sharing
        case = copy.deepcopy(case)
        prog = case["prog"]
        text, sites, order, flines = fg.emit(prog)
        try:
            ref = fg.Interp(prog, sites, order)
            want = ref.run()
        except (fg.Ambiguous, fg.TooLong):
            info["cls"]["dropped"] = 1
            return None
        with pr.Work() as w:
            w.write("prog.c", text)
            comp = pr.vfc if case["driver"] else pr.fast
            r = comp(b, w, ["prog.c", "-O0", "-o", "prog", "--inst-func", "-ffp-contract=off", "-lm"])
            if r.rc:
                return "compilation fails: %s" % r.err[-1500:]
            e = self.execute(b, w, "libinterflop_vprec.so --prec-output-file=%s" % w.p("prof"), want, info, "profiling run", False)
            if e:
                return e
            lines = open(w.p("prof")).read().split("\n")
            prof, e = self.parse(lines)
            if e:
                return e
            keys, e = self.match(prof, order, flines, ref, info)
            if e:
                return e
            for x in case["runs"]:
                e = self.custom(b, w, prog, sites, order, prof, keys, x, info)
                if e:
                    return e
        return None

    def execute(self, b, w, backends, want, info, what, nt):
        r = pr.run(b, w, w.p("prog"), backends)
        if r.timeout:
            return HANG
        if r.rc:
            return "%s: status %s under %s: %s" % (what, r.rc, backends, r.err[-800:])
        got = r.out.split()
        if len(got) != len(want):
            return "%s: %d values printed instead of %d" % (what, len(got), len(want))
        for i, (g, (t, x)) in enumerate(zip(got, want)):
            g = int(g, 16)
            f = F64 if t == "d" else F32
            info["evals"] += 1
            if nt:
                info["nt"].append(h64((backends.split("--prec")[0], i, g, x)))
            if g != x and not (x == "nan" and is_nan(f, g)):
                return "%s: value %d is %s%x instead of %s under %s" % (what, i, t, g, x if x == "nan" else "%x" % x, backends)
        return None

    @staticmethod
    def parse(lines):
        out, i = [], 0
        if lines[-1] != "":
            return None, "the profile does not end with a newline"
        lines = lines[:-1]
        while i < len(lines):
            h = lines[i].split("\t")
            i += 1
            if len(h) != 12:
                return None, "malformed profile line %r" % lines[i - 1]
            args = []
            for k in range(int(h[9]) + int(h[10])):
                a = lines[i].split("\t") if i < len(lines) else []
                i += 1
                if len(a) != 7 or a[0] != ("input:" if k < int(h[9]) else "output:"):
                    return None, "malformed profile line %r of %s" % (a, h[0])
                args.append(a)
            out.append((h, args))
        return out, None

    def match(self, prof, order, flines, ref, info):
        """associates the entries of the profile with the executed call sites"""
        groups, keys = {}, {}
        for h, a in prof:
            p = h[0].split("/")
            if len(p) != 5 or p[0] != "prog.c":
                return None, "call site identifier %s" % h[0]
            groups.setdefault((p[1], p[2], int(p[3])), []).append((int(p[4]), h, a))
        ids = [x[0] for v in groups.values() for x in v]
        if len(set(ids)) != len(ids):
            return None, "call sites share an identifier: %s" % sorted(ids)
        want = {}
        for k in ref.map:
            s = ("", "main", flines["main"]) if k == "main" else order[k][:3]
            want.setdefault(s, []).append(k)
        if set(want) != set(groups) or any(len(want[s]) != len(groups[s]) for s in want):
            return None, "call sites of the profile %s, executed %s" % (sorted((s, len(v)) for s, v in groups.items()), sorted((s, len(v)) for s, v in want.items()))
        for s, v in groups.items():
            for (_, h, a), k in zip(sorted(v, key=lambda x: x[0]), sorted(want[s], key=lambda k: -1 if k == "main" else k)):
                keys[h[0]] = k
                e = self.entry(h, a, ref.map[k], order[k] if k != "main" else ("", "main", 0, 0, 0), ref, info, fg.NATIVE)
                if e:
                    return None, e
        return keys, None

    def entry(self, h, a, s, site, ref, info, fmt, ncalls=True):
        info["evals"] += 1 + len(a)
        if [int(h[1]), int(h[2])] != [site[3], site[4]]:
            return "%s: library and intrinsic flags are %s" % (h[0], h[1:3])
        lib = site[3] or site[4]
        if lib:
            t = [v[3] for v in fg.LIB.values() if v[0] == site[1]][0]
            use = [int(t == "f"), int(t == "d")]
        else:
            use = [int(x) for x in ref.usage[site[1]]]
        if [int(h[3]), int(h[4])] != use:
            return "%s: float and double usage is %s instead of %s" % (h[0], h[3:5], use)
        if [int(x) for x in h[5:9]] != list(fmt):
            return "%s: formats of the operations are %s instead of %s" % (h[0], h[5:9], list(fmt))
        if ncalls and int(h[11]) != s.calls:
            return "%s: %s calls instead of %d" % (h[0], h[11], s.calls)
        want = [("input:", x) for x in s.inp or []] + [("output:", x) for x in s.out or []]
        if len(want) != len(a):
            return "%s: %d arguments instead of %d" % (h[0], len(a), len(want))
        for g, (side, x) in zip(a, want):
            if g[0] != side or g[1] != x[0] or g[2] != TNUM[x[1]] or int(g[3]) != x[2] or int(g[4]) != x[3]:
                return "%s: argument %s instead of %s %s" % (h[0], g, side, x)
            if x[4] is not None and (int(g[5]) != x[4] or int(g[6]) != x[5]):
                return "%s: range of the argument %s is [%s, %s] instead of [%s, %s]" % (h[0], g[1], g[5], g[6], x[4], x[5])
        return None

    def custom(self, b, w, prog, sites, order, prof, keys, x, info):
        r = random.Random(x["salt"])

        def rng64():
            return r.randint(1, 52), r.choice([11, 11, r.randint(5, 11)])

        def rng32():
            return r.randint(1, 23), r.choice([8, 8, r.randint(5, 8)])
        out, pd = [], {}
        for h, a in prof:
            h, a = list(h), [list(y) for y in a]
            if r.random() < x["drop"]:
                continue
            if r.random() < x["dens"]:
                h[5:7] = [str(v) for v in rng64()]
                h[7:9] = [str(v) for v in rng32()]
            for y in a:
                if r.random() < x["dens"]:
                    y[3:5] = [str(v) for v in (rng64() if y[2] in "14" else rng32())]
            out.append((h, a))
            conv = {v: k for k, v in TNUM.items()}
            rec = [[y[1], conv[y[2]], int(y[3]), int(y[4])] + self.bounds(y[5], y[6]) for y in a]
            n = int(h[9])
            pd[keys[h[0]]] = (tuple(int(v) for v in h[5:9]), rec[:n], rec[n:], int(h[11]))
        r.shuffle(out)
        w.write("in", "".join("\t".join(h) + "\n" + "".join("\t".join(y) + "\n" for y in a) for h, a in out))
        inst = x["inst"] or "none"
        try:
            it = fg.Interp(prog, sites, order, x["mode"], inst, x["ops"], pd, x["flush"] == "--daz", x["flush"] == "--ftz")
            want = it.run()
        except (fg.Ambiguous, fg.TooLong):
            info["cls"]["run dropped (open cases)"] = info["cls"].get("run dropped (open cases)", 0) + 1
            return None
        be = "libinterflop_vprec.so --mode=%s --precision-binary64=%d --range-binary64=%d --precision-binary32=%d --range-binary32=%d %s" % (
            (x["mode"],) + tuple(x["ops"]) + (x["flush"],))
        if x["inst"]:
            be += " --instrument=" + x["inst"]
        be += " --prec-input-file=" + w.p("in")
        if x["out"]:
            be += " --prec-output-file=" + w.p("out")
        if x["log"]:
            be += " --prec-log-file=" + w.p("log")
        c = "%s/%s" % (x["mode"], inst)
        info["cls"][c] = info["cls"].get(c, 0) + 1
        e = self.execute(b, w, be, want, info, "run with formats", it.effects > 0 or inst in ("operations", "all"))
        if not e and x["log"]:
            e = self.logfile(open(w.p("log")).read(), it, {k: i for i, k in keys.items()})
            info["cls"]["log file"] = info["cls"].get("log file", 0) + 1
        if e or not x["out"]:
            return e
        prof2, e = self.parse(open(w.p("out")).read().split("\n"))
        if e:
            return e
        if {h[0] for h, _ in prof2} != {h[0] for h, _ in prof} | {h[0] for h, _ in out}:
            return "call sites of the rewritten profile: %s" % sorted(h[0] for h, _ in prof2)
        for h, a in prof2:
            k = keys[h[0]]
            if k in it.map:
                s = it.map[k]
                e = self.entry(h, a, s, order[k] if k != "main" else ("", "main", 0, 0, 0), it, info, s.fmt)
                if e:
                    return "rewritten profile: " + e
        return None

    @staticmethod
    def logfile(text, it, ids):
        """the log file: the calls in order, with their formats and their arguments before and after rounding"""
        got = [x.split() for x in text.replace("(", " ").replace(")", " ").replace(",", " ").split("\n") if x.strip()]
        name = {"d": "double", "f": "float", "pd": "double_ptr", "pf": "float_ptr"}

        def same(txt, t, u):
            try:
                v = float.fromhex(txt)
            except ValueError:
                return False
            return v != v if u == "nan" else v == v and fg.f2b(v, fg.FM[t[-1]]) == u
        for k, v in enumerate(it.events):
            if k >= len(got):
                return "log file: %d lines instead of %d" % (len(got), len(it.events))
            g, n = got[k], ids[v[1]]
            if v[0] in ("enter", "exit"):
                ok = g == [v[0], "in" if v[0] == "enter" else "of", n] + [str(y) for y in v[2]]
            else:
                head = ["-", "input" if v[0] == "in" else "output", n + ("" if v[2] is None else "[%d]" % v[2]), name[v[3]], v[4]]
                ok = (len(g) == 10 and g[:5] == head and g[6] == "->" and same(g[5], v[3], v[5]) and same(g[7], v[3], v[6])
                      and g[8:] == [str(v[7]), str(v[8])])
            if not ok:
                return "log file: line %d is %r for the event %s of %s" % (k, " ".join(g), (v[0],) + tuple(v[2:]), n)
        if len(got) != len(it.events):
            return "log file: %d lines instead of %d" % (len(got), len(it.events))
        return None

    @staticmethod
    def bounds(lo, hi):
        """a range without any value is written as [INT_MAX, INT_MIN]"""
        lo, hi = int(lo), int(hi)
        return [None, None] if lo > hi else [lo, hi]
