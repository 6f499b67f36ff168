import json
import random
from collections import Counter

from vcommon import Check, Stats, h64
import proggen as pg
import progrun as pr
from fp import F32, F64, is_nan, show


def canon(t, u):
    f = F64 if t == "d" else F32
    return "nan" if u == "nan" or is_nan(f, u) else u


def log_ops(path):
    out = []
    for k, ty, pred, tag, aux, a, b, c in pr.read_log(path):
        if k > 6:
            continue
        t = "d" if ty else "f"
        kind = pr.KIND[k]
        if kind == "cmp":
            out.append((kind, t, pred, canon(t, a), canon(t, b)))
        elif kind == "cast":
            out.append((kind, t, canon(t, a)))
        elif kind == "fma":
            out.append((kind, t, canon(t, a), canon(t, b), canon(t, c)))
        else:
            out.append((kind, t, canon(t, a), canon(t, b)))
    return out


def show_op(o):
    f = F64 if o[1] == "d" else F32
    a = o[3:] if o[0] == "cmp" else o[2:]
    return "%s(%s)%s %s" % (o[0], f.name, " predicate %d" % o[2] if o[0] == "cmp" else "",
                            ", ".join("nan" if x == "nan" else show(f, x) for x in a))


class ProgCheck(Check):
    """cases: {"P": program, "opt": .., "flags": [..], "sel": None or selection, "runs": [..]}"""
    shrink_budget = 90.0

    def setup(self, b, tier):
        b.toolchain()
        b.logbackend()

    def plan(self, tier, seed):
        n = self.njobs(tier)
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    def gen_case(self, r, i):
        raise NotImplementedError

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        case = self.gen_case(r, job["i"])
        info = {}
        msg = self.evaluate(b, case, info)
        st.evals = info.get("evals", 1)
        st.nt += info.get("nt", [])
        st.cls(info.get("cls", "all"), 1)
        if info.get("sample"):
            st.samples.append(info["sample"])
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(b, case, {})

    def reductions(self, case):
        P = case["P"]
        if len(case["runs"]) > 1:
            for x in case["runs"]:
                yield dict(case, runs=[x])
        if len(P["calls"]) > 1:
            h = len(P["calls"]) // 2
            yield dict(case, P=prune(dict(P, calls=P["calls"][:h])))
            yield dict(case, P=prune(dict(P, calls=P["calls"][h:])))
        for i, f in enumerate(P["funcs"]):
            for j in range(len(f["body"])):
                f2 = drop(f, j)
                if f2:
                    yield dict(case, P=dict(P, funcs=P["funcs"][:i] + [f2] + P["funcs"][i + 1:]))
            e = f["result"]
            for sub in children(e):
                if ty(sub) == f["ret"]:
                    f2 = dict(f, result=sub)
                    yield dict(case, P=prune(dict(P, funcs=P["funcs"][:i] + [f2] + P["funcs"][i + 1:])))
            for j, s in enumerate(f["body"]):
                if s[0] in ("let", "set"):
                    for sub in children(s[3]):
                        if ty(sub) == s[2]:
                            f2 = dict(f, body=f["body"][:j] + [s[:3] + [sub] + s[4:]] + f["body"][j + 1:])
                            yield dict(case, P=prune(dict(P, funcs=P["funcs"][:i] + [f2] + P["funcs"][i + 1:])))
            arrs = {a: t for a, t in f["arrs"].items() if '"%s"' % a in json.dumps([f["body"], f["result"]])}
            if arrs != f["arrs"]:
                yield dict(case, P=dict(P, funcs=P["funcs"][:i] + [dict(f, arrs=arrs)] + P["funcs"][i + 1:]))


def ty(e):
    return {"var": lambda: e[2], "const": lambda: e[2], "arr": lambda: e[4], "bin": lambda: e[2], "neg": lambda: e[1],
            "fma": lambda: e[1], "cast": lambda: "f", "ext": lambda: "d", "sel": lambda: ty(e[5]),
            "call": lambda: e[3]}[e[0]]()


def children(e):
    k = e[0]
    if k == "bin":
        return [x for x in e[3:5] if x[0] != "const"]
    if k == "neg":
        return [e[2]]
    if k == "fma":
        return [x for x in e[2:5] if x[0] != "const"]
    if k in ("cast", "ext"):
        return [y for y in children(e[1])] + [[k, y] for y in children(e[1]) if ty(y) == ty(e[1])]
    if k == "sel":
        return [e[5], e[6]]
    return []


def drop(f, j):
    """f without statement j, if the variables it defines are not used"""
    s = f["body"][j]
    rest = f["body"][:j] + f["body"][j + 1:]
    if s[0] == "let" and '"%s"' % s[1] in json.dumps([rest, f["result"]]):
        return None
    return dict(f, body=rest)


def prune(P):
    """removes functions that are never called"""
    need = {c[0] for c in P["calls"]}
    by = {f["name"]: f for f in P["funcs"]}
    todo = list(need)
    while todo:
        s = json.dumps([by[todo[0]]["body"], by[todo[0]]["result"]])
        todo.pop(0)
        for n in by:
            if n not in need and '"%s"' % n in s:
                need.add(n)
                todo.append(n)
    return dict(P, funcs=[f for f in P["funcs"] if f["name"] in need])


# ------------------------------------------------------------------ selections
def glob_match(pat, s):
    """* matches any sequence; everything else literally"""
    parts = pat.split("*")
    if len(parts) == 1:
        return s == pat
    if not s.startswith(parts[0]) or not s.endswith(parts[-1]):
        return False
    pos = len(parts[0])
    end = len(s) - len(parts[-1])
    for p in parts[1:-1]:
        k = s.find(p, pos, end)
        if k < 0:
            return False
        pos = k + len(p)
    return pos <= end


def listed(lines, path, fun):
    for mod, pat in lines:
        m = mod
        if not m.startswith("/"):
            m = "*/" + m
        if "." not in m.rsplit("/", 1)[-1]:
            m += ".*"
        if glob_match(m, path) and glob_match(pat, fun):
            return True
    return False


def selected(sel, path, fun):
    """is this function instrumented under the selection?"""
    if sel is None:
        return True
    if sel["kind"] == "function":
        return fun == sel["name"]
    inc, exc = sel.get("include"), sel.get("exclude")
    if inc is not None and listed(inc, path, fun):
        return True
    if exc is not None and listed(exc, path, fun):
        return False
    return not (inc is not None and exc is None)


def list_text(lines, d, fmt):
    """the selection file, with comments, blank lines and spaces chosen by fmt"""
    r = random.Random("fmt%s" % fmt)
    o = ["# generated\n"]
    for m, f in lines:
        if fmt:
            o.append(r.choice(["", "", "\n", "   \n", "\t\n", "# mod0 f\n", "#mod0 *\n"]))
        sep = r.choice([" ", " ", "   "]) if fmt else " "
        o.append(m.replace("ABS", d) + sep + f + (r.choice(["", "", " ", "  "]) if fmt else "") + "\n")
    t = "".join(o)
    return t[:-1] if fmt % 5 == 1 else t


def gen_lines(r, P, dirs):
    lines = []
    ext = "cpp" if P["lang"] == "c++" else "c"
    names = [f["name"] for f in P["funcs"]]
    for _ in range(r.randint(1, 5)):
        m = r.randrange(P["nmod"])
        base = "mod%d" % m
        d = dirs[m]
        mod = r.choice(["*", base, base + "." + ext, "mod*", "*%d" % m, "*%d.%s" % (m, ext), "mod%d.cc" % m, "od%d" % m,
                        base + ".", base + "." + ext[:-1] + "*", base + ".c" if ext == "cpp" else base + ".", "*.%s" % ext,
                        (d + "/" if d else "") + base, (d + "/" if d else "") + "*", "ABS/" + (d + "/" if d else "") + base,
                        "ABS/*", "nowhere"])
        k = r.choice(names)
        fun = r.choice(["*", k, k, k, k[:-1] + "*", "*" + k[-1], k[:1] + "*" + k[-1], k[:-1], k + "x", "main", "f*"])
        lines.append([mod, fun])
    return lines


class CHECK(ProgCheck):
    id = "C04"
    rule = ("generated C and C++ programs (1-3 modules, scalar and vector code, loops, branches, calls, conversions, fma) compiled "
            "by the driver at -O0 to -O3 with generated instrumentation flags and function selections; at -O0 the operations "
            "received by a recording back-end are compared with those the program executes (multiset, with operands), and at every "
            "level the output under VPREC with generated formats is compared with an interpreter that rounds every instrumented "
            "operation; an evaluation is one executed operation; non-trivial = operation that reached the back-end; "
            "distinct by kind, type and operands")
    assumptions = ["fused multiply-adds and conversions inside code that the compiler vectorises are not claimed",
                   "x86-64 target, clang 18, no value-changing compiler flags"]

    def njobs(self, tier):
        return 400 if tier == "quick" else 12000

    def gen_case(self, r, i):
        opt = r.choice(["-O0", "-O0", "-O1", "-O2", "-O3", "-O3"])
        lang = "c++" if i % 4 == 3 else "c"
        sel = None
        nmod = 1
        if i % 2 == 0:
            lang = "c"
            nmod = r.randint(1, 3)
        fma = opt in ("-O0", "-O1")
        P = pg.generate(r, opt, r.randint(2, 5), nmod, lang, fma)
        dirs = [r.choice(["", "", "dir", "a/b"]) for _ in range(nmod)]
        if i % 2 == 0:
            if r.random() < 0.6:
                # names that contain the name of another function
                base = "fn%d" % r.randrange(len(P["funcs"]))
                txt = json.dumps(P)
                for k, f in enumerate(P["funcs"]):
                    if f["name"] != base and r.random() < 0.8:
                        txt = txt.replace('"%s"' % f["name"], '"%s"' % r.choice([base + "%d" % k, base + "_%d" % k, "a%d" % k + base, base + "x%d" % k]))
                P = json.loads(txt)
            for f in P["funcs"]:
                f["noinline"] = True
                if f["style"] == "ptr" and nmod > 1:
                    f["style"] = "plain"
            k = r.random()
            if k < 0.15:
                sel = {"kind": "function", "name": r.choice(P["funcs"])["name"]}
            elif k < 0.95:
                sel = {"kind": "files"}
                if k < 0.7:
                    sel["include"] = gen_lines(r, P, dirs)
                if k > 0.45:
                    sel["exclude"] = gen_lines(r, P, dirs)
        flags = [x for x in ("--inst-fma", "--inst-cast", "--inst-fcmp") if r.random() < 0.4]
        if opt != "-O0" and r.random() < 0.25:
            flags.append("-march=native")
        runs = []
        if opt == "-O0":
            runs.append("log")
        for _ in range(2):
            runs.append({"mode": r.choice(["ob", "ob", "full", "ib"]), "pd": r.choice([r.randint(4, 30), r.randint(2, 51)]),
                         "pf": r.choice([r.randint(4, 15), r.randint(2, 22)]), "rd": 11, "rf": 8})
        return {"P": P, "opt": opt, "flags": flags, "sel": sel, "dirs": dirs, "runs": runs,
                "fmt": r.randint(0, 30), "sep": r.random() < 0.3, "driver": r.random() < 0.12}

    def evaluate(self, b, case, info):
        P, sel, flags = case["P"], case["sel"], case["flags"]
        with pr.Work() as w:
            src = pg.sources(P)
            ext = "cpp" if P["lang"] == "c++" else "c"
            files = []
            for m in range(P["nmod"]):
                d = case["dirs"][m]
                p = (d + "/" if d else "") + "mod%d.%s" % (m, ext)
                w.write(p, src["mod%d.%s" % (m, ext)])
                files.append(p)
            args = [case["opt"], "-ffp-contract=off"] + flags
            if sel and sel["kind"] == "function":
                args.append("--function=" + sel["name"])
            elif sel:
                for k in ("include", "exclude"):
                    if k in sel:
                        sel[k] = [[m2.replace("ABS", w.d), f] for m2, f in sel[k]] if False else sel[k]
                        w.write(k + ".txt", list_text(sel[k], w.d, case.get("fmt", 0)))
                        args.append("--%s-file=%s.txt" % (k, k))
            cc = pr.vfc if case.get("driver") else pr.fast
            need = [] if "fma" not in json.dumps(P["funcs"]) else ["-lm"]
            if case["sep"]:
                objs = []
                for f in files:
                    o = f.rsplit(".", 1)[0] + ".o"
                    rc = cc(b, w, args + ["-c", f, "-o", o], P["lang"])
                    if rc.rc:
                        return "compilation failed: %s" % rc.err[-600:]
                    objs.append(o)
                rc = cc(b, w, args + objs + ["-o", "prog"] + need, P["lang"])
            else:
                rc = cc(b, w, args + files + ["-o", "prog"] + need, P["lang"])
            if rc.rc:
                if not self.native_ok(b, w, case, files, need):
                    return None
                return "compilation failed: %s" % rc.err[-600:]
            inst = None
            if sel:
                inst = set()
                rs = {k: [[m2.replace("ABS", w.d), f] for m2, f in sel[k]] for k in ("include", "exclude") if k in sel}
                s2 = dict(sel, **rs)
                for f in P["funcs"]:
                    if selected(s2, w.p(files[f["mod"]]), f["name"]):
                        inst.add(f["name"])
            kw = dict(fma="--inst-fma" in flags, cast_="--inst-cast" in flags, cmp="--inst-fcmp" in flags, inst=inst)
            info["cls"] = "%s %s %s" % (case["opt"], P["lang"], "selection" if sel else "all")
            nev, nt = 0, set()
            for k in case["runs"]:
                it = pg.Interp(P, vprec=None if k == "log" else k, **kw)
                try:
                    want = it.run()
                except pg.Unclear:
                    continue
                if k == "log":
                    log = w.p("log")
                    res = pr.run(b, w, w.p("prog"), "libinterflop_vlog.so", env={"VLOG": log})
                else:
                    be = "libinterflop_vprec.so --mode=%s --precision-binary32=%d --precision-binary64=%d" % (k["mode"], k["pf"], k["pd"])
                    if kw["cmp"]:
                        be += ";libinterflop_vlog.so --skip=" + ",".join(
                            "%s_%s" % (o, t) for o in ("add", "sub", "mul", "div", "fma") for t in ("float", "double")) + ",cast_double_to_float"
                    res = pr.run(b, w, w.p("prog"), be)
                if res.timeout or res.rc != 0:
                    return "the program ended with status %s under %r: %s" % (res.rc, k, res.err[-300:])
                got = pr.patterns(res.out)
                bad = pg.out_match(got, want, it.fm)
                nev += it.n
                nt.update(h64(x) for x in it.trace[:3000])
                if k == "log":
                    c1, c2 = Counter(log_ops(log)), Counter(it.trace)
                    if c1 != c2:
                        more, less = c1 - c2, c2 - c1
                        if self.native_agrees(b, w, case, files, need):
                            return "the program executes %d instrumentable operations, the back-end received %d; missing: %s; unexpected: %s" % (
                                sum(c2.values()), sum(c1.values()), [show_op(x) for x in list(less)[:3]], [show_op(x) for x in list(more)[:3]])
                if bad is not None and self.native_agrees(b, w, case, files, need):
                    f = F64 if bad < len(it.fm) and it.fm[bad] == "d" else F32
                    return "output %d of %d is %s under %r, the program with %s rounded operations prints %s (flags %s)" % (
                        bad, len(want), show(f, got[bad]) if bad < len(got) else "missing", k,
                        "all" if inst is None else "the selected (%s)" % ",".join(sorted(inst)),
                        ("nan" if want[bad] == "nan" else show(f, want[bad])) if bad < len(want) else "nothing",
                        [case["opt"]] + flags)
            info["evals"] = nev
            info["nt"] = list(nt)
            info["sample"] = {"opt": case["opt"], "flags": flags, "selection": sel, "first_lines": src["mod0." + ext].split("\n")[-40:-30]}
        return None

    def native_ok(self, b, w, case, files, need):
        r = pr.native(b, w, [case["opt"], "-ffp-contract=off", "-w"] + files + ["-o", "native"] + need +
                      [x for x in case["flags"] if x.startswith("-m")], case["P"]["lang"])
        return r.rc == 0

    def native_agrees(self, b, w, case, files, need):
        """guards against an error of the interpreter"""
        if not self.native_ok(b, w, case, files, need):
            return False
        it = pg.Interp(case["P"])
        want = it.run()
        r = pr.run(b, w, w.p("native"))
        return r.rc == 0 and pg.out_match(pr.patterns(r.out), want, it.fm) is None
