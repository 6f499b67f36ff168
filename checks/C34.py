"""C34: verificarlo takes the place of the compiler in a build: same files, same status, same program."""
import os
import random
import shutil
import subprocess

import progrun as pr
import vbuild
from vcommon import Check, Stats, h64

NAMES = ["u%d", "u%d", "mod%d", "a b%d", "it's%d", "d$HOME%d", "x&y;%d", "w(%d)", "p.q%d", "é%d", "st*r%d", "U-%d_", "c.%d.c"]
DIRS = ["", "", "", "src/", "lib dir/", "deep/er/", "a'b/", "x.c/"]
CXXEXT = [".cpp", ".cc", ".cxx", ".c++", ".cpp"]
STR = ["plain", "two words", "it's", "$HOME", "`id`", "a;b|c&d", "x.c", "(y)", "back\\\\slash", "*", "~", "#h", "<in>", "--o=1", "é", "a=b", "%s", "!"]
ERRORS = ["missing", "syntax", "undefined", "header", "multi-o", "none", "nodir"]


class CHECK(Check):
    id = "C34"
    rule = ("generated projects (1-4 units in C, C++, assembly, LLVM IR or bitcode, with unusual file and directory names, macros and headers) and builds (one command; -c then link; archives; shared "
            "libraries; -E, -S, -M, -MM, -fsyntax-only; dependency files; builds that must fail), run once with clang and once with the verificarlo wrappers in the same directory: after each command the "
            "statuses, the files and the text outputs are compared, then the output of the programs, and the operations received by a recording back-end. An evaluation is one command or run; "
            "non-trivial = a build of several units or with unusual names or options")
    assumptions = ["the sources of a project have distinct stems", "the object files that a one-command build leaves next to the sources are accepted", "Linux, no Fortran"]
    shrink_budget = 60

    def setup(self, b, tier):
        b.toolchain()
        b.logbackend()

    def plan(self, tier, seed):
        n = 160 if tier == "quick" else 2000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i), "n": 1} for i in range(n)]

    # ------------------------------------------------------------------ generation
    def gen(self, r):
        lang = r.choice(["c", "c", "c++"])
        odd = r.random() < 0.6
        units = []
        for i in range(r.choice([1, 2, 2, 3, 4])):
            k = r.choice([".c", ".c", ".c", ".s", ".ll", ".bc"]) if lang == "c" else r.choice(CXXEXT + [".c", ".ll", ".s"])
            if i == 0:
                k = ".c" if lang == "c" else r.choice(CXXEXT)
            units.append({"ext": k, "name": (r.choice(NAMES) if odd else "u%d") % i, "dir": r.choice(DIRS) if odd else r.choice(["", "", "src/"]), "k": [r.randint(1, 99), r.randint(1, 99)],
                          "f32": r.random() < 0.3})
        opts = [r.choice(["-O0", "-O1", "-O2", "-O3"])]
        opts += r.sample(["-g", "-Wall", "-fno-strict-aliasing", "-pthread", "-DNDEBUG", "-UNDEBUG", "-fPIC", "-funroll-loops", "-w", "-Wextra", "-march=x86-64-v2"], r.choice([0, 1, 2, 3]))
        mode = r.choice(["one", "one", "separate", "separate", "multi", "archive", "shared", "text", "error", "emit"])
        c = {"lang": lang, "units": units, "opts": opts, "mode": mode, "s": r.choice(STR) if r.random() < 0.7 else "plain", "incdir": r.choice(["inc", "in c", "i'c", "inc.c", "$i"]) if odd else "inc",
             "inc": r.choice(["join", "split", "isystem", "include"]), "out": r.choice(["prog", "prog", None, "bin/prog", "my prog", "p'r", "prog.c.exe", "é"]), "ojoin": r.random() < 0.2,
             "obj": r.choice(["default", "named", "dir"]), "dep": r.choice([None, None, "-MD", "-MMD", "-MD -MP", "-MMD -MF", "-MD -MT", "-MMD -MF -MT"]), "text": r.choice(["-E", "-E -o", "-S", "-S -o", "-M", "-MM", "-fsyntax-only", "-fsyntax-only -c", "-E -P"]),
             "error": r.choice(ERRORS), "abs": r.random() < 0.2, "first": r.random() < 0.5, "lm": r.choice([None, "-lm", "-l m"]), "vfc": r.sample(["--inst-fma", "--inst-cast", "--inst-fcmp"], r.choice([0, 0, 0, 1, 2])),
             "direct": r.random() < 0.3}
        if mode not in ("emit", "shared") and r.random() < 0.25:
            c["vfc"].append(r.choice(["--ddebug", "--inst-func", "--verbose"]))
        return c

    # ------------------------------------------------------------------ projects
    @staticmethod
    def src(u):
        return u["dir"] + u["name"] + u["ext"]

    def unit_text(self, case, i):
        u = case["units"][i]
        ty = "float" if u["f32"] else "double"
        ext = "EXTERN "
        o = ['#include "const.h"\n#ifdef __cplusplus\n#define EXTERN extern "C"\n#else\n#define EXTERN\n#endif\n']
        o.append("%s%s f%d(%s x) { %s t = x * (%s)%d.25; t = t + (%s)%d.5; return t * (%s)HK; }\n" % (ext, ty, i, ty, ty, ty, u["k"][0], ty, u["k"][1], ty))
        if i == 0:
            o.insert(1, "#include <stdio.h>\n")
            for j, v in enumerate(case["units"][1:], 1):
                t = "float" if v["f32"] else "double"
                o.append("%s%s f%d(%s x);\n" % (ext, t, j, t))
            o.append("int main(int argc, char **argv) {\n  double s = 0.1 * argc;\n")
            for j in range(len(case["units"])):
                o.append("  s = s + f%d(s);\n" % j)
            if case["mode"] == "error" and case["error"] == "undefined":
                o.insert(2, "%svoid nowhere(void);\n" % ext)
                o.append("  nowhere();\n")
            o.append('  printf("%s|%a|%d\\n", HS, s, EXTRA);\n  fflush(stdout);\n  return 5;\n}\n')
        return "".join(o)

    def expected_ops(self, case):
        """operations executed by instrumented units: main has 1 + n (a product, n sums), each unit 3"""
        n = 1 + len(case["units"])
        return n + 3 * sum(1 for u in case["units"] if u["ext"] != ".s")

    def create(self, case, d):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, case["incdir"]))
        os.makedirs(os.path.join(d, "bin"))
        os.makedirs(os.path.join(d, "obj dir"))
        with open(os.path.join(d, case["incdir"], "const.h"), "w") as f:
            f.write("#define HK 1.5\n")
            f.write("#ifndef HS\n#define HS \"none\"\n#endif\n#ifndef EXTRA\n#define EXTRA 1\n#endif\n")
        with open(os.path.join(d, "pre.c"), "w") as f:
            f.write("#undef EXTRA\n#define EXTRA 42\n")
        env = self.b.env()
        for i, u in enumerate(case["units"]):
            p = os.path.join(d, self.src(u))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            t = self.unit_text(case, i)
            if u["ext"] in (".c",) + tuple(CXXEXT):
                if case["mode"] == "error" and i == len(case["units"]) - 1:
                    if case["error"] == "missing":
                        continue
                    if case["error"] == "syntax":
                        t += "int f( {\n"
                    if case["error"] == "header":
                        t = '#include "absent.h"\n' + t
                with open(p, "w") as f:
                    f.write(t)
            else:
                q = {".s": ["-S"], ".ll": ["-S", "-emit-llvm"], ".bc": ["-c", "-emit-llvm"]}[u["ext"]]
                x = subprocess.run([vbuild.CLANG, "-O1", "-fPIC", "-ffp-contract=off", "-x", "c", "-", "-I", os.path.join(d, case["incdir"]), "-o", p] + q, input=t.encode(), env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if x.returncode:
                    raise RuntimeError(x.stdout.decode())

    def commands(self, case):
        """[(kind, argv, outputs to compare as text)]; argv[0] is CC, or ar"""
        us = case["units"]
        cwd = "@CWD@/" if case["abs"] else ""
        srcs = [cwd + self.src(u) for u in us]
        pre = list(case["opts"]) + ['-DHS="%s"' % case["s"]]
        inc = case["incdir"]
        pre += {"join": ["-I" + inc], "split": ["-I", inc], "isystem": ["-isystem", inc], "include": ["-I", inc, "-include", "pre.c"]}[case["inc"]]
        lm = {None: [], "-lm": ["-lm"], "-l m": ["-l", "m"]}[case["lm"]]
        V = ["@V@" + x for x in case["vfc"]]

        def out(x):
            return [] if x is None else ["-o" + x] if case["ojoin"] else ["-o", x]

        def order(o, files, last=()):
            return (o + files if case["first"] else files + o) + list(last)
        cmds = []

        def compile_all(pic=False, dep=True):
            objs = []
            for i, (u, s) in enumerate(zip(us, srcs)):
                stem = os.path.basename(self.src(u))[:-len(u["ext"])]
                o, name = stem + ".o", None
                if case["obj"] == "named":
                    o = name = "bin/o%d.o" % i
                elif case["obj"] == "dir":
                    o = name = "obj dir/" + stem + ".o"
                ds = []
                # clang writes no dependencies for other units
                if dep and case["dep"] and u["ext"] in (".c",) + tuple(CXXEXT):
                    for x in case["dep"].split():
                        ds += {"-MF": ["-MF", "bin/dep%d.d" % i], "-MT": ["-MT", "target%d.o" % i]}.get(x, [x])
                cmds.append(("compile", ["CC"] + order(pre + V + ds + (["-fPIC"] if pic else []), ["-c", s], out(name))))
                objs.append(o)
            return objs
        m = case["mode"]
        if m == "one":
            cmds.append(("build", ["CC"] + order(pre + V, srcs, out(case["out"]) + lm)))
        elif m == "separate":
            objs = compile_all()
            cmds.append(("link", ["CC"] + order(V, objs, out(case["out"]) + lm)))
        elif m == "multi":
            cmds.append(("compile", ["CC"] + order(pre + V, srcs, ["-c"])))
            cmds.append(("link", ["CC"] + V + [os.path.basename(self.src(u))[:-len(u["ext"])] + ".o" for u in us] + out(case["out"]) + lm))
        elif m in ("archive", "shared"):
            objs = compile_all(pic=True, dep=False)
            if len(objs) > 1 and m == "archive":
                cmds.append(("ar", ["ar", "rcs", "obj dir/libpart.a"] + objs[1:]))
                cmds.append(("link", ["CC"] + V + order(["-Lobj dir", "-lpart"] if case["first"] else ["-L", "obj dir", "-l", "part"], objs[:1], out(case["out"]) + lm)))
            elif len(objs) > 1:
                cmds.append(("shared", ["CC", "-shared"] + V + objs[1:] + out("obj dir/libpart.so")))
                cmds.append(("link", ["CC"] + V + objs[:1] + ["-L", "obj dir", "-lpart", "-Wl,-rpath,@CWD@/obj dir"] + out(case["out"]) + lm))
            else:
                cmds.append(("link", ["CC"] + V + objs + out(case["out"]) + lm))
        elif m == "text":
            s = srcs[0]
            t = case["text"].split()
            if "-o" in t:
                t = [x for x in t if x != "-o"]
                cmds.append(("text", ["CC"] + order(pre + t, [s], out("bin/text out"))))
            else:
                cmds.append(("text", ["CC"] + order(pre + t, [s])))
        elif m == "emit":
            # bitcode that holds the instrumentation
            cmds.append(("emit", ["CC"] + order(pre + V + ["@V@--emit-llvm", "@N@-emit-llvm"], ["-c", srcs[0]], ["-o", "bin/m.bc"])))
            rest = [s for s, u in zip(srcs[1:], us[1:])]
            if rest:
                cmds.append(("compile", ["CC"] + pre + V + rest[:1] + ["-c", "-o", "bin/r0.o"]))
                for i, s in enumerate(rest[1:], 1):
                    cmds.append(("compile", ["CC"] + pre + V + [s, "-c", "-o", "bin/r%d.o" % i]))
        elif m == "error":
            e = case["error"]
            if e == "multi-o":
                cmds.append(("fail", ["CC"] + pre + (srcs + srcs)[:max(2, len(srcs))] + ["-c"] + out("bin/x.o")))
            elif e == "none":
                cmds.append(("fail", ["CC"] + (["-c"] if case["first"] else [])))
            elif e == "nodir":
                cmds.append(("fail", ["CC"] + pre + srcs + out("no/dir/prog")))
            elif e == "undefined" or case["obj"] == "default":
                cmds.append(("fail", ["CC"] + order(pre + V, srcs, out(case["out"]))))
            else:
                cmds.append(("fail", ["CC"] + order(pre + V, srcs[-1:], ["-c"])))
        return cmds

    # ------------------------------------------------------------------ verdict
    @staticmethod
    def snapshot(d):
        s = set()
        for dp, dn, fn in os.walk(d):
            for f in fn + dn:
                s.add(os.path.relpath(os.path.join(dp, f), d))
        return s

    @staticmethod
    def inputs(d):
        return {p: open(os.path.join(d, p), "rb").read() for p in CHECK.snapshot(d) if os.path.isfile(os.path.join(d, p))}

    def run_all(self, case, d, native):
        b = self.b
        self.create(case, d)
        before = self.inputs(d)
        res = []
        for kind, argv in self.commands(case):
            cmd = []
            for a in argv:
                if a.startswith("@V@"):
                    if not native:
                        cmd.append(a[3:])
                elif a.startswith("@N@"):
                    if native:
                        cmd.append(a[3:])
                else:
                    cmd.append(a.replace("@CWD@", d))
            if cmd[0] == "CC":
                if native:
                    cmd[0:1] = [vbuild.CLANG + ("++" if case["lang"] == "c++" else ""), "-Wno-unused-command-line-argument"]
                elif case["direct"]:
                    cmd[0:1] = [b.p("bin", "verificarlo"), "--linker=clang" + ("++" if case["lang"] == "c++" else "")]
                else:
                    cmd[0] = b.p("bin", "verificarlo-c" + ("++" if case["lang"] == "c++" else ""))
            r = pr.call(cmd, d, b.env(), 120)
            res.append((kind, cmd, r, self.snapshot(d)))
            if r.rc:
                break
        now = {p: v for p, v in self.inputs(d).items() if p in before}
        return res, [p for p in before if now.get(p) != before[p]]

    def judge(self, b, case, st=None):
        self.b = b
        b.logbackend()
        with pr.Work(fast=True) as w:
            d = w.p("p j")
            return self.judge_in(b, case, w, d, st)

    def judge_in(self, b, case, w, d, st):
        nat, _ = self.run_all(case, d, True)
        fails = nat[-1][2].rc != 0
        if fails != (case["mode"] == "error"):
            # clang itself does not agree with this project
            if st is not None:
                st.cls("not a build for clang")
            return None
        texts = self.texts(case, d)
        want = None
        if case["mode"] == "emit":
            want = self.link_emitted(case, d, True)
        exe = None if case["mode"] in ("text", "error", "emit") else case["out"] or "a.out"
        if exe:
            want = pr.call([os.path.join(d, exe)], d, b.env(), 20)
        vfc, changed = self.run_all(case, d, False)
        for i, (kind, cmd, r, files) in enumerate(vfc):
            nk, nc, nr, nfiles = nat[i]
            what = " ".join(["verificarlo"] + [repr(x) if not x.replace("-", "").replace("/", "").replace(".", "").isalnum() else x for x in cmd[1:]]).replace(d, "DIR")
            if st is not None:
                st.evals += 1
                st.cls("command: " + kind)
                if len(case["units"]) > 1 or case["s"] != "plain" or case["incdir"] != "inc":
                    st.nt.append(h64([kind, what]))
            if r.timeout:
                return "%s does not end" % what
            if (r.rc != 0) != (nr.rc != 0):
                return "%s ends with status %d, the compiler with %d: %s" % (what, r.rc, nr.rc, (r.err or r.out)[:300].replace(d, "DIR"))
            objs = {os.path.normpath(self.src(u)[:-len(u["ext"])] + ".o") for u in case["units"]}
            extra = files - nfiles
            if kind in ("build", "fail") and "-c" not in cmd:
                extra -= objs
            if extra:
                return "%s leaves the files %s" % (what, sorted(extra))
            if not r.rc and nfiles - files:
                return "%s does not write %s" % (what, sorted(nfiles - files))
            if kind == "text" and r.out != nr.out:
                return "%s prints another text than the compiler: %d and %d characters, first difference at %d" % (
                    what, len(r.out), len(nr.out), next((k for k, (x, y) in enumerate(zip(r.out, nr.out)) if x != y), -1))
        if changed:
            return "%s: the build changes its sources %s" % (what, changed)
        t2 = self.texts(case, d)
        for p in texts:
            if t2.get(p) != texts[p]:
                return "%s: %s holds %r instead of %r" % (what, p, str(t2.get(p))[:200], texts[p][:200])
        if case["mode"] == "emit":
            exe = "em"
            bad = self.link_emitted(case, d, False)
            if bad is not None:
                return "%s: %s" % (what, bad)
        if exe:
            if st is not None:
                st.evals += 1
                st.cls("run")
            log = w.p("log")
            for be in ("libinterflop_ieee.so", "log"):
                got = pr.run(b, w, os.path.join(d, exe), "libinterflop_vlog.so" if be == "log" else be, env={"VLOG": log}, cwd=d)
                if (got.rc, got.out) != (want.rc, want.out):
                    return "%s: the program prints %r (status %d) instead of %r (status %d): %s" % (what, got.out[:200], got.rc, want.out[:200], want.rc, got.err[:200])
            n = sum(1 for x in pr.read_log(log) if x[0] <= 3)
            # a shared library and its program may each have a back-end
            if case["mode"] != "shared" and n != self.expected_ops(case):
                return "%s: the back-end receives %d operations instead of %d" % (what, n, self.expected_ops(case))
            if case["mode"] == "shared" and n < 1 + len(case["units"]):
                return "%s: the back-end receives %d operations" % (what, n)
        return None

    def texts(self, case, d):
        """dependencies and preprocessed or assembly texts"""
        r = {}
        for p in self.snapshot(d):
            if p.endswith(".d") or p == "bin/text out" or (case["mode"] == "text" and p.endswith(".s")):
                if os.path.isfile(os.path.join(d, p)):
                    r[p] = open(os.path.join(d, p), errors="replace").read()
        return r

    def link_emitted(self, case, d, native):
        b = self.b
        objs = ["bin/r%d.o" % i for i in range(len(case["units"]) - 1)]
        cmd = [vbuild.CLANG + ("++" if case["lang"] == "c++" else ""), "-fPIC", "bin/m.bc"] + objs + ["-o", "em", "-lm"]
        if not native:
            cmd += ["-L", b.p("lib"), "-Wl,-rpath," + b.p("lib"), "-ldl", "-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger"]
        r = pr.call(cmd, d, b.env(), 120)
        if r.rc:
            if native:
                raise RuntimeError(r.err)
            return "the bitcode cannot be linked: %s" % r.err[:300]
        return pr.call([os.path.join(d, "em")], d, b.env(), 20) if native else None

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        for _ in range(job["n"]):
            case = self.gen(r)
            m = self.judge(b, case, st)
            if m:
                st.fails.append((case, m))
        st.samples.append({k: case[k] for k in ("lang", "mode", "opts", "s", "incdir", "out")})
        return st

    def reductions(self, case):
        for i in range(1, len(case["units"])):
            yield dict(case, units=case["units"][:i] + case["units"][i + 1:])
        for k, v in (("opts", ["-O0"]), ("s", "plain"), ("incdir", "inc"), ("inc", "join"), ("out", "prog"), ("ojoin", False), ("obj", "default"), ("dep", None), ("abs", False), ("first", False),
                     ("lm", None), ("vfc", []), ("direct", False), ("lang", "c")):
            if case[k] != v and not (k == "lang" and any(u["ext"] in CXXEXT for u in case["units"])):
                yield dict(case, **{k: v})
        for i, u in enumerate(case["units"]):
            for k, v in (("name", "u%d" % i), ("dir", ""), ("f32", False), ("ext", ".c" if case["lang"] == "c" else ".cpp")):
                if u[k] != v:
                    yield dict(case, units=case["units"][:i] + [dict(u, **{k: v})] + case["units"][i + 1:])
