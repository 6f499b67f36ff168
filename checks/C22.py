"""C22: the delta-debug search finds minimal, complete and correct sets."""
import io
import json
import os
import random
import subprocess
import sys
import traceback

import progrun as pr
import pytools
from vcommon import Check, Stats, HANG, h64

ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp", "LC_ALL": "C"}


class World:
    """the program under study: its floating-point instructions (deltas) and when its output deviates"""

    def __init__(self, case):
        self.c = case
        self.deltas = case["deltas"]
        self.n = case["nrun"]
        self.log = []            # ("ref"|"run"|"cmp", ...)
        self.err = []

    def first_fail(self, S):
        """index of the first deviating run when the instructions S are perturbed (None: never)"""
        S = frozenset(S)
        k = self.c["kind"]
        if not S:
            return None
        if k == "groups":
            best = None
            for g in self.c["groups"]:
                if set(g["need"]) <= S and not (set(g["unless"]) & S):
                    best = g["at"] if best is None else min(best, g["at"])
            if best is None and len(S) == len(self.deltas):
                best = self.n if self.c["late"] else 1
            return best
        x = h64((self.c["salt"], sorted(S)))
        if len(S) == len(self.deltas) or (x & 0xffff) < self.c["p"] * 65536:
            return 1 + ((x >> 16) % self.n if self.c["late"] else 0)
        return None

    def fails(self, S, n=None):
        t = self.first_fail(S)
        return t is not None and t <= (n or self.n)

    # -- the two user scripts
    def run(self, argv, env):
        d = argv[1]
        gen = env.get("VFC_DDEBUG_GEN")
        inc = env.get("VFC_DDEBUG_INCLUDE")
        if not os.path.isdir(d):
            self.err.append("the run script was given %s, which is not a directory" % d)
            return 1
        if gen is not None:
            if inc is not None or env.get("VFC_DDEBUG_EXCLUDE") is not None:
                self.err.append("the reference run filters instructions")
            if env.get("VFC_BACKENDS") != "libinterflop_ieee.so":
                self.err.append("the reference run uses the back-end %r" % env.get("VFC_BACKENDS"))
            for pid, part in enumerate(self.c["parts"]):
                with open(gen.replace("%%p", str(4000 + pid)).replace("%p", str(4000 + pid)), "w") as f:
                    f.writelines(self.deltas[i] + "\n" for i in part)
            open(os.path.join(d, "out"), "w").write("ref")
            self.log.append(("ref",))
            return 0
        if inc is None:
            self.err.append("a sample run does not restrict the perturbed instructions")
            return 1
        if env.get("VFC_BACKENDS") != self.c["backends"]:
            self.err.append("a sample run uses VFC_BACKENDS=%r instead of the user's %r" % (env.get("VFC_BACKENDS"), self.c["backends"]))
        lines = open(inc).read().split("\n")
        if lines[-1] != "":
            self.err.append("unterminated include file")
        S = lines[:-1]
        if len(set(S)) != len(S) or not set(S) <= set(self.deltas):
            self.err.append("include file with unknown or repeated instructions: %s" % S)
        key = tuple(sorted(S))
        k = 1 + sum(1 for x in self.log if x[0] == "run" and x[1] == key)
        self.log.append(("run", key))
        if k > self.n:
            self.err.append("configuration run more than DD_NRUNS=%d times" % self.n)
        t = self.first_fail(S)
        open(os.path.join(d, "out"), "w").write("bad" if t is not None and k == t or (t is not None and k > t and self.c["sticky"]) else "ok")
        return 0

    def cmp(self, argv):
        ref, d = argv[1], argv[2]
        if open(os.path.join(ref, "out")).read() != "ref":
            self.err.append("the comparison script was not given the reference directory")
        if ref == d:
            return 0
        self.log.append(("cmp",))
        return self.c["rc"] if open(os.path.join(d, "out")).read() == "bad" else 0


def popen(world, real):
    class Popen:
        def __init__(self, cmd, *a, env=None, stdout=None, stderr=None, cwd=None, **k):
            if isinstance(cmd, str):
                cmd = cmd.split()
            self.args, self.pid, self.stdout, self.stderr, self.stdin = cmd, 1, None, None, None
            name = os.path.basename(cmd[0])
            e = dict(os.environ if env is None else env)
            if name == "ddRun":
                self.returncode = world.run(cmd, e)
            elif name == "ddCmp":
                self.returncode = world.cmp(cmd)
            else:
                raise OSError("unexpected command %s" % cmd)

        def wait(self, timeout=None):
            return self.returncode

        def poll(self):
            return self.returncode

        def communicate(self, input=None, timeout=None):
            return (None, None)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    return Popen


def read(p):
    t = open(p).read().split("\n")
    return t[:-1]


class CHECK(Check):
    id = "C22"
    rule = ("generated programs under study (2-24 instructions; unstable groups, masking, arbitrary non-monotone failure predicates, failures "
            "that show only in the k-th run), algorithms and options; the real vfc_ddebug entry point runs with stand-ins for the two user "
            "scripts; oracle: the failure predicate itself. An evaluation is one run of a user script; non-trivial = distinct configuration "
            "tested that fails, or whose verdict needs more than one run")
    assumptions = ["the failure of a configuration is a function of the configuration and of the run number", "the empty configuration is stable"]
    shrink_budget = 40.0

    def setup(self, b, tier):
        pytools.load("ddebug.main")

    def plan(self, tier, seed):
        n = 4000 if tier == "quick" else 150000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    def gen_case(self, r):
        n = r.choice([2, 3, 4, 5, 6, 8, 9, 12, 15, 16, 20, 24])
        deltas = ["0x%016x: f%d at src.c:%d" % (0x401000 + 7 * i + r.randrange(5), i % 3, 10 + i // 2) for i in range(n)]
        r.shuffle(deltas) if r.random() < 0.5 else None
        nrun = r.choice([1, 1, 2, 3, 4, 5, 5, 7])
        late = r.random() < 0.6
        idx = list(range(n))
        parts = [idx]
        if r.random() < 0.3:
            cut = sorted(r.sample(idx, r.randint(1, n)))
            parts = [idx, cut] if r.random() < 0.5 else [cut, idx]
            if r.random() < 0.4:
                k = r.randint(1, n)
                parts = [idx[:k], idx[k - 1:]]
        c = {"deltas": deltas, "nrun": nrun, "parts": parts, "late": late, "rc": r.choice([1, 1, 42, 255]), "sticky": r.random() < 0.5,
             "backends": r.choice(["libinterflop_mca.so -m mca -p 53", "libinterflop_cancellation.so", "libinterflop_bitmask.so --seed=1"])}
        if r.random() < 0.7:
            c["kind"] = "groups"
            c["groups"] = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                need = r.sample(deltas, min(n, r.choice([1, 1, 1, 2, 2, 3, 4])))
                rest = [d for d in deltas if d not in need]
                unless = r.sample(rest, min(len(rest), 1)) if r.random() < 0.15 else []
                c["groups"].append({"need": need, "unless": unless, "at": r.randint(1, nrun) if late else 1})
        else:
            c["kind"] = "hash"
            c["salt"] = r.getrandbits(30)
            c["p"] = r.choice([0.02, 0.1, 0.3, 0.6])
        env = {}
        P = "INTERFLOP_DD_"
        if nrun != 5 or r.random() < 0.5:
            env[P + "NRUNS"] = str(nrun)
        k = r.random()
        if k < 0.2:
            env[P + "ALGO"] = "ddmax"
        elif k < 0.4:
            env[P + "ALGO"] = "rddmin"
        if r.random() < 0.7:
            env[P + "RDDMIN"] = r.choice(["s", "stoch", "dicho", "d", "strict", ""])
        if r.random() < 0.5:
            env[P + "RDDMIN_TAB"] = r.choice(["exp", "all", "single"])
        if r.random() < 0.5:
            env[P + "DICHO_TAB"] = r.choice(["exp", "all", "single", "half", str(r.randint(1, nrun))])
        if r.random() < 0.4:
            env[P + "DICHO_GRANULARITY"] = str(r.choice([2, 2, 3, 4, 7]))
        if r.random() < 0.25:
            env[P + "NUM_THREADS"] = str(r.choice([1, nrun, nrun + 3]))
        if r.random() < 0.2:
            env[P + "QUIET"] = "1"
        c["env"] = env
        c["twice"] = not late and env.get(P + "DICHO_TAB") != "all" and r.random() < 0.5
        return c

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        case = self.gen_case(r)
        info = {}
        msg = self.evaluate(case, info)
        w = info["world"]
        st.evals = len(w.log)
        for x in {y[1] for y in w.log if y[0] == "run"}:
            t = w.first_fail(x)
            if t is not None or case["nrun"] > 1:
                st.nt.append(h64((case["kind"], job["seed"], x)))
        st.cls(case["env"].get("INTERFLOP_DD_ALGO", "rddmin") + " " + case["env"].get("INTERFLOP_DD_RDDMIN", "(default)"))
        st.cls(case["kind"])
        if info.get("found"):
            st.cls("%d sets found" % len(info["found"]))
        st.samples.append({"deltas": len(case["deltas"]), "kind": case["kind"], "env": case["env"], "found": info.get("found")})
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(case, {})

    def reductions(self, case):
        for k in list(case["env"]):
            if k != "INTERFLOP_DD_NRUNS":
                yield dict(case, env={x: y for x, y in case["env"].items() if x != k})
        if case["twice"]:
            yield dict(case, twice=False)
        if len(case["parts"]) > 1:
            yield dict(case, parts=[list(range(len(case["deltas"])))])
        if case["kind"] == "groups":
            for i in range(len(case["groups"])):
                if len(case["groups"]) > 1:
                    yield dict(case, groups=case["groups"][:i] + case["groups"][i + 1:])
            n = len(case["deltas"])
            for i in range(n):
                if n > 1 and len(case["parts"]) == 1:
                    d = case["deltas"][i]
                    g = [dict(x, need=[y for y in x["need"] if y != d], unless=[y for y in x["unless"] if y != d]) for x in case["groups"]]
                    g = [x for x in g if x["need"]]
                    if g:
                        yield dict(case, deltas=case["deltas"][:i] + case["deltas"][i + 1:], groups=g, parts=[list(range(n - 1))])
        if case["nrun"] > 1 and case["kind"] == "groups" and "INTERFLOP_DD_NRUNS" in case["env"]:
            yield dict(case, nrun=1, groups=[dict(g, at=1) for g in case["groups"]], env=dict(case["env"], INTERFLOP_DD_NRUNS="1"))

    def evaluate(self, case, info):
        m = pytools.load("ddebug.main")
        with pr.Work(fast=True) as w:
            for s in ("ddRun", "ddCmp"):
                os.chmod(w.write(s, "#!/bin/sh\nexit 99\n"), 0o755)
            world = World(case)
            info["world"] = world
            env = dict(ENV, VFC_BACKENDS=case["backends"], **case["env"])
            real = subprocess.Popen
            old = sys.argv
            buf = io.StringIO()
            try:
                for rnd in range(2 if case["twice"] else 1):
                    before = len(world.log)
                    with pytools.environ(env), pytools.chdir(w.d), pytools.quiet(buf), pytools.limit(60):
                        subprocess.Popen = popen(world, real)
                        sys.argv = ["vfc_ddebug", w.p("ddRun"), w.p("ddCmp")]
                        try:
                            m.main()
                            ended = None
                        except SystemExit as e:
                            ended = "the search ends with status %s" % e.code
                        except pytools.Timeout:
                            ended = HANG
                        except Exception:
                            ended = "the search ends with an exception: " + traceback.format_exc()[-500:]
                        finally:
                            subprocess.Popen = real
                            sys.argv = old
                    if world.err:
                        return world.err[0]
                    if ended:
                        return ended + ": " + buf.getvalue()[-300:]
                    msg = self.verdict(case, world, w, info)
                    if msg:
                        return msg
                    if rnd == 1:
                        again = [x for x in world.log[before:] if x[0] == "run"]
                        if again:
                            return "a repeated search ran %d samples again although all results are stored" % len(again)
            finally:
                subprocess.Popen = real
                sys.argv = old
        return None

    def verdict(self, case, world, w, info):
        N = case["nrun"]
        allset = set(case["deltas"])
        root = w.p("dd.line")

        def conf(name):
            inc = read(os.path.join(root, name, "dd.line.include"))
            exc = read(os.path.join(root, name, "dd.line.exclude"))
            if set(inc) & set(exc) or set(inc) | set(exc) != allset or len(inc) + len(exc) != len(allset):
                raise ValueError("%s: the include and exclude files do not partition the instructions" % name)
            return set(inc)
        try:
            ref = read(os.path.join(root, "ref", "dd.line"))
            if sorted(ref) != sorted(allset):
                return "the merged list of instructions is not the union of the lists of the processes"
            if case["env"].get("INTERFLOP_DD_ALGO") == "ddmax":
                mx = conf("ddmax")
                cp = conf("ddmax-cmp")
                info["found"] = [sorted(mx)]
                if mx & cp or mx | cp != allset:
                    return "ddmax and ddmax-cmp do not partition the instructions"
                if world.fails(mx):
                    return "ddmax is not stable: %s" % sorted(mx)
                for d in cp:
                    if not world.fails(mx | {d}):
                        return "ddmax is not maximal: adding %s keeps it stable" % d
                return None
            names = sorted((x for x in os.listdir(root) if x.startswith("ddmin")), key=lambda x: int(x[5:]))
            if names != ["ddmin%d" % i for i in range(len(names))]:
                return "the sets found are not numbered from 0: %s" % names
            sets = [conf(x) for x in names]
            info["found"] = [sorted(s) for s in sets]
            if not sets:
                return "no set found although the program is unstable"
            for i, s in enumerate(sets):
                if not world.fails(s):
                    return "ddmin%d is not a failing set: %s" % (i, sorted(s))
                for d in s:
                    if world.fails(s - {d}):
                        return "ddmin%d is not minimal: it still fails without %s; %s" % (i, d, sorted(s))
                for j in range(i):
                    if sets[j] & s:
                        return "ddmin%d and ddmin%d overlap" % (j, i)
            rest = conf("rddmin-cmp")
            if rest != allset - set().union(*sets):
                return "rddmin-cmp is not the complement of the sets found"
            if world.fails(rest):
                return "instructions are missed: the complement of the sets found still fails (%s)" % sorted(rest)
        except (OSError, ValueError) as e:
            return "results of the search: %s" % e
        return None
