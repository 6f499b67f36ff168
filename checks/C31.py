"""C31: vfc_precexp ends with a working configuration in which no explored format can be shortened."""
import csv
import io
import os
import random
import subprocess
import sys
import traceback

import progrun as pr
import pytools
from vcommon import Check, Stats, HANG, h64

ENV = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": "/tmp", "LC_ALL": "C"}
MODES = ("ieee", "full", "ib", "ob")          # the modes of the VPREC back-end
KINDS = {0: (23, 8), 1: (52, 11), 3: (23, 8), 4: (52, 11)}      # type -> native format
OPS = {"Prec64": 52, "Range64": 11, "Prec32": 23, "Range32": 8}
LOW = {"Prec64": 1, "Range64": 2, "Prec32": 1, "Range32": 2, "Prec": 1, "Range": 2}


class Refused(Exception):
    pass


def parse(text):
    """a profile as the reader of the back-end reads it: list of (header fields, argument lines)"""
    out = []
    lines = text.split("\n")
    if lines[-1] != "":
        raise Refused("unterminated last line")
    lines = lines[:-1]
    i = 0
    while i < len(lines):
        h = lines[i].split("\t")
        if len(h) != 12:
            raise Refused("header with %d fields: %r" % (len(h), lines[i]))
        nums = [int(x) for x in h[1:]]
        args = []
        for j in range(nums[8] + nums[9]):
            i += 1
            if i >= len(lines):
                raise Refused("missing argument lines of %s" % h[0])
            a = lines[i].split("\t")
            if len(a) != 7:
                raise Refused("argument line with %d fields: %r" % (len(a), lines[i]))
            if a[0] != ("input:" if j < nums[8] else "output:"):
                raise Refused("unexpected argument line %r" % lines[i])
            args.append((a[0], a[1]) + tuple(int(x) for x in a[2:]))
        out.append((h[0], nums, args))
        i += 1
    return out


class World:
    def __init__(self, case):
        self.c = case
        self.err = []
        self.runs = 0
        self.tests = []
        self.fields = explored(case)
        self.sel = selected(case)

    def profile(self):
        t = ""
        for f in self.c["functions"]:
            t += "\t".join([f["id"]] + [str(x) for x in (f["lib"], f["int"], f["float"], f["double"], 52, 11, 23, 8,
                            sum(a["io"] == "input:" for a in f["args"]), sum(a["io"] == "output:" for a in f["args"]), f["ncalls"])]) + "\n"
            for a in f["args"]:
                p, e = KINDS.get(a["type"], (112, 15))
                t += "%s\t%s\t%d\t%d\t%d\t%d\t%d\n" % (a["io"], a["name"], a["type"], p, e, a["min"], a["max"])
        return t

    def passes(self, v):
        """v: (function id, argument index or None, field) -> length"""
        budget = 0
        for k in self.fields:
            d = native(self.c, k) - v[k]
            need = self.c["need"].get(str(k), 0)
            if v[k] < need:
                return False
            budget += d * self.c["cost"].get(str(k), 0)
        return budget <= self.c["budget"]

    def slow(self, v):
        return any(v[k] < self.c["slow"].get(str(k), 0) for k in self.fields)

    def run(self, argv, env, timeout):
        """returns the exit status, or None when the run takes longer than the timeout"""
        d = argv[1]
        if not os.path.isdir(d):
            self.err.append("the run script was given %s, which is not a directory" % d)
            return 1
        w = env.get("VFC_BACKENDS", "").split()
        if not w or w[0] != "libinterflop_vprec.so":
            self.err.append("run with VFC_BACKENDS=%r" % env.get("VFC_BACKENDS"))
            return 1
        opt = {}
        for x in w[1:]:
            k, _, v = x.partition("=")
            opt[k] = v
        if "--prec-output-file" in opt:
            if self.runs or "--prec-input-file" in opt:
                self.err.append("profile written during the search")
            self.runs = 1
            open(opt["--prec-output-file"], "w").write(self.profile())
            open(os.path.join(d, "out"), "w").write("ref")
            return 0
        if opt.get("--mode") != self.c["vmode"] or opt.get("--mode") not in MODES:
            self.err.append("run in VPREC mode %r, %r is asked" % (opt.get("--mode"), self.c["vmode"]))
        if opt.get("--instrument") != self.c["mode"]:
            self.err.append("run with --instrument=%r in the mode %r" % (opt.get("--instrument"), self.c["mode"]))
        self.runs += 1
        try:
            conf = parse(open(opt["--prec-input-file"]).read())
        except Refused as e:
            self.err.append("configuration refused by VPREC: %s" % e)
            return 1
        except (OSError, ValueError, KeyError) as e:
            self.err.append("unreadable configuration: %r" % e)
            return 1
        v = {}
        names = [f["id"] for f in self.sel]
        if sorted(x[0] for x in conf) != sorted(names):
            self.err.append("the configuration has the functions %s instead of %s" % (sorted(x[0] for x in conf), sorted(names)))
            return 1
        byid = {f["id"]: f for f in self.sel}
        for fid, nums, args in conf:
            f = byid[fid]
            nin = sum(a["io"] == "input:" for a in f["args"])
            if nums[:4] + nums[8:] != [f["lib"], f["int"], f["float"], f["double"], nin, len(f["args"]) - nin, f["ncalls"]]:
                self.err.append("the configuration changes the description of %s: %s" % (fid, nums))
                return 1
            for n, k in enumerate(("Prec64", "Range64", "Prec32", "Range32")):
                v[(fid, None, k)] = nums[4 + n]
            for n, (a, g) in enumerate(zip(f["args"], args)):
                if g[:3] + g[5:] != (a["io"], a["name"], a["type"], a["min"], a["max"]):
                    self.err.append("the configuration changes an argument of %s: %s" % (fid, g))
                    return 1
                v[(fid, n, "Prec")] = g[3]
                v[(fid, n, "Range")] = g[4]
        for k, x in v.items():
            if not LOW[k[2]] <= x <= native(self.c, k):
                self.err.append("%s of %s out of its bounds: %d" % (k[2], k[0], x))
            if k not in self.fields and x != native(self.c, k) and not (k[1] is None and unused(self.c, k)):
                self.err.append("%s of %s is changed (%d) but is not to be explored in the mode %s" % (k[2], k[:2], x, self.c["mode"]))
        ok = self.passes(v)
        self.tests.append((h64(sorted((str(k), x) for k, x in v.items())), ok))
        if self.slow(v) and timeout is not None and self.c["duration"] > timeout * 1000:
            return None
        if not ok and self.c["crash"]:
            return 3
        open(os.path.join(d, "out"), "w").write("good" if ok else "bad")
        return 0

    def cmp(self, argv):
        ref, d = argv[1], argv[2]
        if open(os.path.join(ref, "out")).read() != "ref":
            self.err.append("the comparison script was not given the reference directory")
        return 0 if open(os.path.join(d, "out")).read() == "good" else 1


def unused(case, k):
    f = next(f for f in case["functions"] if f["id"] == k[0])
    return not (f["double"] if k[2].endswith("64") else f["float"])


def native(case, k):
    if k[1] is None:
        return OPS[k[2]]
    f = next(f for f in case["functions"] if f["id"] == k[0])
    return KINDS.get(f["args"][k[1]]["type"], (112, 15))[0 if k[2] == "Prec" else 1]


def selected(case):
    L = case["list"]
    return [f for f in case["functions"] if not L or f["name"] in L or f["parent"] in L]


def explored(case):
    out = []
    for f in selected(case):
        if case["mode"] in ("arguments", "all"):
            for i, a in enumerate(f["args"]):
                if a["type"] in KINDS:
                    out += [(f["id"], i, "Prec"), (f["id"], i, "Range")]
        if case["mode"] in ("operations", "all") and not f["lib"] and not f["int"]:
            out += [(f["id"], None, k) for k in OPS if (f["double"] if k.endswith("64") else f["float"])]
    return out


def popen(world):
    class Popen:
        def __init__(self, cmd, *a, env=None, stdout=None, stderr=None, cwd=None, **k):
            if isinstance(cmd, str):
                cmd = cmd.split()
            self.args, self.pid, self.stdout, self.stderr, self.stdin = cmd, 1, None, None, None
            self.returncode = None
            self.name = os.path.basename(cmd[0])
            self.env = dict(os.environ if env is None else env)
            self.blocked = world.c["loud"] and (stdout == subprocess.PIPE or stderr == subprocess.PIPE)

        def wait(self, timeout=None):
            if self.returncode is None:
                if self.blocked:
                    raise pytools.Timeout()
                if self.name == "exrun":
                    rc = world.run(self.args, self.env, timeout)
                    if rc is None:
                        raise subprocess.TimeoutExpired(self.args, timeout)
                elif self.name == "excmp":
                    rc = world.cmp(self.args)
                else:
                    raise OSError("unexpected command %s" % self.args)
                self.returncode = rc
            return self.returncode

        def communicate(self, input=None, timeout=None):
            self.blocked = False
            self.wait(timeout)
            return (b"", b"")

        def poll(self):
            return self.wait()

        def terminate(self):
            self.returncode = -15

        kill = terminate

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
    return Popen


class CHECK(Check):
    id = "C31"
    rule = ("generated profiles (1-6 call sites; scalar, pointer and quad arguments; library and intrinsic functions), monotone acceptance "
            "predicates (thresholds per format and budgets over several formats), modes, function lists, timeouts; the real vfc_precexp entry "
            "point runs with stand-ins for exrun and excmp that read the configuration as VPREC does. An evaluation is one tested "
            "configuration; non-trivial = distinct configuration of a search in which some configurations pass and some fail")
    assumptions = ["acceptance is monotone: a longer format never turns a passing configuration into a failing one",
                   "identifiers and argument names contain no white space"]
    shrink_budget = 40.0

    def setup(self, b, tier):
        pytools.third_party()
        pytools.load("optimize.precexp")

    def plan(self, tier, seed):
        n = 400 if tier == "quick" else 12000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    def gen_case(self, r):
        fs, ids = [], set()
        for i in range(r.choice([1, 1, 2, 3, 4, 6])):
            lib = r.random() < 0.25
            name = r.choice(["f", "g", "sin", "solve_1", "f2"])
            parent = r.choice(["", "main", "main", "f", "g"])
            fid = "%s/%s/%s/%d/%d" % (r.choice(["a.c", "b.f90", "dir.x.c"]), parent, name, r.randint(1, 300), r.randint(1, 40))
            if fid in ids:
                continue
            ids.add(fid)
            args = []
            for io in ("input:", "output:"):
                for k in range(r.choice([0, 1, 1, 2, 3])):
                    lo = r.choice([-2 ** 31, -5, 0, 1, 3])
                    args.append({"io": io, "name": r.choice(["a", "b", "x1", "parameter_2", "return_value"]), "type": r.choice([0, 1, 0, 1, 3, 4, 3, 4, 2, 5]),
                                 "min": lo, "max": r.choice([lo, 7, 2 ** 31 - 1])})
            fs.append({"id": fid, "name": name, "parent": parent, "lib": int(lib), "int": int(not lib and r.random() < 0.15),
                       "float": int(r.random() < 0.6), "double": int(r.random() < 0.6), "args": args,
                       "ncalls": r.choice([1, 1, 2, 3, 10, 100, 2147483647])})
        c = {"functions": fs, "mode": r.choice(["arguments", "operations", "all", "all"]), "vmode": r.choice(MODES + ("ob",)),
             "list": r.sample(["f", "g", "sin", "main", "nothere"], r.choice([1, 2])) if r.random() < 0.3 else [],
             "crash": r.random() < 0.3, "loud": r.random() < 0.2, "need": {}, "cost": {}, "slow": {}, "duration": r.choice([5, 80, 2000, 40000]),
             "timeout": r.choice([None, None, 1, 50, 500, 30000]), "budget": 10 ** 9}
        fields = explored(c)
        for k in fields:
            if r.random() < 0.6:
                c["need"][str(k)] = r.randint(LOW[k[2]], native(c, k))
            if r.random() < 0.2:
                c["need"][str(k)] = native(c, k)
            if r.random() < 0.5:
                c["cost"][str(k)] = r.choice([1, 1, 2, 5])
            if r.random() < 0.15:
                c["slow"][str(k)] = r.randint(LOW[k[2]], native(c, k))
        if r.random() < 0.5:
            c["budget"] = r.choice([0, 1, 5, 20, 50, 100, 200])
        if r.random() < 0.08:
            c["budget"] = -1              # even the native formats are rejected
        return c

    def run_job(self, b, job):
        st = Stats()
        case = self.gen_case(random.Random(job["seed"]))
        info = {}
        msg = self.evaluate(case, info)
        w = info["world"]
        st.evals = len(w.tests)
        if len({ok for _, ok in w.tests}) == 2:
            st.nt = list({h for h, _ in w.tests})
        st.cls("mode " + case["mode"])
        st.cls("native formats rejected" if case["budget"] < 0 else "native formats accepted")
        st.samples.append({"functions": len(case["functions"]), "mode": case["mode"], "explored": len(w.fields), "runs": w.runs})
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(case, {})

    def reductions(self, case):
        for i in range(len(case["functions"])):
            yield dict(case, functions=case["functions"][:i] + case["functions"][i + 1:])
        for k in ("list", "cost", "slow", "need"):
            if case[k]:
                yield dict(case, **{k: type(case[k])()})
        for k in ("need", "cost", "slow"):
            for x in case[k]:
                yield dict(case, **{k: {y: z for y, z in case[k].items() if y != x}})
        for k in ("crash", "loud"):
            if case[k]:
                yield dict(case, **{k: False})
        if case["timeout"] is not None:
            yield dict(case, timeout=None)

    def evaluate(self, case, info):
        m = pytools.load("optimize.precexp")
        m.vfc_maxTimeout = None
        world = info["world"] = World(case)
        real, old = subprocess.Popen, sys.argv
        buf = io.StringIO()
        with pr.Work(fast=True) as w:
            for s in ("exrun", "excmp"):
                os.chmod(w.write(s, "#!/bin/sh\nexit 99\n"), 0o755)
            argv = ["vfc_precexp", "exrun", "excmp", "--mode", case["mode"], "--vprec_mode", case["vmode"]] + case["list"]
            if case["timeout"] is not None:
                argv += ["--maxTimeout", str(case["timeout"])]
            with pytools.environ(ENV), pytools.chdir(w.d), pytools.quiet(buf), pytools.limit(60):
                subprocess.Popen = popen(world)
                sys.argv = argv
                ended = None
                try:
                    m.main()
                except SystemExit as e:
                    ended = "the search ends with status %s" % e.code
                except pytools.Timeout:
                    ended = "the search blocks on the output of the scripts" if case["loud"] else HANG
                except Exception:
                    ended = "the search ends with an exception: " + traceback.format_exc()[-500:]
                finally:
                    subprocess.Popen = real
                    sys.argv = old
            if world.err:
                return world.err[0]
            if ended:
                return ended + ": " + buf.getvalue()[-300:]
            return self.verdict(case, world, w)

    def verdict(self, case, world, w):
        if not world.runs:
            return "the program is never run"

        def table(name):
            with open(w.p("vfc_exp_data/" + name), newline="") as f:
                return list(csv.DictReader(f))
        v = {}
        try:
            ids = sorted(f["id"] for f in world.sel)
            if case["mode"] != "arguments":
                t = table("OperationsResults.csv" if case["mode"] == "operations" else "AllOpsResults.csv")
                if sorted(x["ID"] for x in t) != ids:
                    return "the table of operations lists %s instead of %s" % (sorted(x["ID"] for x in t), ids)
                for x in t:
                    for k in OPS:
                        v[(x["ID"], None, k)] = int(x[k])
            if case["mode"] != "operations":
                t = table("ArgumentsResults.csv" if case["mode"] == "arguments" else "AllArgsResults.csv")
                seen = {}
                for x in t:
                    n = seen.get(x["ID"], 0)
                    seen[x["ID"]] = n + 1
                    v[(x["ID"], n, "Prec")] = int(x["Prec"])
                    v[(x["ID"], n, "Range")] = int(x["Range"])
                    f = next((f for f in world.sel if f["id"] == x["ID"]), None)
                    if f is None or n >= len(f["args"]):
                        return "unexpected row of the table of arguments: %s" % x
                    a = f["args"][n]
                    if (x["IO"], x["ArgID"], int(x["Type"])) != (a["io"], a["name"], a["type"]):
                        return "argument %d of %s is reported as %s" % (n, f["id"], x)
                if seen != {f["id"]: len(f["args"]) for f in world.sel if f["args"]}:
                    return "the table of arguments has the rows %s" % seen
        except (OSError, ValueError, KeyError) as e:
            return "results of the search: %r" % e
        fields = world.fields
        nat = {k: native(case, k) for k in fields}
        for k in v:
            if k not in fields and not (k[1] is None and unused(case, k)) and v[k] != native(case, k):
                return "%s of %s was not to be explored but is reported as %d" % (k[2], k[:2], v[k])

        def good(x):
            t = case["timeout"]
            return world.passes(x) and not (world.slow(x) and t is not None and case["duration"] > t)
        cur = {k: v[k] for k in fields}
        if not good(nat):
            bad = [k for k in fields if cur[k] != nat[k]]
            if bad:
                return "the native formats are rejected, but %s of %s is reduced to %d" % (bad[0][2], bad[0][:2], cur[bad[0]])
            return None
        if not good(cur):
            return "the reported formats are rejected by the comparison: %s" % {str(k): x for k, x in cur.items()}
        for k in fields:
            if cur[k] > LOW[k[2]] and good(dict(cur, **{}) | {k: cur[k] - 1}):
                return "%s of %s is reported as %d, but %d is accepted too" % (k[2], k[:2], cur[k], cur[k] - 1)
        return None
