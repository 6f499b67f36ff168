"""C19: the settings of the back-ends are those of their options; what they do not allow is refused."""
import os
import random
import re
import struct
import tempfile

from ops import run_ops
from vcommon import Check, Stats, HANG, h64
from opgen import *

LINE = re.compile(r"^Info \[[^\]]*\]:\s+([a-z0-9-]+) = (.*)$", re.M)


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


class Int:
    """decimal integer within [lo, hi]; values just outside, huge or misspelt are refused"""

    def __init__(self, lo, hi, typical=None, wide=False, open_=()):
        self.lo, self.hi, self.typical, self.wide, self.open = lo, hi, typical or (lo, hi), wide, open_

    def good(self, r):
        k = r.random()
        if k < 0.2:
            v = self.lo
        elif k < 0.35:
            v = self.hi
        else:
            v = r.randint(*self.typical)
        t = str(v)
        k = r.random()
        if k < 0.08 and v >= 0:
            t = "+" + t
        elif k < 0.16:
            t = t.replace("-", "-0", 1) if v < 0 else "00" + t
        return t, str(v)

    def bad(self, r):
        k = r.random()
        v = r.randint(*self.typical)
        if k < 0.25 and self.lo > -2 ** 31:
            v = self.lo - r.choice([1, 1, 2, 100])
            return str(v) if v not in self.open else str(-1)
        if k < 0.45 and self.hi < 2 ** 31 - 1:
            return str(self.hi + r.choice([1, 1, 2, 100]))
        if k < 0.6:
            return str((v % 2 ** 32) + r.choice([2 ** 32, 2 ** 33, -2 ** 33]) if not self.wide else v + r.choice([2 ** 64, -2 ** 64]))
        if k < 0.7:
            return r.choice(["99999999999999999999", "-99999999999999999999"])
        return r.choice(["abc", "x%d" % v, "%dx" % v, "%d.5" % v, "%d," % v, "0x%x" % abs(v), "--%d" % v, "1e1", "-", "%d-%d" % (v, v)])


class Word:
    def __init__(self, words, case=True):
        self.words, self.case = words, case

    def good(self, r):
        w = r.choice(self.words)
        t = w
        if self.case and r.random() < 0.4:
            t = "".join(c.upper() if r.random() < 0.5 else c for c in w)
        return t, w

    def bad(self, r):
        while True:
            w = r.choice(self.words)
            k = r.random()
            t = w[:-1] if k < 0.3 else w + r.choice("abxz0") if k < 0.6 else r.choice(["foo", "0", "1", "none!", "fulll", "iee", "mcaa"])
            if t and t.lower() not in [x.lower() for x in self.words]:
                return t


class Preset(Word):
    FMT = {"binary16": (5, 10), "binary32": (8, 23), "bfloat16": (8, 7), "tensorfloat": (8, 10), "fp24": (7, 16), "PXR24": (8, 15)}

    def __init__(self):
        super().__init__(list(self.FMT), case=False)


class Frac:
    """real in (0, 1]"""

    def good(self, r):
        v = r.choice([1.0, 0.5, 0.25, 0.125, round(r.random() * 0.98 + 0.01, 3)])
        t = r.choice([repr(v), "%g" % v, "%.6e" % v])
        return t, "%f" % f32(float(t))

    def bad(self, r):
        return r.choice(["0", "0.0", "-0", "-0.5", "-1", "1.5", "2", "1.0001", "nan", "inf", "-inf", "abc", "0.5x", "0.5.5", "1e999", "", "0,5"])


class Any:
    def good(self, r):
        return r.choice(["1", "true", "x"]), "true"

    def bad(self, r):
        return None


FLAG = None
SEED = Int(-2 ** 63, 2 ** 63 - 1, (0, 2 ** 40), wide=True)
I31 = 2 ** 31 - 1
BACK = {
    "mca": ([("precision-binary32", None, Int(1, I31, (1, 30))), ("precision-binary64", None, Int(1, I31, (1, 60))),
             ("mode", "m", Word(["ieee", "mca", "pb", "rr"])), ("error-mode", "e", Word(["rel", "abs", "all"])),
             ("max-abs-error-exponent", None, Int(-2 ** 31, I31, (-60, 60))), ("seed", "s", SEED),
             ("daz", "d", FLAG), ("ftz", "f", FLAG), ("sparsity", "n", Frac())],
            {"precision-binary32": "24", "precision-binary64": "53", "mode": "mca", "error-mode": "rel", "max-abs-error-exponent": "112",
             "daz": "false", "ftz": "false", "sparsity": "1.000000"}),
    "mca_int": ([("precision-binary32", None, Int(24, 24)), ("precision-binary64", None, Int(53, 53)),
                 ("mode", "m", Word(["ieee", "mca", "pb", "rr"])), ("seed", "s", SEED),
                 ("daz", "d", FLAG), ("ftz", "f", FLAG), ("sparsity", "n", Frac())],
                {"precision-binary32": "24", "precision-binary64": "53", "mode": "mca", "daz": "false", "ftz": "false", "sparsity": "1.000000"}),
    "bitmask": ([("precision-binary32", None, Int(1, I31, (1, 23))), ("precision-binary64", None, Int(1, I31, (1, 52))),
                 ("mode", "m", Word(["ieee", "full", "ib", "ob"])), ("operator", "o", Word(["zero", "one", "rand"])), ("seed", "s", SEED),
                 ("daz", "d", FLAG), ("ftz", "f", FLAG)],
                {"precision-binary32": "23", "precision-binary64": "52", "mode": "ob", "operator": "zero", "daz": "false", "ftz": "false"}),
    "cancellation": ([("tolerance", "t", Int(0, I31, (0, 50))), ("warning", "w", Any()), ("seed", "s", SEED)],
                     {"tolerance": "1", "warning": "false"}),
    "vprec": ([("precision-binary32", None, Int(1, 23, open_=(0,))), ("precision-binary64", None, Int(1, 52, open_=(0,))),
               ("range-binary32", None, Int(2, 8, open_=(1,))), ("range-binary64", None, Int(2, 11, open_=(1,))), ("preset", None, Preset()),
               ("mode", "m", Word(["ieee", "full", "ib", "ob"])), ("error-mode", "e", Word(["rel", "abs", "all"])),
               ("max-abs-error-exponent", None, Int(-2 ** 31, I31, (-60, 60))), ("daz", "d", FLAG), ("ftz", "f", FLAG),
               ("instrument", "i", Word(["arguments", "operations", "all", "none"]))],
              {"precision-binary32": "23", "precision-binary64": "52", "range-binary32": "8", "range-binary64": "11", "mode": "ob",
               "error-mode": "rel", "daz": "false", "ftz": "false", "instrument": "none"}),
    "ieee": ([("debug", "d", FLAG), ("debug-binary", "b", FLAG), ("no-backend-name", "s", FLAG), ("print-new-line", "n", FLAG),
              ("print-subnormal-normalized", None, FLAG), ("count-op", "o", FLAG)],
             {"debug": "false", "debug-binary": "false", "no-backend-name": "false", "print-new-line": "false",
              "print-subnormal-normalized": "false", "count-op": "false"}),
}


def effect(name, kind, v):
    if isinstance(kind, Preset):
        e, p = Preset.FMT[v]
        return {"precision-binary32": str(p), "precision-binary64": str(p), "range-binary32": str(e), "range-binary64": str(e)}
    return {name: v}


class CHECK(Check):
    id = "C19"
    rule = ("generated option lists of the six back-ends (long and short spellings, '=' or separate argument, letter case, order, repetitions), "
            "given by VFC_BACKENDS or a file; valid ones are compared with the settings displayed at load and with the results of the canonical spelling "
            "on 40 generated operations, those with one refused value or argument must end the program before any result. An evaluation is one option "
            "list; non-trivial = at least two options or a refused one")
    assumptions = ["precisions above the format are accepted by MCA and bitmask with a warning, as documented"]
    shrink_budget = 20

    def setup(self, b, tier):
        b.backends()
        b.opserver(False)

    def plan(self, tier, seed):
        n = 1000 if tier == "quick" else 6000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i), "n": 16} for i in range(n)]

    # ------------------------------------------------------------------ generation
    def opt(self, r, be, o):
        name, short, kind = o
        if kind is FLAG:
            return {"toks": ["-" + short if short and r.random() < 0.4 else "--" + name], "set": {name: "true"}}
        t, v = kind.good(r)
        return {"toks": self.spell(r, name, short, t), "set": effect(name, kind, v)}

    def spell(self, r, name, short, t):
        k = r.random()
        if short and k < 0.2 and t:
            return ["-" + short + t]
        if short and k < 0.4 and t:
            return ["-" + short, t]
        if k < 0.6 and t:
            return ["--" + name, t]
        return ["--%s=%s" % (name, t)]

    def bad_opt(self, r, be):
        opts = BACK[be][0]
        k = r.random()
        name, short, kind = r.choice(opts)
        if k < 0.75 and kind is not FLAG:
            t = kind.bad(r)
            if t is not None:
                return {"toks": self.spell(r, name, short, t), "bad": "value %r of --%s" % (t, name)}
        if k < 0.82:
            return {"toks": [r.choice(["--unknown", "--precision=3", "-Z", "--mode32=mca", "--seeds=3"])], "bad": "unknown option"}
        if k < 0.9:
            return {"toks": [r.choice(["foo", "12", "mca", "24", "0"])], "bad": "argument that belongs to no option"}
        if kind is FLAG:
            return {"toks": ["--%s=%s" % (name, r.choice(["1", "true", "x"]))], "bad": "value of the flag --%s" % name}
        return {"toks": [r.choice(["--" + name, "-" + (short or "m")])] if short else ["--" + name], "bad": "missing value of --" + name, "last": True}

    def gen(self, r):
        be = r.choice(["mca", "mca", "mca_int", "bitmask", "cancellation", "vprec", "vprec", "ieee"])
        table = BACK[be][0]
        opts = [self.opt(r, be, r.choice(table)) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8]))]
        if any(n == "seed" for n, _, _ in table):
            opts.insert(r.randint(0, len(opts)), self.opt(r, be, next(o for o in table if o[0] == "seed")))
        if r.random() < 0.4:
            x = self.bad_opt(r, be)
            opts.insert(len(opts) if x.get("last") else r.randint(0, len(opts)), x)
        env = {}
        if r.random() < 0.3:
            env["VFC_BACKENDS_LOGGER_LEVEL"] = r.choice(["info", "debug", "INFO"])
        sep = " " if r.random() < 0.8 else "  "
        return {"be": be, "opts": opts, "file": r.random() < 0.25, "env": env, "sep": sep, "oseed": r.getrandbits(30)}

    def ops(self, case):
        r = random.Random(case["oseed"])
        n = 40
        if case["be"] == "cancellation":
            out = []
            for _ in range(n):
                t = r.getrandbits(1)
                f = F64 if t else F32
                a = f2b(r.uniform(1, 2), f)
                out.append(Op(r.choice(["add", "sub"]), t, [a, (a ^ r.getrandbits(r.randint(1, f.mant))) ^ (r.getrandbits(1) << (f.w - 1))]))
            return out
        return mixed(r, n, BIN + ("fma", "cast"))

    # ------------------------------------------------------------------ verdict
    def run(self, b, case, text, ops):
        env = dict(case["env"])
        path = None
        try:
            if case["file"]:
                fd, path = tempfile.mkstemp(dir="/dev/shm")
                os.write(fd, (text + ("\n" if case["oseed"] & 1 else "") + ("libinterflop_ieee.so --wrong\n" if case["oseed"] & 3 == 3 else "")).encode())
                os.close(fd)
                env["VFC_BACKENDS_FROM_FILE"] = path
                return run_ops(b, None, ops, env=env, quiet=False)
            return run_ops(b, text, ops, env=env, quiet=False)
        finally:
            if path:
                os.unlink(path)

    def judge(self, b, case):
        ops = self.ops(case)
        lib = "libinterflop_%s.so" % case["be"]
        text = case["sep"].join([lib] + [t for o in case["opts"] for t in o["toks"]])
        res = self.run(b, case, text, ops)
        if res.timeout:
            return HANG
        bad = [o["bad"] for o in case["opts"] if "bad" in o]
        if bad:
            if res.rc == 0 or res.out:
                return "'%s' is accepted: %s should be refused; settings displayed: %s" % (text, bad[0], dict(LINE.findall(res.err)))
            if res.rc < 0:
                return "'%s' kills the program (status %d)" % (text, res.rc)
            if not res.err.strip():
                return "'%s' ends the program without any message" % text
            return None
        if res.results is None:
            return "'%s': process ended with status %s instead of producing results; stderr: %s" % (text, res.rc, res.err.strip()[-300:])
        want = dict(BACK[case["be"]][1])
        over = {}
        for o in case["opts"]:
            over.update(o["set"])
        if "seed" in over:
            over = dict(over, seed="%d (fixed)" % (int(over["seed"]) % 2 ** 64))
        want.update(over)
        got = dict(LINE.findall(res.err))
        for k, v in want.items():
            if got.get(k) != v:
                return "'%s': the setting %s displayed at load is %r instead of %r" % (text, k, got.get(k), v)
        # canonical spelling
        can = [lib]
        for k, v in sorted(over.items()):
            if v == "true" and k != "warning":
                can.append("--" + k)
            elif k == "sparsity":
                last = [o for o in case["opts"] if "sparsity" in o["set"]][-1]["toks"]
                t = last[-1].split("=")[-1]
                can.append("--sparsity=" + (t[2:] if t.startswith("-n") else t))
            else:
                can.append("--%s=%s" % (k, v.split()[0] if k != "seed" else self.signed(v.split()[0])))
        ref = run_ops(b, " ".join(can), ops, quiet=True)
        if ref.results is None:
            return "'%s': process ended with status %s; stderr: %s" % (" ".join(can), ref.rc, ref.err.strip()[-300:])
        for o, x, y in zip(ops, res.results, ref.results):
            if x != y and not (is_nan(out_fmt(o), x[0]) and is_nan(out_fmt(o), y[0])):
                return "%s gives %s with '%s' and %s with '%s', which are the same settings" % (
                    describe(o, 0), show_out(o, x[0]), text, show_out(o, y[0]), " ".join(can))
        return None

    @staticmethod
    def signed(v):
        v = int(v)
        return str(v - 2 ** 64 if v >= 2 ** 63 else v)

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        for _ in range(job["n"]):
            case = self.gen(r)
            m = self.judge(b, case)
            st.evals += 1
            bad = any("bad" in o for o in case["opts"])
            st.cls(case["be"] + (" refused" if bad else " accepted"))
            if bad or len(case["opts"]) > 1:
                st.nt.append(h64([case["be"], [o["toks"] for o in case["opts"]]]))
            if m:
                st.fails.append((case, m))
        st.samples.append({"options": [o["toks"] for o in case["opts"]], "backend": case["be"]})
        return st

    def reductions(self, case):
        for i in range(len(case["opts"])):
            yield dict(case, opts=case["opts"][:i] + case["opts"][i + 1:])
        if case["file"]:
            yield dict(case, file=False)
        if case["env"]:
            yield dict(case, env={})
        if case["sep"] != " ":
            yield dict(case, sep=" ")
