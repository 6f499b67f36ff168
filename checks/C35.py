"""C35: a back-end loaded through the interflop interface: configuration structure and pushed seeds."""
import random

import opgen as og
import progrun as pr
from vcommon import Check, Stats, HANG, h64

LIBS = {"mcaquad": "mca", "mcaint": "mca_int", "bitmask": "bitmask", "cancellation": "cancellation", "vprec": "vprec", "ieee": "ieee"}
PUSH = ("mcaquad", "mcaint", "cancellation", "bitmask")
KINDS = ("add", "sub", "mul", "div", "fma", "cast")
PRESETS = ["binary16", "binary32", "bfloat16", "tensorfloat", "fp24", "PXR24"]
OPT = {"p32": "precision-binary32", "p64": "precision-binary64", "r32": "range-binary32", "r64": "range-binary64", "emode": "error-mode",
       "eexp": "max-abs-error-exponent"}
FLAGS = {"daz", "ftz", "warning", "debug", "debug_binary", "no_backend_name", "print_new_line", "print_subnormal_normalized", "count_op"}


def cli(name, s):
    out = []
    for k, v in s.items():
        o = OPT.get(k, k).replace("_", "-")
        if name == "mcaint" and k in ("emode", "eexp"):
            continue
        if k in FLAGS:
            if v:
                out.append("--" + o + ("=1" if k == "warning" else ""))
        elif k == "preset":
            if v != "none":
                out.append("--preset=" + v)       # last: it replaces the formats
        else:
            out.append("--%s=%s" % (o, v))
    return "cli " + " ".join(out)


def conf(s):
    return "conf " + " ".join("%s=%s" % kv for kv in s.items())


class CHECK(Check):
    id = "C35"
    rule = ("a front-end of ours loads each back-end through the interflop interface (pre_init, then options or configuration structure, then init) and sends it "
            "generated operations; differential: the same settings by options and by structure give the same messages, settings displayed and results; "
            "metamorphic: operations between push_seed and pop_seed give results that depend on the pushed seed only (and on every bit of it), those outside the results of the run "
            "without these brackets. An evaluation is one operation; non-trivial = the back-end is configured to change results (neither the IEEE back-end nor mode ieee), distinct by case and position")
    assumptions = ["the settings are valid ones", "one thread", "pushed seeds are not nested (one copy of the state is kept)"]
    shrink_budget = 40.0

    def setup(self, b, tier):
        self.exe = b.hostfe()

    def plan(self, tier, seed):
        n = 9000 if tier == "quick" else 250000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    def gen(self, r):
        name = r.choice(["mcaquad", "mcaquad", "mcaint", "mcaint", "vprec", "vprec", "bitmask", "cancellation", "ieee"])
        seed = r.choice([0, 1, r.getrandbits(31), r.getrandbits(63)])
        fl = lambda: int(r.random() < 0.3)
        p32 = r.choice([r.randint(1, 23), r.randint(10, 23)])
        p64 = r.choice([r.randint(1, 52), r.randint(24, 52)])
        eexp = r.choice([r.randint(-60, 20), r.randint(-1000, 1000), -1, 0])
        emode = r.choice(["rel", "rel", "abs", "all"])
        if name in ("mcaquad", "mcaint"):
            s = {"seed": seed, "sparsity": r.choice(["1", "1", "0.5", "0.125", "0.01"]), "p32": p32 + r.choice([0, 0, 1, 5]), "p64": p64 + r.choice([0, 0, 1, 9]),
                 "mode": r.choice(["mca", "rr", "pb", "mca", "rr", "ieee"]), "emode": emode, "eexp": eexp, "daz": fl(), "ftz": fl()}
            if name == "mcaint":                  # no other precision, no absolute error
                s.update(p32=24, p64=53, emode="rel", eexp=112)
        elif name == "bitmask":
            s = {"seed": seed, "p32": p32, "p64": p64, "mode": r.choice(["full", "ib", "ob", "ieee"]), "operator": r.choice(["zero", "one", "rand", "rand"]),
                 "daz": fl(), "ftz": fl()}
        elif name == "cancellation":
            s = {"seed": seed, "tolerance": r.choice([0, 1, r.randint(0, 60)]), "warning": fl()}
        elif name == "vprec":
            s = {"p32": p32, "r32": r.randint(2, 8), "p64": p64, "r64": r.randint(2, 11), "mode": r.choice(["ib", "ob", "full", "full", "ieee"]), "emode": emode,
                 "eexp": eexp, "daz": fl(), "ftz": fl(), "preset": r.choice(["none", "none", r.choice(PRESETS)])}
        else:
            s = {k: fl() for k in ("debug", "debug_binary", "no_backend_name", "print_new_line", "print_subnormal_normalized", "count_op")}
        steps = []
        if name in PUSH and r.random() < 0.15:
            # 60 noisy operations after each of two seeds that differ by one bit or more
            s.update({"mcaquad": {"sparsity": "1", "mode": r.choice(["mca", "rr", "pb"]), "emode": "rel", "p32": 12, "p64": 30}, "mcaint": {"sparsity": "1", "mode": r.choice(["mca", "rr", "pb"])},
                      "bitmask": {"operator": "rand", "mode": r.choice(["full", "ib", "ob"]), "p32": 10, "p64": 30}, "cancellation": {"tolerance": r.randint(0, 10)}}[name])
            one, oth, pi = ("3f800123", "3f800000", "40490fdb") if r.random() < 0.5 else ("3ff0000000123456", "3ff0000000000000", "400921fb54442d18")
            one = ["o", "sub" if name == "cancellation" else r.choice(["div", "mul"]), "f" if len(one) == 8 else "d", one, oth if name == "cancellation" else pi]
            s1 = r.getrandbits(64)
            s2 = s1 ^ (1 << r.randrange(64)) if r.random() < 0.7 else r.getrandbits(64)
            return {"name": name, "set": s, "distinct": True, "steps": [one] * r.randrange(3) + [{"push": s1, "body": [one] * 60}, {"push": s2, "body": [one] * 60}]}
        n = r.choice([5, 20, 60])
        kinds = ("sub", "sub", "add") if name == "cancellation" else KINDS
        o = [self.op(r, kinds) for _ in range(n)]
        if name in PUSH and r.random() < 0.6:
            body = [self.op(r, kinds) for _ in range(r.randint(1, 8))]
            s1, s2 = r.choice([0, 1, r.getrandbits(63)]), r.getrandbits(62) | 1 << 62
            at = sorted(r.sample(range(n + 1), min(n + 1, r.randint(2, 5))))
            prev = 0
            for k, a in enumerate(at):
                steps += o[prev:a]
                steps.append({"push": s2 if k == 2 else s1, "body": body})
                prev = a
            steps += o[prev:]
        else:
            steps = o
        return {"name": name, "set": s, "steps": steps}

    def op(self, r, kinds):
        o = og.gen_scalar(r, kinds)
        return ["o", o.op, "d" if o.ty else "f"] + ["%x" % a for a in o.args]

    def script(self, first, steps):
        out = [first, "init"]
        for s in steps:
            if isinstance(s, dict):
                out += ["push %d" % s["push"]] + [" ".join(x) for x in s["body"]] + ["pop"]
            else:
                out.append(" ".join(s))
        return "\n".join(out + ["end"]) + "\n"

    def go(self, b, name, first, steps):
        return pr.call([self.exe, "libinterflop_%s.so" % LIBS[name], name], "/", b.env(VFC_BACKENDS_COLORED_LOGGER="False"), 30, self.script(first, steps).encode())

    def evaluate(self, b, case, st=None, tag=None):
        name, s, steps = case["name"], case["set"], case["steps"]
        x = self.go(b, name, cli(name, s), steps)
        y = self.go(b, name, conf(s), steps)
        if x.timeout or y.timeout:
            return HANG
        for z, how in ((x, "options"), (y, "structure")):
            if z.rc or not z.out.endswith("end\n"):
                return "%s configured by %s %s: status %s, %s" % (name, how, s, z.rc, z.err[-300:])

        def err(z):
            # without an absolute error its exponent is not a setting
            return sorted(l for l in z.err.split("\n") if not (s.get("emode") == "rel" and "max-abs-error-exponent" in l))
        if err(x) != err(y):
            d = [(p, q) for p, q in zip(err(x), err(y)) if p != q][:1] or [(err(x)[-3:], err(y)[-3:])]
            return "%s %s: the messages differ: by options %r, by structure %r" % (name, s, d[0][0], d[0][1])
        if x.out != y.out:
            flat = [o for t in steps for o in (t["body"] if isinstance(t, dict) else [t])]
            for o, p, q in zip(flat, x.out.split("\n"), y.out.split("\n")):
                if p != q:
                    return "%s %s: %s gives %s configured by options and %s configured by structure" % (name, s, " ".join(o), p, q)
        res = x.out.split("\n")
        if st is not None:
            st.evals += len(res) - 2
            plain = [t for t in steps if not isinstance(t, dict)]
            for i in range(len(res) - 2 if name != "ieee" and s.get("mode") != "ieee" else 0):
                st.nt.append(h64((tag, i)))
            st.cls(name + (" with pushed seeds" if len(plain) != len(steps) else ""))
        if any(isinstance(t, dict) for t in steps):
            inner, outer, k = [], [], 0
            for t in steps:
                m = len(t["body"]) if isinstance(t, dict) else 1
                (inner.append((t["push"], res[k:k + m])) if isinstance(t, dict) else outer.append(res[k]))
                k += m
            ref = self.go(b, name, cli(name, s), [t for t in steps if not isinstance(t, dict)])
            want = ref.out.split("\n")[:len(outer)]
            if outer != want:
                i = [p == q for p, q in zip(outer, want)].index(False)
                return "%s %s: outside of push_seed/pop_seed the operation %d gives %s instead of %s without them" % (name, s, i, outer[i], want[i])
            seen = {}
            for sd, rs in inner:
                if seen.setdefault(sd, rs) != rs:
                    return "%s %s: the same operations after push_seed(%d) give %s and then %s" % (name, s, sd, seen[sd], rs)
            if case.get("distinct") and len(seen) > 1 and len({tuple(v) for v in seen.values()}) == 1:
                return "%s %s: the noises after push_seed are the same for the seeds %s" % (name, s, list(seen))
            body = [t for t in steps if isinstance(t, dict)]
            if len({t["push"] for t in body}) == 1:
                # an other run, with an other seed of its own, and nothing before
                s2 = dict(s, seed=(s["seed"] ^ 0x5A5A5A) & (2**63 - 1))
                alt = self.go(b, name, cli(name, s2), body[:1])
                if alt.out.split("\n")[:-2] != inner[0][1]:
                    return "%s %s: after push_seed(%d), the results depend on something else than this seed: %s and %s" % (
                        name, s, body[0]["push"], inner[0][1], alt.out.split("\n")[:-2])
        return None

    def run_job(self, b, job):
        st = Stats()
        case = self.gen(random.Random(job["seed"]))
        msg = self.evaluate(b, case, st, job["seed"])
        st.samples.append({"name": case["name"], "set": case["set"], "steps": case["steps"][:3]})
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(b, case)

    def reductions(self, case):
        st = case["steps"]
        n = len(st)
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                if st[:i] + st[i + k:]:
                    yield dict(case, steps=st[:i] + st[i + k:])
            k //= 2
        for i, t in enumerate(st):
            if isinstance(t, dict) and not case.get("distinct") and len(t["body"]) > 1:
                for j in range(len(t["body"])):
                    b2 = t["body"][:j] + t["body"][j + 1:]
                    yield dict(case, steps=[dict(u, body=b2) if isinstance(u, dict) else u for u in st])
                break
