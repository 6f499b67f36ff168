"""C18: every operation reaches every back-end of the chain, once, in order, with its operands; the last result wins."""
import os
import random
import shutil
import tempfile

import progrun as pr
from ops import run_ops
from vcommon import OpsCheck, HANG
from opgen import *

KIND = {"add": 0, "sub": 1, "mul": 2, "div": 3, "fma": 4, "cast": 5, "cmp": 6}
SLOTS = ["%s_%s" % (o, t) for o in ("add", "sub", "mul", "div", "fma", "cmp") for t in ("float", "double")] + ["cast_double_to_float"]
LIBS = ["libinterflop_vlog.so", "libinterflop_vlog2.so", "libinterflop_vlog3.so"]


def h64(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return h


def slot(o):
    return "cast_double_to_float" if o.op == "cast" else "%s_%s" % (o.op, "double" if o.ty else "float")


class CHECK(OpsCheck):
    id = "C18"
    rule = ("generated chains of 1 to 17 recording back-ends that implement generated subsets of the operations and shift their results, given by "
            "VFC_BACKENDS or VFC_BACKENDS_FROM_FILE with generated spacing and arguments; the calls received by each back-end, its arguments, the results, "
            "the finalisation and the environment of a child process are predicted. Non-trivial = operation executed under a chain of 2 or more back-ends")
    assumptions = ["back-end names without spaces or semicolons"]
    batch = 60

    def setup(self, b, tier):
        b.logbackend()
        for n in LIBS[1:]:
            p = b.p("lib", n)
            if not os.path.exists(p):
                shutil.copy(b.p("lib", LIBS[0]), p + ".tmp")
                os.rename(p + ".tmp", p)
        b.opserver(False)
        b.opserver(True)

    def njobs(self, tier):
        return 10000 if tier == "quick" else 200000

    def configs(self, r, i):
        n = r.choice([1, 1, 2, 2, 3, 3, 4, 6, 10, 15, 16, 16, 17])
        fcmp = r.random() < 0.4
        chain = []
        for k in range(n):
            x = r.random()
            skip = [] if x < 0.4 else [s for s in SLOTS + ["user_call", "finalize"] if r.random() < r.choice([0.2, 0.8])]
            extra = []
            for _ in range(r.choice([0, 0, 1, 3, 10])):
                extra.append("".join(r.choice("abcXYZ019-_=./:,+%$'\"\\#") for _ in range(r.randint(1, 12))))
            chain.append({"lib": r.choice(LIBS), "ulp": r.choice([0, 0, 1, -1, 2, 1 << 16]), "skip": skip, "extra": extra})
        if r.random() < 0.5:
            c = r.choice(chain)
            c["skip"] = [s for s in c["skip"] if s in ("user_call", "finalize")]
        if i % 12 == 5:
            chain = chain[:3]
            c = r.choice(chain)
            c["extra"] = ["a%d" % k for k in range(r.choice([240, 251, 252, 253, 254, 260, 400]))]
        return {"chain": chain, "fcmp": fcmp, "seed": r.getrandbits(30),
                "via": r.choice(["env", "env", "file", "both"]), "fmt": r.random() < 0.4, "child": r.random() < 0.15, "mode": r.choice(["seq", "seq", "par"])}

    def tokens(self, c, k):
        t = [c["lib"], "--tag=%d" % (k + 1)]
        if c["ulp"]:
            t.append("--ulp=%d" % c["ulp"])
        if c["skip"]:
            t.append("--skip=" + ",".join(c["skip"]))
        return t + c["extra"]

    def text(self, cfg):
        r = random.Random(cfg["seed"])
        parts = []
        for k, c in enumerate(cfg["chain"]):
            s = ""
            for t in self.tokens(c, k):
                s += (" " if s else "") + (" " * r.randint(0, 2) if cfg["fmt"] else "") + t
            parts.append(s + (" " * r.randint(0, 2) if cfg["fmt"] else ""))
        s = ";".join(parts)
        return s + (r.choice(["", ";"]) if cfg["fmt"] else "")

    def gen_ops(self, r, cfg, n):
        kinds = BIN + ("fma", "cast") + (("cmp",) if cfg["fcmp"] else ())
        out = []
        for _ in range(n):
            if r.random() < 0.1:
                out.append(Op("call", 0, [r.getrandbits(8)], aux=r.choice([2, 3, 4, 5])))
                continue
            o = gen_scalar(r, kinds)
            if o.op in BIN and r.random() < 0.2:
                o = vectorise(r, o, kinds)
            out.append(o)
        # NaN payloads depend on the instruction that made them
        out = [o for o in out if o.op == "call" or not any(is_nan(fmt(o), a) for a in o.args)] or [Op("add", 1, [0, 0])]
        if cfg["mode"] == "par":
            for i, o in enumerate(out):
                o.thr = i % 4
        return out

    def eval_case(self, b, cfg, ops):
        chain = cfg["chain"]
        text = self.text(cfg)
        d = tempfile.mkdtemp(dir="/dev/shm")
        try:
            env = {"VLOG": os.path.join(d, "log")}
            f = os.path.join(d, "list")
            if cfg["via"] != "env":
                env["VFC_BACKENDS_FROM_FILE"] = f
                with open(f, "w") as h:
                    if cfg["via"] == "both":
                        h.write("libinterflop_vlog.so --tag=99\n")
                    else:
                        h.write(text + ["\n", "", "\nlibinterflop_vlog.so --tag=98\n"][cfg["seed"] % 3])
            be = None if cfg["via"] == "file" else text
            res = run_ops(b, be, ops, mode=cfg["mode"], fcmp=cfg["fcmp"], env=env, quiet=False)
            if res.timeout:
                return res, [(None, HANG)]
            m = self.compare(b, cfg, ops, res, env["VLOG"], text)
            if m is None and cfg["child"] and res.results is not None:
                env["VLOG"] = "/dev/null"
                e = b.env()
                e.update(env)
                if be is not None:
                    e["VFC_BACKENDS"] = be
                x = pr.call([b.p("bin", "opserver_cmp" if cfg["fcmp"] else "opserver"), "env"], d, e)
                want = ([be] if be is not None else []) + ([f] if cfg["via"] != "env" else [])
                if x.rc or x.out.split("\n")[:-1] != want:
                    m = (None, "the back-end variables of a child process are %r instead of %r (status %s)" % (x.out.split("\n")[:-1], want, x.rc))
            return res, [m] if m else []
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def compare(self, b, cfg, ops, res, log, text):
        chain = cfg["chain"]
        need = [s for s in SLOTS if cfg["fcmp"] or not s.startswith("cmp")]
        missing = [s for s in need if all(s in c["skip"] for c in chain)]
        many = len(chain) > 16
        args = max(len(self.tokens(c, k)) for k, c in enumerate(chain))
        if missing or many or args >= 256:
            if res.rc == 0 or res.rc is None or res.rc < 0:
                return None, "the program ended with status %s although %s (%s)" % (
                    res.rc, "no back-end implements %s" % missing if missing else "%d back-ends are given" % len(chain) if many else
                    "a back-end has %d arguments" % args, text[:300])
            return None
        if res.results is None:
            if args == 255:
                return None
            return None, "the program ended with status %s: %s (%s)" % (res.rc, res.err.strip()[-300:], text[:300])
        recs = pr.read_log(log)
        per = {}
        for x in recs:
            per.setdefault(x[3], []).append(x)
        if set(per) - set(range(1, len(chain) + 1)):
            return None, "records of back-ends that are not in the chain: %s (%s)" % (sorted(set(per)), text[:300])
        out = []
        for i, o in enumerate(ops):
            if o.op == "call":
                continue
            n = o.lanes
            last = [c for c in chain if slot(o) not in c["skip"]][-1]
            fo = out_fmt(o)
            for l in range(n):
                a = [o.args[l + n * j] for j in range(len(o.args) // n)]
                w = ieee_ref(Op(o.op, o.ty, a, aux=o.aux))[0]
                g = res.results[i][l]
                if w == "nan":
                    # a shifted NaN may be anything
                    if last["ulp"] or is_nan(fo, g):
                        continue
                elif o.op != "cmp":
                    w = (w + last["ulp"]) & ((1 << fo.w) - 1)
                if g != w:
                    return i, "%s gives %s, the last back-end of the chain that implements it gives %s (%s)" % (
                        describe(o, l), show_out(o, g), w if w == "nan" else show_out(o, w), text[:300])
        for k, c in enumerate(chain):
            want = []
            for o in ops:
                n = o.lanes
                if o.op == "call":
                    if "user_call" not in c["skip"]:
                        want.append((7, 0, 0, o.aux, o.args[0], 0))
                elif slot(o) not in c["skip"]:
                    for l in range(n):
                        a = [o.args[l + n * j] for j in range(len(o.args) // n)] + [0, 0]
                        want.append((KIND[o.op], o.ty if o.op != "cast" else 1, o.aux if o.op == "cmp" else 0, a[0], a[1], a[2]))
            got = [(x[0], x[1], x[2], x[5], x[6], x[7]) for x in per.get(k + 1, [])]
            cli = [x for x in got if x[0] == 13]
            fin = [i for i, x in enumerate(got) if x[0] == 12]
            t = self.tokens(c, k)
            whole = "".join(x + "\n" for x in t)
            if len(cli) != 1 or cli[0][3] != len(t) or cli[0][5] != 1 or (len(whole) < 1900 and cli[0][4] != h64(whole)):
                return None, "back-end %d received %s arguments, given: %d or altered (%s)" % (k + 1, [x[3] for x in cli], len(t), text[:300])
            if got[0][0] != 13:
                return None, "back-end %d received operations before its arguments" % (k + 1)
            if fin != ([] if "finalize" in c["skip"] else [len(got) - 1]):
                return None, "back-end %d was finalised at records %s of %d (%s)" % (k + 1, fin, len(got), text[:300])
            got = [x for x in got if x[0] not in (12, 13)]
            if cfg["mode"] == "par":
                got.sort()
                want.sort()
            if got != want:
                j = [j for j in range(max(len(got), len(want))) if j >= len(got) or j >= len(want) or got[j] != want[j]][0]
                return None, "back-end %d of %d received %d calls, expected %d; call %d is %s instead of %s (%s)" % (
                    k + 1, len(chain), len(got), len(want), j, got[j] if j < len(got) else None, want[j] if j < len(want) else None, text[:300])
        if cfg["mode"] == "seq" and len({c["lib"] for c in chain}) == 1:
            # one library: its records are in the order of the calls
            seq = [x[3] for x in recs if x[0] < 7]
            want = []
            for o in ops:
                if o.op != "call":
                    want += [k + 1 for k, c in enumerate(chain) if slot(o) not in c["skip"]] * o.lanes
            if seq != want:
                return None, "order in which the back-ends are called: %s..., expected %s... (%s)" % (seq[:12], want[:12], text[:300])
        return None

    def label(self, cfg):
        return "%d back-ends, %s" % (len(cfg["chain"]), cfg["via"])

    def verdict(self, cfg, ops, results):
        return []

    def nontrivial(self, cfg, o, x):
        return len(cfg["chain"]) > 1

    def reductions(self, case):
        cfg = case["cfg"]
        for x in OpsCheck.reductions(self, case):
            yield x
        ch = cfg["chain"]
        if len(ch) > 1:
            for i in range(len(ch)):
                yield dict(case, cfg=dict(cfg, chain=ch[:i] + ch[i + 1:]))
        for i, c in enumerate(ch):
            for k, v in (("extra", []), ("skip", []), ("ulp", 0)):
                if c[k] != v:
                    yield dict(case, cfg=dict(cfg, chain=ch[:i] + [dict(c, **{k: v})] + ch[i + 1:]))
        for k, v in (("via", "env"), ("fmt", False), ("mode", "seq"), ("child", False)):
            if cfg[k] != v:
                yield dict(case, cfg=dict(cfg, **{k: v}))
