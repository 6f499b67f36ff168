"""C28: threads do not see each other through the back-ends."""
import re

from ops import run_ops
from vcommon import OpsCheck, HANG
from opgen import *


class CHECK(OpsCheck):
    id = "C28"
    repeat = 0
    rule = ("generated programs of 2-60 threads, each with operations of its own, under deterministic back-ends and chains: with all threads running "
            "concurrently every operation has the result it has when the threads run one after the other, and the counts of --count-op are exact. "
            "Non-trivial = operation with an inexact or special result; distinct by configuration, operands and result")
    assumptions = ["the schedule of concurrent threads is the one of the operating system; a failing program is retried 12 times before it is dropped"]
    batch = 9000
    shrink_budget = 20

    def setup(self, b, tier):
        b.backends()
        b.opserver(False)

    def njobs(self, tier):
        return 520 if tier == "quick" else 5000

    def configs(self, r, i):
        def one():
            k = r.randrange(6)
            if k == 0:
                return "libinterflop_ieee.so"
            if k == 1:
                return "libinterflop_vprec.so --mode=%s --precision-binary32=%d --precision-binary64=%d --range-binary32=%d --range-binary64=%d%s" % (
                    r.choice(["ib", "ob", "full"]), r.randint(1, 23), r.randint(1, 52), r.randint(3, 8), r.randint(3, 11),
                    r.choice(["", " --daz", " --ftz", " --error-mode=all --max-abs-error-exponent=-10"]))
            if k == 2:
                return "libinterflop_bitmask.so --operator=%s --mode=%s --precision-binary32=%d --precision-binary64=%d%s" % (
                    r.choice(["zero", "one"]), r.choice(["ib", "ob", "full"]), r.randint(1, 22), r.randint(1, 51), r.choice(["", " --daz --ftz"]))
            if k == 3:
                return "libinterflop_mca%s.so --mode=ieee%s" % (r.choice(["", "_int"]), r.choice(["", " --daz", " --ftz"]))
            if k == 4:
                return "libinterflop_cancellation.so --tolerance=100000"
            return "libinterflop_mca.so --mode=mca --precision-binary32=200 --precision-binary64=200"
        be = one()
        count = r.random() < 0.3
        if count:
            be = "libinterflop_ieee.so --count-op" + ("" if r.random() < 0.5 else ";" + be if "ieee.so" not in be else "")
        return {"backends": be, "count": count, "nt": r.choice([2, 3, 4, 8, 8, 16, 60]), "fcmp": False}

    def label(self, cfg):
        return ";".join(x.split()[0].replace("libinterflop_", "") for x in cfg["backends"].split(";")) + (" count" if cfg["count"] else "")

    def gen_ops(self, r, cfg, n):
        nt = cfg["nt"]
        per = [mixed(r, max(60, n // nt // 12), BIN + ("fma", "cast"), vec=0.08) for _ in range(nt)]
        out = []
        for k in range(nt):
            for j in range(max(60, n // nt)):
                o = per[k][j % len(per[k])]
                out.append(Op(o.op, o.ty, o.args, lanes=o.lanes, aux=o.aux, thr=k))
        return out

    def once(self, b, cfg, ops, ref):
        par = run_ops(b, cfg["backends"], ops, mode="par")
        if par.timeout:
            return None, HANG
        if par.results is None:
            return None, "with concurrent threads the process ended with status %s; stderr: %s (%s)" % (par.rc, par.err.strip()[-300:], cfg["backends"])
        for i, (o, x, y) in enumerate(zip(ops, par.results, ref.results)):
            f = out_fmt(o)
            for k, (u, v) in enumerate(zip(x, y)):
                if u != v and not (is_nan(f, u) and is_nan(f, v)):
                    return i, "thread %d of %d: %s gives %s when the threads run concurrently, %s when they run one after the other (%s)" % (
                        o.thr, cfg["nt"], describe(o, k), show_out(o, u), show_out(o, v), cfg["backends"])
        if cfg["count"]:
            want = dict.fromkeys(("mul", "div", "add", "sub", "fma"), 0)
            for o in ops:
                if o.op in want:
                    want[o.op] += o.lanes
            got = {k: int(v) for k, v in re.findall(r"\t (\w+)=(\d+)", par.err)}
            if got != want:
                return None, "operations executed by %d threads: %s, counted: %s" % (cfg["nt"], want, got)
        return None

    def eval_case(self, b, cfg, ops, n=1):
        ref = run_ops(b, cfg["backends"], ops)
        if ref.timeout:
            return ref, [(None, HANG)]
        if ref.results is None:
            return ref, [(None, "process ended with status %s; stderr: %s" % (ref.rc, ref.err.strip()[-300:]))]
        for _ in range(n):
            m = self.once(b, cfg, ops, ref)
            if m:
                return ref, [m]
        return ref, []

    def judge(self, b, case):
        _, bad = self.eval_case(b, case["cfg"], [Op.from_json(j) for j in case["ops"]], 12)
        return bad[0][1] if bad else None

    def reductions(self, case):
        ops, cfg = case["ops"], case["cfg"]
        ths = sorted({o["thr"] for o in ops})
        if len(ths) > 2:
            for h in (ths[:len(ths) // 2], ths[len(ths) // 2:]):
                yield {"cfg": cfg, "ops": [o for o in ops if o["thr"] in h]}

    def mkcase(self, cfg, ops, idx):
        return {"cfg": cfg, "ops": [o.to_json() for o in ops]}

    def verdict(self, cfg, ops, results):
        return []

    def nontrivial(self, cfg, o, x):
        return x[0] not in (0, o.args[0], o.args[-1])
