from vcommon import OpsCheck
from opgen import *
import vprecmodel as vm


class CHECK(OpsCheck):
    id = "C14"
    rule = ("every (range, precision) pair x operations whose result is biased to the ties, the overflow threshold and "
            "the sub-normals of the simulated format; output bound mode; non-trivial = the rounded result differs from "
            "the IEEE-754 result; distinct by configuration, operands and result")
    assumptions = ["sign of zero after underflow and the tie at half of the smallest sub-normal are left open",
                   "ranges of at least 2 bits (1 bit has no finite normal numbers)"]
    mode = "ob"
    batch = 2000

    def setup(self, b, tier):
        b.backends(["vprec", "ieee"])
        b.opserver(False)

    def njobs(self, tier):
        return 2800 if tier == "quick" else 22400

    def configs(self, r, i):
        # sweep the formats, then random
        ty = i & 1
        n32 = 7 * 23
        k = i >> 1
        r32, p32 = 2 + (k % 7), 1 + (k // 7) % 23
        r64, p64 = 2 + (k % 10), 1 + (k // 10) % 52
        if k > n32 and r.random() < 0.5:
            r32, p32, r64, p64 = r.randint(2, 8), r.randint(1, 23), r.randint(2, 11), r.randint(1, 52)
        o = ["--precision-binary32=%d" % p32, "--precision-binary64=%d" % p64, "--range-binary32=%d" % r32,
             "--range-binary64=%d" % r64, "--mode=ob"]
        if ty and r.random() < 0.5:
            o = [x for x in o if "binary32" not in x]
        r.shuffle(o)
        return {"backends": " ".join(["libinterflop_vprec.so"] + o), "ty": ty, "mode": "seq",
                "p": [[r32, p32], [r64, p64]]}

    def label(self, cfg):
        return "range %d" % cfg["p"][cfg["ty"]][0]

    def gen_ops(self, r, cfg, n):
        f = F64 if cfg["ty"] else F32
        rng, prec = cfg["p"][cfg["ty"]]
        out = []
        for _ in range(n):
            op = r.choice(("add", "sub", "mul", "div", "mul", "fma"))
            out.append(Op(op, cfg["ty"], vm.gen_op_args(r, f, op, rng, prec)))
        return out

    def verdict(self, cfg, ops, results):
        for i, (o, res) in enumerate(zip(ops, results)):
            f = fmt(o)
            rng, prec = cfg["p"][o.ty]
            al = vm.model(f, o.op, o.args, "ob", rng, prec, False, False)
            if not vm.ok(f, res[0], al):
                yield i, "%s gave %s, correct rounding to (range %d, precision %d) allows %s (IEEE result %s)" % (
                    describe(o), show(f, res[0]), rng, prec, [x if x == "nan" else show(f, x) for x in al],
                    ieee_ref(o)[0] if ieee_ref(o)[0] == "nan" else show(f, ieee_ref(o)[0]))

    def nontrivial(self, cfg, o, x):
        w = ieee_ref(o)[0]
        return w != "nan" and x[0] != w
