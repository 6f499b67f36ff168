from vcommon import OpsCheck
from opgen import *
from C09 import stochastic


class CHECK(OpsCheck):
    id = "C27"
    repeat = 0
    rule = ("generated programs mixing scalar and 2/4/8/16-lane vector operations and comparisons, run once as is and "
            "once with every vector operation unrolled into scalar operations lane by lane, same seeded configuration; "
            "an evaluation is one operation; non-trivial = vector operation whose lanes have distinct results; "
            "distinct by configuration, operands and result")
    assumptions = ["lanes are processed in increasing order (only matters for seeded stochastic back-ends)"]
    batch = 500

    def setup(self, b, tier):
        b.backends()
        b.opserver(False)
        b.opserver(True)

    def njobs(self, tier):
        return 2400 if tier == "quick" else 19200

    def configs(self, r, i):
        k = i % 5
        fcmp = False
        if k == 0:
            be = r.choice(["libinterflop_ieee.so", "libinterflop_ieee.so --count-op"])
            fcmp = True
        elif k == 1:
            be = "libinterflop_vprec.so --mode=%s --precision-binary32=%d --precision-binary64=%d --range-binary32=%d " \
                "--range-binary64=%d" % (r.choice(["ib", "ob", "full"]), r.randint(1, 23), r.randint(1, 52),
                                         r.randint(2, 8), r.randint(2, 11))
        else:
            be = stochastic(r, r.randrange(4))[0] + " --seed=%d" % r.getrandbits(30)
        if r.random() < 0.15:
            be = "libinterflop_ieee.so;" + be
        elif r.random() < 0.15:
            be = be + ";libinterflop_mca.so --seed=4"
            fcmp = False
        return {"backends": be, "fcmp": fcmp}

    def label(self, cfg):
        return " ".join(x.split()[0].replace("libinterflop_", "") for x in cfg["backends"].split(";"))

    def gen_ops(self, r, cfg, n):
        kinds = BIN + (("cmp", "cmp") if cfg["fcmp"] else ())
        out = []
        for _ in range(n):
            o = gen_scalar(r, kinds)
            if r.random() < 0.75:
                o = vectorise(r, o, kinds)
            if "cancellation" in cfg["backends"] and o.op in BIN and r.random() < 0.7:
                f = fmt(o)
                a = [f2b(r.uniform(1, 2), f) for _ in range(o.lanes)]
                o = Op("sub", o.ty, a + [x ^ r.getrandbits(f.mant - 4) for x in a], lanes=o.lanes)
            out.append(o)
        return out

    def eval_case(self, b, cfg, ops):
        A = self.execute(b, cfg, ops)
        if A.results is None:
            return super().eval_case(b, cfg, ops)
        flat = []
        for o in ops:
            for a in lane_args(o):
                flat.append(Op(o.op, o.ty, a, aux=o.aux))
        B = self.execute(b, cfg, flat)
        if B.results is None:
            return super().eval_case(b, cfg, flat)
        bad = []
        j = 0
        for i, o in enumerate(ops):
            f = out_fmt(o)
            for k, x in enumerate(A.results[i]):
                w = B.results[j][0]
                j += 1
                if o.op == "cmp":
                    good = bool(x) == bool(w)
                    if o.lanes > 1 and x not in (0, 1, 0xFFFFFFFFFFFFFFFF):
                        good = False
                else:
                    good = x == w or (is_nan(f, x) and is_nan(f, w))
                if not good:
                    bad.append((i, "%s gave %s in a vector operation, %s as a scalar operation (%s)" % (
                        describe(o, k), show_out(o, x), show_out(o, w), cfg["backends"])))
                    break
        return A, bad

    def verdict(self, cfg, ops, results):
        return []

    def reductions(self, case):
        for c in super().reductions(case):
            yield c
        ops = case["ops"]
        if len(ops) == 1 and ops[0]["lanes"] > 2:
            o = ops[0]
            n = o["lanes"]
            h = n // 2
            for s in (0, h):
                args = [x for k in range(len(o["args"]) // n) for x in o["args"][k * n + s:k * n + s + h]]
                yield {"cfg": case["cfg"], "ops": [dict(o, lanes=h, args=args)]}

    def nontrivial(self, cfg, o, x):
        return o.lanes > 1 and len(set(x)) > 1
