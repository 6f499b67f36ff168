from vcommon import OpsCheck
from opgen import *


class CHECK(OpsCheck):
    id = "C01"
    rule = ("generated scalar/vector add, sub, mul, div, fma, double->float casts and the 16 comparison predicates, "
            "with operands biased to ties, boundaries, sub-normals, cancellation and specials; non-trivial = an "
            "operand is not NaN and the result is not an operand; distinct by operands and result")
    assumptions = ["NaN payload and sign are not compared", "the round-to-nearest-even environment is not changed"]
    batch = 2500

    def setup(self, b, tier):
        b.backends(["ieee"])
        b.opserver(False)
        b.opserver(True)

    def njobs(self, tier):
        return 2000 if tier == "quick" else 16000

    def configs(self, r, i):
        opts = []
        if r.random() < 0.4:
            opts += r.sample(["--count-op", "--no-backend-name", "--print-new-line",
                              "--print-subnormal-normalized"], r.randint(1, 3))
        dbg = r.random() < 0.06
        if dbg:
            opts.append(r.choice(["--debug", "--debug-binary"]))
        be = " ".join(["libinterflop_ieee.so"] + opts)
        if r.random() < 0.15:
            be = "libinterflop_ieee.so;" + be
        return {"backends": be, "fcmp": r.random() < 0.5, "dbg": dbg}

    def gen_ops(self, r, cfg, n):
        kinds = BIN + ("fma", "cast") + (("cmp", "cmp") if cfg["fcmp"] else ())
        return mixed(r, n // 8 if cfg["dbg"] else n, kinds, vec=0.15)

    def verdict(self, cfg, ops, results):
        return check_ieee(cfg, ops, results)

    def nontrivial(self, cfg, o, x):
        f = fmt(o)
        if o.op == "cmp":
            return not is_nan(f, o.args[0])
        return any(not is_nan(f, a) for a in o.args) and x[0] not in o.args
