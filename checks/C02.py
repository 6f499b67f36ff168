from vcommon import OpsCheck
from opgen import *


class CHECK(OpsCheck):
    id = "C02"
    rule = ("generated scalar/vector operations x configurations that ask for no perturbation (ieee mode of every "
            "back-end with any other option, native VPREC format, bitmask at full precision, cancellation on "
            "operations that cannot cancel); non-trivial = result is not an operand and not NaN; distinct by "
            "configuration, operands and result")
    assumptions = ["NaN payloads are not compared", "VPREC: the sign of a cast that underflows to zero is unspecified", "denormal flushing options are not combined (see C11)"]

    batch = 2500

    def setup(self, b, tier):
        b.backends()
        b.opserver(False)

    def njobs(self, tier):
        return 1920 if tier == "quick" else 15360

    def one(self, r):
        k = r.randrange(7)
        if k <= 3:
            lib = ("mca", "mca_int", "bitmask", "vprec")[k]
            o = ["--mode=" + r.choice(["ieee", "IEEE"])]
            if lib in ("mca", "bitmask", "vprec") and r.random() < 0.6:
                o.append("--precision-binary32=%d" % r.randint(1, 23))
                o.append("--precision-binary64=%d" % r.randint(1, 52))
            if lib == "vprec" and r.random() < 0.5:
                o += ["--range-binary32=%d" % r.randint(2, 8), "--range-binary64=%d" % r.randint(2, 11)]
            if lib == "vprec" and r.random() < 0.3:
                o += ["--error-mode=" + r.choice(["rel", "abs", "all"]), "--max-abs-error-exponent=%d" % r.randint(-50, 5)]
            if lib == "mca" and r.random() < 0.4:
                o += ["--error-mode=" + r.choice(["abs", "all", "rel"]), "--max-abs-error-exponent=%d" % r.randint(-50, 10)]
            if lib in ("mca", "mca_int") and r.random() < 0.3:
                o.append("--sparsity=%s" % r.choice(["0.5", "0.01", "1"]))
            if lib != "vprec" and r.random() < 0.4:
                o.append("--seed=%d" % r.getrandbits(20))
            if lib == "bitmask" and r.random() < 0.5:
                o.append("--operator=" + r.choice(["zero", "one", "rand"]))
            r.shuffle(o)
            return lib, o, BIN + ("fma", "cast")
        if k == 4:
            o = []
            if r.random() < 0.6:
                o = ["--precision-binary32=23", "--precision-binary64=52", "--range-binary32=8", "--range-binary64=11"]
                r.shuffle(o)
            if r.random() < 0.7:
                o.append("--mode=" + r.choice(["ib", "ob", "full"]))
            return "vprec", o, BIN + ("fma", "cast")
        if k == 5:
            o = ["--precision-binary32=24", "--precision-binary64=53"]
            r.shuffle(o)
            o += ["--mode=" + r.choice(["ib", "ob", "full"]), "--operator=" + r.choice(["zero", "one", "rand"])]
            if r.random() < 0.3:
                o = o[2:]            # the default precision keeps every bit
            return "bitmask", o, BIN + ("fma",)
        return "cancellation", (["--tolerance=%d" % r.randint(0, 60)] if r.random() < 0.7 else []) + (
            ["--seed=%d" % r.getrandbits(16)] if r.random() < 0.5 else []), ("mul", "div", "fma", "cast")

    def configs(self, r, i):
        lib, o, kinds = self.one(r)
        be = " ".join(["libinterflop_%s.so" % lib] + o)
        if r.random() < 0.15:
            be = "libinterflop_ieee.so;" + be
        return {"backends": be, "kinds": list(kinds)}

    def label(self, cfg):
        return cfg["backends"].split(";")[-1].split(" --prec")[0].split(" --")[0]

    def gen_ops(self, r, cfg, n):
        return mixed(r, n, tuple(cfg["kinds"]), vec=0.05)

    def verdict(self, cfg, ops, results):
        vp = "vprec" in cfg["backends"]
        for i, msg in check_ieee(cfg, ops, results):
            # VPREC: the sign of a cast that underflows to zero is unspecified (as in C14)
            if vp and ops[i].op == "cast" and results[i][0] == 0 and ieee_ref(ops[i])[0] == zero(F32, 1):
                continue
            # ... and so is the direction of the tie at half its smallest sub-normal
            if vp and ops[i].op == "cast" and ops[i].args[0] & ~(1 << 63) == 0x3690000000000000:
                continue
            yield i, msg

    def nontrivial(self, cfg, o, x):
        return x[0] not in o.args and not is_nan(out_fmt(o), x[0])
