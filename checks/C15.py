from vcommon import OpsCheck
from opgen import *
import vprecmodel as vm


class CHECK(OpsCheck):
    id = "C15"
    rule = ("generated (mode, preset or range/precision, daz, ftz) x operations, vectors and double->float casts near "
            "the limits of the simulated formats; non-trivial = the result differs from the IEEE-754 result; distinct "
            "by configuration, operands and result")
    assumptions = ["sign of zero after underflow (not flush) and the tie at half of the smallest sub-normal are left open",
                   "a value below the normal range that rounds up to the smallest normal may or may not be flushed"]
    batch = 1500

    def setup(self, b, tier):
        b.backends(["vprec", "ieee"])
        b.opserver(False)

    def njobs(self, tier):
        return 2800 if tier == "quick" else 22400

    def configs(self, r, i):
        mode = ("ib", "ob", "full")[i % 3]
        p32, p64 = [8, 23], [11, 52]
        o = ["--mode=" + r.choice([mode, mode.upper()])]
        if mode == "ob" and r.random() < 0.3:
            o = []                                    # the default mode
        if r.random() < 0.35:
            ps = r.choice(sorted(vm.PRESETS))
            p32 = list(vm.PRESETS[ps])
            p64 = list(vm.PRESETS[ps])
            o.append("--preset=" + ps)
            if r.random() < 0.3:                      # a later option overrides the preset
                p32[1] = r.randint(1, 23)
                o.append("--precision-binary32=%d" % p32[1])
            if r.random() < 0.3:
                p64[0] = r.randint(2, 11)
                o.append("--range-binary64=%d" % p64[0])
        else:
            for nm, k in r.sample([("precision-binary32", 0), ("precision-binary64", 1), ("range-binary32", 2),
                                   ("range-binary64", 3)], r.randint(1, 4)):
                if k == 0:
                    p32[1] = v = r.randint(1, 23)
                elif k == 1:
                    p64[1] = v = r.randint(1, 52)
                elif k == 2:
                    p32[0] = v = r.randint(2, 8)
                else:
                    p64[0] = v = r.randint(2, 11)
                o.append("--%s=%d" % (nm, v))
        daz, ftz = r.random() < 0.25, r.random() < 0.25
        if daz:
            o.append("--daz")
        if ftz:
            o.append("--ftz")
        be = " ".join(["libinterflop_vprec.so"] + o)
        if r.random() < 0.1:
            be = "libinterflop_ieee.so;" + be
        return {"backends": be, "vmode": mode, "p": [p32, p64], "daz": daz, "ftz": ftz}

    def label(self, cfg):
        return cfg["vmode"] + (" daz" if cfg["daz"] else "") + (" ftz" if cfg["ftz"] else "") + (
            " preset" if "preset" in cfg["backends"] else "")

    def gen_ops(self, r, cfg, n):
        out = []
        for _ in range(n):
            ty = r.getrandbits(1)
            f = F64 if ty else F32
            rng, prec = cfg["p"][ty]
            op = r.choice(("add", "sub", "mul", "div", "fma", "cast"))
            if op == "cast":
                rr, pp = r.choice(cfg["p"])
                if r.random() < 0.5:
                    rr, pp = min(rr, 8), min(pp, 23)
                x = vm.gen_value(r, F64, rr, pp) if r.random() < 0.7 else gen_cast(r)
                out.append(Op("cast", 1, [x]))
                continue
            a = vm.gen_op_args(r, f, op, rng, prec)
            if op != "fma" and r.random() < 0.04:
                nl = r.choice([2, 4, 8, 16])
                cols = [a] + [vm.gen_op_args(r, f, op, rng, prec) for _ in range(nl - 1)]
                out.append(Op(op, ty, [cols[q][j] for j in range(2) for q in range(nl)], lanes=nl))
            else:
                out.append(Op(op, ty, a))
        return out

    def verdict(self, cfg, ops, results):
        for i, (o, res) in enumerate(zip(ops, results)):
            f = out_fmt(o)
            for k, (a, x) in enumerate(zip(lane_args(o), res)):
                if o.op == "cast":
                    al = vm.model_cast(a[0], cfg["vmode"], cfg["p"][0], cfg["p"][1], cfg["daz"], cfg["ftz"])
                else:
                    rng, prec = cfg["p"][o.ty]
                    al = vm.model(f, o.op, a, cfg["vmode"], rng, prec, cfg["daz"], cfg["ftz"])
                if not vm.ok(f, x, al):
                    yield i, "%s gave %s, the model allows %s (%s)" % (
                        describe(o, k), show(f, x), [z if z == "nan" else show(f, z) for z in al], cfg["backends"])
                    break

    def nontrivial(self, cfg, o, x):
        w = ieee_ref(o)[0]
        return w != "nan" and x[0] != w
