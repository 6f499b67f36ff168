from vcommon import OpsCheck
from opgen import *


def flush(f, u, keep_sign):
    if is_sub(f, u):
        return (u & (1 << (f.w - 1))) if keep_sign else 0
    return u


class CHECK(OpsCheck):
    id = "C11"
    rule = ("generated back-end configurations (mca, mca_int, bitmask; every mode; fixed seed) with --daz and/or --ftz x "
            "operations and casts with sub-normal operands and results, compared with the same seeded run without the "
            "options on operands flushed beforehand; non-trivial = an operand or the unflushed result is sub-normal; "
            "distinct by configuration, operands and result")
    assumptions = ["the sign of a flushed zero is left open", "VPREC's flags are judged in C15"]
    batch = 1200

    def setup(self, b, tier):
        b.backends(["mca", "mca_int", "bitmask", "ieee"])
        b.opserver(False)

    def njobs(self, tier):
        return 2240 if tier == "quick" else 17920

    def configs(self, r, i):
        lib = ("mca", "mca_int", "bitmask")[i % 3]
        o = []
        if lib == "bitmask":
            o.append("--mode=" + r.choice(["ieee", "ib", "ob", "full"]))
            o.append("--operator=" + r.choice(["zero", "one", "rand"]))
        else:
            o.append("--mode=" + r.choice(["ieee", "rr", "pb", "mca"]))
        if lib != "mca_int" and r.random() < 0.5:
            o += ["--precision-binary32=%d" % r.randint(3, 24), "--precision-binary64=%d" % r.randint(3, 53)]
        o.append("--seed=%d" % r.getrandbits(40))
        daz, ftz = [(True, False), (False, True), (True, True)][r.randrange(3)]
        be = " ".join(["libinterflop_%s.so" % lib] + o)
        fl = (["--daz"] if daz else []) + (["--ftz"] if ftz else [])
        r.shuffle(fl)
        return {"backends": be + " " + " ".join(fl), "plain": be, "daz": daz, "ftz": ftz}

    def label(self, cfg):
        return cfg["plain"].split(" --seed")[0].split(" --prec")[0] + (" daz" if cfg["daz"] else "") + (
            " ftz" if cfg["ftz"] else "")

    def gen_ops(self, r, cfg, n):
        out = []
        for _ in range(n):
            ty = r.getrandbits(1)
            f = F64 if ty else F32
            k = r.random()
            op = r.choice(BIN + ("fma", "cast"))
            if op == "cast":
                x = gen_cast(r)
                if r.random() < 0.3:
                    x = r.getrandbits(52) | (r.getrandbits(1) << 63)
                out.append(Op("cast", 1, [x]))
                continue
            a = list(gen_triple(r, f)) if op == "fma" else list(gen_pair(r, f, op))
            for j in range(len(a)):
                if r.random() < 0.3:
                    a[j] = (r.getrandbits(f.mant) >> r.randint(0, f.mant - 1)) | (r.getrandbits(1) << (f.w - 1))
            if op in ("add", "sub") and k < 0.4:       # tiny normals: sub-normal results
                for j in range(2):
                    a[j] = (r.getrandbits(1) << (f.w - 1)) | (r.randint(0, 3) << f.mant) | r.getrandbits(f.mant)
            o = Op(op, ty, a)
            if op in BIN and r.random() < 0.03:
                o = vectorise(r, o, None)
            out.append(o)
        return out

    def eval_case(self, b, cfg, ops):
        res = self.execute(b, cfg, ops)
        if res.results is None:
            return super().eval_case(b, cfg, ops)
        refs = []
        for ks in ((False, True) if cfg["daz"] else (True,)):
            o2 = [Op(o.op, o.ty, [flush(fmt(o), u, ks) for u in o.args] if cfg["daz"] else o.args, lanes=o.lanes)
                  for o in ops]
            rr = self.execute(b, dict(cfg, backends=cfg["plain"]), o2)
            if rr.results is None:
                return super().eval_case(b, dict(cfg, backends=cfg["plain"]), ops)
            refs.append(rr.results)
        bad = []
        self.ref = refs[0]
        for i, o in enumerate(ops):
            f = out_fmt(o)
            for k, x in enumerate(res.results[i]):
                good = False
                for ref in refs:
                    w = ref[i][k]
                    if is_nan(f, w):
                        good = good or is_nan(f, x)
                        continue
                    if cfg["ftz"] and is_sub(f, w):
                        w = 0
                    if dec(f, w)[0] == ZERO:
                        good = good or dec(f, x)[0] == ZERO
                    else:
                        good = good or x == w
                if not good:
                    bad.append((i, "%s gave %s with %s, but %s without these options on%s operands" % (
                        describe(o, k), show(f, x), cfg["backends"], [show(f, ref[i][k]) for ref in refs],
                        " flushed" if cfg["daz"] else " the same")))
                    break
        return res, bad

    def nontrivial(self, cfg, o, x):
        f = fmt(o)
        if any(is_sub(f, u) for u in o.args):
            return True
        w = ieee_ref(o)[0]
        return w != "nan" and is_sub(out_fmt(o), w)
