from vcommon import OpsCheck
from opgen import *
import vstat
from C07 import CHECK as C07, Fraction2, frac


class CHECK(OpsCheck):
    id = "C10"
    rule = ("generated sparsity values x back-end, mode, operation and seed, each executed 3000 times; the number of "
            "perturbed results is judged against the binomial law and for auto-correlation, and unperturbed results "
            "must be exact; non-trivial = perturbed result; distinct by configuration, operands and result")
    assumptions = ["false-alarm probability below 1e-10 per sample, fixed seeds"]
    batch = 3000

    def setup(self, b, tier):
        b.backends(["mca", "mca_int"])
        b.opserver(False)

    def njobs(self, tier):
        return 2400 if tier == "quick" else 19200

    def configs(self, r, i):
        s = r.choice(["0.5", "0.1", "0.9", "0.01", "1", "1.0", "%.3f" % r.uniform(0.02, 0.98), "%.6f" % 10 ** r.uniform(-4.5, -1.5), r.choice(["0.001", "0.0002", "1e-3", "0.999", "0.99"]), None])
        lib = r.choice(["mca", "mca", "mca_int"])
        t = [r.randint(5, 12), r.randint(5, 24)]
        mode = "rr" if lib == "mca_int" else r.choice(["rr", "pb"])
        o = ["--mode=" + mode, "--seed=%d" % r.getrandbits(40)]
        if lib == "mca":
            o += ["--precision-binary32=%d" % t[0], "--precision-binary64=%d" % t[1]]
        if s is not None:
            o.append("--sparsity=" + s)
        r.shuffle(o)
        return {"backends": " ".join(["libinterflop_%s.so" % lib] + o), "s": 1.0 if s is None else float(s),
                "lib": lib, "mmode": mode, "t": t}

    def label(self, cfg):
        return "%s %s" % (cfg["lib"], cfg["mmode"])

    def gen_ops(self, r, cfg, n):
        ty = r.getrandbits(1)
        f = F64 if ty else F32

        def val():
            m = int((1.2 + 0.6 * r.random()) * (1 << f.mant)) | 1
            return enc(f, r.getrandbits(1), m, r.randint(-10, 10) - f.mant)
        for _ in range(500):
            op = r.choice(BIN + ("fma",)) if cfg["mmode"] == "rr" else "add"
            a = [val() for _ in range(3 if op == "fma" else 2)]
            if cfg["mmode"] == "pb":
                a[1] = zero(f)
            if cfg["lib"] == "mca" and r.random() < 0.3:
                # a result of exactly one bit more than the virtual precision
                t = cfg["t"][ty]
                m = (1 << t) | (r.getrandbits(t - 1) << 1) | 1
                a = [enc(f, r.getrandbits(1), m, r.randint(-10, 10)), r.choice([zero(f), enc(f, 0, 1, 0)])]
                op = "mul" if dec(f, a[1])[0] == FIN else "add"
                if cfg["mmode"] == "pb":
                    op, a[1] = "add", zero(f)
            o = Op(op, ty, a)
            q = exact_op(f, op, *a)[1]
            if q[0] == 0:
                continue
            if cfg["mmode"] == "rr" and q_is_dyadic_fit(q, f.p if cfg["lib"] == "mca_int" else cfg["t"][ty]):
                continue
            if cfg["lib"] == "mca_int" and not 0.2 < C07.delta(f, q) < 0.45:
                continue
            if 1.1 < frac(q_abs(q)) / Fraction2(q_exp(q)) < 1.9:
                break
        return [o] * n

    def prob(self, cfg, f, o):
        """probability that a perturbed result differs from the correctly rounded one"""
        q = exact_op(f, o.op, *o.args)[1]
        if cfg["lib"] == "mca_int":
            return C07.delta(f, q), q
        # width of the noise in ulps of the result
        w = 2.0 ** (f.mant - (cfg["t"][o.ty] - 1))
        return 1 - 1 / w, q

    def verdict(self, cfg, ops, results):
        n = len(ops)
        if n < 2000:
            return
        o = ops[0]
        f = fmt(o)
        p, q = self.prob(cfg, f, o)
        w = enc_r(f, round_q(q, f.p, f.emin, f.emax))
        hit = [float(r[0] != w) for r in results]
        k = int(sum(hit))
        s = min(1.0, cfg["s"])
        pe = s * p
        # 1/w is the chance that the noise leaves the result in place: known up to 1/w
        slack = 0 if cfg["lib"] == "mca_int" else 3 + n * 2.0 ** -(f.mant - cfg["t"][o.ty])
        if abs(k - n * pe) > 7 * (n * pe * (1 - pe)) ** 0.5 + 3 + slack:
            yield n - 1, "%s: %d of %d results of %s were perturbed, %.1f expected" % (
                cfg["backends"], k, n, describe(o), n * pe)
            return
        lag = vstat.lag_bad(hit)
        if lag and 0.03 < pe < 0.97:
            yield n - 1, "%s: perturbed operations are correlated (lag %d: %.3f)" % ((cfg["backends"],) + lag)

    def reductions(self, case):
        return iter(())

    def nontrivial(self, cfg, o, x):
        return x[0] != ieee_ref(o)[0]
