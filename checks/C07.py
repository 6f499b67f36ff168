from vcommon import OpsCheck
from opgen import *
import vstat


def frac(q):
    from fractions import Fraction
    return Fraction(q[0], q[1]) * (Fraction(2) ** q[2])


class CHECK(OpsCheck):
    id = "C07"
    repeat = 0
    rule = ("one generated operation, mode, precision and seed per job, executed 2000 times; the 2000 noises are judged "
            "as a sample (Kolmogorov-Smirnov against the law of the sum of the "
            "uniform noises of the model at first order, binomial law of the rounding "
            "direction, auto-correlation at lags 1-3); an evaluation is one noisy operation; non-trivial = its result "
            "differs from the exact one; distinct by configuration, operands and result")
    assumptions = ["false-alarm probability below 1e-10 per sample, and the seeds are fixed",
                   "noise laws are judged in the interior of binades, where the model's scale is constant"]
    batch = 2000
    nmin = 1200

    def setup(self, b, tier):
        b.backends(["mca", "mca_int", "cancellation"])
        b.opserver(False)

    def njobs(self, tier):
        return 3000 if tier == "quick" else 24000

    def configs(self, r, i):
        kind = ("law", "law", "law", "rr-full", "int-full", "law", "cancel", "pb-full")[i % 8]
        if i % 24 in (2, 5, 8):
            kind = "vary"
        t32, t64 = r.randint(6, 13), r.randint(6, 40)
        mode = {"law": ("rr", "pb", "mca")[i // 8 % 3], "rr-full": "rr", "int-full": "rr", "cancel": "",
                "pb-full": "pb", "vary": ("rr", "pb", "mca")[i % 3 if i % 2 else i // 24 % 3]}[kind]
        err = r.choice(["rel", "rel", "abs", "all"]) if kind == "law" else "rel"
        seed = "--seed=%d" % r.getrandbits(r.choice([4, 32, 60]))
        lib = "mca"
        o = ["--mode=" + mode]
        E = None
        base = 0
        if kind in ("law", "vary"):
            o += ["--precision-binary32=%d" % t32, "--precision-binary64=%d" % t64]
            base = r.choice([0, 0, 0, r.randint(-60, 60), r.randint(-400, 400)])
            if err != "rel":
                base = max(-100, min(100, base))
                E = base - r.randint(6, 12)
                o += ["--error-mode=" + err, "--max-abs-error-exponent=%d" % E]
            r.shuffle(o)
        elif kind == "int-full":
            lib = "mca_int"
        elif kind == "pb-full":
            lib = r.choice(["mca", "mca_int"])
        elif kind == "cancel":
            lib, o = "cancellation", []
        o.append(seed)
        return {"backends": " ".join(["libinterflop_%s.so" % lib] + o), "kind": kind, "t": [t32, t64], "E": E,
                "lmode": mode, "err": err, "base": base}

    def label(self, cfg):
        return "%s %s %s" % (cfg["kind"], cfg["lmode"], cfg["err"])

    def widths(self, cfg, o):
        """widths of the independent uniform noises of the result of o, at first order, in units of 2^e of the
        exact result; None when the first order is not accurate enough"""
        f = fmt(o)
        out = F32 if o.op == "cast" else f
        a = [frac(q_of(f, x)) for x in o.args]
        q = self.exact(o)
        if q is None:
            return None
        fq, e = frac(q), q_exp(q)
        if not -120 < e < 120 and out is F32 or not -1000 < e < 1000:
            return None
        t = cfg["t"][o.ty]
        m = abs(fq) / Fraction2(e)
        if cfg["lmode"] == "rr" and q_is_dyadic_fit(q_of(F32, cast(o.args[0])) if o.op == "cast" else q, t):
            return None
        sens = {"add": lambda: [1, 1], "sub": lambda: [1, 1], "mul": lambda: [a[1], a[0]],
                "div": lambda: [1 / a[1], fq / a[1]], "fma": lambda: [a[1], a[0], 1], "cast": lambda: [1]}[o.op]()
        w = []

        def add(s, ex):
            if cfg["err"] != "abs":
                w.append(float(abs(s) * Fraction2(ex - t + 1) / Fraction2(e)))
            if cfg["err"] != "rel":
                w.append(float(abs(s) * Fraction2(cfg["E"]) / Fraction2(e)))
        if cfg["lmode"] in ("pb", "mca"):
            for x, s in zip(o.args, sens):
                if dec(f, x)[0] == FIN:
                    n = len(w)
                    add(s, q_exp(q_of(f, x)))
                    if any(v * Fraction2(e) > abs(s * frac(q_of(f, x))) / 60 for v in w[n:]):
                        return None
                elif dec(f, x)[0] != ZERO:
                    return None
        if cfg["lmode"] in ("rr", "mca"):
            add(1, e)
        w = [v for v in w if v > 0]
        if not w or max(w) < 2.0 ** -(out.mant - 9):
            return None
        if not 1 + sum(w) * 0.55 < m < 2 - sum(w) * 0.55 or sum(w) > 0.2:
            return None
        w = [v for v in w if v >= 0.04 * max(w)]
        return w

    @staticmethod
    def exact(o):
        f = fmt(o)
        if o.op == "cast":
            q = q_of(f, o.args[0])
        else:
            x = exact_op(f, o.op, *o.args)
            if x[0] == "special":
                return None
            q = x[1]
        return q if q[0] else None

    def gen_law(self, r, cfg, n):
        for _ in range(400):
            ty = r.getrandbits(1)
            f = F64 if ty else F32
            lim = 960 if ty else 100
            base = max(-lim, min(lim, cfg["base"]))
            t = cfg["t"][ty]

            def val(e):
                k = r.choice([t + 1, t + 1, f.p, f.p, f.p, r.randint(t + 1, f.p)])   # significant bits
                m = (1 << (k - 1)) | r.getrandbits(k - 1) | 1
                return enc(f, r.getrandbits(1), m, e - k + 1)
            op = r.choice(BIN + ("fma", "fma") + (("cast",) if ty else ()))
            if op in ("add", "sub"):
                a = [val(base + r.randint(-2, 2)), r.choice([zero(f), val(base + r.randint(-t, 2))])]
                if r.random() < 0.5:
                    a.reverse()
            elif op == "cast":
                a = [val(max(-100, min(100, base)))]
            else:
                d = r.randint(-8, 8)
                h = base // 2 + d
                a = [val(h), val(base - h) if op != "div" else val(h - base)]
                if r.random() < 0.3:
                    a[r.getrandbits(1) if op != "div" else 1] = enc(f, 0, 1, 0)
                if op == "fma":
                    a.append(val(base + r.randint(-3, 3)))
                    k = r.random()
                    if k < 0.25:
                        a[r.getrandbits(1)] = zero(f)
                    elif k < 0.4:
                        a[2] = zero(f)
            o = Op(op, ty, a)
            if self.widths(cfg, o):
                return [o] * n
        return [o] * n

    def gen_ops(self, r, cfg, n):
        ty = r.getrandbits(1)
        f = F64 if ty else F32
        kind = cfg["kind"]
        if kind == "law":
            return self.gen_law(r, cfg, n)

        def val(lo=-20, hi=20):
            # mantissa in [1.2, 1.8], all bits in use
            m = int((1.2 + 0.6 * r.random()) * (1 << f.mant)) | 1
            return enc(f, r.getrandbits(1), m, r.randint(lo, hi) - f.mant)
        if kind == "vary":
            return [self.gen_vary(r, cfg)] * n
        for _ in range(200):
            if kind == "pb-full":
                o = Op(r.choice(("add", "sub")), ty, [val(), zero(f)])
                if o.op == "add" and r.random() < 0.4:
                    o.args.reverse()
            elif kind == "cancel":
                a = val(-3, 3)
                k = r.randint(2, 14)
                b = a ^ (r.getrandbits(f.mant - k) | (1 << (f.mant - k - 1)))
                o = Op("sub", ty, [a, b])
                if r.random() < 0.5:
                    o = Op("add", ty, [a, b ^ (1 << (f.w - 1))])
            else:
                op = r.choice(BIN + ("fma",))
                a = [val() for _ in range(3 if op == "fma" else 2)]
                if op == "fma":
                    a[2] = enc(f, r.getrandbits(1), (1 << f.mant) | r.getrandbits(f.mant), r.randint(-20, 20) - f.mant)
                o = Op(op, ty, a)
                if r.random() < 0.2:
                    # exactly half an ulp (or a short fraction of it) is lost
                    b = enc(f, r.getrandbits(1), r.choice([1, 1, 1, 3]), r.choice([-1, -1, -2, -3]) + q_exp(q_of(f, a[0])) - f.mant)
                    o = Op(r.choice(("add", "sub")), ty, [a[0], b])
            q = exact_op(f, o.op, *o.args)[1]
            if q[0] == 0:
                continue
            m = frac(q_abs(q)) / Fraction2(q_exp(q))
            if kind == "cancel" or 1.15 < m < 1.85:
                if "mode=rr" in cfg["backends"] and q_is_dyadic_fit(q, f.p):
                    continue
                if kind in ("rr-full", "int-full"):
                    d = self.delta(f, q)
                    if not 0.02 < d <= 0.5:
                        continue
                return [o] * n
        return [o] * n

    def gen_vary(self, r, cfg):
        """operands with particular relations: equal, opposite, powers of two, one, small integers"""
        ty = r.getrandbits(1)
        f = F64 if ty else F32

        def val():
            k = r.random()
            if k < 0.3:
                return enc(f, r.getrandbits(1), 1, r.randint(-20, 20))
            if k < 0.5:
                return enc(f, r.getrandbits(1), r.randint(1, 9), 0)
            if k < 0.7:
                return enc(f, r.getrandbits(1), r.getrandbits(8) | 1, r.randint(-20, 20))
            return enc(f, r.getrandbits(1), (1 << f.mant) | r.getrandbits(f.mant), r.randint(-20, 20) - f.mant)
        op = r.choice(BIN + ("fma",) + (("cast",) if ty else ()))
        a = [val() for _ in range({"fma": 3, "cast": 1}.get(op, 2))]
        k = r.random()
        if op != "cast":
            if k < 0.35:
                a[1] = a[0]
            elif k < 0.5:
                a[1] = a[0] ^ (1 << (f.w - 1))
            if op == "fma" and r.random() < 0.3:
                a[2] = r.choice([a[0], a[1], zero(f), a[0] ^ (1 << (f.w - 1))])
        return Op(op, ty, a)

    def vary(self, cfg, o, results):
        """an inexact value is perturbed whatever the operands; an exact one is kept in random rounding"""
        f = fmt(o)
        t = cfg["t"][o.ty]
        xs = {r[0] for r in results}
        head = "%s, %d runs of %s: " % (cfg["backends"], len(results), describe(o))
        if o.op == "cast":
            w = cast(o.args[0])
            q = q_of(F32, w)
        else:
            q = exact_op(f, o.op, *o.args)[1]
            w = ieee(f, o.op, *o.args)
        if cfg["lmode"] == "rr":
            if q[0] == 0 or q_is_dyadic_fit(q, t):
                if xs != {w} and q[0] != 0:
                    yield len(results) - 1, head + "the exact result is representable in the virtual precision but was perturbed"
                return
        elif cfg["lmode"] == "pb" and o.op == "fma" and q[0] == 0:
            return
        if len(xs) < 2 and t <= (F32 if o.op == "cast" else f).p - 8:
            yield len(results) - 1, head + "all the results are %s, without noise" % show(F32 if o.op == "cast" else f, results[0][0])

    @staticmethod
    def delta(f, q):
        """distance of the exact value to its rounding, in ulps"""
        rn = enc_r(f, round_q(q, f.p, f.emin, f.emax))
        return float(frac(q_abs(q_sub(q, q_of(f, rn)))) / Fraction2(q_exp(q) - f.mant))

    def verdict(self, cfg, ops, results):
        n = len(ops)
        if n < self.nmin:
            return
        o = ops[0]
        f = fmt(o)
        kind = cfg["kind"]
        if kind == "law":
            yield from self.law(cfg, o, results)
            return
        if kind == "vary":
            yield from self.vary(cfg, o, results)
            return
        q = exact_op(f, o.op, *o.args)[1]
        if q[0] == 0:
            return
        if "mode=rr" in cfg["backends"] and q_is_dyadic_fit(q, f.p):
            return
        xs = [r[0] for r in results]
        if any(dec(f, x)[0] != FIN for x in xs):
            if kind != "cancel":
                yield n - 1, "%s gave a zero or special result" % describe(o)
            return
        e = q_exp(q)
        head = "%s, %d runs of %s: " % (cfg["backends"], n, describe(o))
        if kind in ("rr-full", "int-full"):
            rn = enc_r(f, round_q(q, f.p, f.emin, f.emax))
            d = self.delta(f, q)
            if not 0.02 < d <= 0.5:
                return
            k = sum(1 for x in xs if x != rn)
            if vstat.binom_bad(k, n, d):
                yield n - 1, head + "the rounding went away from the nearest value %d times, %.1f expected" % (k, n * d)
            lag = vstat.lag_bad([float(x != rn) for x in xs])
            if lag and 0.1 < d:
                yield n - 1, head + "rounding directions are correlated (lag %d: %.3f)" % lag
            return
        if kind == "pb-full":
            # exact operand + noise of one ulp, then rounded back: |noise| < 1/2 ulp
            rn = enc_r(f, round_q(q, f.p, f.emin, f.emax))
            k = sum(1 for x in xs if x != rn)
            if k > 3:
                yield n - 1, head + "%d results moved although the noise is below half an ulp" % k
            return
        z = ieee(f, o.op, *o.args)
        c = max(((u >> f.mant) & ((1 << f.ebits) - 1)) for u in o.args) - ((z >> f.mant) & ((1 << f.ebits) - 1))
        if c < 1 or c > f.p - 10 or z & ((1 << f.mant) - 1) == 0:
            return
        scale = Fraction2(e - c + 1)
        fq = frac(q)
        xi = [float((frac(q_of(f, x)) - fq) / scale) for x in xs]
        yield from self.uniform(head, [min(max(v + 0.5, 0.0), 1.0) for v in xi], xi)

    def law(self, cfg, o, results):
        w = self.widths(cfg, o)
        if not w:
            return
        out = F32 if o.op == "cast" else fmt(o)
        n = len(results)
        q = self.exact(o)
        fq, sc = frac(q), Fraction2(q_exp(q))
        head = "%s, %d runs of %s: " % (cfg["backends"], n, describe(o))
        xs = [r[0] for r in results]
        if any(dec(out, x)[0] != FIN for x in xs):
            yield n - 1, head + "gave a zero or special result"
            return
        xi = [float((frac(q_of(out, x)) - fq) / sc) for x in xs]
        yield from self.uniform(head, [vstat.usum_cdf(v, w) for v in xi], xi)

    def uniform(self, head, u, xi):
        n = len(u)
        ks = vstat.ks(u)
        if ks > vstat.KS_LIMIT:
            yield n - 1, head + "noise does not follow its law (KS statistic %.2f, mean %.4f, min %.4f, max %.4f)" % (
                ks, sum(xi) / n, min(xi), max(xi))
        lag = vstat.lag_bad(u)
        if lag:
            yield n - 1, head + "successive noises are correlated (lag %d: %.3f)" % lag

    def reductions(self, case):
        return iter(())

    def nontrivial(self, cfg, o, x):
        return x[0] != ieee_ref(o)[0]


def Fraction2(e):
    from fractions import Fraction
    return Fraction(2) ** e
