from vcommon import OpsCheck
from opgen import *
import vprecmodel as vm


def enc_inf(f, s):
    return (s << (f.w - 1)) | (((1 << f.ebits) - 1) << f.mant)


class CHECK(OpsCheck):
    id = "C16"
    rule = ("generated (range, precision, error mode abs|all, absolute error exponent) x values around the threshold and "
            "around the limits of the format, output bound mode; non-trivial = the result differs from the IEEE-754 "
            "result; distinct by configuration, operands and result")
    assumptions = ["whether a carry of the absolute grid out of the last binade overflows is not judged",
                   "ties may go either way; the sign of zero is left open"]
    batch = 1500

    def setup(self, b, tier):
        b.backends(["vprec"])
        b.opserver(False)

    def njobs(self, tier):
        return 2800 if tier == "quick" else 22400

    def configs(self, r, i):
        ty = i & 1
        rng = r.randint(3, 11 if ty else 8)
        prec = r.randint(1, 52 if ty else 23)
        emin = vm.limits(rng)[0]
        em = r.choice(["abs", "all"])
        lo = -1060 if ty else -135
        E = r.choice([r.randint(-20, 5), r.randint(emin - 30, emin + 10), r.randint(-60, 20)])
        if r.random() < 0.12:
            E = r.choice([r.randint(lo - 300, lo), r.randint(20, 1500), r.randint(-3000, -1100), 2 ** 31 - 1 - r.getrandbits(11), r.getrandbits(11) - 2 ** 31,
                          2 ** 31 - 1, -2 ** 31])
        nm = "64" if ty else "32"
        o = ["--precision-binary%s=%d" % (nm, prec), "--range-binary%s=%d" % (nm, rng), "--error-mode=" + em,
             "--max-abs-error-exponent=%d" % E]
        if r.random() < 0.5:
            o.append("--mode=ob")
        r.shuffle(o)
        return {"backends": " ".join(["libinterflop_vprec.so"] + o), "ty": ty, "rng": rng, "prec": prec, "E": E, "em": em}

    def label(self, cfg):
        return cfg["em"] + (" double" if cfg["ty"] else " float")

    def gen_ops(self, r, cfg, n):
        f = F64 if cfg["ty"] else F32
        out = []
        one = f2b(1.0, f)
        for _ in range(n):
            x = vm.gen_value(r, f, cfg["rng"], cfg["prec"])
            k, s, m, e = dec(f, x)
            if k == FIN and r.random() < 0.5:
                ex = max(f.emin, min(f.emax, cfg["E"] + r.randint(-3, 12)))
                if m.bit_length() == f.p:
                    x = enc(f, s, m, ex - m.bit_length() + 1)
            op = r.choice(("mul", "add", "sub", "div", "fma"))
            if op == "mul":
                out.append(Op(op, cfg["ty"], [x, one]))
            elif op == "div":
                out.append(Op(op, cfg["ty"], [x, r.choice([one, one, vm.gen_value(r, f, cfg["rng"], cfg["prec"])])]))
            elif op == "fma":
                out.append(Op(op, cfg["ty"], [x, one, vm.gen_value(r, f, cfg["rng"], cfg["prec"])]))
            else:
                out.append(Op(op, cfg["ty"], [x, r.choice([0, 0, vm.gen_value(r, f, cfg["rng"], cfg["prec"])])]))
        return out

    def verdict(self, cfg, ops, results):
        emin, emax = vm.limits(cfg["rng"])
        for i, (o, res) in enumerate(zip(ops, results)):
            f = fmt(o)
            w = ieee_ref(o)[0]
            y = res[0]
            head = "%s gave %s" % (describe(o), show(f, y))
            tail = " (IEEE result %s; %s)" % (w if w == "nan" else show(f, w), cfg["backends"])
            if w == "nan":
                if not is_nan(f, y):
                    yield i, head + ", expected NaN" + tail
                continue
            k, s, m, e = dec(f, w)
            ky, sy, my, ey = dec(f, y)
            if k == INF:
                if y != w:
                    yield i, head + ", expected the infinity unchanged" + tail
                continue
            if k == ZERO:
                if ky != ZERO:
                    yield i, head + ", expected zero" + tail
                continue
            ex = e + m.bit_length() - 1
            if ex > emax:
                if y != (enc_inf(f, s)):
                    yield i, head + ", beyond the range: expected an infinity" + tail
                continue
            P = cfg["prec"] if cfg["em"] == "all" else f.mant
            u = max(max(-3000, min(3000, cfg["E"])), max(ex, emin) - P)
            if ex == emax:
                half = q_pow2(max(max(-3000, min(3000, cfg["E"])), emax - cfg["prec"]) - 1)
                carry = q_cmp(q_add(q_abs(q_of(f, w)), half), q_pow2(emax + 1)) >= 0
                if carry and y == enc_inf(f, s):
                    continue
                if ky == FIN and ey + my.bit_length() - 1 > emax and cfg["E"] <= emax - cfg["prec"]:
                    yield i, head + ", a finite value beyond the range" + tail
                    continue
            if ky in (NAN, INF):
                yield i, head + ", a finite value in range" + tail
                continue
            d = q_abs(q_sub(q_of(f, w), q_of(f, y)))
            if q_cmp(d, q_pow2(u - 1)) > 0:
                yield i, head + ", further than half of 2^%d from the exact result" % u + tail
            elif ky == FIN and u > ey and (my & ((1 << (u - ey)) - 1)):
                yield i, head + ", not a multiple of 2^%d" % u + tail

    def nontrivial(self, cfg, o, x):
        w = ieee_ref(o)[0]
        return w != "nan" and x[0] != w
