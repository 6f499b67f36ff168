import re
from vcommon import OpsCheck
from opgen import *
from mcahull import key_of_q, ordk


def bexp(f, u):
    """exponent as stored in the format (sub-normals and zero share the lowest one)"""
    return ((u >> f.mant) & ((1 << f.ebits) - 1)) - f.bias


class CHECK(OpsCheck):
    id = "C13"
    repeat = 8
    rule = ("generated tolerances x additions/subtractions with 0..p cancelled bits (and mul/div/fma/cast), eligible "
            "operations repeated 8 times; non-trivial = at least one bit cancelled; distinct by configuration, "
            "operands and result")
    assumptions = ["sub-normal and zero results count as having the lowest exponent of the format",
                   "8 identical noisy results have probability below 2^-60 for the operations on which variation is required"]
    batch = 1800

    def setup(self, b, tier):
        b.backends(["cancellation", "ieee"])
        b.opserver(False)

    def njobs(self, tier):
        return 2800 if tier == "quick" else 22400

    def configs(self, r, i):
        tol = r.choice([None, 0, 1, 2, 3, r.randint(1, 24), r.randint(1, 60), 2000])
        o = [] if tol is None else ["--tolerance=%d" % tol]
        o.append("--seed=%d" % r.getrandbits(r.choice([3, 30, 60])))
        warn = r.random() < 0.15
        if warn:
            o.append("--warning=1")
        r.shuffle(o)
        return {"backends": " ".join(["libinterflop_cancellation.so"] + o), "tol": 1 if tol is None else tol,
                "warn": warn}

    def label(self, cfg):
        return "tolerance %s" % cfg["tol"] + (" warning" if cfg["warn"] else "")

    def gen_ops(self, r, cfg, n):
        out = []
        n = n if not cfg["warn"] else n // 3
        while len(out) < n:
            ty = r.getrandbits(1)
            f = F64 if ty else F32
            k = r.random()
            if k < 0.12:
                out.append(gen_scalar(r, ("mul", "div", "fma", "cast"), ty))
                continue
            if k < 0.7:
                # choose how many bits cancel
                a = gen_bits(r, f)
                if dec(f, a)[0] != FIN:
                    a = f2b(1.5, f)
                keep = r.randint(0, f.mant)
                b = a ^ (r.getrandbits(max(1, keep)))
                if r.random() < 0.1:
                    b = a
                if dec(f, b)[0] in (NAN, INF):
                    b = a
                op = r.choice(("add", "sub"))
                if op == "add":
                    b ^= 1 << (f.w - 1)
                if r.random() < 0.5:
                    a, b = b, a
                o = Op(op, ty, [a, b])
            else:
                op = r.choice(("add", "sub"))
                o = Op(op, ty, list(gen_pair(r, f, op)))
                if r.random() < 0.05:
                    o = vectorise(r, o, None)
            if o.lanes == 1 and r.random() < 0.3:
                out += [o] * 8
            else:
                out.append(o)
        return out

    def size(self, o, a, z):
        f = fmt(o)
        return max(bexp(f, a[0]), bexp(f, a[1])) - bexp(f, z)

    def eval_case(self, b, cfg, ops):
        c2 = dict(cfg, env={"VFC_BACKENDS_LOGGER": "True"}) if cfg["warn"] else cfg
        res, bad = super().eval_case(b, c2, ops)
        if cfg["warn"] and res.results is not None and not bad:
            want = []
            for o in ops:
                if o.op in ("add", "sub"):
                    for a in lane_args(o):
                        z = ieee(fmt(o), o.op, *a)
                        if z == "nan" or dec(fmt(o), z)[0] == INF:
                            want.append(None)
                            continue
                        c = self.size(o, a, z)
                        if c >= cfg["tol"]:
                            want.append(c)
            if None not in want:
                got = [int(x) for x in re.findall(r"cancellation of size (-?\d+) detected", res.err)]
                if got != want:
                    k = next((i for i, (x, y) in enumerate(zip(got + [None], want + [None])) if x != y), None)
                    bad = [(None, "warnings report cancellations %s..., the operations cancel %s... (position %s)" % (
                        got[k:k + 4], want[k:k + 4], k))]
        return res, bad

    def verdict(self, cfg, ops, results):
        run = 0
        for i, (o, res) in enumerate(zip(ops, results)):
            f = out_fmt(o)
            if o.op not in ("add", "sub"):
                w = ieee_ref(o)[0]
                if not same(f, res[0], w):
                    yield i, "%s gave %s instead of the IEEE result" % (describe(o), show(f, res[0]))
                continue
            run = run + 1 if i and ops[i - 1] is o or (i and ops[i - 1].args == o.args and ops[i - 1].op == o.op) else 1
            for k, (a, x) in enumerate(zip(lane_args(o), res)):
                z = ieee(f, o.op, *a)
                if z == "nan" or dec(f, z)[0] == INF:
                    if not same(f, x, z):
                        yield i, "%s gave %s instead of the special result" % (describe(o, k), show(f, x))
                    continue
                c = self.size(o, a, z)
                if c < cfg["tol"]:
                    if x != z:
                        yield i, "%s gave %s, but only %d bits cancel (tolerance %d): must be %s" % (
                            describe(o, k), show(f, x), c, cfg["tol"], show(f, z))
                    continue
                d = q_pow2(bexp(f, z) - c)
                q = q_of(f, z)
                lo, hi = key_of_q(f, q_sub(q, d)), key_of_q(f, q_add(q, d))
                if is_nan(f, x) or not lo <= ordk(f, x) <= hi:
                    yield i, "%s gave %s: %d bits cancel, the noise must stay within 2^%d of %s" % (
                        describe(o, k), show(f, x), c, bexp(f, z) - c, show(f, z))
                    continue
                if run == 8 and o.lanes == 1 and c <= f.p - 12 and c >= 0 and bexp(f, z) - c > f.emin + f.p + 4 and all(
                        results[i - j][0] == x for j in range(8)):
                    yield i, "%s gave %s 8 times in a row although %d bits cancel (tolerance %d)" % (
                        describe(o), show(f, x), c, cfg["tol"])

    def nontrivial(self, cfg, o, x):
        if o.op not in ("add", "sub"):
            return False
        a = lane_args(o)[0]
        z = ieee(fmt(o), o.op, *a)
        return z != "nan" and dec(fmt(o), z)[0] == FIN and self.size(o, a, z) >= 1
