from vcommon import OpsCheck
from opgen import *


def low_bits(f, u, t):
    """number of low-order mantissa bits below t significant bits"""
    _, _, m, _ = dec(f, u)
    return max(0, m.bit_length() - t)


def mask(f, u, t, oper):
    if u == "nan" or dec(f, u)[0] != FIN:
        return u
    k = low_bits(f, u, t)
    m = (1 << k) - 1
    return u & ~m if oper == "zero" else u | m


class CHECK(OpsCheck):
    id = "C12"
    repeat = 8
    rule = ("generated (mode, operator, precision) x operations with operands/results having bits below the virtual "
            "precision, normals and sub-normals; non-trivial = some bit below the virtual precision is concerned; "
            "distinct by configuration, operands and result")
    assumptions = ["a sub-normal result that fits on the virtual precision may or may not be masked (the documentation "
                   "does not define representability of sub-normals)", "a cast to binary32 is masked in binary64, before or after its rounding",
                   "rand: bits are XORed with fair independent bits; per-bit frequencies judged at 8 standard deviations"]
    batch = 1800

    def setup(self, b, tier):
        b.backends(["bitmask", "ieee"])
        b.opserver(False)

    def njobs(self, tier):
        return 2560 if tier == "quick" else 20480

    def configs(self, r, i):
        mode = ("ib", "ob", "full")[i % 3]
        oper = r.choice(["zero", "one", "rand"])
        t32, t64 = r.randint(1, 24), r.randint(1, 53)
        o = ["--mode=" + mode, "--operator=" + oper, "--precision-binary32=%d" % t32, "--precision-binary64=%d" % t64]
        if oper == "zero" and r.random() < 0.3:
            del o[1]                       # the default operator
        if mode == "ob" and r.random() < 0.3:
            del o[0]                       # the default mode
        o.append("--seed=%d" % r.getrandbits(40))
        r.shuffle(o)
        return {"backends": " ".join(["libinterflop_bitmask.so"] + o), "bmode": mode, "oper": oper, "t": [t32, t64],
                "freq": oper == "rand" and r.random() < 0.3}

    def label(self, cfg):
        return cfg["bmode"] + " " + cfg["oper"]

    def gen_ops(self, r, cfg, n):
        out = []
        if cfg["freq"]:
            ty = r.getrandbits(1)
            f = F64 if ty else F32
            x = gen_bits(r, f)
            while dec(f, x)[0] != FIN or not x & 1 or low_bits(f, x, cfg["t"][ty]) == 0:
                x = (r.getrandbits(f.w) & ~(0x7FF << f.mant if ty else 0xFF << f.mant)) | (r.randint(0, f.bias) << f.mant) | 1
                if cfg["t"][ty] >= f.p:
                    break
            return [Op("mul", ty, [x, f2b(1.0, f)])] * n
        while len(out) < n:
            ty = r.getrandbits(1)
            f = F64 if ty else F32
            x = gen_bits(r, f)
            k = r.random()
            if k > 0.95:
                o = Op("cast", 1, [gen_cast(r)])
            elif k < 0.4 or cfg["oper"] == "rand":
                idn = r.choice([("mul", f2b(1.0, f)), ("mul", f2b(-1.0, f)), ("add", zero(f)), ("sub", zero(f)),
                                ("div", f2b(1.0, f))])
                o = Op(idn[0], ty, [x, idn[1]])
                if idn[0] in ("mul", "add") and r.random() < 0.4:
                    o.args.reverse()
            elif k < 0.5:
                o = Op("fma", ty, list(gen_triple(r, f)))
            else:
                op = r.choice(BIN)
                o = Op(op, ty, list(gen_pair(r, f, op)))
                if r.random() < 0.05:
                    o = vectorise(r, o, None)
            out += [o] * (8 if cfg["oper"] == "rand" and r.random() < 0.3 else 1)
        return out

    def verdict(self, cfg, ops, results):
        inb = cfg["bmode"] in ("ib", "full")
        run = 0
        for i, (o, res) in enumerate(zip(ops, results)):
            f = fmt(o)
            t = cfg["t"][o.ty]
            if o.op == "cast":
                m = self.cast(cfg, o.args[0], res[0])
                if m:
                    yield i, "%s gave %s, %s (%s)" % (describe(o), show(F32, res[0]), m, cfg["backends"])
                run = 0
                continue
            run = run + 1 if i and ops[i - 1].args == o.args and ops[i - 1].op == o.op else 1
            for k, (a, x) in enumerate(zip(lane_args(o), res)):
                if cfg["oper"] != "rand":
                    b = [mask(f, u, t, cfg["oper"]) for u in a] if inb else a
                    w = ieee(f, o.op, *b)
                    if cfg["bmode"] == "full":
                        w = mask(f, w, t, cfg["oper"])
                    elif cfg["bmode"] == "ob" and w != "nan" and dec(f, w)[0] == FIN:
                        if w & ((1 << low_bits(f, w, t)) - 1):
                            w = mask(f, w, t, cfg["oper"])
                        elif is_sub(f, w) and x == mask(f, w, t, cfg["oper"]):
                            continue
                    if not same(f, x, w):
                        yield i, "%s gave %s, the mask of %d significant bits (%s, %s) requires %s" % (
                            describe(o, k), show(f, x), t, cfg["bmode"], cfg["oper"], w if w == "nan" else show(f, w))
                    continue
                w = ieee(f, o.op, *a)
                if w == "nan" or dec(f, w)[0] != FIN:
                    if not same(f, x, w):
                        yield i, "%s gave %s instead of the special result" % (describe(o, k), show(f, x))
                    continue
                kk = low_bits(f, w, t)
                if inb and a[0] in (f2b(1.0, f), f2b(-1.0, f)) or inb and a[1] in (f2b(1.0, f), f2b(-1.0, f)):
                    # the unit operand is masked too: only the range is known
                    d = q_abs(q_sub(q_of(f, x), q_of(f, w))) if dec(f, x)[0] in (FIN, ZERO) else None
                    ex = q_exp(q_of(f, w))
                    if ex == f.emax:
                        continue
                    lim = q_pow2(max(ex, f.emin) - t + 1)
                    lim = q_add(q_add(lim, lim), q_add(q_add(lim, lim), q_pow2(f.emin - f.mant)))
                    if d is None or (t >= 4 and q_cmp(d, lim) > 0):
                        yield i, "%s gave %s, too far from %s for %d significant bits" % (
                            describe(o, k), show(f, x), show(f, w), t)
                    continue
                if (x ^ w) >> kk:
                    yield i, "%s gave %s: bits above the %d significant ones differ from %s" % (
                        describe(o, k), show(f, x), t, show(f, w))
                elif cfg["bmode"] == "ob" and not is_sub(f, w) and not w & ((1 << kk) - 1) and x != w:
                    yield i, "%s gave %s although %s fits on %d bits" % (describe(o, k), show(f, x), show(f, w), t)
                elif run == 8 and kk >= 8 and (cfg["bmode"] != "ob" or w & ((1 << kk) - 1)) and all(
                        results[i - j] == res for j in range(8)):
                    yield i, "%s gave %s 8 times in a row under the random mask" % (describe(o, k), show(f, x))
        if cfg["freq"] and cfg["bmode"] == "ob" and len(ops) >= 1000:
            o = ops[0]
            f = fmt(o)
            w = ieee(f, o.op, *o.args)
            kk = low_bits(f, w, cfg["t"][o.ty])
            n = len(ops)
            if w & ((1 << kk) - 1):
                for bit in range(kk):
                    c = sum(((res[0] ^ w) >> bit) & 1 for res in results)
                    if abs(c - n / 2) > 8 * (n ** 0.5) / 2:
                        yield None, "random mask: bit %d of %s was flipped %d times out of %d" % (bit, show(f, w), c, n)

    def cast(self, cfg, u, x):
        t, oper, mode = cfg["t"][1], cfg["oper"], cfg["bmode"]
        w = cast(u)
        if w == "nan" or dec(F64, u)[0] != FIN:
            return None if same(F32, x, w) else "instead of the special result"
        if oper == "rand":
            if mode == "ob" and dec(F32, w)[0] == FIN and not is_sub(F32, w) and not self.widen(w) & ((1 << low_bits(F64, self.widen(w), t)) - 1):
                return None if x == w else "although the result fits on %d bits" % t
            return None
        a = mask(F64, u, t, oper) if mode != "ob" else u
        if mode == "ib":
            ok = {cast(a)}
        else:
            y = cast(a)
            ok = {cast(mask(F64, a, t, oper))}
            if dec(F32, y)[0] != FIN:
                ok.add(y)
            else:
                y = self.widen(y)
                if mode == "full" or y & ((1 << low_bits(F64, y, t)) - 1):
                    ok.add(cast(mask(F64, y, t, oper)))
                else:
                    ok = {cast(y)}
        return None if x in ok else "the mask of %d significant bits allows %s" % (t, ", ".join(show(F32, z) for z in ok))

    @staticmethod
    def widen(w):
        k, s, m, e = dec(F32, w)
        return enc(F64, s, m, e)

    def nontrivial(self, cfg, o, x):
        f = out_fmt(o)
        w = ieee_ref(o)[0]
        return w != "nan" and dec(f, w)[0] == FIN and low_bits(f, w, cfg["t"][o.ty]) > 0
