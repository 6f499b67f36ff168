"""Reference model of the simulated formats of VPREC: a value with `prec` explicit
mantissa bits and `rng` exponent bits, round-to-nearest-even, gradual underflow.
Functions return the set of acceptable bit patterns ('nan' for any NaN):
 - the sign of a zero produced by an underflow is left open (a flush keeps it);
 - the tie at half of the smallest simulated sub-normal may go either way
   (the code documents rounding it away, IEEE-754 rounds it to zero)."""
from fp import *           # noqa: F401,F403

PRESETS = {"binary16": (5, 10), "binary32": (8, 23), "bfloat16": (8, 7),
           "tensorfloat": (8, 10), "fp24": (7, 16), "PXR24": (8, 15)}


def limits(rng):
    emax = (1 << (rng - 1)) - 1
    return 1 - emax, emax


def both_zeros(f):
    return {zero(f, 0), zero(f, 1)}


def vround(f, u, rng, prec, flush=False):
    """set of acceptable patterns for the rounding of u (format f) to (rng, prec)"""
    if u == "nan":
        return {"nan"}
    k, s, m, e = dec(f, u)
    if k != FIN:
        return {"nan" if k == NAN else u}
    emin, emax = limits(rng)
    x = (-m if s else m, 1, e)
    res = enc_r(f, round_q(x, prec + 1, emin, emax, s))
    out = {res}
    ex = e + m.bit_length() - 1
    if ex < emin and flush:
        out = {zero(f, s)}
        if dec(f, res)[0] == FIN and q_exp(q_of(f, res)) >= emin:
            out.add(res)          # rounds up to the smallest normal number
        return out
    if dec(f, res)[0] == ZERO:
        out |= both_zeros(f)
        if m & (m - 1) == 0 and ex == emin - prec - 1:
            out.add(enc(f, s, 1, emin - prec))
    return out


def vround_abs(f, u, rng, prec, E, both):
    """acceptance predicate of the absolute error modes: returns a function, or a set"""
    raise NotImplementedError


def model(f, op, args, mode, rng, prec, daz, ftz):
    """set of acceptable results of one scalar operation"""
    cand = [list(vround(f, a, rng, prec, daz)) if mode in ("ib", "full") else [a] for a in args]
    outs = set()

    def rec(i, cur):
        if i == len(cand):
            if "nan" in cur:
                y = "nan"
            else:
                y = ieee(f, op, *cur)
            if mode in ("ob", "full"):
                outs.update(vround(f, y, rng, prec, ftz))
            else:
                outs.add(y)
            return
        for c in cand[i]:
            rec(i + 1, cur + [c])
    rec(0, [])
    return outs


def model_cast(u, mode, p32, p64, daz, ftz):
    """double -> float under VPREC. p32/p64 = (range, precision)"""
    if mode == "ieee":
        return {cast(u)}
    if mode == "ib":
        rng, prec, fl = min(p64[0], 8), min(p64[1], 23), daz
    else:
        rng, prec, fl = p32[0], p32[1], ftz
    out = set()
    for y in vround(F64, u, rng, prec, fl):
        out.add("nan" if y == "nan" else cast(y))
    return out


def ok(f, got, allowed):
    return got in allowed or ("nan" in allowed and is_nan(f, got))


def gen_value(r, f, rng, prec):
    """values biased to the ties and limits of the simulated format"""
    emin, emax = limits(rng)
    t = r.random()
    if t < 0.1:
        return gen_bits(r, f)
    if t < 0.4:
        ex = r.randint(emin - prec - 4, emin + 2)
    elif t < 0.6:
        ex = emax + r.randint(-1, 1)
    elif t < 0.8:
        ex = r.randint(max(emin - prec - 3, f.emin - f.mant), min(emax + 2, f.emax))
    else:
        ex = r.randint(-8, 8)
    ex = max(min(ex, f.emax), f.emin - f.mant)
    m = r.getrandbits(f.mant)
    q = r.random()
    if q < 0.7:
        keep = r.randint(0, f.mant)
        if q < 0.5:
            keep = max(0, min(f.mant, prec - max(0, emin - ex) + r.choice([0, 0, 1, 2, -1])))
        m = (m >> (f.mant - keep)) << (f.mant - keep)
        if q < 0.3:
            m = ((1 << keep) - 1) << (f.mant - keep)
        if r.random() < 0.4 and keep < f.mant:
            m |= 1 << (f.mant - keep - 1)
        if r.random() < 0.3:
            m |= 1
        if r.random() < 0.2:
            m = (m - 1) & ((1 << f.mant) - 1)
    mm = m | (1 << f.mant)
    e = ex - f.mant
    q0 = f.emin - f.mant
    if e < q0:
        mm >>= q0 - e
        e = q0
    return enc(f, r.getrandbits(1), max(mm, 1), e)


def gen_op_args(r, f, op, rng, prec):
    """operands whose result lands near the ties and limits of the format"""
    emin, emax = limits(rng)
    x = gen_value(r, f, rng, prec)
    if op == "fma":
        if r.random() < 0.3:
            return [x, f2b(1.0, f), zero(f)]
        y = gen_value(r, f, rng, prec) if r.random() < 0.4 else f2b(r.choice([1.0, -1.0, 2.0, 0.5, 3.0]), f)
        c = gen_value(r, f, rng, prec)
        if r.random() < 0.4:
            p = ieee(f, "mul", x, y)
            if p != "nan" and dec(f, p)[0] == FIN:
                c = p ^ (1 << (f.w - 1)) ^ r.getrandbits(r.randint(1, f.mant))
        return [x, y, c]
    k = r.random()
    if k < 0.3:
        return [x, f2b(1.0, f) if op in ("mul", "div") else zero(f)]
    if k < 0.45 and op in ("mul", "div"):
        return [x, f2b(2.0 ** r.randint(-6, 6) * r.choice([1, -1]), f)]
    if k < 0.6:
        return list(gen_pair(r, f, op))
    y = gen_value(r, f, rng, prec)
    if op in ("add", "sub") and k < 0.8:
        d = dec(f, x)
        if d[0] == FIN:
            y = x ^ r.getrandbits(r.randint(1, f.mant)) ^ (r.getrandbits(1) << (f.w - 1))
    return [x, y]
