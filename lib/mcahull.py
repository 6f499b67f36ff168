"""Reference intervals for Monte Carlo arithmetic: the set of values a perturbed
operation may return, from the published definition
   inexact(x) = x + 2^(e_x - (t-1)) * xi,   xi in (-1/2, 1/2)
applied to operands (pb, mca) and/or result (rr, mca), computed in an extended
format and rounded to nearest in the operand format."""
from fp import *           # noqa: F401,F403

ZERO_Q = (0, 1, 0)


def ordk(f, u):
    """monotone integer key of a non-NaN pattern (-0 == +0)"""
    mag = u & ((1 << (f.w - 1)) - 1)
    return -mag if u >> (f.w - 1) else mag


def key_of_q(f, q):
    """key of RN_f(q)"""
    return ordk(f, enc_r(f, round_q(q, f.p, f.emin, f.emax)))


def q_scale(e):
    return (1, 1, e)


def q_max(a, b):
    return a if q_cmp(a, b) >= 0 else b


def q_min(a, b):
    return a if q_cmp(a, b) <= 0 else b


def noise_interval(q, t, rel, absE, integer):
    """interval reached from the point q != 0 (rational)"""
    lo = hi = q
    if rel:
        e = q_exp(q)
        d = q_scale(e - t)
        lo, hi = q_sub(lo, d), q_add(hi, d)
        if integer:
            # the noise is added to the bit pattern: steps double above the binade
            top = q_scale(e + 1)
            neg = q[0] < 0
            a_hi = q_neg(lo) if neg else hi
            if q_cmp(a_hi, top) > 0:
                a_hi = q_sub(q_add(a_hi, a_hi), top)
            if neg:
                lo = q_neg(a_hi)
            else:
                hi = a_hi
    if absE is not None:
        d = q_scale(absE - 1)
        lo, hi = q_sub(lo, d), q_add(hi, d)
    return lo, hi


def noise_on_interval(lo, hi, t, rel, absE, integer):
    """conservative image of an interval"""
    m = q_max(q_abs(lo), q_abs(hi))
    if m[0] == 0:
        return lo, hi
    d = ZERO_Q
    if rel:
        d = q_scale(q_exp(m) - t + (1 if integer else 0))
    if absE is not None:
        d = q_add(d, q_scale(absE - 1))
    return q_sub(lo, d), q_add(hi, d)


def hull(f, op, args, mode, t, rel=True, absE=None, integer=False):
    """returns ('nan',), ('exact', bits), ('skip',) or ('range', key_lo, key_hi, exact_q)"""
    ext = 53 if f is F32 else 113
    r = exact_op(f, op, *args)
    if r[0] == "special":
        if absE is not None and mode in ("pb", "mca"):
            # an absolute noise larger than an operand may change its sign
            for u in args:
                if dec(f, u)[0] == FIN:
                    lo, hi = noise_interval(q_of(f, u), t, rel, absE, integer)
                    if lo[0] <= 0 <= hi[0]:
                        return ("skip",)
        return ("nan",) if r[1] == "nan" else ("exact", r[1])
    q = r[1]
    # operands
    if mode in ("pb", "mca"):
        iv = []
        for u in args:
            x = q_of(f, u)
            iv.append((x, x) if x[0] == 0 else noise_interval(x, t, rel, absE, integer))
        if op in ("add", "sub"):
            (a0, a1), (b0, b1) = iv
            if op == "sub":
                b0, b1 = q_neg(b1), q_neg(b0)
            lo, hi = q_add(a0, b0), q_add(a1, b1)
        elif op in ("mul", "fma"):
            c = [q_mul(x, y) for x in iv[0] for y in iv[1]]
            lo = hi = c[0]
            for z in c[1:]:
                lo, hi = q_min(lo, z), q_max(hi, z)
            if op == "fma":
                lo, hi = q_add(lo, iv[2][0]), q_add(hi, iv[2][1])
        else:
            b0, b1 = iv[1]
            if b0[0] == 0 or b1[0] == 0 or (b0[0] < 0) != (b1[0] < 0):
                return ("skip",)
            c = [q_div(x, y) for x in iv[0] for y in iv[1]]
            lo = hi = c[0]
            for z in c[1:]:
                lo, hi = q_min(lo, z), q_max(hi, z)
    else:
        lo = hi = q
    point = q_cmp(lo, hi) == 0
    # rounding errors of the extended format
    m = q_max(q_abs(lo), q_abs(hi))
    if m[0] == 0:
        return ("exact", zero(f, r[2]))
    slack = q_scale(q_exp(m) - ext + 2)
    if op == "fma":
        # a*b may be much larger than the sum
        slack = q_add(slack, ZERO_Q)
    if mode == "rr":
        if q_is_dyadic_fit(q, min(t, ext)):
            return ("range", key_of_q(f, q), key_of_q(f, q), q)
    if mode in ("rr", "mca"):
        if point:
            lo, hi = noise_interval(q, t, rel, absE, integer)
        else:
            lo, hi = noise_on_interval(lo, hi, t, rel, absE, integer)
    lo, hi = q_sub(lo, slack), q_add(hi, slack)
    return ("range", key_of_q(f, lo), key_of_q(f, hi), q)


def judge(f, op, args, mode, t, got, **kw):
    """None if got is allowed, else a message"""
    h = hull(f, op, args, mode, t, **kw)
    if h[0] == "nan":
        return None if is_nan(f, got) else "must be NaN"
    if h[0] == "skip":
        return None
    if h[0] == "exact":
        if got == h[1]:
            return None
        if dec(f, h[1])[0] == ZERO and dec(f, got)[0] == ZERO:
            return None
        return "must be exactly %s" % show(f, h[1])
    if is_nan(f, got):
        return "is NaN for finite operands"
    k = ordk(f, got)
    if h[1] <= k <= h[2]:
        return None
    if h[1] == h[2]:
        return "must be exactly the representable result (key %d, got key %d)" % (h[1], k)
    return "is outside the interval of the model, %d ulps from [%d, %d]" % (
        (h[1] - k) if k < h[1] else (k - h[2]), h[1], h[2])
