"""Exact IEEE-754 helpers on bit patterns (no dependence on the code under test).

A value is handled as its bit pattern.  `dec` gives (kind, sign, m, e) with the
finite non-zero value (-1)^sign * m * 2^e, m > 0.  Exact results of operations are
rationals (n, d, e) = n/d * 2^e with d > 0.
"""
import struct
from collections import namedtuple

Fmt = namedtuple("Fmt", "name w p emin emax mant ebits bias sz code")
F32 = Fmt("float", 32, 24, -126, 127, 23, 8, 127, 4, 0)
F64 = Fmt("double", 64, 53, -1022, 1023, 52, 11, 1023, 8, 1)

NAN, INF, ZERO, FIN = "nan", "inf", "zero", "fin"


def dec(f, u):
    s = (u >> (f.w - 1)) & 1
    ex = (u >> f.mant) & ((1 << f.ebits) - 1)
    m = u & ((1 << f.mant) - 1)
    if ex == (1 << f.ebits) - 1:
        return (NAN if m else INF, s, 0, 0)
    if ex == 0:
        if m == 0:
            return (ZERO, s, 0, 0)
        return (FIN, s, m, f.emin - f.mant)
    return (FIN, s, m | (1 << f.mant), ex - f.bias - f.mant)


def is_nan(f, u):
    return dec(f, u)[0] == NAN


def is_sub(f, u):
    ex = (u >> f.mant) & ((1 << f.ebits) - 1)
    return ex == 0 and (u & ((1 << f.mant) - 1)) != 0


def inf(f, s=0):
    return (s << (f.w - 1)) | (((1 << f.ebits) - 1) << f.mant)


def zero(f, s=0):
    return s << (f.w - 1)


def qnan(f):
    return inf(f) | (1 << (f.mant - 1))


def enc(f, s, m, e):
    """exact encoding of (-1)^s m 2^e; must be representable"""
    if m == 0:
        return zero(f, s)
    bl = m.bit_length()
    if bl > f.p:
        sh = bl - f.p
        assert m & ((1 << sh) - 1) == 0, "not representable"
        m >>= sh
        e += sh
        bl = f.p
    ee = e + bl - 1
    if ee > f.emax:
        raise OverflowError
    if ee >= f.emin:
        m <<= f.p - bl
        return (s << (f.w - 1)) | ((ee + f.bias) << f.mant) | (m & ((1 << f.mant) - 1))
    q = f.emin - f.mant
    if e >= q:
        m <<= e - q
    else:
        assert m & ((1 << (q - e)) - 1) == 0, "not representable"
        m >>= q - e
    return (s << (f.w - 1)) | m


def fits(f, m, e):
    """is m*2^e (m>0) exactly a finite value of f?"""
    while m and not m & 1:
        m >>= 1
        e += 1
    return (m.bit_length() <= f.p and e + m.bit_length() - 1 <= f.emax
            and e >= f.emin - f.mant)


# ---------------------------------------------------------------- exact rationals
def q_of(f, u):
    k, s, m, e = dec(f, u)
    if k == ZERO:
        return (0, 1, 0)
    return (-m if s else m, 1, e)


def q_add(a, b):
    (n1, d1, e1), (n2, d2, e2) = a, b
    e = min(e1, e2)
    return ((n1 << (e1 - e)) * d2 + (n2 << (e2 - e)) * d1, d1 * d2, e)


def q_neg(a):
    return (-a[0], a[1], a[2])


def q_sub(a, b):
    return q_add(a, q_neg(b))


def q_mul(a, b):
    return (a[0] * b[0], a[1] * b[1], a[2] + b[2])


def q_div(a, b):
    n, d = a[0] * b[1], a[1] * b[0]
    if d < 0:
        n, d = -n, -d
    return (n, d, a[2] - b[2])


def q_abs(a):
    return (abs(a[0]), a[1], a[2])


def q_cmp(a, b):
    n = q_sub(a, b)[0]
    return (n > 0) - (n < 0)


def q_pow2(e):
    return (1, 1, e)


def q_float(a):
    from fractions import Fraction
    try:
        return float(Fraction(a[0], a[1]) * (Fraction(2) ** a[2]))
    except OverflowError:
        return float("inf") if a[0] > 0 else float("-inf")


def q_exp(a):
    """floor(log2 |a|), a != 0"""
    n, d, e = abs(a[0]), a[1], a[2]
    k = n.bit_length() - d.bit_length()
    # n/d in (2^(k-1), 2^(k+1))
    if (n if k >= 0 else n << -k) >= (d << k if k >= 0 else d):
        return k + e
    return k - 1 + e


def q_is_dyadic_fit(q, p, emin_ulp=None):
    """q exactly representable on p significant bits (exponent unbounded below
    unless emin_ulp, the exponent of the smallest allowed ulp, is given)"""
    n, d, e = abs(q[0]), q[1], q[2]
    if n == 0:
        return True
    if d & (d - 1):
        if n % d:
            # reduce
            from math import gcd
            g = gcd(n, d)
            n //= g
            d //= g
            if d & (d - 1):
                return False
        else:
            n //= d
            d = 1
    e -= d.bit_length() - 1
    tz = (n & -n).bit_length() - 1
    n >>= tz
    e += tz
    if emin_ulp is not None and e < emin_ulp:
        return False
    return n.bit_length() <= p


def round_q(q, p, emin, emax, sign_zero=0, sub=True):
    """round-to-nearest-even of a rational into a format with p significant bits,
    min normal exponent emin, max exponent emax, gradual underflow.
    Returns ('zero'|'fin'|'inf', sign, m, e)."""
    n, d, e = q
    if n == 0:
        return (ZERO, sign_zero, 0, 0)
    s = 1 if n < 0 else 0
    n = abs(n)
    ex = q_exp((n, d, e))
    qe = max(ex, emin) - (p - 1)       # exponent of the ulp
    sh = e - qe
    if sh >= 0:
        n <<= sh
    else:
        d <<= -sh
    m, r = divmod(n, d)
    r2 = 2 * r - d
    if r2 > 0 or (r2 == 0 and m & 1):
        m += 1
    if m == 0:
        return (ZERO, s, 0, 0)
    if m.bit_length() + qe - 1 > emax:
        return (INF, s, 0, 0)
    return (FIN, s, m, qe)


def enc_r(f, r):
    k, s, m, e = r
    if k == ZERO:
        return zero(f, s)
    if k == INF:
        return inf(f, s)
    return enc(f, s, m, e)


def exact_op(f, op, a, b, c=None):
    """Special-value handling + exact value.
    Returns ('special', bits or 'nan') or ('q', rational, sign_if_zero)."""
    ka, sa, ma, ea = dec(f, a)
    kb, sb, mb, eb = dec(f, b) if b is not None else (None,) * 4
    if op == "fma":
        kc, sc, _, _ = dec(f, c)
        if NAN in (ka, kb, kc):
            return ("special", "nan")
        if (ka == INF and kb == ZERO) or (ka == ZERO and kb == INF):
            return ("special", "nan")
        sp = sa ^ sb
        if INF in (ka, kb):
            if kc == INF and sc != sp:
                return ("special", "nan")
            return ("special", inf(f, sp))
        if kc == INF:
            return ("special", inf(f, sc))
        q = q_add(q_mul(q_of(f, a), q_of(f, b)), q_of(f, c))
        zs = 0
        if q[0] == 0:
            pz = ka == ZERO or kb == ZERO
            zs = sp & sc if (pz and kc == ZERO) else 0
        return ("q", q, zs)
    if NAN in (ka, kb):
        return ("special", "nan")
    if op in ("add", "sub"):
        if op == "sub":
            sb ^= 1
        if ka == INF:
            if kb == INF and sa != sb:
                return ("special", "nan")
            return ("special", inf(f, sa))
        if kb == INF:
            return ("special", inf(f, sb))
        qb = q_of(f, b)
        q = q_add(q_of(f, a), q_neg(qb) if op == "sub" else qb)
        zs = sa & sb if (ka == ZERO and kb == ZERO) else 0
        return ("q", q, zs)
    s = sa ^ sb
    if op == "mul":
        if (ka == INF and kb == ZERO) or (ka == ZERO and kb == INF):
            return ("special", "nan")
        if INF in (ka, kb):
            return ("special", inf(f, s))
        return ("q", q_mul(q_of(f, a), q_of(f, b)), s)
    if op == "div":
        if (ka == INF and kb == INF) or (ka == ZERO and kb == ZERO):
            return ("special", "nan")
        if ka == INF:
            return ("special", inf(f, s))
        if kb == INF:
            return ("special", zero(f, s))
        if kb == ZERO:
            return ("special", inf(f, s))
        if ka == ZERO:
            return ("q", (0, 1, 0), s)
        return ("q", q_div(q_of(f, a), q_of(f, b)), s)
    raise ValueError(op)


def ieee(f, op, a, b=None, c=None):
    """correctly rounded IEEE result as bits; 'nan' for NaN"""
    r = exact_op(f, op, a, b, c)
    if r[0] == "special":
        return r[1]
    return enc_r(f, round_q(r[1], f.p, f.emin, f.emax, r[2]))


def cast(a):
    """double bits -> float bits ('nan' for NaN)"""
    k, s, m, e = dec(F64, a)
    if k == NAN:
        return "nan"
    if k == INF:
        return inf(F32, s)
    if k == ZERO:
        return zero(F32, s)
    return enc_r(F32, round_q((-m if s else m, 1, e), 24, -126, 127, s))


def widen(u):
    """float bits -> double bits, exact"""
    k, s, m, e = dec(F32, u)
    if k == NAN:
        return qnan(F64)
    if k == INF:
        return inf(F64, s)
    if k == ZERO:
        return zero(F64, s)
    return enc(F64, s, m, e)


def f2b(x, f=F64):
    return struct.unpack("<Q", struct.pack("<d", x))[0] if f is F64 else \
        struct.unpack("<I", struct.pack("<f", x))[0]


def b2f(u, f=F64):
    return struct.unpack("<d", struct.pack("<Q", u))[0] if f is F64 else \
        struct.unpack("<f", struct.pack("<I", u))[0]


def show(f, u):
    if u == "nan":
        return "nan"
    k = dec(f, u)[0]
    x = b2f(u, f)
    return "%s[0x%0*x]" % (k if k in (NAN,) else float(x).hex(), f.w // 4, u)


def ulp_exp(f, u):
    """exponent of the ulp of a finite value"""
    ex = (u >> f.mant) & ((1 << f.ebits) - 1)
    return (max(ex, 1) - f.bias) - f.mant


# ------------------------------------------------------------------- generators
def gen_bits(r, f):
    """one structured bit pattern"""
    k = r.random()
    s = r.getrandbits(1) << (f.w - 1)
    full = (1 << f.mant) - 1
    if k < 0.30:                                     # moderate magnitude, random mantissa
        ex = f.bias + r.randint(-20, 20)
        m = r.getrandbits(f.mant)
    elif k < 0.50:                                   # any exponent
        ex = r.randint(0, (1 << f.ebits) - 2)
        m = r.getrandbits(f.mant)
    elif k < 0.72:                                   # few bits set / short mantissas
        ex = f.bias + r.randint(-30, 30) if r.random() < 0.7 else r.randint(1, (1 << f.ebits) - 2)
        m = short_mant(r, f)
    elif k < 0.80:                                   # sub-normals
        ex = 0
        b = r.randint(1, f.mant)
        m = r.getrandbits(b) | (1 << (b - 1))
    elif k < 0.86:                                   # around the format's boundaries
        ex = r.choice([0, 1, 2, f.mant, f.mant + 1, (1 << f.ebits) - 2, (1 << f.ebits) - 3])
        m = r.choice([0, 1, full, full - 1, 1 << (f.mant - 1), r.getrandbits(f.mant)])
    elif k < 0.90:                                   # small integers
        v = r.randint(0, 64)
        return (f2b(float(v), f)) | s
    elif k < 0.95:                                   # specials
        c = r.random()
        if c < 0.4:
            return zero(f) | s
        if c < 0.75:
            return inf(f) | s
        if c < 0.9:
            return qnan(f) | s
        return inf(f) | s | (r.getrandbits(f.mant) or 1) | (1 << (f.mant - 1))
    else:
        u = r.getrandbits(f.w)
        if dec(f, u)[0] == NAN:
            u |= 1 << (f.mant - 1)                   # quiet NaNs only
        return u
    return s | (ex << f.mant) | m


def short_mant(r, f):
    """mantissas with structure: few leading bits, ties, all ones up to a cut"""
    c = r.random()
    full = (1 << f.mant) - 1
    if c < 0.25:
        k = r.randint(0, f.mant)
        m = r.getrandbits(f.mant) & ~((1 << k) - 1)
    elif c < 0.5:                                    # prefix + tie bit
        k = r.randint(0, f.mant - 1)
        m = (r.getrandbits(f.mant) & ~((1 << (k + 1)) - 1)) | (1 << k)
    elif c < 0.7:                                    # tie +- 1
        k = r.randint(0, f.mant - 1)
        m = ((r.getrandbits(f.mant) & ~((1 << (k + 1)) - 1)) | (1 << k)) + r.choice([-1, 1])
    elif c < 0.85:                                   # ones from a cut
        k = r.randint(0, f.mant)
        m = full & ~((1 << k) - 1)
    else:
        m = r.choice([0, 1, full, full - 1, 1 << (f.mant - 1)])
    return m & full


def gen_pair(r, f, op):
    """operand pairs biased to interesting interactions for op"""
    a = gen_bits(r, f)
    k = r.random()
    if k < 0.45:
        return a, gen_bits(r, f)
    ka = dec(f, a)[0]
    if ka in (NAN, INF, ZERO):
        return a, gen_bits(r, f)
    ex = (a >> f.mant) & ((1 << f.ebits) - 1)
    if op in ("add", "sub"):
        if k < 0.70:                                 # close magnitudes: cancellation
            b = a ^ (r.getrandbits(r.randint(1, f.mant)))
            if r.random() < 0.3:
                b = a + r.randint(-3, 3)
            if dec(f, b & ((1 << f.w) - 1))[0] in (NAN, INF):
                b = a
            b &= (1 << f.w) - 1
            if r.random() < 0.5:
                b ^= 1 << (f.w - 1)
            return a, b
        e2 = min(max(ex + r.randint(-f.p - 3, f.p + 3), 0), (1 << f.ebits) - 2)
        m = short_mant(r, f) if r.random() < 0.5 else r.getrandbits(f.mant)
        return a, (r.getrandbits(1) << (f.w - 1)) | (e2 << f.mant) | m
    if k < 0.70:                                     # keep the result near a boundary
        tgt = r.choice([f.emin, f.emin - f.mant, f.emin - f.mant - 1, f.emax, f.emax + 1, 0]) + r.randint(-2, 2)
        va = max(ex, 1) - f.bias
        eb = (tgt - va) if op != "div" else (va - tgt)
        eb = min(max(eb + f.bias, 0), (1 << f.ebits) - 2)
        m = short_mant(r, f) if r.random() < 0.6 else r.getrandbits(f.mant)
        return a, (r.getrandbits(1) << (f.w - 1)) | (eb << f.mant) | m
    # short operands: exact products / quotients
    h = f.p // 2
    m = (r.getrandbits(f.mant) >> (f.mant - h)) << (f.mant - h) if h < f.mant else 0
    b = (r.getrandbits(1) << (f.w - 1)) | ((f.bias + r.randint(-12, 12)) << f.mant) | m
    if op == "div" and r.random() < 0.5:
        b = b & ~((1 << f.mant) - 1)                 # power of two divisor
    if r.random() < 0.6:
        a = a & ~((1 << (f.mant - h)) - 1)
        if dec(f, a)[0] == ZERO:
            a = f2b(1.0, f)
    return a, b


def gen_triple(r, f):
    """fma operands: often c is close to -a*b or far away"""
    a, b = gen_pair(r, f, "mul")
    k = r.random()
    if k < 0.4:
        return a, b, gen_bits(r, f)
    p = ieee(f, "mul", a, b)
    if p == "nan" or dec(f, p)[0] in (INF, ZERO):
        return a, b, gen_bits(r, f)
    if k < 0.7:
        c = p ^ (1 << (f.w - 1)) ^ (r.getrandbits(r.randint(1, f.mant)) if r.random() < 0.7 else 0)
        return a, b, c
    ex = (p >> f.mant) & ((1 << f.ebits) - 1)
    e2 = min(max(ex + r.randint(-2 * f.p - 3, f.p + 3), 0), (1 << f.ebits) - 2)
    m = short_mant(r, f)
    return a, b, (r.getrandbits(1) << (f.w - 1)) | (e2 << f.mant) | m
