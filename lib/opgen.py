"""Generated instrumented operations and their IEEE-754 reference results."""
from fp import *           # noqa: F401,F403
from ops import Op

BIN = ("add", "sub", "mul", "div")
PRED = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord",
        "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]


def fmt(op):
    return F64 if op.ty else F32


def out_fmt(op):
    return F32 if op.op == "cast" else fmt(op)


def cmp_ref(f, pred, a, b):
    """LLVM fcmp predicate, on bit patterns"""
    ka, kb = dec(f, a)[0], dec(f, b)[0]
    uno = NAN in (ka, kb)
    if pred == 0:
        return 0
    if pred == 15:
        return 1
    if uno:
        return 1 if pred >= 8 else 0
    if pred == 7:
        return 1
    if pred == 8:
        return 0

    def key(u, k, s):
        mag = u & ((1 << (f.w - 1)) - 1)
        return -mag if s else mag
    x, y = key(a, ka, dec(f, a)[1]), key(b, kb, dec(f, b)[1])
    lt, eq, gt = x < y, x == y, x > y
    bits = pred & 7                 # 1: eq, 2: gt, 4: lt
    return int(bool((bits & 1 and eq) or (bits & 2 and gt) or (bits & 4 and lt)))


def lane_args(op):
    """operands of each lane"""
    n = op.lanes
    k = len(op.args) // n
    return [[op.args[j * n + i] for j in range(k)] for i in range(n)]


def ieee_ref(op):
    """expected bits per lane ('nan' for any NaN); ints for comparisons"""
    f = fmt(op)
    out = []
    for a in lane_args(op):
        if op.op == "cmp":
            out.append(cmp_ref(f, op.aux, a[0], a[1]))
        elif op.op == "cast":
            out.append(cast(a[0]))
        else:
            out.append(ieee(f, op.op, *a))
    return out


def same(f, got, want):
    if want == "nan":
        return is_nan(f, got)
    return got == want


def gen_scalar(r, kinds, ty=None, gb=None):
    op = r.choice(kinds)
    if op == "cast":
        return Op("cast", 1, [gen_cast(r)])
    t = r.getrandbits(1) if ty is None else ty
    f = F64 if t else F32
    if op == "fma":
        return Op("fma", t, list(gen_triple(r, f)))
    if op == "cmp":
        a, b = gen_pair(r, f, "sub")
        if r.random() < 0.25:
            b = a if r.random() < 0.6 else a ^ (1 << (f.w - 1))
        return Op("cmp", t, [a, b], aux=r.randrange(16))
    return Op(op, t, list(gen_pair(r, f, op)))


def gen_cast(r):
    """doubles biased to float's boundaries and ties"""
    k = r.random()
    if k < 0.3:
        return gen_bits(r, F64)
    u = widen(gen_bits(r, F32))
    if k < 0.6 and dec(F64, u)[0] == FIN:                 # perturb below float's ulp
        u ^= r.choice([1 << 28, 1 << 28 | 1, (1 << 28) - 1, r.getrandbits(29), 1])
        return u
    e = r.choice([-126, -127, -148, -149, -150, -151, 127, 128, r.randint(-160, 130)]) + 1023
    m = short_mant(r, F64) if r.random() < 0.5 else r.getrandbits(52)
    return (r.getrandbits(1) << 63) | (e << 52) | m


def vectorise(r, op, kinds_src):
    """turn a scalar op into a vector op of 2..16 lanes (fresh operands per lane)"""
    n = r.choice([2, 4, 8, 16])
    f = fmt(op)
    cols = [op.args]
    for _ in range(n - 1):
        cols.append(list(gen_pair(r, f, "sub" if op.op == "cmp" else op.op)))
    args = [cols[i][j] for j in range(2) for i in range(n)]
    return Op(op.op, op.ty, args, lanes=n, aux=op.aux)


def mixed(r, n, kinds, vec=0.2, ty=None):
    out = []
    for _ in range(n):
        o = gen_scalar(r, kinds, ty)
        if o.op in BIN + ("cmp",) and r.random() < vec:
            o = vectorise(r, o, kinds)
        out.append(o)
    return out


def describe(op, lane=0):
    f = fmt(op)
    a = lane_args(op)[lane]
    nm = "%s(%s)" % (op.op + ("[%s]" % PRED[op.aux] if op.op == "cmp" else ""), f.name)
    if op.lanes > 1:
        nm += " lane %d of %d" % (lane, op.lanes)
    return nm + " " + ", ".join(show(f, x) for x in a)


def show_out(op, u):
    return str(u) if op.op == "cmp" else show(out_fmt(op), u)


def check_ieee(cfg, ops, results):
    for i, (o, res) in enumerate(zip(ops, results)):
        ref = ieee_ref(o)
        f = out_fmt(o)
        for k, (x, w) in enumerate(zip(res, ref)):
            good = (bool(x) == bool(w)) if o.op == "cmp" else same(f, x, w)
            if not good:
                yield i, "%s gave %s, IEEE-754 requires %s (backends %r)" % (
                    describe(o, k), show_out(o, x), show_out(o, w), cfg["backends"])
                break
