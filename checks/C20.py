from vcommon import OpsCheck
from opgen import *
import vprecmodel as vm
import mcahull


class CHECK(OpsCheck):
    id = "C20"
    repeat = 0
    rule = ("generated histories interleaving operations with run-time calls (set precision/range, inexact, unknown ids) "
            "on one or several loaded back-ends; a model tracks the current settings and judges each operation with "
            "them; non-trivial = an operation that follows at least one call and whose result is not the IEEE one, or "
            "an inexact call that changed its value; distinct by configuration, operands and result")
    assumptions = ["settings passed are within the documented limits", "as C05 and C14 for the numerical models"]
    batch = 900

    def setup(self, b, tier):
        b.backends(["mca", "vprec", "ieee", "mca_int", "bitmask"])
        b.opserver(False)

    def njobs(self, tier):
        return 2800 if tier == "quick" else 22400

    def configs(self, r, i):
        last = ("vprec", "mca")[i % 2]
        st = {"p32": 23, "p64": 52, "r32": 8, "r64": 11} if last == "vprec" else {"p32": 24, "p64": 53}
        if last == "vprec":
            mode = r.choice(["ob", "ib", "full"])
            be = "libinterflop_vprec.so --mode=" + mode
        else:
            mode = r.choice(["rr", "pb", "mca", "ieee"])
            be = "libinterflop_mca.so --mode=%s --seed=%d" % (mode, r.getrandbits(30))
        if r.random() < 0.5:
            st["p32"], st["p64"] = r.randint(1, 23), r.randint(1, 52)
            be += " --precision-binary32=%d --precision-binary64=%d" % (st["p32"], st["p64"])
        if last == "vprec" and r.random() < 0.5:
            st["r32"], st["r64"] = r.randint(2, 8), r.randint(2, 11)
            be += " --range-binary32=%d --range-binary64=%d" % (st["r32"], st["r64"])
        pre = r.choice(["", "", "libinterflop_ieee.so;", "libinterflop_mca.so --seed=3;", "libinterflop_vprec.so;",
                        "libinterflop_mca_int.so --seed=1;libinterflop_vprec.so --mode=full;", "libinterflop_bitmask.so;"])
        return {"backends": pre + be, "last": last, "umode": mode, "st": st, "mcas": ("mca.so" in pre)}

    def label(self, cfg):
        return "%s %s%s" % (cfg["last"], cfg["umode"], " chained" if ";" in cfg["backends"] else "")

    def gen_ops(self, r, cfg, n):
        st = dict(cfg["st"])
        lims = {"prec32": (2, 1, 23, "p32"), "prec64": (3, 1, 52, "p64"), "range32": (4, 2, 8, "r32"),
                "range64": (5, 2, 11, "r64")}
        out = []
        for _ in range(n):
            k = r.random()
            ty = r.getrandbits(1)
            f = F64 if ty else F32
            if k < 0.2:
                nm = r.choice(sorted(lims))
                cid, lo, hi, key = lims[nm]
                v = r.randint(lo, hi)
                out.append(Op("call", 0, [v], aux=cid))
                st[key] = v
            elif k < 0.22:
                out.append(Op("call", 0, [r.getrandbits(8)], aux=r.choice([77, -1])))
            elif k < 0.26:
                o = Op("inexactq", 1, gen_quad(r), lanes=2, aux=r.randint(1, 113))
                out += [o] * (8 if r.random() < 0.4 else 1)
            elif k < 0.37:
                cur = st["p64" if ty else "p32"]
                pr = r.choice([0, r.randint(1, f.p), -r.randint(0, max(0, cur - 1))])
                o = Op("inexact", ty, [gen_bits(r, f)], aux=pr)
                out += [o] * (8 if r.random() < 0.4 else 1)
            else:
                op = r.choice(BIN + ("fma",))
                if cfg["last"] == "vprec":
                    rg, pr = (st["r64"], st["p64"]) if ty else (st["r32"], st["p32"])
                    out.append(Op(op, ty, vm.gen_op_args(r, f, op, rg, pr)))
                else:
                    out.append(gen_scalar(r, (op,), ty))
        return out

    def verdict(self, cfg, ops, results):
        st = dict(cfg["st"])
        key = {2: "p32", 3: "p64", 4: "r32", 5: "r64"}
        hist = 0
        run = 0
        for i, (o, res) in enumerate(zip(ops, results)):
            if o.op == "call":
                if o.aux in key and (cfg["last"] == "vprec" or o.aux < 4):
                    st[key[o.aux]] = o.args[0]
                hist += 1
                continue
            f = fmt(o)
            x = res[0]
            prec = st["p64" if o.ty else "p32"]
            tail = " after %d calls, settings %s (%s)" % (hist, st, cfg["backends"])
            if o.op == "inexactq":
                run = run + 1 if i and ops[i - 1].op == o.op and ops[i - 1].args == o.args and ops[i - 1].aux == o.aux else 1
                m = judge_quad(cfg, o, res)
                if m:
                    yield i, m + tail
                elif run == 8 and o.aux <= 100 and (o.args[1] >> 48 & 0x7fff) > 240 and not quad_plain(cfg, o) and all(results[i - j] == res for j in range(8)):
                    yield i, "inexact(quad %s, %d) gave the same value 8 times" % (hexq(o.args), o.aux) + tail
                continue
            if o.op == "inexact":
                v = o.args[0]
                run = run + 1 if i and ops[i - 1].op == "inexact" and ops[i - 1].args == o.args and ops[i - 1].aux == o.aux else 1
                if cfg["mcas"]:
                    continue         # perturbed by more than one back-end
                plain = cfg["last"] == "vprec" or cfg["umode"] == "ieee" or dec(f, v)[0] != FIN
                t = o.aux if o.aux > 0 else prec + o.aux
                if plain:
                    if x != v and not (is_nan(f, x) and is_nan(f, v)):
                        yield i, "inexact(%s, %d) gave %s, must leave it unchanged" % (show(f, v), o.aux, show(f, x)) + tail
                    continue
                q = q_of(f, v)
                ext = 53 if f is F32 else 113
                lo, hi = mcahull.noise_interval(q, t, True, None, False)
                sl = q_pow2(q_exp(q) - ext + 2)
                klo, khi = mcahull.key_of_q(f, q_sub(lo, sl)), mcahull.key_of_q(f, q_add(hi, sl))
                if is_nan(f, x) or not klo <= mcahull.ordk(f, x) <= khi:
                    yield i, "inexact(%s, %d) gave %s, outside the noise of %d significant bits" % (
                        show(f, v), o.aux, show(f, x), t) + tail
                elif run == 8 and t <= f.p - 10 and not is_sub(f, v) and dec(f, x)[0] == FIN and all(results[i - j] == res for j in range(8)):
                    yield i, "inexact(%s, %d) gave %s 8 times" % (show(f, v), o.aux, show(f, x)) + tail
                continue
            run = 0
            if cfg["last"] == "vprec":
                rg = st["r64" if o.ty else "r32"]
                al = vm.model(f, o.op, o.args, cfg["umode"], rg, prec, False, False)
                if not vm.ok(f, x, al):
                    yield i, "%s gave %s, expected %s" % (
                        describe(o), show(f, x), [z if z == "nan" else show(f, z) for z in al]) + tail
            elif cfg["umode"] == "ieee":
                if not same(f, x, ieee_ref(o)[0]):
                    yield i, "%s gave %s instead of the IEEE result" % (describe(o), show(f, x)) + tail
            else:
                m = mcahull.judge(f, o.op, o.args, cfg["umode"], prec, x)
                if m:
                    yield i, "%s gave %s, which %s" % (describe(o), show(f, x), m) + tail

    def nontrivial(self, cfg, o, x):
        if o.op == "call":
            return False
        if o.op.startswith("inexact"):
            return list(x) != list(o.args)
        return not same(fmt(o), x[0], ieee_ref(o)[0])


def hexq(w):
    return "0x%016x%016x" % (w[1], w[0])


def gen_quad(r):
    e = r.choice([0, 0x7fff, 1, 16383, r.randint(16383 - 60, 16383 + 60), r.randint(200, 0x7f00)])
    m = r.choice([0, r.getrandbits(112), r.getrandbits(112), r.getrandbits(53) << 59])
    u = r.getrandbits(1) << 127 | e << 112 | m
    return [u & (1 << 64) - 1, u >> 64]


def quad_plain(cfg, o):
    u = o.args[1] << 64 | o.args[0]
    e = u >> 112 & 0x7fff
    # subnormal quads are far below the values of the instrumented types: left open
    return cfg["last"] == "vprec" or cfg["umode"] == "ieee" or cfg["mcas"] or e == 0x7fff or u << 1 & (1 << 128) - 1 == 0


def judge_quad(cfg, o, res):
    u, v = o.args[1] << 64 | o.args[0], res[1] << 64 | res[0]
    e = u >> 112 & 0x7fff
    if cfg["mcas"] or (e <= 240 and not quad_plain(cfg, o)):
        return None                      # several noises, or a noise below the smallest quad
    if quad_plain(cfg, o):
        return None if u == v or (e == 0x7fff and v >> 112 & 0x7fff == e) else \
            "inexact(quad %s, %d) gave %s, must leave it unchanged" % (hexq(o.args), o.aux, hexq(res))
    # distance in units of the last place of u: at most half of 2^(113 - t), plus the rounding
    lim = (1 << max(0, 113 - o.aux)) // 2 + 1
    mu = (1 << 112) | (u & (1 << 112) - 1)
    ev = v >> 112 & 0x7fff
    mv = (1 << 112) | (v & (1 << 112) - 1)
    sh = ev - e
    far = abs(sh) > 200 or abs((mv << max(sh, 0)) - (mu << max(-sh, 0))) > lim << max(-sh, 0)
    if u >> 127 != v >> 127 or far or ev in (0, 0x7fff):
        return "inexact(quad %s, %d) gave %s, outside the noise of %d significant bits" % (
            hexq(o.args), o.aux, hexq(res), o.aux)
    return None
