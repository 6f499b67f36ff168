import random
from vcommon import OpsCheck
from opgen import *


def stochastic(r, i):
    """(back-end string without seed, kinds)"""
    k = i % 4
    if k == 0:
        o = ["--mode=" + r.choice(["rr", "pb", "mca"])]
        if r.random() < 0.5:
            o += ["--precision-binary32=%d" % r.randint(4, 24), "--precision-binary64=%d" % r.randint(4, 53)]
        if r.random() < 0.2:
            o.append("--sparsity=%s" % r.choice(["0.3", "0.8"]))
        return "libinterflop_mca.so " + " ".join(o), BIN + ("fma", "cast")
    if k == 1:
        return "libinterflop_mca_int.so --mode=" + r.choice(["rr", "pb", "mca"]), BIN + ("fma", "cast")
    if k == 2:
        return "libinterflop_bitmask.so --operator=rand --mode=%s --precision-binary32=%d --precision-binary64=%d" % (
            r.choice(["ib", "ob", "full"]), r.randint(2, 16), r.randint(2, 40)), BIN + ("fma",)
    return "libinterflop_cancellation.so", ("add", "sub", "add", "sub", "mul")


class CHECK(OpsCheck):
    id = "C09"
    rule = ("generated programs of 1-250 threads x stochastic back-end x seed; the harness owns the schedule: the same "
            "per-thread programs run under two generated interleavings with the same first-use order, twice under the "
            "same one, under another seed, and with truly concurrent threads; non-trivial = result differs from the "
            "IEEE result; distinct by configuration, operands and result")
    assumptions = ["each thread starts with one operation that draws noise, in a fixed order (the documented source of "
                   "per-thread seeds)", "two unrelated noise streams of 40+ noisy operations never coincide"]
    batch = 400

    def setup(self, b, tier):
        b.backends(["mca", "mca_int", "bitmask", "cancellation", "ieee"])
        b.opserver(False)

    def njobs(self, tier):
        return 2700 if tier == "quick" else 21600

    def configs(self, r, i):
        be, kinds = stochastic(r, i)
        seed = r.choice([0, 1, r.getrandbits(8), r.getrandbits(31), r.getrandbits(62), -r.getrandbits(20)])
        kind = r.choice(["inter", "inter", "par", "seeds", "unseeded"])
        if kind == "seeds":
            return {"backends": be, "kinds": list(kinds), "seed": seed, "kind": kind, "perm": r.choice([r.randrange(63), 62, 32, 31, 0]), "nt": 1}
        return {"backends": be, "kinds": list(kinds), "seed": seed, "kind": kind, "perm": r.getrandbits(30),
                "nt": r.choice([r.randint(2, 6)] * 4 + [r.randint(9, 40), r.randint(9, 40), r.randint(100, 250)])
                if kind == "par" else r.choice([1, 2, 2, 3, 4, 6, 20])}

    def label(self, cfg):
        return cfg["kind"] + " " + cfg["backends"].split()[0]

    def warm(self, k, cfg):
        if "cancellation" not in cfg["backends"]:
            return Op("mul", 1, [f2b(1.0 / 3, F64)] * 2, thr=k)
        return Op("sub", 1, [f2b(1.0 / 3, F64), f2b(1.0 / 3 - 1.0 / 64, F64)], thr=k)

    def gen_ops(self, r, cfg, n):
        nt = cfg["nt"]
        out = [self.warm(k, cfg) for k in range(nt)]
        if cfg["kind"] == "par":
            lst = self.body(r, cfg, n // 2 if nt < 100 else n // 4)
            for k in range(nt):
                for o in lst:
                    out.append(Op(o.op, o.ty, o.args, lanes=o.lanes, thr=k))
            return out
        for o in self.body(r, cfg, n):
            o.thr = r.randrange(nt)
            out.append(o)
        return out

    def body(self, r, cfg, n):
        out = []
        for _ in range(n):
            if "cancellation" in cfg["backends"] or r.random() < 0.4:
                ty = r.getrandbits(1)
                f = F64 if ty else F32
                a = f2b(r.uniform(1, 2), f)
                out.append(Op("sub", ty, [a, a ^ (r.getrandbits(f.mant - r.randint(2, 8)) | 1)]))
            else:
                out.append(gen_scalar(r, tuple(cfg["kinds"])))
        return out

    def run(self, b, cfg, ops, seed, mode="seq"):
        be = cfg["backends"] + (" --seed=%d" % seed if seed is not None else "")
        return self.execute(b, {"backends": be, "mode": mode}, ops)

    def noisy(self, ops, results):
        return sum(1 for o, x in zip(ops, results) if not same(out_fmt(o), x[0], ieee_ref(o)[0]))

    def eval_case(self, b, cfg, ops):
        nt = cfg["nt"]
        A = self.run(b, cfg, ops, cfg["seed"])
        if A.results is None:
            return super().eval_case(b, dict(cfg, backends=cfg["backends"] + " --seed=%d" % cfg["seed"]), ops)
        bad = []

        def fail_if(resB, opsB, what):
            if resB.results is None:
                bad.append((None, "process ended with %s: %s" % (resB.rc, resB.err[-200:])))
                return
            per = {}
            for o, x in zip(ops, A.results):
                per.setdefault(o.thr, []).append((o, x))
            ix = {}
            for o, x in zip(opsB, resB.results):
                j = ix.get(o.thr, 0)
                ix[o.thr] = j + 1
                oa, xa = per[o.thr][j]
                f = out_fmt(o)
                if xa != x and not (is_nan(f, xa[0]) and is_nan(f, x[0])):
                    bad.append((None, "thread %d, operation %d (%s): %s with seed %d, but %s %s" % (
                        o.thr, j, describe(o), show(f, xa[0]), cfg["seed"], show(f, x[0]), what)))
                    return
        if cfg["kind"] == "inter":
            fail_if(self.run(b, cfg, ops, cfg["seed"]), ops, "when the same program runs again")
            if nt > 1 and not bad:
                r = random.Random(cfg["perm"])
                heads, rest = [], {}
                for o in ops:
                    if o.thr not in rest:
                        rest[o.thr] = []
                        heads.append(o)
                    else:
                        rest[o.thr].append(o)
                seq = []
                q = {k: list(v) for k, v in rest.items() if v}
                while q:
                    k = r.choice(sorted(q))
                    for _ in range(r.choice([1, 1, 2, 5, 20])):
                        if not q[k]:
                            break
                        seq.append(q[k].pop(0))
                    if not q[k]:
                        del q[k]
                ob = heads + seq
                fail_if(self.run(b, cfg, ob, cfg["seed"]), ob, "under another interleaving of the same threads")
        elif cfg["kind"] == "par":
            B = self.run(b, cfg, ops, cfg["seed"], "par")
            if B.results is None:
                bad.append((None, "process ended with %s: %s" % (B.rc, B.err[-200:])))
            else:
                def groups(res):
                    g = {}
                    for o, x in zip(ops, res):
                        g.setdefault(o.thr, []).append("nan" if is_nan(out_fmt(o), x[0]) else x[0])
                    return g
                ga, gb = groups(A.results), groups(B.results)
                if sorted(map(repr, ga.values())) != sorted(map(repr, gb.values())):
                    bad.append((None, "the %d threads running the same program with seed %d produced other results "
                                "when running concurrently than one after the other" % (nt, cfg["seed"])))
                if len(set(map(repr, ga.values()))) < nt and self.noisy(ops, A.results) > 40 * nt:
                    bad.append((None, "two of %d threads received the same noise (seed %d)" % (nt, cfg["seed"])))
        elif cfg["kind"] == "seeds" and self.noisy(ops, A.results) > 40:
            B = self.run(b, cfg, ops, cfg["seed"] ^ (1 << (cfg["perm"] % 63)))
            if nt == 1 and B.results == A.results:
                bad.append((None, "seeds %d and %d give identical results over %d operations" % (
                    cfg["seed"], cfg["seed"] ^ (1 << (cfg["perm"] % 63)), len(ops))))
        elif cfg["kind"] == "unseeded" and self.noisy(ops, A.results) > 40:
            B, C = self.run(b, cfg, ops, None), self.run(b, cfg, ops, None)
            if B.results is not None and B.results == C.results:
                D = self.run(b, cfg, ops, None)
                if D.results == B.results:
                    bad.append((None, "three runs without a seed gave identical results over %d operations" % len(ops)))
        return A, bad

    def reductions(self, case):
        ops = case["ops"]
        nt = case["cfg"]["nt"]
        if case["cfg"]["kind"] != "inter":
            return
        body = ops[nt:]
        size = max(1, len(body) // 2)
        while size >= 1:
            for s in range(0, len(body), size):
                rest = body[:s] + body[s + size:]
                if len(rest) < len(body):
                    yield {"cfg": case["cfg"], "ops": ops[:nt] + rest}
            size //= 2

    def nontrivial(self, cfg, o, x):
        return not same(out_fmt(o), x[0], ieee_ref(o)[0])
