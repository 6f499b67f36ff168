"""C24: the hash map behaves as a dictionary over every history."""
import random

import progrun as pr
from vcommon import Check, Stats, HANG, h64

M64 = (1 << 64) - 1


def strhash(bs):
    x = 0
    for c in bs:
        x = (x * 31 + c) & M64
    return x


class CHECK(Check):
    id = "C24"
    rule = ("generated histories of create/insert/lookup/remove/enumerate/free (20-3000 operations, some with up to 120000 items, keys chosen to collide in the table, "
            "removals and re-insertions), run under the address sanitizer; oracle: a dictionary, and the count of live allocations at the end. "
            "An evaluation is one operation; non-trivial = operation on a map with at least one other item in the same slot chain or after a "
            "removal or growth, distinct by history and position")
    assumptions = ["a key is inserted only when it is absent, as every user of the map does", "values are addresses of live blocks"]
    shrink_budget = 40.0

    def setup(self, b, tier):
        self.exe = b.structs()

    def plan(self, tier, seed):
        n = 6000 if tier == "quick" else 250000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i), "bulk": i % 300 == 150} for i in range(n)]

    def gen_bulk(self, r):
        """tens of thousands of items"""
        n = r.choice([6000, 15000, 30000, 60000, 120000])
        style = r.choice(["random", "stride", "string", "align"])
        base, step = r.getrandbits(64), r.choice([1, 1, 8, 64, 1 << 12])
        keys = {"random": lambda i: r.getrandbits(64), "stride": lambda i: (base + step * i) & M64, "align": lambda i: (0x7F0000000000 + 16 * r.getrandbits(30)),
                "string": lambda i: strhash(b"t%d,v%d" % (i % 97, i))}[style]
        ks = list(dict.fromkeys(keys(i) for i in range(n)))
        ops = [["C"]] + [["i", k, 2 + i] for i, k in enumerate(ks)] + [["n", 0]]
        ops += [[r.choice("gh"), r.choice(ks)] for _ in range(2000)]
        gone = r.sample(ks, len(ks) // r.choice([2, 5, 50]))
        ops += [["r", k] for k in gone] + [["n", 0]] + [[r.choice("gh"), r.choice(gone)] for _ in range(500)]
        nid = 2 + len(ks)
        ops += [["i", k, nid + i] for i, k in enumerate(gone[::2])]
        ops += [[r.choice("gh"), r.choice(ks)] for _ in range(2000)]
        return ops + [["e", 0], ["n", 0], ["F"]]

    def gen(self, r):
        n = r.choice([20, 60, 60, 200, 200, 800, 3000])
        style = r.choice(["random", "small", "stride", "string", "collide"])
        base = r.getrandbits(64)
        step = r.choice([1, 8, 64, 1 << 12, 1 << 20, 1 << 40])

        def newkey():
            if style == "random":
                return r.getrandbits(64)
            if style == "small":
                return r.randrange(max(4, n // 2))
            if style == "stride":
                return (base + step * r.randrange(n)) & M64
            if style == "collide":
                return ((r.randrange(4)) | (r.getrandbits(24) << 40)) & M64
            return strhash(("f.c/%s/%s/%d/%d" % (r.choice(["main", "aA", "bb"]), r.choice(["g", "sin", "Aa", "BB"]), r.randrange(99), r.randrange(999))).encode())
        prem = r.choice([0, 0, 0.1, 0.25, 0.4])
        ops, live, gone, nid = [["C"]], {}, [], 2
        for _ in range(n):
            x = r.random()
            if x < 0.35:
                k = r.choice(gone) if gone and r.random() < 0.3 else newkey()
                if k not in live:
                    ops.append(["i", k, nid])
                    live[k] = nid
                    nid += 1
            elif x < 0.35 + prem * 0.6:
                k = r.choice(list(live)) if live and r.random() < 0.85 else (r.choice(gone) if gone and r.random() < 0.6 else newkey())
                ops.append(["r", k])
                if k in live:
                    del live[k]
                    gone.append(k)
            else:
                z = r.random()
                k = r.choice(list(live)) if live and z < 0.5 else (r.choice(gone) if gone and z < 0.75 else newkey())
                ops.append([r.choice("ghghn") if r.random() < 0.96 else "e", k])
        for k in r.sample(list(live), min(len(live), 50)):
            ops.append(["g", k])
        s = bytes(r.choice(b"abcXYZ/_019\xc3\xa9") for _ in range(r.randrange(40)))
        ops += [["e", 0], ["n", 0], ["s", s.hex()], ["F"]]
        if r.random() < 0.2:
            ops += [["C"], ["n", 0], ["F"]]
        return ops

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        ops = self.gen_bulk(r) if job.get("bulk") else self.gen(r)
        msg = self.evaluate(b, ops)
        st.evals = len(ops)
        inserted = 0
        removed = False
        for i, o in enumerate(ops):
            inserted += o[0] == "i"
            removed |= o[0] == "r"
            if o[0] in "ghren" and (removed or inserted > 6):
                st.nt.append(h64((job["seed"], i)))
        st.cls("with removals" if removed else "without removal")
        st.samples.append({"ops": len(ops), "first": ops[:6]})
        if msg:
            st.fails.append(({"ops": ops}, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(b, case["ops"])

    def reductions(self, case):
        ops = case["ops"]
        n = len(ops)
        s = n // 2
        while s >= 1:
            for i in range(1, n, s):
                if i + s <= n:
                    yield {"ops": ops[:i] + ops[i + s:]}
            s //= 2

    def evaluate(self, b, ops):
        lines, want = [], []
        d = {}
        alive = False
        for o in ops:
            k = o[0]
            if k == "C":
                if alive:
                    return None
                alive, d = True, {}
                lines.append("C")
                continue
            if not alive:
                continue
            if k == "i":
                if o[1] in d:
                    continue
                d[o[1]] = o[2]
                lines.append("i %x %d" % (o[1], o[2]))
            elif k == "r":
                d.pop(o[1], None)
                lines.append("r %x" % o[1])
            elif k == "F":
                lines.append("F")
                want.append("live 0")
                alive = False
            elif k == "s":
                lines.append("s " + o[1])
                want.append("%x" % strhash(bytes.fromhex(o[1])))
            else:
                lines.append("%s %x" % (k, o[1]))
                want.append({"g": lambda: str(d.get(o[1], "-")), "h": lambda: str(int(o[1] in d)), "n": lambda: str(len(d)),
                             "e": lambda: "".join("%d " % x for x in sorted(d.values()))}[k]())
        want.append("end")
        e = b.env(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0")
        res = pr.call([self.exe], "/", e, 30, "\n".join(lines).encode() + b"\n")
        if res.timeout:
            return HANG
        got = res.out.split("\n")
        for i, x in enumerate(want):
            if i >= len(got) or got[i] != x:
                if res.rc:
                    return "the process ends with status %s: %s" % (res.rc, res.err[:600])
                q = [l for l in lines if l[0] in "ghnesF"] + ["end"]
                return "'%s' answers '%s' instead of '%s'" % (q[i], got[i] if i < len(got) else "", x)
        if res.rc:
            return "the process ends with status %s: %s" % (res.rc, res.err[:600])
        return None
