"""C23: the probe file holds exactly the registered probes."""
import math
import os
import random
import struct

import progrun as pr
from vcommon import Check, Stats, HANG, h64


def d2u(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def u2d(u):
    return struct.unpack("<d", struct.pack("<Q", u))[0]


MODES = ["none", "absolute", "relative"]
SPECIAL = [0, 1 << 63, 1, (1 << 63) | 1, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0xfff8000000000000,
           0x000fffffffffffff, 0x0010000000000000, 0x7fefffffffffffff, 0x3ff0000000000000, 0x3fb999999999999a]


class CHECK(Check):
    id = "C23"
    rule = ("generated histories of probe registrations (C and Fortran entry points; names of every printable and non-ASCII byte, colliding "
            "hash keys, forbidden commas, duplicates; any double as value and threshold), counting and dumping, under the address sanitizer; "
            "oracle: the list of registrations. An evaluation is one registration or dumped line; non-trivial = distinct dumped line")
    assumptions = ["names contain no newline or carriage return (the export is a line-oriented CSV)"]
    shrink_budget = 40.0

    def setup(self, b, tier):
        self.exe = b.structs()

    def plan(self, tier, seed):
        n = 3000 if tier == "quick" else 120000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    def gen(self, r):
        n = r.choice([0, 1, 2, 3, 5, 8, 12, 30, 100, 400])
        style = r.choice(["short", "collide", "any", "long"])

        def name():
            if style == "collide":
                return "".join(r.choice(["Aa", "BB", "AaAa", "C#", "x"]) for _ in range(r.randint(1, 3)))
            if style == "short":
                return r.choice("abcdefgh") + str(r.randrange(40))
            if style == "long":
                return "v" * r.choice([1, 63, 64, 127, 128, 255, 256, 300, 1000, 5000]) + str(r.randrange(1000))
            return "".join(chr(r.choice([r.randrange(33, 127), r.randrange(33, 127), 32, 9, r.randrange(0xa1, 0x17f)])) for _ in range(r.randint(0, 12))).replace(",", ";")

        def val():
            x = r.random()
            return r.choice(SPECIAL) if x < 0.25 else (r.getrandbits(64) if x < 0.6 else d2u(r.uniform(-9, 9) * 10 ** r.randint(-9, 9)))
        ev, seen = [], set()
        for _ in range(n):
            k = (name(), name())
            if k in seen:
                continue
            seen.add(k)
            ev.append([r.randrange(6), k[0], k[1], val(), val()])
        end = r.choice(["dump", "dump", "dump", "dump", "dup", "dup", "comma", "noenv", "badpath", "free"])
        if end == "dup" and ev:
            k = r.choice(ev)
            ev.insert(r.randint(ev.index(k) + 1, len(ev)), [r.randrange(6), k[1], k[2], val(), val()])
        if end == "comma":
            a, c = name(), name()
            z = r.choice([a, c])
            p = r.randint(0, len(z))
            z2 = z[:p] + "," + z[p:]
            ev.insert(r.randint(0, len(ev)), [r.randrange(6), z2 if z is a else a, z2 if z is not a else c, val(), val()])
        return {"ev": ev, "end": end, "init": r.randrange(2), "old": r.random() < 0.3, "num": r.random() < 0.7}

    def run_job(self, b, job):
        st = Stats()
        case = self.gen(random.Random(job["seed"]))
        msg = self.evaluate(b, case)
        st.evals = 2 * len(case["ev"]) + 1
        if case["end"] == "dump":
            st.nt += [h64(e) for e in case["ev"]]
        st.cls(case["end"])
        if len(case["ev"]) < 4:
            st.samples.append(case)
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(b, case)

    def reductions(self, case):
        n = len(case["ev"])
        s = max(1, n // 2)
        while n:
            for i in range(0, n, s):
                yield dict(case, ev=case["ev"][:i] + case["ev"][i + s:])
            if s == 1:
                break
            s //= 2
        for i, e in enumerate(case["ev"]):
            if e[3] != d2u(1.0):
                yield dict(case, ev=case["ev"][:i] + [e[:3] + [d2u(1.0), e[4]]] + case["ev"][i + 1:])
            if e[4] != d2u(1.0):
                yield dict(case, ev=case["ev"][:i] + [e[:4] + [d2u(1.0)]] + case["ev"][i + 1:])
        for k in ("old", "num"):
            if case[k]:
                yield dict(case, **{k: False})

    def evaluate(self, b, case):
        with pr.Work(fast=True) as w:
            path = w.p("probes.csv")
            env = b.env(ASAN_OPTIONS="detect_leaks=0", VFC_PROBES_OUTPUT=path)
            if case["end"] == "noenv":
                del env["VFC_PROBES_OUTPUT"]
            if case["end"] == "badpath":
                env["VFC_PROBES_OUTPUT"] = w.p("missing", "probes.csv")
            if case["old"]:
                w.write("probes.csv", "old content\n" * 400)
            lines = ["P %d" % case["init"]]
            want, seen, refused = [], {}, None
            for m, t, v, x, y in case["ev"]:
                lines.append("p %d .%s .%s %x %x" % (m, t.encode().hex(), v.encode().hex(), x, y))
                if refused is None:
                    if "," in t or "," in v or (t, v) in seen:
                        refused = (t, v)
                    else:
                        seen[t, v] = (x, y if m % 3 else 0, MODES[m % 3])
                        want.append("0")
            if case["num"]:
                lines.append("N")
                want.append(str(len(seen)))
            lines.append("Q" if case["end"] == "free" else "D")
            res = pr.call([self.exe], w.d, env, 30, ("\n".join(lines) + "\n").encode())
            if res.timeout:
                return HANG
            if "AddressSanitizer" in res.err:
                return "memory error: " + res.err[:600]
            got = res.out.split("\n")
            old = open(path, "rb").read() if os.path.exists(path) else None
            if refused is not None:
                if res.rc == 0 or "end" in got:
                    return "probe %s is accepted although it is a duplicate or has a ',' in its name" % (refused,)
                if "Error" not in res.err:
                    return "no error message when the probe %s is refused" % (refused,)
                return None
            if case["end"] == "badpath":
                return None if res.rc != 0 and "Error" in res.err else "no error when the probe file cannot be written"
            if res.rc != 0 or "end" not in got:
                return "the program ends with status %s: %s" % (res.rc, res.err[-300:])
            for i, x in enumerate(want):
                if got[i] != x:
                    return "call %d returns %s instead of %s" % (i, got[i], x)
            if case["end"] in ("noenv", "free"):
                if case["end"] == "noenv" and "VFC_PROBES_OUTPUT" not in res.out:
                    return "no warning when VFC_PROBES_OUTPUT is not set"
                if (old is not None) != case["old"]:
                    return "a probe file was written without being asked for"
                return None
            if old is None:
                return "no probe file is written"
            rows = old.decode().split("\n")
            if rows[0] != "test,variable,value,accuracy_threshold,check_mode" or rows[-1] != "":
                return "bad header or unterminated file: %s" % rows[0]
            rows = rows[1:-1]
            left = dict(seen)
            for row in rows:
                f = row.split(",")
                if len(f) != 5:
                    return "malformed line '%s'" % row
                k = (f[0], f[1])
                if k not in left:
                    return "unexpected or repeated line '%s'" % row
                x, y, mode = left.pop(k)
                for u, s in ((x, f[2]), (y, f[3])):
                    try:
                        g = float.fromhex(s)
                    except ValueError:
                        return "unreadable number '%s'" % s
                    a = u2d(u)
                    if not (math.isnan(a) and math.isnan(g) or d2u(g) == u):
                        return "probe %s: '%s' is not %s" % (k, s, a.hex())
                if f[4] != mode:
                    return "probe %s has mode %s instead of %s" % (k, f[4], mode)
            if left:
                return "probes %s are missing from the file" % list(left)[:3]
        return None
