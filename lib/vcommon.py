"""The runner shared by every check: deterministic generation from VERIF_SEED,
8 worker processes, confirmation, shrinking, replay files, evidence."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

import numpy as np

from ops import Op, run_ops
import vbuild

VERIF = vbuild.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


HANG = "no answer within the time limit (a run takes milliseconds)"


def rng(*key):
    return random.Random("/".join(str(k) for k in key))


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "little")


class Stats:
    """what one batch did"""

    def __init__(self):
        self.evals = 0
        self.nt = []          # hashes of non-trivial cases
        self.samples = []
        self.fails = []       # list of (case, message)
        self.classes = {}

    def cls(self, name, n=1):
        self.classes[name] = self.classes.get(name, 0) + n

    def pack(self):
        return (self.evals, np.array(self.nt, dtype=np.uint64), self.samples[:4],
                self.fails[:6], self.classes)


class Check:
    id = None
    rule = ""
    assumptions = []
    shrink_budget = 60.0       # seconds

    def setup(self, b, tier):
        raise NotImplementedError

    def plan(self, tier, seed):
        """list of jobs (JSON-able); each runs in one worker"""
        raise NotImplementedError

    def run_job(self, b, job):
        raise NotImplementedError

    def judge(self, b, case):
        """None if the property held on this case, else a message"""
        raise NotImplementedError

    def reductions(self, case):
        return iter(())

    def finding(self, case, msg):
        """key of the known finding this failure belongs to, or None"""
        return None


# ----------------------------------------------------------------- operation checks
def simpler_bits(f_w, u):
    """simpler operand patterns for shrinking"""
    mant = 23 if f_w == 32 else 52
    one = (127 << 23) if f_w == 32 else (1023 << 52)
    sign = 1 << (f_w - 1)
    cand = [one, 0, u & ~sign]
    m = u & ((1 << mant) - 1)
    for k in (mant, mant // 2, mant // 4, 8, 4, 2, 1):
        if m:
            cand.append((u >> k) << k)
    e = (u >> mant) & ((1 << (f_w - 1 - mant)) - 1)
    bias = one >> mant
    if e not in (0, (1 << (f_w - 1 - mant)) - 1):
        cand.append((u & sign) | m | (bias << mant))
    seen = []

    def rank(v):
        if v == one:
            return (0, 0, 0, 0)
        if v & ~sign == 0:
            return (1, v >> (f_w - 1), 0, 0)
        ee = (v >> mant) & ((1 << (f_w - 1 - mant)) - 1)
        return (2, bin(v & ((1 << mant) - 1)).count("1"), abs(ee - bias), v >> (f_w - 1))
    for c in cand:
        if c not in seen and rank(c) < rank(u):
            seen.append(c)
    return seen


class OpsCheck(Check):
    """a check over sequences of instrumented operations.
    case = {"cfg": {"backends":..., "fcmp":bool, "env":{}, "mode":"seq"}, "ops":[...]}"""
    stateless = True          # a single operation reproduces a failure
    repeat = 1                # for seeded stochastic runs: copies of the op to try
    batch = 3000

    def configs(self, r, i):
        raise NotImplementedError

    def gen_ops(self, r, cfg, n):
        raise NotImplementedError

    def verdict(self, cfg, ops, results):
        """yields (index, message)"""
        raise NotImplementedError

    def nontrivial(self, cfg, op, res):
        return True

    def njobs(self, tier):
        return 160 if tier == "quick" else 4000

    def plan(self, tier, seed):
        jobs = []
        for i in range(self.njobs(tier)):
            jobs.append({"i": i, "seed": "%s/%s/%d" % (self.id, seed, i), "n": self.batch})
        return jobs

    def execute(self, b, cfg, ops):
        return run_ops(b, cfg["backends"], ops, mode=cfg.get("mode", "seq"), fcmp=cfg.get("fcmp", False),
                       env=cfg.get("env"))

    def eval_case(self, b, cfg, ops):
        res = self.execute(b, cfg, ops)
        if res.timeout:
            return res, [(None, HANG)]
        if res.results is None:
            return res, [(None, "process ended with status %s instead of producing results; stderr: %s" % (
                res.rc, res.err.strip()[-300:]))]
        return res, list(self.verdict(cfg, ops, res.results))

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        cfg = self.configs(r, job["i"])
        ops = self.gen_ops(r, cfg, job["n"])
        res, bad = self.eval_case(b, cfg, ops)
        st.evals = len(ops)
        st.cls(self.label(cfg), len(ops))
        if res.results is not None:
            ck = h64(cfg)
            for o, x in zip(ops, res.results):
                if self.nontrivial(cfg, o, x):
                    st.nt.append(hash((ck, o.op, o.ty, o.lanes, o.aux, tuple(o.args), tuple(x))) & 0xFFFFFFFFFFFFFFFF)
            k = r.randrange(len(ops))
            st.samples.append({"cfg": cfg, "op": ops[k].to_json(), "result": ["0x%x" % x for x in res.results[k]]})
        seen = set()
        for idx, msg in bad[:200]:
            sig = (ops[idx].op, ops[idx].ty, ops[idx].lanes) if idx is not None else None
            if sig in seen:
                continue
            seen.add(sig)
            st.fails.append((self.mkcase(cfg, ops, idx), msg))
        return st

    def label(self, cfg):
        return re.sub(r"\s+", " ", cfg["backends"] or "")[:60]

    def mkcase(self, cfg, ops, idx):
        c = {"cfg": cfg, "ops": [o.to_json() for o in ops]}
        if idx is not None:
            c["at"] = idx
        return c

    def judge(self, b, case):
        ops = [Op.from_json(j) for j in case["ops"]]
        _, bad = self.eval_case(b, case["cfg"], ops)
        if not bad:
            return None
        case["at"] = bad[0][0]
        return bad[0][1]

    def reductions(self, case):
        ops = case["ops"]
        cfg = case["cfg"]
        n = len(ops)
        at = case.get("at")
        if n > 1:
            if at is not None:
                yield {"cfg": cfg, "ops": [ops[at]], "at": 0}
                if self.repeat > 1 and n > self.repeat:
                    yield {"cfg": cfg, "ops": [ops[at]] * self.repeat, "at": 0}
                if at + 1 < n:
                    yield {"cfg": cfg, "ops": ops[:at + 1], "at": at}
            size = n // 2
            while size >= 1:
                for s in range(0, n, size):
                    if at is not None and s <= at < s + size and size > 1:
                        continue
                    rest = ops[:s] + ops[s + size:]
                    if rest:
                        yield {"cfg": cfg, "ops": rest, "at": None}
                size //= 2
                if n > 64 and size < n // 16:
                    break
        if n == 1 or len({json.dumps(o) for o in ops}) == 1:
            o = ops[0]
            if o["lanes"] == 1 and o["op"] not in ("call",):
                w = 64 if o["ty"] else 32
                for k, a in enumerate(o["args"]):
                    for c in simpler_bits(w, int(a, 16)):
                        o2 = dict(o, args=o["args"][:k] + ["0x%x" % c] + o["args"][k + 1:])
                        yield {"cfg": cfg, "ops": [o2] * n, "at": 0}


# ----------------------------------------------------------------------- the runner
_B = None
_C = None


def _init(cid, tier):
    global _B, _C
    _C = load(cid)
    _B = vbuild.Build()
    _C.setup(_B, tier)
    sys.setrecursionlimit(10000)


def _work(job):
    try:
        return _C.run_job(_B, job).pack() + (None,)
    except Exception:
        return (0, np.array([], dtype=np.uint64), [], [], {}, traceback.format_exc())


def load(cid):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    return importlib.import_module(cid).CHECK()


def known_findings(pid):
    """keys of recorded (unrepaired) findings: 'finding: property=<id> key=<key> <text>'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def shrink(chk, b, case, msg, budget):
    t0 = time.time()
    steps = 0
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for cand in chk.reductions(case):
            if time.time() - t0 > budget:
                break
            steps += 1
            try:
                m = chk.judge(b, cand)
            except Exception:
                continue
            if m and chk.finding(cand, m) == chk.finding(case, msg):
                case, msg, improved = cand, m, True
                break
    return case, msg, steps


def main(cid, tier):
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    chk = load(cid)
    b = vbuild.Build()
    chk.setup(b, tier)
    tb = time.time() - t0
    jobs = chk.plan(tier, seed)
    known = known_findings(cid)
    evals, nts, samples, classes = 0, [], [], {}
    fails, errors = [], []
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init, initargs=(cid, tier)) as ex:
        pend = {ex.submit(_work, j) for j in jobs}
        stop = False
        for f in cf.as_completed(pend):
            try:
                ev, nt, sm, fl, cl, err = f.result()
            except cf.CancelledError:
                continue
            evals += ev
            nts.append(nt)
            if len(samples) < 12:
                samples += sm[:2]
            for k, v in cl.items():
                classes[k] = classes.get(k, 0) + v
            fails += fl
            if err:
                errors.append(err)
            unk = [1 for c, m in fails if chk.finding(c, m) not in known]
            hangs = sum(1 for c, m in fails if m.startswith(HANG))
            if (len(unk) >= 40 or hangs >= 4) and not stop:
                stop = True
                for p in pend:
                    p.cancel()
    distinct = int(len(np.unique(np.concatenate(nts)))) if nts else 0
    # confirm and report
    violations, seen_known, unrepro = [], {}, 0
    outdir = os.path.join(VERIF, "out", cid)
    os.makedirs(outdir, exist_ok=True)
    fails.sort(key=lambda cm: len(json.dumps(cm[0], default=str)))
    for case, msg in fails:
        key = chk.finding(case, msg)
        if key in known:
            seen_known[key] = (case, msg)
            continue
        if len(violations) >= 1:
            break
        ok = True
        for _ in range(1 if msg.startswith(HANG) else 3):
            try:
                m = chk.judge(b, case)
            except Exception:
                m = None
                traceback.print_exc()
            if not m:
                ok = False
                break
            msg = m
        if not ok:
            unrepro += 1
            if unrepro > 20:
                break
            continue
        case, msg, steps = shrink(chk, b, case, msg, 0 if msg.startswith(HANG) else chk.shrink_budget)
        path = os.path.join(outdir, "replay_%s.json" % hashlib.sha1(
            json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12])
        with open(path, "w") as f:
            json.dump({"property": cid, "message": msg, "case": case, "shrink_steps": steps,
                       "replay_with": "python3-vt /verif/run.py %s replay %s" % (cid, path)}, f, indent=1, default=str)
        violations.append((path, msg))
    for key, text in known.items():
        print("KNOWN-FINDING: property=%s %s" % (cid, text))
    ev = {"property": cid, "tier": tier, "seed": int(seed) if seed.isdigit() else 1, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": distinct, "rule": chk.rule,
                       "samples": samples[:8]},
          "wall_s": round(time.time() - t0, 2), "assumptions": chk.assumptions, "violations": len(violations),
          "details": {"build_s": round(tb, 2), "jobs": len(jobs), "classes": dict(sorted(classes.items())[:60]),
                      "unreproduced_failures": unrepro, "known_findings_seen": sorted(seen_known),
                      "harness_errors": len(errors)}}
    if violations:
        ev["details"]["violation"] = violations[0][1][:2000]
        ev["details"]["replay"] = violations[0][0]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (cid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(tmp, os.path.join(VERIF, "evidence", cid + ".json"))
    for path, msg in violations:
        print("  " + msg[:1500].replace("\n", "\n  "))
        print("VIOLATION property=%s replay=%s" % (cid, path))
    if violations:
        return 1
    if errors:
        print("%d harness errors, first:\n%s" % (len(errors), errors[0]), file=sys.stderr)
        return 2
    print("%s %s: held on %d cases (%d distinct non-trivial), %.1f s%s" % (
        cid, tier, evals, distinct, time.time() - t0,
        ", %d unreproduced" % unrepro if unrepro else ""))
    return 0


def replay(cid, path):
    chk = load(cid)
    b = vbuild.Build()
    chk.setup(b, "quick")
    case = json.load(open(path))["case"]
    msg = chk.judge(b, case)
    if msg:
        print("  " + msg)
        print("VIOLATION property=%s replay=%s" % (cid, path))
        return 1
    print("%s: the replayed case holds" % cid)
    return 0
