"""C25: a vfc_ci run file describes exactly the samples of the run."""
import json
import math
import os
import random
import shutil
import re
import subprocess
import sys
import traceback
import warnings

import progrun as pr
import pytools
import vbuild
from vcommon import Check, Stats, HANG, h64

NAMES = ["\"q\"", "\"", "a", "b1", "energy", "x y", "1", "01", "1.0", "NA", "null", "nan", "None", "inf", "True", "0x10", "-", "é", "1e3", "N/A", "#t", "test"]


def fnv(s):
    h = 14695981039346656037
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & (2 ** 64 - 1)
    return "%016x" % h


def hexa(x):
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return x.hex()


def quant(v, q):
    s = sorted(v)
    p = q * (len(s) - 1)
    i = int(math.floor(p))
    j = min(i + 1, len(s) - 1)
    return s[i] + (s[j] - s[i]) * (p - i)


def close(a, b, scale, rel=1e-9):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= rel * scale


class CHECK(Check):
    id = "C25"
    rule = ("generated test configurations (executables, parameters, stochastic and deterministic back-ends, repetitions) and samples (any names, "
            "distributions, thresholds of either sign, probes missing from some runs, runs in any order, runs that crash), processed by the real "
            "vfc_ci test entry point on stand-in executables; oracle: statistics recomputed from the samples. An evaluation is one row of the run "
            "file; non-trivial = distinct row")
    assumptions = ["pandas, scipy and significantdigits compute what they document", "relative checks on a null average are undefined"]
    shrink_budget = 60.0

    def setup(self, b, tier):
        self.exe = b.harness("probeprog", [os.path.join(vbuild.VERIF, "harness", "probeprog.c")])
        pytools.third_party()
        pytools.load("ci.test")

    def plan(self, tier, seed):
        n = 500 if tier == "quick" else 12000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    # -- generation
    def gen(self, r):
        case = {"exes": [], "raw": r.random() < 0.4, "dry": r.random() < 0.06, "git": r.random() < 0.1, "cli": r.random() < 0.4}
        odd = r.random() < 0.35

        def names(k):
            s = set()
            while len(s) < k:
                if odd:
                    s.add((r.choice(NAMES), r.choice(NAMES)))
                else:
                    s.add(("t%d" % r.randrange(4), "v%d" % r.randrange(40)))
            return sorted(s)
        for e in range(r.choice([1, 1, 1, 2, 3])):
            probes = []
            for t, v in names(r.choice([1, 1, 2, 3, 5, 9])):
                mode = r.choice(["none", "absolute", "relative", "absolute", "relative"])
                kind = r.choice(["normal", "normal", "uniform", "expo", "two", "const", "zero", "sign", "mixed"])
                mu = r.choice([1.0, -1.0, 1e-3, 123.5, -4096.0, 1e10, 1e-300, 0.5])
                rel = r.choice([1e-15, 1e-8, 1e-3, 0.1, 1.0])
                if mode == "relative" and kind in ("zero", "sign") and r.random() < 0.97:
                    kind = "const"          # a null average stops vfc_ci: known finding
                probes.append({"t": t if not e or odd else "e%d%s" % (e, t), "v": v if not e else "%s_%d" % (v, e), "mode": mode, "kind": kind, "mu": mu, "rel": rel,
                               "thr": r.choice(["half", "twice", "equal", "tiny", "huge", "zero"]), "neg": r.random() < 0.3,
                               "miss": r.random() < 0.1, "special": r.random() < 0.04})
            bes = []
            for _ in range(r.choice([1, 1, 2, 3])):
                be = {"name": r.choice(["libinterflop_mca.so --mode=rr", "libinterflop_vprec.so --precision-binary64=%d" % r.randint(1, 52),
                                        "libinterflop_bitmask.so", "libinterflop_mca.so -p %d;libinterflop_vprec.so" % r.randint(1, 53)])}
                if r.random() < 0.6:
                    be["repetitions"] = r.choice([3, 4, 5, 8, 12, 20])
                if be["name"] not in [x["name"] for x in bes]:
                    bes.append(be)
            case["exes"].append({"name": "p%d" % e, "params": r.choice([None, "", "foo", "a  b", "-x 1 --y=2"]), "probes": probes, "bes": bes})
        if all("repetitions" not in b for e in case["exes"] for b in e["bes"]) and r.random() < 0.5:
            case["exes"][0]["bes"][0]["repetitions"] = 5
        case["crash"] = r.choice([0, 0, 0, 0.1, 0.4])
        case["salt"] = r.getrandbits(32)
        return case

    def finding(self, case, msg):
        """a relative check of a probe whose samples have a null average (test_data_processing.py cannot be repaired here: its
        name is the one of a test file)"""
        if "stops with ZeroDivisionError" in msg and "test_data_processing.py" in msg:
            if any(p["mode"] == "relative" and p["kind"] in ("zero", "sign", "two") for e in case["exes"] for p in e["probes"]):
                return "relative-null-average"
        return None

    def samples(self, case):
        """the files of every run: {(exe, backend): [None | (rc, [(t, v, value, thr, mode)])]}"""
        runs = {}
        for e in case["exes"]:
            ieee = None
            for be in e["bes"]:
                r = random.Random("%s/%s/%s" % (case["salt"], e["name"], be["name"]))
                n = be.get("repetitions")
                cols = {}
                for p in e["probes"]:
                    q = random.Random("%s/%s/%s/%s/%s" % (case["salt"], e["name"], be["name"], p["t"], p["v"]))
                    ref = p["mu"]
                    s = abs(p["mu"]) * p["rel"]
                    k = p["kind"]
                    vals = []
                    for i in range(n or 1):
                        if k == "normal":
                            x = q.gauss(p["mu"], s)
                        elif k == "uniform":
                            x = p["mu"] + q.uniform(-s, s)
                        elif k == "expo":
                            x = p["mu"] + s * q.expovariate(1)
                        elif k == "two":
                            x = p["mu"] + (s if i % 2 else -s)
                        elif k == "const":
                            x = p["mu"]
                        elif k == "zero":
                            x = 0.0
                        elif k == "sign":
                            x = p["mu"] if i % 2 else -p["mu"]
                        else:
                            x = p["mu"] if i else p["mu"] * 3
                        if p["special"] and i == (n or 1) - 1:
                            x = q.choice([math.inf, -math.inf, math.nan])
                        vals.append(x)
                    ok = [x for x in vals if math.isfinite(x)] or [1.0]
                    m = math.fsum(ok) / len(ok)
                    err = math.sqrt(math.fsum((x - m) ** 2 for x in ok) / len(ok)) if n else abs(ok[0] - ref)
                    if p["mode"] == "relative":
                        d = m if n else ref
                        err = err / abs(d) if d else 1.0
                    thr = {"half": err / 2, "twice": err * 2, "equal": err, "tiny": 1e-12, "huge": 1e9, "zero": 0.0}[p["thr"]]
                    if p["mode"] == "none":
                        thr = 0.0
                    cols[p["t"], p["v"]] = (vals, -thr if p["neg"] else thr, p["mode"], p["miss"], ref)
                out = []
                for i in range(n or 1):
                    if r.random() < case["crash"]:
                        out.append(r.choice([(99, None), (1, None), (0, None), (0, [])]))
                        continue
                    rows = [(t, v, c[0][i], c[1], c[2]) for (t, v), c in cols.items() if not (c[3] and r.random() < 0.5)]
                    r.shuffle(rows)
                    out.append((r.choice([0, 0, 0, 1]), rows))
                runs[e["name"], be["name"]] = out
                if n is None:
                    rows = [(t, v, c[4], c[1], c[2]) for (t, v), c in cols.items()]
                    r.shuffle(rows)
                    ieee = (ieee or []) + [(be["name"], (0, rows))]
            if ieee:
                runs[e["name"], "ref"] = ieee
        return runs

    def run_job(self, b, job):
        st = Stats()
        case = self.gen(random.Random(job["seed"]))
        info = {}
        msg = self.evaluate(case, info)
        st.evals = max(1, info.get("rows", 0))
        for x in info.get("nt", []):
            st.nt.append(h64(x))
        for c in info.get("cls", {"other"}):
            st.cls(c)
        st.samples.append({"config": info.get("config"), "rows": info.get("rows")})
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(case, {})

    def reductions(self, case):
        for k in ("raw", "git", "dry", "crash", "cli"):
            if case.get(k):
                yield dict(case, **{k: 0})
        for i, e in enumerate(case["exes"]):
            if len(case["exes"]) > 1:
                yield dict(case, exes=case["exes"][:i] + case["exes"][i + 1:])

            def w(**kw):
                return dict(case, exes=case["exes"][:i] + [dict(e, **kw)] + case["exes"][i + 1:])
            for j in range(len(e["bes"])):
                if len(e["bes"]) > 1:
                    yield w(bes=e["bes"][:j] + e["bes"][j + 1:])
            for j in range(len(e["probes"])):
                if len(e["probes"]) > 1:
                    yield w(probes=e["probes"][:j] + e["probes"][j + 1:])
            if e["params"] is not None:
                yield w(params=None)
            for j, p in enumerate(e["probes"]):
                for k, v in (("miss", False), ("special", False), ("neg", False), ("t", "t0"), ("v", "v%d" % j), ("kind", "normal")):
                    if p[k] != v:
                        yield w(probes=e["probes"][:j] + [dict(p, **{k: v})] + e["probes"][j + 1:])

    # -- evaluation
    def evaluate(self, case, info):
        with pr.Work() as w:
            try:
                with pytools.limit(60):
                    return self.evaluate2(case, info, w)
            except pytools.Timeout:
                return HANG

    def evaluate2(self, case, info, w):
        import pandas as pd
        m = pytools.load("ci.test")
        runs = self.samples(case)
        conf = {"make_command": "echo made >> made.txt", "executables": []}
        os.mkdir(w.p("w"))
        os.mkdir(w.p("bin"))
        for e in case["exes"]:
            x = {"executable": "bin/" + e["name"], "vfc_backends": [dict(z) for z in e["bes"]]}
            if e["params"] is not None:
                x["parameters"] = e["params"]
            conf["executables"].append(x)
            os.link(self.exe, w.p("bin", e["name"])) if False else os.symlink(self.exe, w.p("bin", e["name"]))
        w.write("vfc_tests_config.json", json.dumps(conf))
        info["config"] = conf

        def csv(run):
            rc, rows = run
            t = "%d\n" % rc
            if rows is not None:
                t += "test,variable,value,accuracy_threshold,check_mode\n"
                t += "".join("%s,%s,%s,%s,%s\n" % (a, v, hexa(x), hexa(thr), mode) for a, v, x, thr, mode in rows)
            return t
        want_calls = {}
        for e in case["exes"]:
            nref = 0
            for be in e["bes"]:
                rs = runs[e["name"], be["name"]]
                for i, run in enumerate(rs):
                    w.write("w/%s.%s.%d" % (e["name"], fnv(be["name"]), i), csv(run))
                want_calls[e["name"], be["name"]] = len(rs)
                if "repetitions" not in be and any(x[3] != 0 for x in rs[0][1] or []):
                    ref = dict(runs[e["name"], "ref"])[be["name"]]
                    w.write("w/%s.%s.%d" % (e["name"], fnv("libinterflop_ieee.so"), nref), csv(ref))
                    nref += 1
            if nref:
                want_calls[e["name"], "libinterflop_ieee.so"] = nref
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": w.d, "GIT_CONFIG_NOSYSTEM": "1"}
        meta = None
        if case["git"]:
            meta = self.git(w, env, case)
        buf = None
        try:
            with pytools.environ(env), pytools.chdir(w.d), pytools.quiet() as buf, warnings.catch_warnings():
                warnings.simplefilter("ignore")
                null = os.open(os.devnull, os.O_WRONLY)
                save = os.dup(2)
                os.dup2(null, 2)
                try:
                    if case.get("cli"):
                        q = random.Random(case["salt"])
                        av = [q.choice(o) for on, o in ((case["git"], ["-g", "--is-git-commit"]), (case["raw"], ["-r", "--export-raw-results"]),
                                                        (case["dry"], ["-d", "--dry-run"])) if on]
                        q.shuffle(av)
                        av0, sys.argv = sys.argv, ["vfc_ci", "test"] + av
                        try:
                            pytools.load("ci.__main__").main()
                        finally:
                            sys.argv = av0
                    else:
                        m.run(bool(case["git"]), bool(case["raw"]), bool(case["dry"]))
                finally:
                    os.dup2(save, 2)
                    os.close(save)
                    os.close(null)
        except pytools.Timeout:
            raise
        except BaseException as ex:
            nrows = sum(len(x[1] or []) for k, rs in runs.items() if k[1] != "ref" for x in rs)
            if nrows == 0:
                info["cls"] = {"no sample at all: refused"}
                return None
            return "vfc_ci test stops with %s: %s\n%s" % (type(ex).__name__, ex, "".join(traceback.format_tb(ex.__traceback__)[-3:]))
        text = buf.getvalue()
        # -- the executions
        calls = {}
        for f in os.listdir(w.p("w")):
            if f.endswith(".log"):
                l = open(w.p("w", f)).read().split("\n")[:-1]
                n = f.split(".")[0]
                calls[n, l[0]] = calls.get((n, l[0]), 0) + 1
                e = [x for x in case["exes"] if x["name"] == n][0]
                if l[1:] != (e["params"] or "").split():
                    return "%s was called with %s instead of %s" % (n, l[1:], (e["params"] or "").split())
        if calls != want_calls:
            return "the executions are %s instead of %s" % (sorted(calls.items()), sorted(want_calls.items()))
        if not os.path.exists(w.p("made.txt")):
            return "the make command was not run"
        files = sorted(f for f in os.listdir(w.d) if f.endswith(".h5"))
        if case["dry"]:
            info["cls"] = {"dry run"}
            return "the dry run wrote %s" % files if files else None
        runf = [f for f in files if f.endswith(".vfcrun.h5")]
        rawf = [f for f in files if f.endswith(".vfcraw.h5")]
        if len(runf) != 1 or len(rawf) != (1 if case["raw"] else 0):
            return "files written: %s" % files
        data = pd.read_hdf(w.p(runf[0]), "data")
        det = pd.read_hdf(w.p(runf[0]), "deterministic_data")
        md = pd.read_hdf(w.p(runf[0]), "metadata")
        stem = runf[0][:-len(".vfcrun.h5")]
        if len(md) != 1:
            return "%d rows of metadata" % len(md)
        ts = int(md.index[0])
        row = md.iloc[0]
        if meta is None:
            if stem != str(ts) or bool(row["is_git_commit"]) or row["hash"] != "":
                return "metadata of a run without commit: %s" % dict(row)
        else:
            got = {k: row[k] for k in ("remote_url", "branch", "hash", "author", "message")}
            if got != {k: meta[k] for k in got} or ts != meta["timestamp"] or stem != meta["hash"] or not bool(row["is_git_commit"]):
                return "metadata of the commit: %s, %s instead of %s" % (got, ts, meta)
        raw = pd.read_hdf(w.p(rawf[0]), "data") if rawf else None
        # -- expected rows
        want, wdet = {}, {}
        for e in case["exes"]:
            for be in e["bes"]:
                rs = runs[e["name"], be["name"]]
                if "repetitions" in be:
                    for rc, rows in rs:
                        for t, v, x, thr, mode in rows or []:
                            k = (t, v, be["name"])
                            want.setdefault(k, [[], thr, mode])[0].append(x)
                else:
                    rows = rs[0][1] or []
                    checked = any(x[3] != 0 for x in rows)
                    ref = {(t, v): x for t, v, x, _, _ in dict(runs[e["name"], "ref"])[be["name"]][1]}
                    for t, v, x, thr, mode in rows:
                        wdet[t, v, be["name"]] = (x, thr, mode, ref[t, v] if checked else 0)
        cls = set()
        nt = []
        got = {tuple(k) if isinstance(k, tuple) else k: r for k, r in data.iterrows()} if len(data) else {}
        if len(got) != len(data) or set(got) != set(want):
            return "rows of the run file: missing %s, unexpected %s" % (sorted(set(want) - set(got), key=str), sorted(set(got) - set(want), key=str))
        rawg = {tuple(k): r for k, r in raw.iterrows()} if raw is not None and len(raw) else {}
        for k, (v, thr, mode) in want.items():
            e = self.row(k, v, thr, mode, got[k], ts, cls)
            if e:
                return "%s of %s (samples %s, threshold %r, %s)" % (e, k, v[:24], thr, mode)
            if raw is not None:
                x = list(rawg[k]["values"]) if k in rawg else None
                if x is None or len(x) != len(v) or any(not (p == q or (p != p and q != q)) for p, q in zip(x, v)):
                    return "the raw file gives %s for %s instead of %s" % (x, k, v)
            nt.append(("s", k, tuple(v), thr, mode))
        gd = {tuple(k): r for k, r in det.iterrows()} if len(det) else {}
        if len(gd) != len(det) or set(gd) != set(wdet):
            return "deterministic rows of the run file: missing %s, unexpected %s" % (
                sorted(set(wdet) - set(gd), key=str), sorted(set(gd) - set(wdet), key=str))
        for k, (x, thr, mode, ref) in wdet.items():
            g = gd[k]
            for n, a in (("value", x), ("accuracy_threshold", thr), ("reference_value", ref)):
                if not (float(g[n]) == a or (a != a and g[n] != g[n])):
                    return "%s is %r instead of %r for %s" % (n, g[n], a, k)
            if g["check_mode"] != mode or int(g["timestamp"]) != ts:
                return "check mode or timestamp of %s: %s" % (k, dict(g))
            c = True
            if mode != "none" and thr != 0:
                d = abs(ref - x)
                if mode == "relative":
                    d = None if ref == 0 else d / abs(ref)
                c = None if d is None else bool(d < abs(thr))
            elif mode != "none":
                c = None if all(q[1] == 0 for q in wdet.values()) else (False if mode == "absolute" or ref != 0 else None)
                c = None
            if c is not None and bool(g["check"]) != c:
                return "deterministic %s check of %s is %s: value %r, IEEE %r, target %r" % (mode, k, g["check"], x, ref, thr)
            cls.add("deterministic %s %s" % (mode, c))
            nt.append(("d", k, x, thr, mode))
        # -- executions without data are reported
        bad = sum(1 for k, rs in runs.items() if k[1] != "ref" for x in rs if not x[1])
        if bad:
            cls.add("runs without data")
            if text.count("Repetition:") != bad:
                return "%d executions without probes, %d reported" % (bad, text.count("Repetition:"))
            rep = sorted(re.findall(r"Executable: (.*)\n\s*Backend: (.*)\n\s*Repetition: (.*)\n", text))
            exp = sorted(("bin/" + k[0], k[1], str(i + 1)) for k, rs in runs.items() if k[1] != "ref" for i, x in enumerate(rs) if not x[1])
            if rep != exp:
                return "the executions reported without probes are %s instead of %s" % (rep, exp)
        elif "Repetition:" in text:
            return "executions reported as failed while all produced probes"
        info["rows"] = len(want) + len(wdet)
        info["nt"] = nt
        info["cls"] = cls
        return None

    def row(self, k, v, thr, mode, g, ts, cls):
        import numpy as np
        import significantdigits as sd
        if int(g["nsamples"]) != len(v):
            return "nsamples is %s instead of %d" % (g["nsamples"], len(v))
        if float(g["accuracy_threshold"]) != thr or g["check_mode"] != mode or int(g["timestamp"]) != ts:
            return "threshold, mode or timestamp (%r, %r, %r)" % (g["accuracy_threshold"], g["check_mode"], g["timestamp"])
        if any(not math.isfinite(x) for x in v):
            cls.add("non finite samples")
            return None
        sc = max(abs(x) for x in v)
        mu = math.fsum(v) / len(v)
        s = math.fsum((x / (sc or 1) - mu / (sc or 1)) ** 2 for x in v)
        sigma = math.sqrt(s / len(v)) * (sc or 1)
        for n, a in (("mu", mu), ("sigma", sigma), ("quantile25", quant(v, .25)), ("quantile50", quant(v, .5)), ("quantile75", quant(v, .75))):
            if not close(float(g[n]), a, sc) and not (n == "sigma" and sc < 1e-150):
                return "%s is %r instead of %r" % (n, g[n], a)
        if g["min"] != min(v) or g["max"] != max(v):
            return "min or max is %r %r" % (g["min"], g["max"])
        # the check: judged away from the rounding of sigma, and exactly when sigma is exact
        err, tol = sigma, 1e-12 * sc
        if mode == "relative":
            err, tol = (sigma / abs(mu), 1e-12 * sc / abs(mu) * (1 + sigma / abs(mu))) if mu else (math.nan, math.inf)
        if sc < 1e-150:
            tol = math.inf
        if mode == "none":
            c = True
        elif sigma == 0 and all(x == v[0] for x in v) and float(g["sigma"]) == 0:
            c = thr != 0 if (mode == "absolute" or mu) else None
        elif abs(err - abs(thr)) <= tol or math.isnan(err):
            c = None
        else:
            c = err < abs(thr)
        cls.add("stochastic %s %s" % (mode, c))
        if c is not None and bool(g["check"]) != c:
            return "the check is %s, error %r, target %r" % (g["check"], err, thr)
        # significant digits, from the mean, deviation and p-value of the row
        mu, sigma, p = float(g["mu"]), float(g["sigma"]), float(g["pvalue"])
        if not (math.isnan(p) or 0 <= p <= 1 + 1e-9):
            return "pvalue is %r" % p
        with np.errstate(all="ignore"):
            d = np.array(v).reshape(-1, 1)

            def call(meth):
                return float(np.ravel(sd.significant_digits(d, np.array([mu]), error=sd.Error.Relative, method=meth, probability=.9, confidence=.95))[0])
            gen = p < 0.05
            if mu == 0:
                s2 = 53.0
            elif gen:
                s2 = call(sd.Method.General)
            else:
                q = abs(sigma / mu)
                s2 = min(-math.log2(q), 53.0) if q else 53.0
            lo = s2 if gen else 53.0 if mu == 0 else call(sd.Method.CNH)
        cls.add("significant digits: " + ("null average" if mu == 0 else "not normal" if gen else "normal"))
        f = math.log10(2)
        for n, a in (("s2", s2), ("s10", s2 * f), ("s2_lower_bound", lo), ("s10_lower_bound", lo * f)):
            if not close(float(g[n]), a, max(1.0, abs(a)), 1e-9) and not (math.isinf(a) and a == g[n]):
                return "%s is %r instead of %r" % (n, g[n], a)
        return None

    def git(self, w, env, case):
        r = random.Random(case["salt"])
        msg = r.choice(["fix things", "Titre: été", "a, \"b\"", "x" * 120, "Release v1.2.3. Twice", "50% (#12) of it: done; ok", "a/b -- c", "1"])
        e = dict(env, GIT_AUTHOR_NAME="Ann Author", GIT_AUTHOR_EMAIL="ann@example.org", GIT_COMMITTER_NAME="Bob", GIT_COMMITTER_EMAIL="bob@example.org",
                 GIT_AUTHOR_DATE="%d +0000" % r.randint(10 ** 9, 1600000000))
        br = r.choice(["main", "dev", "feature/x"])
        url = "https://example.org/me/repo%d" % r.randrange(99)

        def g(*a):
            subprocess.run(["git"] + list(a), cwd=w.d, env=e, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        g("init", "-q", "-b", br)
        g("remote", "add", "origin", url)
        if r.random() < 0.5:
            g("remote", "add", "upstream", "https://example.org/other/repo")
        if r.random() < 0.5:
            e["GIT_AUTHOR_DATE"], d = "1700000000 +0000", e["GIT_AUTHOR_DATE"]
            g("commit", "-q", "--allow-empty", "-m", "earlier")
            g("tag", "v0")
            g("branch", "other")
            e["GIT_AUTHOR_DATE"] = d
        g("add", "vfc_tests_config.json")
        g("commit", "-q", "-m", msg + "\n\nbody of the message")
        h = subprocess.run(["git", "rev-parse", "HEAD"], cwd=w.d, env=e, stdout=subprocess.PIPE, text=True).stdout[:7]
        return {"remote_url": url, "branch": br, "hash": h, "author": "Ann Author <ann@example.org>", "message": msg,
                "timestamp": int(e["GIT_AUTHOR_DATE"].split()[0])}
