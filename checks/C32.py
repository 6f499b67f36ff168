"""C32: the report of vfc_ci shows, for every selection, exactly the data of the selected runs."""
import math
import os
import random
import re
import shutil
import sys
import tempfile
import time
import warnings

import pytools
import vbuild
from vcommon import Check, Stats, HANG, h64

MODS = ("helper", "plot", "compare_runs", "deterministic_compare", "inspect_runs", "checks")
STATS = ("mu", "sigma", "pvalue", "min", "quantile25", "quantile50", "quantile75", "max", "s2", "s10", "s2_lower_bound", "s10_lower_bound")
NRUNS = {"Last 3 runs": 3, "Last 5 runs": 5, "Last 10 runs": 10, "All runs": 0}
FACT = {"Variables": "variable", "Backends": "vfc_backend", "Tests": "test"}
loaded = {}


class Bad(Exception):
    pass


def outliers(v):
    """None: at the border"""
    n = len(v)
    if n <= 2:
        return [True] * n
    m = math.fsum(v) / n
    sd = math.sqrt(math.fsum((x - m) ** 2 for x in v) / n)
    if sd <= 1e-12 * max(abs(x) for x in v) or sd == 0:
        return [True] * n
    k = []
    for x in v:
        d = abs(x - m) - 3 * sd
        if abs(d) < 1e-6 * sd:
            return None
        k.append(d < 0)
    return k


def close(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    a, b = float(a), float(b)
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-14


def quantile(v, q):
    s = sorted(v)
    h = (len(s) - 1) * q
    i = int(math.floor(h))
    return s[i] if i + 1 >= len(s) else s[i] + (h - i) * (s[i + 1] - s[i])


class CHECK(Check):
    id = "C32"
    rule = ("generated directories of 1-14 run files (repositories, branches, runs without git, tests x variables x back-ends, probabilistic and deterministic results, equal values, outliers) and "
            "histories of 12 selections in the report (repository, test, variable, back-end, number of runs, run, grouping, outliers, clicks); after each one, what each plot and table draws is compared "
            "with the run files. An evaluation is one plot or table after one selection; non-trivial = it shows at least two runs, groups or checks")
    assumptions = ["distinct time stamps", "the layout and the client-side scripts are not run", "a repository has results in each of its runs"]
    shrink_budget = 30

    def setup(self, b, tier):
        pass

    def plan(self, tier, seed):
        n = 80 if tier == "quick" else 2400
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i), "n": 3} for i in range(n)]

    # ------------------------------------------------------------------ generation
    def gen_serve(self, r):
        c = {"serve": True, "dir": r.choice(["runs", "my runs", "a'b", "x&y", "$HOME", "d(1)", "p/q", "semi;colon", "st*r", "é"]), "abs": r.random() < 0.5, "opts": []}
        if r.random() < 0.5:
            c["opts"].append(["logo", r.choice(["https://h.invalid/l.png", "https://h.invalid/l.png?a=1&b=2", "http://h.invalid//x/../y.svg", "l o.png"])])
        for k in ("max_files", "ignore_recent", "port"):
            if r.random() < 0.5:
                c["opts"].append([k, r.randint(1024, 65535) if k == "port" else r.randint(1, 500)])
        if r.random() < 0.3:
            c["opts"].append(["allow_origin", r.choice(["*", "example.org", "localhost"])])
        if r.random() < 0.3:
            c["opts"].append(["show", True])
        r.shuffle(c["opts"])
        return c

    def judge_serve(self, case, t):
        pytools.third_party()
        mod = pytools.load("ci.__main__")
        os.makedirs(os.path.join(t, "bin"))
        os.makedirs(os.path.join(t, "w", case["dir"]))
        rec = os.path.join(t, "rec")
        with open(os.path.join(t, "bin/bokeh"), "w") as f:
            f.write("#!/bin/bash\nprintf '%%s\\0' \"$@\" >> '%s'\n" % rec)
        os.chmod(os.path.join(t, "bin/bokeh"), 0o755)
        d = os.path.join(t, "w", case["dir"]) if case["abs"] else case["dir"]
        argv = ["vfc_ci", "serve", "-d", d]
        for k, v in case["opts"]:
            argv += ["--" + k.replace("_", "-")] + ([str(v)] if k != "show" else [])
        old = sys.argv
        sys.argv = argv
        try:
            with pytools.environ({"PATH": os.path.join(t, "bin") + ":" + os.environ["PATH"], "HOME": t}), pytools.chdir(os.path.join(t, "w")):
                try:
                    mod.main()
                except (SystemExit, Exception) as e:
                    return "vfc_ci %s stops with %s %s" % (argv[1:], type(e).__name__, e)
        finally:
            sys.argv = old
        what = "vfc_ci %s runs bokeh with " % argv[1:]
        if not os.path.exists(rec):
            return "vfc_ci %s does not run bokeh" % argv[1:]
        a = open(rec).read().split("\0")[:-1]
        o = dict(map(tuple, case["opts"]))
        if "--args" not in a:
            return what + str(a)
        i = a.index("--args")
        head, tail = a[:i], a[i + 1:]
        want = {"directory": os.path.realpath(os.path.join(t, "w", d))}
        want.update({k: str(v) for k, v in o.items() if k in ("logo", "max_files", "ignore_recent")})
        got = dict(zip(tail[::2], tail[1::2]))
        if "directory" in got:
            got["directory"] = os.path.realpath(os.path.join(t, "w", got["directory"]))
        if got != want or len(tail) != 2 * len(want):
            return what + "the arguments %s" % tail
        port = str(o.get("port", 8080))
        ports = [head[j + 1] for j, x in enumerate(head[:-1]) if x == "--port"] + [x[7:] for x in head if x.startswith("--port=")]
        org = [head[j + 1] for j, x in enumerate(head[:-1]) if x == "--allow-websocket-origin"] + [x[25:] for x in head if x.startswith("--allow-websocket-origin=")]
        app = [x for x in head if os.path.basename(os.path.normpath(x)) == "vfc_ci_report"]
        if head[:1] != ["serve"] or ports != [port] or org != ["%s:%s" % (o.get("allow_origin", "*"), port)] or ("--show" in head) != ("show" in o) or len(app) != 1 or not os.path.exists(
                os.path.join(app[0], "main.py")):
            return what + str(head)
        return None

    def gen(self, r):
        if r.random() < 0.25:
            return self.gen_serve(r)
        return self.gen_report(r)

    def gen_report(self, r):
        repos = r.sample([("https://h.invalid/u/p", "main"), ("https://h.invalid/u/q", "main"), ("https://h.invalid/u/p", "dev"), ("https://h.invalid/v/p", "topic"), ("", "")], r.choice([1, 1, 2, 3]))
        kinds = {i: r.choice(["both"] * 4 + ["nd", "det"]) for i in range(len(repos))}
        nr = r.choice([1, 2, 3, 5, 8, 12, 14])
        long = r.random() < 0.2
        if long:
            repos, nr = repos[:1], r.choice([14, 16])
        wide = not long and r.random() < 0.3
        tests = r.sample(["t1", "t2", "a long test name that is longer than forty characters"], r.choice([1, 2, 2]))
        vs = ["v%d" % i for i in range(r.choice([11, 13]) if wide else r.choice([1, 2, 3]))]
        bs = r.sample(["libinterflop_mca.so", "libinterflop_bitmask.so --operator=one"], r.choice([1, 2]))
        runs, ages = [], set()
        scale = r.choice([50, 3000, 80000, 600000, 3000000, 30000000])
        while len(ages) < nr:
            ages.add(r.randint(2, scale + 20))
        for age in sorted(ages, reverse=True):
            rp = r.randrange(len(repos))
            url, br = repos[rp]
            git = url != ""
            hsh = "%07x" % r.getrandbits(28) if git else ""
            run = {"age": age, "repo": rp, "hash": hsh, "author": "A%d" % r.randint(0, 3) if git else "", "message": "m%d" % r.randint(0, 99) if git else "", "nd": [], "det": []}
            for t in tests:
                for v in vs:
                    for b in bs:
                        if r.random() < 0.1:
                            continue
                        if kinds[rp] in ("both", "nd"):
                            run["nd"].append([t, v, b, r.getrandbits(48)])
                        if kinds[rp] in ("both", "det"):
                            run["det"].append([t, v, b, r.getrandbits(48)])
            if kinds[rp] in ("both", "nd") and not run["nd"]:
                run["nd"].append([tests[0], vs[0], bs[0], r.getrandbits(48)])
            if kinds[rp] in ("both", "det") and not run["det"]:
                run["det"].append([tests[0], vs[0], bs[0], r.getrandbits(48)])
            runs.append(run)
        sel = {}
        if r.random() < 0.4:
            sel["max_files"] = r.randint(1, nr + 1)
        if r.random() < 0.3 and nr > 1:
            sel["ignore_recent"] = r.randint(1, nr - 1)
        ops = [[r.choice(["repo", "test", "var", "backend", "n", "out", "dtest", "dvar", "dbackend", "dn", "dout", "run", "group", "filterby", "filter", "iout", "ndrun", "drun", "tap", "dtap",
                          "run", "test", "n", "ndrun", "drun"]), r.getrandbits(30)] for _ in range(12)]
        if long:
            # all the runs, without outliers, and clicks on what remains
            ops[:4] = [["n", 3], ["out", 0], ["tap", r.getrandbits(30) << 2 | r.choice([1, 2, 3])], ["tap", r.getrandbits(30) << 2 | r.choice([1, 2, 3])]]
        return {"repos": [list(x) for x in repos], "runs": runs, "sel": sel, "ops": ops, "equal": r.random() < 0.15}

    def stat_row(self, case, seed, det):
        r = random.Random(seed)
        s = 10.0 ** r.randint(-8, 8)
        th = r.choice([0.0, 0.0, 0.1, 1e-3])
        mode = "none" if th == 0 else r.choice(["absolute", "relative"])
        ck = True if th == 0 else r.random() < 0.6
        if det:
            val = 0.0 if case["equal"] else r.choice([1, 1, 1, 1, 50]) * r.uniform(0.9, 1.1)
            return {"value": val, "accuracy_threshold": th, "check_mode": mode, "reference_value": val * r.uniform(0.99, 1.01) if th else 0.0, "check": ck}
        v = sorted(r.uniform(-1, 1) * s for _ in range(5))
        d = dict(zip(("min", "quantile25", "quantile50", "quantile75", "max"), v))
        d.update(mu=sum(v) / 5, sigma=0.0 if case["equal"] else r.uniform(0.9, 1.1) * r.choice([1, 1, 1, 1, 1, 1000]), pvalue=r.random(), accuracy_threshold=th, check_mode=mode, check=ck,
                 s2=r.uniform(10, 11) * r.choice([1, 1, 1, 1, 1, 1, 1, 5]), s10=r.uniform(3, 3.3) * r.choice([1, 1, 1, 1, 1, 1, 1, 0]), s2_lower_bound=r.uniform(0, 53), s10_lower_bound=r.uniform(0, 16), nsamples=r.randint(2, 30))
        return d

    # ------------------------------------------------------------------ verdict
    def judge(self, b, case, st=None):
        t = tempfile.mkdtemp(dir="/dev/shm")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with pytools.limit(120), pytools.quiet():
                    if case.get("serve"):
                        if st is not None:
                            st.evals += 1
                            st.cls("serve")
                            st.nt.append(h64(case))
                        return self.judge_serve(case, t)
                    return self.judge_in(case, t, st)
        except pytools.Timeout:
            return HANG
        except Bad as e:
            return str(e)
        finally:
            shutil.rmtree(t, ignore_errors=True)

    def write(self, case, t):
        import pandas as pd
        now = int(time.time())
        for n, run in enumerate(case["runs"]):
            ts = run["ts"] = now - run["age"]
            url, br = case["repos"][run["repo"]]
            md = pd.DataFrame([{"timestamp": ts, "is_git_commit": url != "", "remote_url": url, "branch": br, "hash": run["hash"], "author": run["author"], "message": run["message"]}]).set_index("timestamp")
            run["ndr"] = [dict(self.stat_row(case, s, False), test=te, variable=v, vfc_backend=be, timestamp=ts) for te, v, be, s in run["nd"]]
            run["detr"] = [dict(self.stat_row(case, s, True), test=te, variable=v, vfc_backend=be, timestamp=ts) for te, v, be, s in run["det"]]
            f = os.path.join(t, "%s.vfcrun.h5" % (run["hash"] + str(n) if run["hash"] else ts))
            md.to_hdf(f, key="metadata")
            for k, rows in (("data", run["ndr"]), ("deterministic_data", run["detr"])):
                df = pd.DataFrame(rows)
                if rows:
                    df = df.set_index(["test", "variable", "vfc_backend"]).sort_index()
                df.to_hdf(f, key=k)
        open(os.path.join(t, "other.h5"), "w").write("")

    def judge_in(self, case, t, st):
        pytools.third_party()
        import logging
        logging.disable(logging.CRITICAL)
        from bokeh.document import Document
        from bokeh.io.doc import patch_curdoc
        self.write(case, t)
        rep = os.path.join(vbuild.REPO, "src/tools/ci/vfc_ci_report")
        saved = {m: sys.modules.pop(m, None) for m in MODS}
        sys.modules.update(loaded)
        argv, path = sys.argv, list(sys.path)
        sys.dont_write_bytecode = True
        sys.argv = ["main.py", "directory", t] + [str(x) for kv in case["sel"].items() for x in kv]
        sys.path.insert(0, rep)
        doc = Document()
        g = {"__name__": "bokeh_app", "__file__": rep + "/main.py"}
        try:
            with patch_curdoc(doc):
                try:
                    exec(compile(open(rep + "/main.py").read(), rep + "/main.py", "exec"), g)
                except Exception as e:
                    return "the report stops with %s: %s" % (type(e).__name__, str(e)[:200])
                self.follow(case, doc, st)
        finally:
            sys.argv, sys.path[:] = argv, path
            for m in MODS:
                if m in sys.modules:
                    loaded[m] = sys.modules.pop(m)
                if saved[m] is not None:
                    sys.modules[m] = saved[m]
        return None

    # ------------------------------------------------------------------ the report
    def follow(self, case, doc, st):
        W = self.W = lambda n: doc.get_model_by_name(n)
        runs = case["runs"]
        keep = runs[:len(runs) - case["sel"].get("ignore_recent", 0)]
        keep = keep[-case["sel"].get("max_files", 100):]
        reponames = {}
        for run in keep:
            url, br = case["repos"][run["repo"]]
            reponames.setdefault("/".join(url.split("/")[-2:]) + ":" + br if url else "None", []).append(run)
        opts = list(W("select_repo").options)
        if sorted(opts) != sorted(reponames):
            raise Bad("the repositories of the report are %s instead of %s" % (opts, sorted(reponames)))
        self.names = {}
        self.compare(case, doc, reponames, "at the start", st)
        hist = []
        for op, x in case["ops"]:
            try:
                d = self.apply(doc, op, x)
            except Bad:
                raise
            except Exception as e:
                raise Bad("the selection of another %s stops with %s: %s (after %s)" % (op, type(e).__name__, str(e)[:200], hist[-4:]))
            if d:
                hist.append(d)
                self.compare(case, doc, reponames, "after " + ", ".join(hist[-4:]), st)

    def apply(self, doc, op, x):
        W = self.W
        sel = {"repo": "select_repo", "test": "select_test", "var": "select_var", "backend": "select_backend", "n": "select_n_runs", "dtest": "select_deterministic_test",
               "dvar": "select_deterministic_var", "dbackend": "select_deterministic_backend", "dn": "select_n_deterministic_runs", "run": "select_run", "filter": "select_filter",
               "ndrun": "select_check_run_non_deterministic", "drun": "select_check_run_deterministic"}
        if op in sel:
            w = W(sel[op])
            if w is None:
                raise Bad("no widget " + sel[op])
            o = list(w.options)
            if not o or o == ["None"]:
                return None
            w.value = o[x % len(o)]
            return "%s=%s" % (op, w.value)
        if op in ("out", "dout", "iout"):
            w = W({"out": "outliers_filtering_compare", "dout": "outliers_filtering_deterministic", "iout": "outliers_filtering_inspect"}[op])
            w.active = [] if w.active else [0]
            return "%s %s" % (op, bool(w.active))
        if op == "group":
            w = W("groupby_radio")
            w.active = x % len(w.labels)
            return "group by " + w.labels[w.active]
        if op == "filterby":
            w = W("filterby_radio")
            w.active = x % len(w.labels)
            return "filter by " + w.labels[w.active]
        if op in ("tap", "dtap"):
            p = W(("boxplot", "sigma_plot", "s10_plot", "s2_plot")[x % 4] if op == "tap" else "comparison_plot")
            ren = [q for q in p.renderers if q.name in ("circle", "full_box")][0]
            xs = list(self.field(ren, "x"))
            if not xs:
                return None
            i = (x >> 4) % len(xs)
            ren.data_source.selected.indices = [i]
            w = W("select_run" if op == "tap" else "select_check_run_deterministic")
            if w.value != xs[i]:
                raise Bad("a click on the run '%s' shows the run '%s'" % (xs[i], w.value))
            ren.data_source.selected.indices = []
            return "click on " + xs[i]

    @staticmethod
    def field(ren, name):
        f = getattr(ren.glyph, name)
        f = f if isinstance(f, str) else getattr(f, "field", None) or (f.get("field") if isinstance(f, dict) else None)
        d = ren.data_source.data
        return list(d[f]) if f in d else [f]

    def same(self, what, when, got, want):
        got = list(got)
        if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
            raise Bad("%s %s: %s instead of %s" % (what, when, [str(z) for z in got[:16]], [str(z) for z in want[:16]]))

    def columns(self, what, when, ren, n):
        for k, v in ren.data_source.data.items():
            if len(v) != n:
                raise Bad("%s %s: the column %s has %d values for %d points" % (what, when, k, len(v), n))

    def options(self, name, when, want):
        w = self.W(name)
        o = list(w.options)
        if not want:
            return None
        if sorted(o) != sorted(want) or len(set(o)) != len(o):
            raise Bad("%s %s: the options of %s are %s instead of %s" % ("the report", when, name, o, sorted(want)))
        if w.value not in o:
            raise Bad("%s %s: the value %r of %s is not one of %s" % ("the report", when, w.value, name, o))
        return w.value

    @staticmethod
    def age(name, age, run):
        """The name of a run tells its age, rounded down (it may have been given up to a minute before)"""
        m = re.match(r"(\d+) (minute|hour|day|week|month)s? ago", name)
        if m:
            n, u = int(m.group(1)), {"minute": 60, "hour": 3600, "day": 86400, "week": 604800, "month": 2592000}[m.group(2)]
            if n < 1 or n * u > age or (n + 1) * u <= age - 60:
                raise Bad("a run of %d s is named '%s'" % (age, name))
        elif name.startswith("Less than a minute") and age >= 120:
            raise Bad("a run of %d s is named '%s'" % (age, name))

    def compare(self, case, doc, reponames, when, st):
        W = self.W
        repo = W("select_repo").value
        runs = reponames[repo]
        # names of the runs, in chronological order
        names = list(W("select_run").options)
        if len(names) != len(runs) or len(set(names)) != len(names):
            raise Bad("the runs of %s %s are %s for %d runs of ages %s" % (repo, when, names, len(runs), [x["age"] for x in runs]))
        for n, run in zip(names, runs):
            if self.names.setdefault(run["ts"], n) != n:
                raise Bad("a run is named '%s' and '%s'" % (n, self.names[run["ts"]]))
            if run["hash"] and "(%s)" % run["hash"] not in n:
                raise Bad("the run of commit %s is named '%s'" % (run["hash"], n))
            self.age(n, int(time.time()) - run["ts"], run)
        if len(set(self.names.values())) != len(self.names):
            raise Bad("two runs have the same name: %s" % sorted(self.names.values()))
        byname = dict(zip(names, runs))
        count = []

        # ---- comparison of the runs
        for kind, pre, rowk, plots in (("nd", "select_", "ndr", ("boxplot", "sigma_plot", "s10_plot", "s2_plot")), ("det", "select_deterministic_", "detr", ("comparison_plot",))):
            rows = [x for run in runs for x in run[rowk]]
            if not rows:
                for p in plots:
                    for ren in W(p).renderers:
                        for k, v in ren.data_source.data.items():
                            if len(v):
                                raise Bad("%s %s: %s is drawn although %s has no such result" % (p, when, k, repo))
                continue
            te = self.options(pre + "test", when, {x["test"] for x in rows})
            va = self.options(pre + "var", when, {x["variable"] for x in rows if x["test"] == te})
            be = self.options(pre + "backend", when, {x["vfc_backend"] for x in rows if x["test"] == te and x["variable"] == va})
            nrun = NRUNS[W("select_n_runs" if kind == "nd" else "select_n_deterministic_runs").value]
            mine = [(run, x) for run in runs for x in run[rowk] if (x["test"], x["variable"], x["vfc_backend"]) == (te, va, be)][-nrun:]
            filt = W("outliers_filtering_compare" if kind == "nd" else "outliers_filtering_deterministic").active
            for p in plots:
                what = "%s of %s, %s, %s" % (p, te, va, be)
                stat = {"sigma_plot": "sigma", "s10_plot": "s10", "s2_plot": "s2", "comparison_plot": "value"}.get(p)
                shown = mine
                if stat and filt:
                    k = outliers([x[stat] for _, x in mine])
                    if k is None:
                        continue
                    shown = [m for m, q in zip(mine, k) if q]
                xs = [self.names[run["ts"]] for run, _ in shown]
                self.plot_is(W(p), what, when, xs, [x for _, x in shown], [run for run, _ in shown], stat)
                count.append((p, len(xs)))

        # ---- inspection of a run
        cur = self.options("select_run", when, names)
        ga = W("groupby_radio")
        fa = W("filterby_radio")
        grp, fby = FACT[ga.labels[ga.active]], FACT[fa.labels[fa.active]]
        if grp == fby:
            raise Bad("the inspection %s groups and filters by %s" % (when, grp))
        rows = byname[cur]["ndr"]
        if rows:
            val = self.options("select_filter", when, {x[fby] for x in rows})
            groups = {}
            for x in rows:
                if x[fby] == val:
                    groups.setdefault(x[grp], []).append(x)
            gs = sorted(groups)
            lab = [g if len(g) <= 39 else g[:17] + "[...]" + g[-17:] for g in gs]
            io = W("outliers_filtering_inspect").active
            for p, stat in (("mu_inspect", "mu"), ("sigma_inspect", "sigma"), ("s10_inspect", "s10"), ("s2_inspect", "s2")):
                what = "%s of the run '%s', %s=%s by %s" % (p, cur, fby, val, grp)
                ix = list(range(len(gs)))
                if stat == "mu":
                    mus = [math.fsum(x["mu"] * x["nsamples"] for x in groups[g]) / sum(x["nsamples"] for x in groups[g]) for g in gs]
                    big = [math.fsum(abs(x["mu"]) * x["nsamples"] for x in groups[g]) / sum(x["nsamples"] for x in groups[g]) for g in gs]
                    if io:
                        k = outliers(mus)
                        if k is None:
                            continue
                        ix = [i for i in ix if k[i]]
                    ren = [q for q in W(p).renderers if q.name == "circle"][0]
                    self.same(what + ": groups", when, self.field(ren, "x"), [lab[i] for i in ix])
                    got = self.field(ren, "y")
                    if len(got) != len(ix) or any(abs(a - mus[i]) > 1e-9 * abs(mus[i]) + 1e-13 * big[i] for a, i in zip(got, ix)):
                        raise Bad("%s %s: %s instead of %s" % (what, when, got, [mus[i] for i in ix]))
                else:
                    q = {g: [x[stat] for x in groups[g]] for g in gs}
                    if io:
                        k = outliers([max(q[gs[i]]) for i in ix])
                        if k is None:
                            continue
                        ix = [i for i, z in zip(ix, k) if z]
                        k = outliers([min(q[gs[i]]) for i in ix])
                        if k is None:
                            continue
                        ix = [i for i, z in zip(ix, k) if z]
                    want = [{"min": min(q[gs[i]]), "max": max(q[gs[i]]), "quantile25": quantile(q[gs[i]], .25), "quantile50": quantile(q[gs[i]], .5), "quantile75": quantile(q[gs[i]], .75),
                             "mu": math.fsum(q[gs[i]]) / len(q[gs[i]])} for i in ix]
                    self.boxes(W(p), what, when, [lab[i] for i in ix], want)
                ren = W(p).renderers[0]
                self.columns(what, when, ren, len(ix))
                self.same(what + ": number of samples", when, ren.data_source.data["nsamples"], [len(groups[gs[i]]) for i in ix])
                f = list(W(p).x_range.factors)
                if len(set(f)) != len(f) or [z for z in f if z in [lab[i] for i in ix]] != [lab[i] for i in ix]:
                    raise Bad("%s %s: the axis shows %s" % (what, when, f))
                count.append((p, len(ix)))

        # ---- tables of checks
        for table, w, rowk, cols in (("non_deterministic_checks_table", "select_check_run_non_deterministic", "ndr", ("mu", "sigma")),
                                     ("deterministic_checks_table", "select_check_run_deterministic", "detr", ("value", "reference_value"))):
            cur = self.options(w, when, names)
            want = sorted([x for x in byname[cur][rowk] if x["accuracy_threshold"] != 0], key=lambda x: (x["test"], x["variable"], x["vfc_backend"]))
            tab = W(table)
            if not want and not any(run[rowk] for run in runs):
                continue
            d = {c.field: list(tab.source.data[c.field]) for c in tab.columns if c.field in tab.source.data}
            what = "%s of the run '%s'" % (table, cur)
            order = sorted(range(len(d.get("test", []))), key=lambda i: (d["test"][i], d["variable"][i], d["vfc_backend"][i])) if "vfc_backend" in d else []
            for k in ("test", "variable", "vfc_backend", "accuracy_threshold", "check") + cols:
                if k not in d and want:
                    raise Bad("%s %s: no column %s" % (what, when, k))
                self.same("%s: %s" % (what, k), when, [d[k][i] for i in order] if k in d else [], [x[k] for x in want])
            self.same(what + ": mode", when, [str(d["check_mode"][i]).lower() for i in order] if "check_mode" in d else [], [x["check_mode"] for x in want])
            count.append((table, len(want)))
        if st is not None:
            st.evals += len(count)
            for p, n in count:
                st.cls(p)
                if n > 1:
                    st.nt.append(h64([p, when, case["runs"][0]["age"], n]))

    def meta(self, what, when, ren, runs):
        d = ren.data_source.data
        for k in ("hash", "author", "message"):
            if k in d:
                self.same("%s: %s" % (what, k), when, d[k], [run[k] for run in runs])

    def plot_is(self, p, what, when, xs, rows, runs, stat):
        if stat is None:
            self.boxes(p, what, when, xs, rows)
            ren = [q for q in p.renderers if q.name == "full_box"][0]
            col = self.field(ren, "fill_color")
            self.same(what + ": p-value", when, ren.data_source.data["pvalue"], [x["pvalue"] for x in rows])
        else:
            ren = [q for q in p.renderers if q.name == "circle"][0]
            self.same(what + ": runs", when, self.field(ren, "x"), xs)
            self.same(what, when, self.field(ren, "y"), [x[stat] for x in rows])
            col = self.field(ren, "fill_color")
            if stat in ("s2", "s10"):
                seg = [q for q in p.renderers if type(q.glyph).__name__ == "Segment"][0]
                self.same(what + ": bound", when, self.field(seg, "y1"), [x[stat + "_lower_bound"] for x in rows])
            if stat == "value":
                sec = [q for q in p.renderers if q.name == "second_circle"]
                if sec:
                    y = self.field(sec[0], "y")
                    for a, x in zip(y, rows):
                        if not x["check"] and not close(a, x["reference_value"]):
                            raise Bad("%s %s: reference %s instead of %s" % (what, when, a, x["reference_value"]))
        self.columns(what, when, ren, len(xs))
        self.meta(what, when, ren, runs)
        if len(col) == len(rows):
            good, bad = {c for c, x in zip(col, rows) if x["check"]}, {c for c, x in zip(col, rows) if not x["check"]}
            if good & bad:
                raise Bad("%s %s: failed and passed checks have the same colour %s" % (what, when, good & bad))
        d = ren.data_source.data
        if "nsamples" in d and rows and "nsamples" in rows[0]:
            self.same(what + ": number of samples", when, d["nsamples"], [x["nsamples"] for x in rows])
        if "accuracy_threshold" in d:
            self.same(what + ": threshold", when, d["accuracy_threshold"], [x["accuracy_threshold"] for x in rows])
        f = list(p.x_range.factors)
        if f != xs:
            raise Bad("%s %s: the axis shows %s instead of %s" % (what, when, f, xs))

    def boxes(self, p, what, when, xs, rows):
        seg, bar = [], []
        for q in p.renderers:
            k = type(q.glyph).__name__
            if k == "Segment":
                self.same(what + ": positions", when, self.field(q, "x0"), xs)
                self.same(what + ": positions", when, self.field(q, "x1"), xs)
                seg.append((self.field(q, "y0"), self.field(q, "y1")))
            elif k == "VBar":
                self.same(what + ": positions", when, self.field(q, "x"), xs)
                bar.append((self.field(q, "bottom"), self.field(q, "top")))
            elif k in ("Dot", "Scatter"):
                self.same(what + ": positions", when, self.field(q, "x"), xs)
                self.same(what + ": average", when, self.field(q, "y"), [x["mu"] for x in rows])
        if not seg or not bar:
            raise Bad("%s %s: no box is drawn" % (what, when))
        for i, x in enumerate(rows):
            ys = sorted(float(v[i]) for pair in seg + bar for v in pair)
            lo, hi = min(v[i] for pair in bar for v in pair), max(v[i] for pair in bar for v in pair)
            self.same(what + ": quartiles", when, [lo, hi], [x["quantile25"], x["quantile75"]])
            self.same(what + ": extremes", when, [ys[0], ys[-1]], [x["min"], x["max"]])
            if not any(close(v[i], x["quantile50"]) for pair in bar for v in pair):
                raise Bad("%s %s: the median %s is not drawn" % (what, when, x["quantile50"]))
            for a, z in seg:
                if not (close(a[i], x["max"]) and close(z[i], x["quantile75"]) or close(a[i], x["min"]) and close(z[i], x["quantile25"]) or
                        close(z[i], x["max"]) and close(a[i], x["quantile75"]) or close(z[i], x["min"]) and close(a[i], x["quantile25"])):
                    raise Bad("%s %s: a stem joins %s and %s" % (what, when, a[i], z[i]))

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        for _ in range(job["n"]):
            case = self.gen(r)
            m = self.judge(b, case, st)
            for run in case.get("runs", []):
                for k in ("ts", "ndr", "detr"):
                    run.pop(k, None)
            if m:
                st.fails.append((case, m))
        if "repos" in case:
            st.samples.append({"repos": case["repos"], "runs": [[x["age"], x["repo"], len(x["nd"]), len(x["det"])] for x in case["runs"]], "sel": case["sel"], "ops": case["ops"]})
        return st

    def reductions(self, c):
        if c.get("serve"):
            for i in range(len(c["opts"])):
                yield dict(c, opts=c["opts"][:i] + c["opts"][i + 1:])
            if c["dir"] != "runs":
                yield dict(c, dir="runs")
            return
        for i in range(len(c["ops"])):
            yield dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
        for i in range(len(c["runs"])):
            if len(c["runs"]) > 1:
                yield dict(c, runs=c["runs"][:i] + c["runs"][i + 1:])
        if c["sel"]:
            yield dict(c, sel={})
