"""C36: vfc_report shows exactly the formats found by the exploration."""
import csv
import html.parser
import os
import random
import re
import shutil
import sys
import tempfile
import traceback
import types

import pytools
from vcommon import Check, Stats, HANG, h64

OPC = ["ID", "Lib", "Int", "Float", "Double", "Prec64", "Range64", "Prec32", "Range32", "Ninputs", "Noutputs", "Ncalls"]
ARC = ["ID", "ArgID", "Lib", "Int", "IO", "Type", "Prec", "Range", "Min", "Max", "Ncalls"]
FILES = {"args": "ArgumentsResults.csv", "ops": "OperationsResults.csv", "allargs": "AllArgsResults.csv", "allops": "AllOpsResults.csv"}
KIND = {0: "Float", 1: "Double", 3: "Float ptr", 4: "Double ptr"}
LINKS = {"Arguments": "allargs", "Operations": "allops", "Arguments Only": "args", "Operations Only": "ops"}


class Plot:
    """a recording matplotlib.pyplot"""

    class Axes:
        def __init__(self, fig):
            self.fig = fig

        def __getattr__(self, name):
            def f(*a, **k):
                self.fig.calls.append((name, a, k))
                return (0.0, 1.0) if name in ("get_ylim", "get_xlim") else None
            return f

    class Fig:
        def __init__(self):
            self.calls = []

        def subplots(self, rows=1, cols=1, **k):
            n = rows * cols
            ax = [Plot.Axes(self) for _ in range(n)]
            return ax[0] if n == 1 else ax

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)

            def f(*a, **k):
                self.calls.append((name, a, k))
                return self
            return f

    def __init__(self):
        self.saved = {}
        self.figs = {}
        self.cur = None

    def figure(self, num=None, *a, **k):
        num = num if num is not None else len(self.figs) + 1000
        self.cur = self.figs.setdefault(num, Plot.Fig())
        return self.cur

    def gcf(self):
        return self.cur if self.cur is not None else self.figure(0)

    def gca(self):
        return Plot.Axes(self.gcf())

    def subplots(self, rows=1, cols=1, **k):
        self.cur = self.figs[len(self.figs) + 1000] = Plot.Fig()
        return self.cur, self.cur.subplots(rows, cols)

    def savefig(self, path, *a, **k):
        with open(path, "w") as f:
            f.write("image")
        self.saved[os.path.normpath(str(path))] = list(self.gcf().calls)

    def clf(self):
        self.gcf().calls.clear()

    def close(self, *a, **k):
        self.figs, self.cur = {}, None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def f(*a, **k):
            self.gcf().calls.append((name, a, k))
        return f


def drawn(calls):
    """texts and tick labels of a figure"""
    texts, ticks = [], []
    for name, a, k in calls:
        if name == "text":
            texts.append(str(a[2] if len(a) > 2 else k.get("s")))
        elif name in ("xticks", "yticks"):
            ticks += [str(x) for x in (a[1] if len(a) > 1 else k.get("labels", []))]
        elif name in ("set_xticks", "set_yticks"):
            ticks += [str(x) for x in (a[1] if len(a) > 1 else k.get("labels", []))]
        elif name in ("set_xticklabels", "set_yticklabels"):
            ticks += [str(x) for x in (a[0] if a else k.get("labels", []))]
    return sorted(texts), ticks


class Page(html.parser.HTMLParser):
    """sections (one per function), their call sites and the links of each"""

    def __init__(self):
        super().__init__()
        self.sections = []
        self.stack = []
        self.text = None

    def handle_starttag(self, tag, attrs):
        a = {k.lower(): v or "" for k, v in attrs}
        if tag == "div":
            if "FunctionInformations" in a.get("class", ""):
                self.sections.append({"name": a.get("id"), "sites": []})
        elif tag == "h4" and self.sections:
            self.text = ["h4", "", a]
        elif tag == "a" and self.sections and "_link" in a.get("class", ""):
            self.text = ["a", "", a]

    def handle_data(self, d):
        if self.text:
            self.text[1] += d

    def handle_endtag(self, tag):
        if self.text and tag == self.text[0]:
            t = self.text[1].strip()
            if tag == "h4":
                self.sections[-1]["sites"].append({"title": t, "links": {}})
            else:
                a = self.text[2]
                m = re.search(r"open\('([^']*)'", a.get("onclick", ""))
                if self.sections[-1]["sites"]:
                    self.sections[-1]["sites"][-1]["links"][t] = m.group(1) if m else None
            self.text = None


class CHECK(Check):
    id = "C36"
    rule = ("generated results of an exploration (call sites with their numbers of calls, formats, arguments; function lists; missing files), written as the CSV files of "
            "vfc_precexp and given to vfc_report with a recording matplotlib; oracle: the page and the figures computed from the generated data. An evaluation is one call "
            "site; non-trivial = the page holds an other call site of the same function or file, distinct by case and site")
    assumptions = ["matplotlib is not installed here: a stand-in records what is drawn", "function names differ by more than letter case (the page writes them in capitals)"]
    shrink_budget = 30.0

    def setup(self, b, tier):
        if not pytools.third_party():
            raise RuntimeError("no pandas")

    def plan(self, tier, seed):
        n = 700 if tier == "quick" else 20000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i)} for i in range(n)]

    # ---- generator
    def gen(self, r):
        files = r.choice([["a.c"], ["main.c", "lib.c"], ["src/a.c", "lib/a.c"], ["x/y/m.cpp", "x/n.v2.cpp", "m.f90"], ["/home/u/p/a.c", "b.c"]])
        funcs = r.sample(["f", "g", "main", "sin", "pow", "_ZN3fooIdE3barEd", "kernel.2", "llvm.sqrt.f64", "step_1", "a_c"], r.randint(1, 6))
        names = ["x", "y", "alpha", "return_value", "parameter_1", "nan", "NA", "null", "None", "inf", "1", "tab", "n"]
        sites = []
        nb = {}
        for _ in range(r.choice([0, 1, 2, 4, 8, 12])):
            f = r.choice(files)
            nb[f] = nb.get(f, -1) + 1
            lib = int(r.random() < 0.25)
            intr = int(not lib and r.random() < 0.2)
            ni, no = r.randrange(4), r.randrange(2)
            args = []
            for k in range(ni + no):
                lo = r.choice([0, 1, r.randint(-9, 9), r.randint(-2**31, 2**31 - 1)])
                args.append({"io": "input:" if k < ni else "output:", "name": r.choice(names), "ty": r.choice([0, 1, 1, 3, 4]), "min": lo, "max": lo + r.choice([0, 1, 100])})
            sites.append({"file": f, "parent": r.choice(funcs), "name": r.choice(funcs), "line": r.randint(1, 500), "nb": nb[f], "lib": lib, "int": intr,
                          "float": r.randrange(2), "double": r.randrange(2), "ni": ni, "no": no, "ncalls": r.choice([1, 1, 2, 7, r.randint(1, 10**6)]), "args": args})

        def fmt(a):
            return [r.randint(1, 23), r.randint(2, 8)] if a["ty"] in (0, 3) else [r.randint(1, 52), r.randint(2, 11)]
        for s in sites:
            for w in ("ops", "allops"):
                s[w] = [r.randint(1, 52), r.randint(2, 11), r.randint(1, 23), r.randint(2, 8)]
            for w in ("args_", "allargs"):
                s[w] = [fmt(a) for a in s["args"]]
        pick = r.random()
        flt = [] if pick < 0.55 else r.sample(funcs, min(len(funcs), r.randint(1, 2))) if pick < 0.9 else ["absent"]
        return {"sites": sites, "filter": flt, "missing": r.choice(sorted(FILES)) if r.random() < 0.04 else None}

    def sid(self, s):
        return "%s/%s/%s/%d/%d" % (s["file"], s["parent"], s["name"], s["line"], s["nb"])

    def write(self, case, d):
        os.mkdir(os.path.join(d, "vfc_exp_data"))
        order = sorted(case["sites"], key=lambda s: (s["ncalls"], self.sid(s)), reverse=True)
        for w, name in FILES.items():
            if w == case["missing"]:
                continue
            with open(os.path.join(d, "vfc_exp_data", name), "w", newline="") as f:
                c = csv.writer(f, lineterminator="\n")
                if w.endswith("ops"):
                    c.writerow([""] + OPC)
                    for i, s in enumerate(order):
                        c.writerow([i, self.sid(s), s["lib"], s["int"], s["float"], s["double"]] + s[w] + [s["ni"], s["no"], s["ncalls"]])
                else:
                    c.writerow([""] + ARC)
                    i = 0
                    for s in order:
                        for a, (p, e) in zip(s["args"], s["args_" if w == "args" else w]):
                            c.writerow([i, self.sid(s), a["name"], s["lib"], s["int"], a["io"], a["ty"], p, e, a["min"], a["max"], s["ncalls"]])
                            i += 1

    # ---- execution
    def go(self, case):
        plot = Plot()
        mods = {"matplotlib": types.ModuleType("matplotlib"), "matplotlib.pyplot": plot, "matplotlib.lines": types.ModuleType("matplotlib.lines")}
        mods["matplotlib"].pyplot, mods["matplotlib"].lines = plot, mods["matplotlib.lines"]
        mods["matplotlib"].__path__ = []
        mods["matplotlib"].use = lambda *a, **k: None
        mods["matplotlib.lines"].Line2D = lambda *a, **k: None
        d = tempfile.mkdtemp(prefix="c36")
        old = {k: sys.modules.get(k) for k in mods}
        argv = sys.argv
        out = {"rc": 0, "exc": None, "text": ""}
        try:
            self.write(case, d)
            before = {}
            for root, _, fs in os.walk(d):
                for f in fs:
                    before[os.path.join(root, f)] = open(os.path.join(root, f), "rb").read()
            sys.modules.update(mods)
            sys.modules.pop("verificarlo.optimize.report", None)
            sys.argv = ["vfc_report"] + case["filter"]
            with pytools.chdir(d), pytools.quiet() as buf:
                import builtins
                had = hasattr(builtins, "exit")
                if not had:
                    builtins.exit = sys.exit
                try:
                    with pytools.limit(60):
                        pytools.load("optimize.report").main()
                except SystemExit as e:
                    out["rc"] = e.code or 0
                except pytools.Timeout:
                    out["exc"] = HANG
                except Exception:
                    out["exc"] = traceback.format_exc()[-1200:]
                finally:
                    if not had:
                        del builtins.exit
            out["text"] = buf.getvalue()
            p = os.path.join(d, "vfc_exp_data", "vfc_precexp_report.html")
            out["html"] = open(p).read() if os.path.exists(p) else None
            out["changed"] = [os.path.basename(k) for k, v in before.items() if not os.path.exists(k) or open(k, "rb").read() != v]
            out["saved"] = {k: v for k, v in plot.saved.items()}
            return out
        finally:
            sys.argv = argv
            for k, v in old.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            shutil.rmtree(d, ignore_errors=True)

    def evaluate(self, b, case):
        o = self.go(case)
        if o["exc"]:
            return o["exc"] if o["exc"] == HANG else "vfc_report fails: " + o["exc"]
        if o["changed"]:
            return "vfc_report changes its inputs: %s" % o["changed"]
        if case["missing"]:
            if o["html"] is not None:
                return "a report is written although %s is missing" % FILES[case["missing"]]
            if FILES[case["missing"]] not in o["text"]:
                return "the missing file %s is not named: %r" % (FILES[case["missing"]], o["text"][:200])
            return None
        if o["html"] is None:
            return "no report is written (status %s): %s" % (o["rc"], o["text"][-300:])
        sites = [s for s in case["sites"] if not case["filter"] or s["name"] in case["filter"] or s["parent"] in case["filter"]]
        tot = {}
        for s in sites:
            tot[s["name"].upper()] = tot.get(s["name"].upper(), 0) + s["ncalls"]
        rows = [(m.group(1), int(m.group(2))) for m in re.finditer(r"\['([^']*)',\s*(\d+)\]", o["html"])]
        if sorted(rows) != sorted(tot.items()) or [n for _, n in rows] != sorted((n for _, n in rows), reverse=True):
            return "the functions listed with their numbers of calls are %s instead of %s in decreasing order" % (rows, sorted(tot.items()))
        pg = Page()
        pg.feed(o["html"])
        if [x["name"] for x in pg.sections] != [n for n, _ in rows]:
            return "the sections of the page are %s, the functions %s" % ([x["name"] for x in pg.sections], rows)
        for sec in pg.sections:
            mine = [s for s in sites if s["name"].upper() == sec["name"]]
            got = []
            for st in sec["sites"]:
                m = re.match(r"Call to (.*) in (.*) at line (\d+) executed (\d+) time", st["title"])
                if not m:
                    return "unexpected title %r" % st["title"]
                got.append((m.group(1), m.group(2), int(m.group(3)), int(m.group(4))))
            want = [(s["name"].upper(), s["file"].split("/")[-1], s["line"], s["ncalls"]) for s in mine]
            if sorted(got) != sorted(want) or [x[3] for x in got] != sorted((x[3] for x in got), reverse=True):
                return "the call sites of %s are %s instead of %s by decreasing number of calls" % (sec["name"], got, want)
            # what each site shows must be what one of the sites of this title has, each one once
            left = list(mine)
            for st, g in zip(sec["sites"], got):
                why = None
                for s in left:
                    if (s["name"].upper(), s["file"].split("/")[-1], s["line"], s["ncalls"]) == g:
                        w = self.compare(s, st["links"], o["saved"])
                        if w is None:
                            left.remove(s)
                            break
                        why = why or w
                else:
                    return "%s: %s" % (st["title"], why)
        used = [l for sec in pg.sections for st in sec["sites"] for l in st["links"].values() if l]
        if len(used) != len(set(used)):
            return "several links of the page show the same figure: %s" % sorted(l for l in set(used) if used.count(l) > 1)[:3]
        return None

    def compare(self, s, links, saved):
        if set(links) != set(LINKS):
            return "links %s" % sorted(links)
        for label, w in LINKS.items():
            a = label.startswith("Arg")
            on = (s["ni"] + s["no"] > 0) if a else not (s["lib"] or s["int"])
            if on != (links[label] is not None):
                return "the link '%s' is %s" % (label, "missing" if on else "present")
            if not on:
                continue
            calls = saved.get(os.path.normpath("vfc_exp_data/" + links[label]))
            if calls is None:
                return "the figure %s of '%s' does not exist" % (links[label], label)
            texts, ticks = drawn(calls)
            if a:
                fm = s["args_" if w == "args" else w]
                want = sorted([str(float(x["min"])) for x in s["args"]] + [str(float(x["max"])) for x in s["args"]] + [str(p) for p, _ in fm] + [str(e) for _, e in fm])
                lab = sorted("%s %s %s" % (x["io"], KIND[x["ty"]], x["name"]) for x in s["args"])
                if sorted(ticks) != lab:
                    return "'%s' is about the arguments %s instead of %s" % (label, sorted(ticks), lab)
                bars = [list(map(float, c[1][1] if len(c[1]) > 1 else c[2]["height"])) for c in calls if c[0] == "bar"]
                if len(bars) == 2 and len(ticks) == len(bars[0]) == len(bars[1]):
                    got = sorted(zip(ticks, bars[0], bars[1]))
                    exp = sorted(("%s %s %s" % (x["io"], KIND[x["ty"]], x["name"]), float(e), float(p)) for x, (p, e) in zip(s["args"], fm))
                    if got != exp:
                        return "'%s' draws %s instead of %s" % (label, got, exp)
            else:
                p64, e64, p32, e32 = s[w]
                want = sorted(([str(p32), str(e32)] if s["float"] else []) + ([str(p64), str(e64)] if s["double"] else []))
                lab = (["Float"] if s["float"] else []) + (["Double"] if s["double"] else [])
                if sorted(ticks) != sorted(lab):
                    return "'%s' is about the types %s instead of %s" % (label, ticks, lab)
            if texts != want:
                return "'%s' shows %s instead of %s" % (label, texts, want)
        return None

    def run_job(self, b, job):
        st = Stats()
        case = self.gen(random.Random(job["seed"]))
        msg = self.evaluate(b, case)
        st.evals = max(1, len(case["sites"]))
        if len(case["sites"]) > 1 and not case["missing"]:
            for i, s in enumerate(case["sites"]):
                if any(t is not s and (t["name"] == s["name"] or t["file"] == s["file"]) for t in case["sites"]):
                    st.nt.append(h64((job["seed"], i)))
        st.cls("missing file" if case["missing"] else "function list" if case["filter"] else "all functions")
        st.samples.append({"sites": len(case["sites"]), "filter": case["filter"], "first": case["sites"][:1]})
        if msg:
            st.fails.append((case, msg))
        return st

    def judge(self, b, case):
        return self.evaluate(b, case)

    def reductions(self, case):
        for i in range(len(case["sites"])):
            yield dict(case, sites=case["sites"][:i] + case["sites"][i + 1:])
        if case["filter"]:
            yield dict(case, filter=case["filter"][1:])
        for i, s in enumerate(case["sites"]):
            for j in range(len(s["args"])):
                t = dict(s, args=s["args"][:j] + s["args"][j + 1:], args_=s["args_"][:j] + s["args_"][j + 1:], allargs=s["allargs"][:j] + s["allargs"][j + 1:])
                t["ni"], t["no"] = (s["ni"] - 1, s["no"]) if j < s["ni"] else (s["ni"], s["no"] - 1)
                yield dict(case, sites=case["sites"][:i] + [t] + case["sites"][i + 1:])
