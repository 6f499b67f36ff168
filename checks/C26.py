"""C26: vfc_vtk enriches a set of VTK outputs with the accuracy of each array, and changes nothing else."""
import itertools
import math
import os
import random
import shutil
import sys
import tempfile
import xml.etree.ElementTree as ET
from fractions import Fraction

import pytools
from vcommon import Check, Stats, HANG, h64

FLT = ("Float32", "Float64")


class CHECK(Check):
    id = "C26"
    rule = ("generated sets of 1-6 outputs (directories of .vtu files: 1-3 pieces, points, point and cell data, floating point and integer arrays, equal names, other files) and options "
            "(--std, --mean, -r, -o); the output is compared, node by node, with the base output plus the mean, deviation or significant digits recomputed exactly. An evaluation is "
            "one DataArray of an output; non-trivial = floating point array whose samples differ")
    assumptions = ["ASCII .vtu files with named arrays", "arrays whose samples are all zero (no relative accuracy) are left open"]
    shrink_budget = 20

    def setup(self, b, tier):
        pass

    def plan(self, tier, seed):
        n = 1500 if tier == "quick" else 16000
        return [{"i": i, "seed": "%s/%s/%d" % (self.id, seed, i), "n": 5} for i in range(n)]

    # ------------------------------------------------------------------ generation
    def array(self, r, name, nd, n):
        ty = r.choice(["Float32", "Float32", "Float64", "Int32", "UInt8"])
        comp = r.choice([1, 1, 3])
        m = comp * n
        a = {"type": ty, "name": name, "comp": comp, "rows": []}
        if ty in FLT:
            base, sig = [], []
            for _ in range(m):
                x = r.choice([-1, 1]) * r.uniform(1, 10) * 10.0 ** r.randint(-12, 12)
                k = r.random()
                if k > 0.85:
                    # short dyadic values: their sums are exact
                    base.append(r.choice([-1, 1]) * r.randint(1, 63) / r.choice([1, 2, 4, 8]))
                    sig.append(0.0)
                    continue
                base.append(0.0 if k < 0.05 else x)
                sig.append(0.0 if r.random() < 0.15 else 10.0 ** -r.uniform(0, 15) * abs(x) if k >= 0.05 else r.choice([0.0, 10.0 ** r.randint(-9, 0)]))
            same = r.random() < 0.1
            for d in range(nd):
                a["rows"].append(["%.*g" % (9 if ty == "Float32" else 17, x + (0 if same else s * r.uniform(-1, 1))) for x, s in zip(base, sig)])
        else:
            row = [str(r.randint(0, 100)) for _ in range(m)]
            a["rows"] = [row] * nd
        return a

    def gen(self, r):
        nd = r.choice([1, 2, 2, 3, 4, 6])
        files = []
        for f in range(r.choice([1, 1, 2, 3])):
            pieces = []
            for p in range(r.choice([1, 1, 2, 3])):
                n = r.randint(1, 4)
                names = ["velocity", "p", "rho_vfc", "a b", "x"]
                sec = {}
                for t in ("PointData", "CellData"):
                    sec[t] = [self.array(r, nm, nd, n) for nm in r.sample(names, r.randint(0, 3))]
                pts = self.array(r, r.choice(["Points", "p", "coordinates"]), nd, n)
                if r.random() < 0.7 and pts["type"] not in FLT:
                    while pts["type"] not in FLT:
                        pts = self.array(r, pts["name"], nd, n)
                sec["Points"] = [pts]
                sec["Cells"] = [self.array(r, nm, nd, n) for nm in ("connectivity", "offsets", "types")]
                for a in sec["Cells"]:
                    a["type"] = "Int32" if a["type"] in FLT else a["type"]
                order = ["PointData", "CellData", "Points", "Cells"]
                if r.random() < 0.3:
                    r.shuffle(order)
                pieces.append({"order": order, "sec": sec})
            files.append({"name": "f%d.vtu" % f if r.random() < 0.8 else "out.%d.step.vtu" % f, "pieces": pieces})
        return {"nd": nd, "files": files, "std": r.random() < 0.35, "mean": r.random() < 0.4, "ref": r.random() < 0.2, "fault": r.choice([None] * 8 + ["exists", "empty"]),
                "sep": r.choice([" ", "\n", "  "]), "extra": r.random() < 0.5}

    def text(self, case, f, d, ref=False):
        def e(s):
            return s.replace("&", "&amp;").replace('"', "&quot;")
        o = ['<?xml version="1.0"?>\n<VTKFile type="UnstructuredGrid" version="0.1">\n<UnstructuredGrid>\n']
        for p in f["pieces"]:
            o.append('<Piece NumberOfPoints="4" NumberOfCells="2">\n')
            for t in p["order"]:
                o.append('<%s Scalars="p">\n' % t if t == "PointData" else "<%s>\n" % t)
                for a in p["sec"][t]:
                    row = a["rows"][d]
                    if ref and a["type"] in FLT:
                        row = ["%.9g" % (float(x) * 1.25 + 1) for x in row]
                    o.append('<DataArray type="%s" Name="%s" NumberOfComponents="%d" format="ascii">%s</DataArray>\n' % (
                        a["type"], e(a["name"]), a["comp"], "\n" + case["sep"].join(row) + "\n"))
                o.append("</%s>\n" % t)
            o.append("</Piece>\n")
        o.append("</UnstructuredGrid>\n</VTKFile>\n")
        return "".join(o)

    # ------------------------------------------------------------------ verdict
    def judge(self, b, case, st=None):
        t = tempfile.mkdtemp(dir="/dev/shm")
        try:
            return self.judge_in(case, t, st)
        finally:
            shutil.rmtree(t, ignore_errors=True)

    def judge_in(self, case, t, st):
        pytools.third_party()
        mod = pytools.load("vtk.__main__")
        ind, out = os.path.join(t, "in"), os.path.join(t, "res")
        os.makedirs(ind)
        dirs = ["run%02d" % d for d in range(case["nd"])]
        if case["fault"] == "empty":
            open(os.path.join(ind, "file.vtu"), "w").write("x")
        else:
            for d, dn in enumerate(dirs):
                os.makedirs(os.path.join(ind, dn))
                for f in case["files"]:
                    open(os.path.join(ind, dn, f["name"]), "w").write(self.text(case, f, d))
                if case["extra"]:
                    open(os.path.join(ind, dn, "index.pvtu"), "w").write("run %d" % d)
            if case["extra"]:
                open(os.path.join(ind, "notes.txt"), "w").write("n")
        argv = ["vfc_vtk", "-o", out, ind] + ["--std"] * case["std"] + ["--mean"] * case["mean"]
        if case["ref"]:
            os.makedirs(os.path.join(t, "ref"))
            for f in case["files"]:
                open(os.path.join(t, "ref", f["name"]), "w").write(self.text(case, f, 0, True))
            argv += ["-r", os.path.join(t, "ref")]
        if case["fault"] == "exists":
            os.makedirs(out)
            open(os.path.join(out, "keep"), "w").write("k")
        snap = self.snapshot(t)
        old, code = sys.argv, 0
        sys.argv = argv
        try:
            with pytools.limit(30), pytools.quiet():
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        mod.main()
                    except SystemExit as e:
                        code = e.code or 0
        except pytools.Timeout:
            return HANG
        except Exception as e:
            return "vfc_vtk %s stops with %s: %s" % (" ".join(argv[1:]).replace(t, ""), type(e).__name__, str(e)[:200])
        finally:
            sys.argv = old
        now = self.snapshot(t)
        if case["fault"]:
            if not code:
                return "vfc_vtk succeeds although %s" % ("the output directory exists" if case["fault"] == "exists" else "there is no output to process")
            if now != snap:
                return "vfc_vtk refuses its arguments but changes files"
            return None
        if code:
            return "vfc_vtk ends with status %s" % code
        if {k: v for k, v in now.items() if not k.startswith("res")} != snap:
            return "vfc_vtk changes its inputs"
        bases = ["ref"] if case["ref"] else ["in/" + d for d in dirs]
        msgs = [self.compare(case, t, base, out, st) for base in bases]
        if any(m is None for m in msgs):
            return None
        return msgs[0]

    @staticmethod
    def snapshot(t):
        s = {}
        for dp, dn, fn in os.walk(t):
            for f in fn:
                p = os.path.join(dp, f)
                s[os.path.relpath(p, t)] = open(p).read()
            for d in dn:
                s[os.path.relpath(os.path.join(dp, d), t)] = None
        return s

    def compare(self, case, t, base, out, st):
        bd = os.path.join(t, base)
        if sorted(os.listdir(bd)) != sorted(os.listdir(out)):
            return "files of the result: %s instead of %s" % (sorted(os.listdir(out)), sorted(os.listdir(bd)))
        ref = base == "ref"
        bi = 0 if ref else int(base[-2:])
        for n in os.listdir(bd):
            if not n.endswith(".vtu") and open(os.path.join(bd, n)).read() != open(os.path.join(out, n)).read():
                return "%s is changed" % n
        for f in case["files"]:
            try:
                root = ET.parse(os.path.join(out, f["name"])).getroot()
            except ET.ParseError as e:
                return "%s: unreadable result: %s" % (f["name"], e)
            if root.tag != "VTKFile" or [c.tag for c in root] != ["UnstructuredGrid"] or [c.tag for c in root[0]] != ["Piece"] * len(f["pieces"]):
                return "%s: the structure of the file is changed" % f["name"]
            for pi, (p, node) in enumerate(zip(f["pieces"], root[0])):
                if [c.tag for c in node] != p["order"] or node.attrib != {"NumberOfPoints": "4", "NumberOfCells": "2"}:
                    return "%s: the sections of piece %d are %s" % (f["name"], pi, [c.tag for c in node])
                for sec in node:
                    want = []
                    for a in p["sec"][sec.tag]:
                        row = [float(x) for x in a["rows"][bi]]
                        if ref and a["type"] in FLT:
                            row = [float("%.9g" % (x * 1.25 + 1)) for x in row]
                        flt = a["type"] in FLT
                        want.append((a, a["name"], "mean" if flt and case["mean"] else "same", row))
                        if flt and sec.tag != "Points":
                            want.append((a, a["name"] + "_vfc_accuracy", "std" if case["std"] else "digits", None))
                    if sec.tag == "PointData":
                        for a in p["sec"]["Points"]:
                            if a["type"] in FLT:
                                want.append((a, a["name"] + "_vfc_accuracy", "std" if case["std"] else "digits", None))
                    where = "%s, %s of piece %d" % (f["name"], sec.tag, pi)
                    got = list(sec)
                    if sorted(c.get("Name", "?") for c in got) != sorted(w[1] for w in want):
                        return "%s has the arrays %s instead of %s" % (where, [c.get("Name") for c in got], [w[1] for w in want])
                    # originals keep their order
                    names = [w[1] for w in want if w[2] in ("mean", "same")]
                    if len(set(w[1] for w in want)) == len(want) and [c.get("Name") for c in got if c.get("Name") in names] != names:
                        return "%s: the order of the arrays is changed" % where
                    for nm in {w[1] for w in want}:
                        ws = [w for w in want if w[1] == nm]
                        cs = [c for c in got if c.get("Name") == nm]
                        ms = []
                        for perm in itertools.permutations(cs):
                            m = next((m for m in (self.array_is(case, w[0], c, w[2], w[3]) for w, c in zip(ws, perm)) if m), None)
                            if m is None:
                                break
                            ms.append(m)
                        else:
                            return "%s, array '%s': %s" % (where, nm, " or ".join(ms))
                    for a, nm, how, row in want:
                        if st is not None:
                            st.evals += 1
                            st.cls(how)
                            if a["type"] in FLT and len(set(map(tuple, a["rows"]))) > 1:
                                st.nt.append(h64([how, a["rows"]]))
        return None

    def array_is(self, case, a, c, how, row):
        if c.get("type") not in ((a["type"],) if row is not None else FLT) or c.get("NumberOfComponents") != str(a["comp"]) or c.get("format") != "ascii" or len(c):
            return "attributes %s" % c.attrib
        try:
            got = [float(x) for x in (c.text or "").split()]
        except ValueError:
            return "unreadable text"
        n = len(a["rows"][0])
        if len(got) != n:
            return "%d values instead of %d" % (len(got), n)
        for i in range(n):
            xs = [Fraction(float(r[i])) for r in a["rows"]]
            m = sum(xs) / len(xs)
            var = sum((x - m) ** 2 for x in xs) / len(xs)
            sd = math.sqrt(var) if var < 10 ** 300 else 0
            big = float(max(abs(x) for x in xs))
            g = got[i]
            if not math.isfinite(g):
                return "value %d is %r" % (i, g)
            if how == "same":
                if g != row[i]:
                    return "value %d is %r instead of %r" % (i, g, row[i])
            elif how == "mean":
                # exact for one output, nearly so for the mean of several ones
                if abs(Fraction(g) - m) > (0 if len(xs) == 1 else Fraction(len(xs) * 2.3e-16 * big)):
                    return "value %d is %r instead of the mean %r of %s" % (i, g, float(m), [float(x) for x in xs])
            elif how == "std":
                if not abs(g - sd) <= 1e-9 * sd + 1e-14 * big:
                    return "value %d is %r instead of the deviation %r of %s" % (i, g, sd, [float(x) for x in xs])
            else:
                if not 0 <= g <= 17:
                    return "value %d has %r digits, out of [0, 17]" % (i, g)
                if m == 0 and sd == 0:
                    continue
                if sd == 0 and (float(m) * 8) % 1 == 0 and abs(m) < 64 and g != 17:
                    return "value %d has %r digits instead of 17 although all the outputs give %r" % (i, g, float(m))
                if abs(float(m)) < 1e-12 * big:
                    if not g <= 0.01:
                        return "value %d has %r digits, but its mean is null: %s" % (i, g, [float(x) for x in xs])
                    continue
                lo_sd, hi_sd = max(0.0, sd * (1 - 1e-9) - 2e-15 * big), sd * (1 + 1e-9) + 2e-15 * big
                am = abs(float(m))
                slack = 1e-12 * big / am * 10 + 1e-6
                lo = min(17.0, max(0.0, -math.log10(hi_sd / am) - slack))
                hi = min(17.0, max(0.0, -math.log10(lo_sd / am) + slack)) if lo_sd > 0 else 17.0
                if not lo - 1e-9 <= g <= hi + 1e-9:
                    return "value %d has %r digits instead of %.4f: samples %s" % (i, g, hi, [float(x) for x in xs])
        return None

    def run_job(self, b, job):
        st = Stats()
        r = random.Random(job["seed"])
        for _ in range(job["n"]):
            case = self.gen(r)
            m = self.judge(b, case, st)
            if case["fault"]:
                st.evals += 1
                st.cls("refused")
            if m:
                st.fails.append((case, m))
        st.samples.append({"outputs": case["nd"], "options": {k: case[k] for k in ("std", "mean", "ref", "fault")},
                           "array": case["files"][0]["pieces"][0]["sec"]["Points"][0]})
        return st

    def reductions(self, case):
        for i in range(len(case["files"])):
            if len(case["files"]) > 1:
                yield dict(case, files=case["files"][:i] + case["files"][i + 1:])
        f = case["files"][0]
        if len(case["files"]) == 1:
            for i in range(len(f["pieces"])):
                if len(f["pieces"]) > 1:
                    yield dict(case, files=[dict(f, pieces=f["pieces"][:i] + f["pieces"][i + 1:])])
            for pi, p in enumerate(f["pieces"]):
                for s in ("PointData", "CellData", "Cells"):
                    for k in range(len(p["sec"][s])):
                        q = dict(p, sec=dict(p["sec"], **{s: p["sec"][s][:k] + p["sec"][s][k + 1:]}))
                        yield dict(case, files=[dict(f, pieces=f["pieces"][:pi] + [q] + f["pieces"][pi + 1:])])
        for k in ("std", "mean", "ref", "extra"):
            if case[k]:
                yield dict(case, **{k: False})
