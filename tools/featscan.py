"""which features survive which flags: python3-vt tools/featscan.py FLAG..."""
import os, sys, random, concurrent.futures as cf
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib")); sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "checks"))
import richgen as rg, vbuild
import C03
b = vbuild.Build(); c = C03.CHECK(); c.setup(b, "quick")
flags = sys.argv[1:]
def one(a):
    f, lang, opt, k = a
    r = random.Random("%s%s%s%d" % (f.__name__, lang, opt, k))
    P = rg.generate(r, lang, 0)
    g, m = f(r, 0, lang == "c++")
    P["parts"] = [[f.__name__[2:], g, m]]
    case = {"P": P, "opts": [opt, "-ffp-contract=off"], "flags": flags, "backends": ["libinterflop_ieee.so", "libinterflop_vprec.so"], "driver": False}
    return a, c.evaluate(b, case, {})
jobs = []
for f in dict.fromkeys(rg.BOTH + rg.CPP):
    for lang in (["c++"] if f in rg.CPP else ["c", "c++"]):
        for opt in ("-O0", "-O2"):
            for k in range(3): jobs.append((f, lang, opt, k))
res = {}
with cf.ThreadPoolExecutor(8) as ex:
    for a, m in ex.map(one, jobs):
        res.setdefault((a[0].__name__, a[1], a[2]), []).append(m)
for k, v in res.items():
    bad = [x for x in v if x]
    if bad: print(k, len(bad), bad[0].replace("\n", " ")[:140], "...", bad[0].replace("\n", " ")[-60:])
