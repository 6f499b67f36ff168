from vcommon import OpsCheck
from opgen import *
import mcahull


class MCACheck(OpsCheck):
    """generated operations under one MCA backend, judged by the model's interval"""
    repeat = 64
    integer = False
    lib = None
    batch = 1500

    def setup(self, b, tier):
        b.backends([self.lib])
        b.opserver(False)

    def njobs(self, tier):
        return 1920 if tier == "quick" else 15360

    def configs(self, r, i):
        mode = ("rr", "pb", "mca")[i % 3]
        ty = r.getrandbits(1)
        default = r.random() < 0.35
        t32, t64 = 24, 53
        opts = ["--mode=" + (mode if r.random() < 0.8 else mode.upper())]
        if not default and not self.integer:
            t32 = r.choice([r.randint(1, 24), r.randint(1, 52), r.randint(1, 12)])
            t64 = r.choice([r.randint(1, 53), r.randint(1, 112), r.randint(1, 20)])
            if r.random() < 0.1:       # the noise is then negligible
                t32, t64 = [r.choice([r.randint(113, 3000), r.randint(10 ** 4, 10 ** 5), 2 ** 31 - 1 - r.getrandbits(12), 2 ** 31 - 1]) for _ in "ab"]
            opts += ["--precision-binary32=%d" % t32, "--precision-binary64=%d" % t64]
        if r.random() < 0.7:
            opts.append("--seed=%d" % r.getrandbits(r.choice([1, 8, 30, 62])))
        err, E = "rel", None
        if not self.integer and r.random() < 0.3:
            err = r.choice(["abs", "all"])
            E = r.choice([r.randint(-40, 10), r.randint(-300, 100)])
            if r.random() < 0.15:
                E = r.choice([r.randint(-3000, -300), -r.randint(10 ** 4, 10 ** 5), -2 ** 31 + r.getrandbits(12), -2 ** 31])
            opts += ["--error-mode=" + err, "--max-abs-error-exponent=%d" % E]
        r.shuffle(opts)
        if mode == "mca" and r.random() < 0.3:
            opts = [o for o in opts if not o.lower().startswith("--mode")]
        return {"backends": "libinterflop_%s.so %s" % (self.lib, " ".join(opts)), "mode_mca": mode, "t32": t32,
                "t64": t64, "rel": err != "abs", "E": E, "ty": ty}

    def label(self, cfg):
        return "%s %s %s" % (cfg["mode_mca"], "rel" if cfg["E"] is None else ("all" if cfg["rel"] else "abs"),
                             "double" if cfg["ty"] else "float")

    def gen_ops(self, r, cfg, n):
        return mixed(r, n, BIN + ("fma",), vec=0.03, ty=cfg["ty"])

    def verdict(self, cfg, ops, results):
        for i, (o, res) in enumerate(zip(ops, results)):
            f = fmt(o)
            t = min(cfg["t64"] if o.ty else cfg["t32"], 4000)
            for k, (a, x) in enumerate(zip(lane_args(o), res)):
                m = mcahull.judge(f, o.op, a, cfg["mode_mca"], t, x, rel=cfg["rel"], absE=None if cfg["E"] is None else max(cfg["E"], -5000),
                                  integer=self.integer)
                if m:
                    yield i, "%s gave %s, which %s (t=%d, %s)" % (describe(o, k), show(f, x), m, t, cfg["backends"])
                    break

    def nontrivial(self, cfg, o, x):
        f = fmt(o)
        return dec(f, x[0])[0] == FIN and x[0] not in o.args
