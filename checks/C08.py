"""C08: no operation, setting or back-end chain makes the run-time execute undefined behaviour."""
import importlib
import random
import re

from ops import run_ops
from vcommon import OpsCheck, Stats, HANG, h64
from opgen import *

SRC = ["C01", "C02", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C20", "C28", "C29", "C30"]
REP = re.compile(r"(?:([^/ \n]+:\d+):\d+: runtime error: .*|ERROR: AddressSanitizer.*)")
_mods = {}


def mod(name):
    if name not in _mods:
        _mods[name] = importlib.import_module(name).CHECK()
    return _mods[name]


def reports(err):
    out, seen = [], set()
    for l in err.split("\n"):
        m = REP.search(l)
        if m and (m.group(1) or l) not in seen:
            seen.add(m.group(1) or l)
            out.append(m.group(0))
    return out


class CHECK(OpsCheck):
    id = "C08"
    rule = ("back-end settings and operation sequences generated as for the other checks of operations, option lists as for C19 (accepted and refused) and chains, run with the "
            "libraries and back-ends compiled with the address and undefined-behaviour sanitizers, or with the wrapper so compiled; no report, and the "
            "status the normal build has. Non-trivial = operation whose result is neither zero nor its first or last operand")
    assumptions = ["gcc 13 and clang 18 sanitizers; shifts of negative values (defined by gcc and clang) and leaks are not reported",
                   "the instrumented program itself is the command interpreter of harness/opserver.c"]
    batch = 700
    shrink_budget = 40

    def setup(self, b, tier):
        b.backends()
        b.opserver(False)
        b.opserver(True)
        b.sanitized()

    def njobs(self, tier):
        return 8000 if tier == "quick" else 64000

    def configs(self, r, i):
        if i % 9 == 8:
            m = mod("C19")
            case = m.gen(r)
            if case["be"] == "ieee":
                case["opts"] = [o for o in case["opts"] if "bad" in o]
            text = " ".join(["libinterflop_%s.so" % case["be"]] + [t for o in case["opts"] for t in o["toks"]])
            cfg = {"backends": text, "src": None, "fcmp": False, "bad": any("bad" in o for o in case["opts"])}
        else:
            s = SRC[i % len(SRC)]
            cfg = dict(mod(s).configs(r, i))
            cfg["src"] = s
            if r.random() < 0.15 and "env" not in cfg:      # any chain
                o = mod(r.choice(["C05", "C11", "C12", "C13", "C14", "C16"])).configs(r, i)
                if not o.get("env"):
                    cfg["backends"] += ";" + o["backends"]
        cfg["san"] = "wrapper" if r.random() < 0.15 else "libraries"
        if cfg.get("mode", "seq") == "seq" and r.random() < 0.1:
            cfg["mode"] = "par"
        return cfg

    def label(self, cfg):
        return "%s: %s" % (cfg["san"], "options" if cfg["src"] is None else "as " + cfg["src"]) + (" par" if cfg.get("mode") == "par" else "")

    def gen_ops(self, r, cfg, n):
        if cfg["src"] is None:
            return mixed(r, 60, BIN + ("fma", "cast"), vec=0.2)
        ops = mod(cfg["src"]).gen_ops(r, cfg, n)[:2 * n]
        if cfg.get("mode") == "par":
            for j, o in enumerate(ops):
                o.thr = j % 7
        return ops

    def execute(self, b, cfg, ops):
        env = dict(cfg.get("env") or {})
        env.update(b.san_env(cfg["san"] == "wrapper"))
        return run_ops(b, cfg["backends"], ops, mode=cfg.get("mode", "seq"), fcmp=cfg.get("fcmp", False), env=env, timeout=120,
                       exe="_san" if cfg["san"] == "wrapper" else "")

    def eval_case(self, b, cfg, ops):
        x = self.execute(b, cfg, ops)
        if x.timeout:
            return x, [(None, HANG)]
        rep = reports(x.err)
        if rep:
            return x, [(None, "%s (sanitized %s, %s)" % ("; ".join(rep[:3])[:600], cfg["san"], cfg["backends"]))]
        if x.results is None:
            y = run_ops(b, cfg["backends"], ops, mode=cfg.get("mode", "seq"), fcmp=cfg.get("fcmp", False), env=cfg.get("env"))
            if y.rc != x.rc:
                return x, [(None, "process ended with status %s instead of %s with the sanitized %s (%s): %s" % (
                    x.rc, y.rc, cfg["san"], cfg["backends"], x.err.strip()[-400:]))]
        return x, []

    def nontrivial(self, cfg, o, x):
        return x[0] not in (0, o.args[0], o.args[-1])
