"""C30: what the logger shows depends on its variables only, and never changes the results."""
import os
import re
import shutil
import tempfile

from ops import run_ops
from vcommon import OpsCheck, HANG
from opgen import *
from C09 import stochastic

ANSI = re.compile(r"\x1b\[[0-9;]*m")
MSG = re.compile(r"(?:^|(?<=\n))(Debug|Info|Warning|Error) \[([^\]\n]*)\]: ")
LEVELS = ["debug", "info", "warning", "error"]
LOADING = re.compile(r"^(loaded backend |load backend with|\s*[a-z0-9-]+ = )")
OPCHAR = {"add": "+", "sub": "-", "mul": "*", "div": "/"}


def messages(text):
    """[(level, back-end, text)], unparsed prefix"""
    it = list(MSG.finditer(text))
    out = []
    for m, nx in zip(it, it[1:] + [None]):
        out.append((m.group(1), m.group(2), text[m.end():nx.start() if nx else len(text)]))
    return out, text[:it[0].start()] if it else text


class CHECK(OpsCheck):
    id = "C30"
    rule = ("generated chains of seeded back-ends, operations and calls that raise messages of every level, run once with every message displayed and once "
            "under generated logger variables (VFC_BACKENDS_LOGGER, _LOGGER_LEVEL, _COLORED_LOGGER, _LOGFILE, _SILENT_LOAD); results identical, messages "
            "predicted by filtering; non-trivial = run with a message filtered or redirected, per operation; distinct by configuration and operation")
    assumptions = ["the name of the back-end in the header of a message is not checked (the logger is shared by the chain)"]
    batch = 60

    def setup(self, b, tier):
        b.backends()
        b.opserver(False)

    def njobs(self, tier):
        return 6000 if tier == "quick" else 80000

    def configs(self, r, i):
        chain = []
        kinds = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
            k = r.randrange(7)
            if k == 0:
                be = "libinterflop_ieee.so"
            elif k <= 2:
                be = "libinterflop_vprec.so --mode=%s --precision-binary32=%d --precision-binary64=%d" % (
                    r.choice(["ieee", "ib", "ob", "full"]), r.randint(1, 23), r.randint(1, 52))
            elif k == 3:
                be = "libinterflop_cancellation.so --warning=1 --tolerance=%d --seed=%d" % (r.randint(0, 12), r.getrandbits(20))
            elif k == 4:
                be = "libinterflop_mca.so --precision-binary32=%d --precision-binary64=%d --seed=%d" % (
                    r.choice([10, 24, 47, 60]), r.choice([10, 53, 111, 112, 150]), r.getrandbits(20))
            else:
                be = stochastic(r, r.randrange(4))[0] + " --seed=%d" % r.getrandbits(20)
            if be.split()[0] in [c.split()[0] for c in chain]:
                continue            # a library is loaded once: its settings would be shared
            chain.append(be)
        env = {}
        for k, v in (("VFC_BACKENDS_LOGGER", ["True", "true", "TRUE", "False", "false", "0", ""]),
                     ("VFC_BACKENDS_LOGGER_LEVEL", ["debug", "DEBUG", "info", "Info", "warning", "Warning", "error", "verbose", ""]),
                     ("VFC_BACKENDS_COLORED_LOGGER", ["True", "true", "False", "0"]),
                     ("VFC_BACKENDS_SILENT_LOAD", ["True", "true", "False", "0"])):
            if r.random() < 0.6:
                env[k] = r.choice(v)
        bad = None
        if r.random() < 0.06:
            bad = r.choice(["--mode=foo", "--precision-binary64=0", "--precision-binary32=-3", "--seed=abc", "--tolerance=x", "--nosuch", "--sparsity=0"])
            chain[r.randrange(len(chain))] += " " + bad
        return {"backends": ";".join(chain), "env": env, "logfile": r.random() < 0.35, "bad": bad}

    def gen_ops(self, r, cfg, n):
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.08:
                out.append(Op("call", 0, [r.getrandbits(4)], aux=77))
            elif k < 0.4:
                t = r.getrandbits(1)
                f = F64 if t else F32
                a = f2b(r.uniform(1, 2), f)
                out.append(Op("sub", t, [a, a ^ r.getrandbits(r.randint(1, f.mant))]))
            else:
                out.append(gen_scalar(r, BIN + ("fma", "cast")))
        return out

    def eval_case(self, b, cfg, ops):
        ref = run_ops(b, cfg["backends"], ops, env={"VFC_BACKENDS_LOGGER_LEVEL": "debug"}, quiet=False)
        d = tempfile.mkdtemp(dir="/dev/shm")
        try:
            env = dict(cfg["env"])
            if cfg["logfile"]:
                env["VFC_BACKENDS_LOGFILE"] = os.path.join(d, "log")
            res = run_ops(b, cfg["backends"], ops, env=env, quiet=False)
            for x in (ref, res):
                if x.timeout:
                    return res, [(None, HANG)]
            if cfg.get("bad") and ref.results is None:
                if res.results is not None or res.rc != ref.rc:
                    return res, [(None, "under %s the program %s, with the default logger it ends with status %s (%s)" % (
                        env, "runs" if res.results is not None else "ends with status %s" % res.rc, ref.rc, cfg["backends"]))]
                return res, []
            for x in (ref, res):
                if x.results is None:
                    return x, [(None, "process ended with status %s; stderr: %s" % (x.rc, x.err.strip()[-300:]))]
            logs = None
            if cfg["logfile"]:
                fs = os.listdir(d)
                if any(not re.fullmatch(r"log\.\d+", x) for x in fs):
                    return res, [(None, "log files: %s" % fs)]
                logs = "".join(open(os.path.join(d, x)).read() for x in fs)
            m = self.compare(cfg, ops, ref, res, logs)
            return res, [m] if m else []
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def compare(self, cfg, ops, ref, res, logs):
        e = cfg["env"]
        for i, (o, x, y) in enumerate(zip(ops, res.results, ref.results)):
            if x != y and o.op != "call" and not (is_nan(out_fmt(o), x[0]) and is_nan(out_fmt(o), y[0])):
                return i, "%s gives %s under %s and %s with the default logger (%s)" % (
                    describe(o, 0), show_out(o, x[0]), e, show_out(o, y[0]), cfg["backends"])
        msgs, rest = messages(ref.err)
        if rest:
            return None, "text without header: %r (%s)" % (rest[:200], cfg["backends"])
        m = self.content(cfg, ops, ref, msgs)
        if m:
            return None, m
        on = e.get("VFC_BACKENDS_LOGGER", "True").lower() == "true"
        lv = e.get("VFC_BACKENDS_LOGGER_LEVEL", "info").lower()
        lv = LEVELS.index(lv) if lv in LEVELS else 1
        silent = e.get("VFC_BACKENDS_SILENT_LOAD", "").lower() == "true"
        colored = e.get("VFC_BACKENDS_COLORED_LOGGER", "").lower() == "true"
        want = [x for x in msgs if on and LEVELS.index(x[0].lower()) >= lv and not (silent and x[0] == "Info" and LOADING.match(x[2]))]
        txt = res.err + (logs or "")
        if not colored and "\x1b" in txt:
            return None, "colours are printed although they are not requested (%s)" % e
        nh = len(MSG.findall(ANSI.sub("", txt)))
        if colored and nh and "\x1b" not in txt:
            return None, "colours are requested but not printed (%s)" % e
        got, rest = messages(ANSI.sub("", res.err))
        if rest:
            return None, "text displayed by the logger without header: %r under %s (%s)" % (rest[:200], e, cfg["backends"])
        if logs is None:
            return self.diff(cfg, got, want, "displayed")
        glog, rest = messages(ANSI.sub("", logs))
        if rest:
            return None, "text without header in the log file: %r" % rest[:200]
        m = self.diff(cfg, got, [x for x in want if x[0] in ("Warning", "Error")], "displayed")
        if m:
            return m
        wl = [x for x in want if x[0] in ("Debug", "Info")]
        return self.diff(cfg, glog, wl, "in the log file")

    def diff(self, cfg, got, want, where):
        if got == want:
            return None
        for i, (g, w) in enumerate(zip(got + [None], want + [None])):
            if g != w:
                return None, "message %d %s is %s instead of %s under %s%s (%s)" % (
                    i, where, g, w, cfg["env"], " with a log file" if cfg["logfile"] else "", cfg["backends"])
        return None

    def content(self, cfg, ops, ref, msgs):
        """messages that must be there, and what VPREC tells at the level debug"""
        chain = [c.strip() for c in cfg["backends"].split(";")]
        libs = [x[2].split()[-1] for x in msgs if x[2].startswith("loaded backend")]
        if libs != [c.split()[0] for c in chain]:
            return "back-ends reported as loaded: %s, requested: %s" % (libs, chain)
        unk = sum(1 for o in ops if o.op == "call")
        n = sum(1 for x in msgs if x[0] == "Warning" and "nknown interflop_call" in x[2])
        want = unk * sum(1 for c in chain if c.split()[0] in ("libinterflop_mca.so", "libinterflop_vprec.so"))
        if n != want:
            return "%d warnings instead of %d for %d unknown calls (%s)" % (n, want, unk, cfg["backends"])
        vp = [c for c in chain if c.startswith("libinterflop_vprec")]
        if vp:
            mode = re.search("--mode=(\\w+)", vp[0]).group(1)
            tr = [x[2] for x in msgs if x[0] == "Debug"]
            tr = [t for t in tr if re.match(r"\[(Inputs|Round |Result)\] binary\d\d: ", t)]
            k = 0
            for o, res in zip(ops, ref.results):
                if o.op not in BIN:
                    continue
                f = fmt(o)
                a, b = o.args
                n = 2 + (mode in ("ib", "full")) + (mode in ("ob", "full"))
                part = tr[k:k + n]
                k += n
                if len(part) < n:
                    return "VPREC debug trace ends early (%s)" % vp[0]
                m = re.match(r"\[Inputs\] binary%d: a=(\S+) b=(\S+) op=(.)\n$" % f.w, part[0])
                if not m or not (self.val(f, m.group(1), a) and self.val(f, m.group(2), b) and m.group(3) == OPCHAR[o.op]):
                    return "VPREC debug trace: %r for %s (%s)" % (part[0], describe(o, 0), vp[0])
                m = re.match(r"\[(?:Round |Result)\] binary%d: res=(\S+)\n$" % f.w, part[-1])
                if not m or (chain[-1] == vp[0] and not self.val(f, m.group(1), res[0])):
                    return "VPREC debug trace: %r for %s, whose result is %s (%s)" % (part[-1], describe(o, 0), show_out(o, res[0]), vp[0])
            if k != len(tr):
                return "VPREC debug trace has %d lines instead of %d (%s)" % (len(tr), k, vp[0])
        return None

    @staticmethod
    def val(f, text, bits):
        try:
            x = float.fromhex(text)
        except ValueError:
            return False
        return is_nan(f, bits) if x != x else f2b(x, f) == bits

    def label(self, cfg):
        return ",".join(sorted(k.replace("VFC_BACKENDS_", "") for k in cfg["env"])) + (" file" if cfg["logfile"] else "")

    def verdict(self, cfg, ops, results):
        return []

    def nontrivial(self, cfg, o, x):
        return bool(cfg["env"]) or cfg["logfile"]
