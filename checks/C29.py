"""C29: the traces and counts of the IEEE back-end are exact."""
import os
import re
import shutil
import tempfile

from ops import run_ops
from vcommon import OpsCheck, HANG
from opgen import *

ANSI = re.compile(r"\x1b\[[0-9;]*m")
SYM = {"add": "+", "sub": "-", "mul": "*", "div": "/"}


def binary(f, u, norm):
    """1.<mantissa> x 2^<exponent>, trailing zeros removed"""
    s = "-" if u >> (f.w - 1) else "+"
    e = (u >> (f.p - 1)) & ((1 << (f.w - f.p)) - 1)
    m = u & ((1 << (f.p - 1)) - 1)
    bias = (1 << (f.w - f.p - 1)) - 1
    if e == (1 << (f.w - f.p)) - 1:
        return "+nan" if m else s + "inf"

    def bits(x, n):
        return (bin(x)[2:].zfill(n).rstrip("0") if n else "") or "0"
    if e == 0:
        if m == 0:
            return s + "0.0 x 2^0"
        if not norm:
            return "%s0.%s x 2^%d" % (s, bits(m, f.p - 1), 1 - bias)
        k = m.bit_length() - 1                       # m = 2^k * 1.xxx
        return "%s1.%s x 2^%d" % (s, bits(m - (1 << k), k), 1 - bias - (f.p - 1) + k)
    return "%s1.%s x 2^%d" % (s, bits(m, f.p - 1), e - bias)


def decimal(f, u):
    if is_nan(f, u):
        return "nan"
    return "%g" % b2f(u, f)


class CHECK(OpsCheck):
    id = "C29"
    rule = ("generated operation sequences under generated combinations of --debug, --debug-binary, --print-new-line, --no-backend-name, "
            "--print-subnormal-normalized and --count-op and of the logger variables; the whole text printed is predicted from the operands and the "
            "exact results. Non-trivial = operation whose operands or result are written in the trace")
    assumptions = ["sign and payload of NaN are not compared"]
    batch = 400

    def setup(self, b, tier):
        b.backends(["ieee"])
        b.opserver(True)

    def njobs(self, tier):
        return 3600 if tier == "quick" else 28800

    def configs(self, r, i):
        o = []
        k = r.random()
        dec = bin_ = False
        if k < 0.4:
            o.append(r.choice(["--debug-binary", "-b"]))
            bin_ = True
        elif k < 0.75:
            o.append(r.choice(["--debug", "-d"]))
            dec = True
        elif k < 0.85:
            o += ["--debug", "--debug-binary"]
            dec = bin_ = True
        c = {"dec": dec, "bin": bin_}
        for key, opts in (("nl", ["--print-new-line", "-n"]), ("nohead", ["--no-backend-name", "-s"]),
                          ("norm", ["--print-subnormal-normalized", "-p"]), ("count", ["--count-op", "-o"])):
            c[key] = r.random() < 0.4
            if c[key]:
                o.append(r.choice(opts))
        r.shuffle(o)
        env = {"VFC_BACKENDS_SILENT_LOAD": r.choice(["True", "True", "true", "False", "no"]),
               "VFC_BACKENDS_LOGGER": r.choice(["True", "TRUE", "true", "False", "0"])}
        if r.random() < 0.5:
            env["VFC_BACKENDS_LOGGER_LEVEL"] = r.choice(["debug", "info", "INFO", "warning", "error"])
        if r.random() < 0.3:
            env["VFC_BACKENDS_COLORED_LOGGER"] = r.choice(["True", "true", "False"])
        c.update(backends=" ".join(["libinterflop_ieee.so"] + o), fcmp=True, env=env, logfile=r.random() < 0.2)
        return c

    def gen_ops(self, r, cfg, n):
        if cfg["count"] and not cfg["dec"] and not cfg["bin"] and r.random() < 0.03:
            # many operations of one kind
            o = mixed(r, 1, (r.choice(BIN + ("fma",)),), vec=0)[0]
            return mixed(r, 100, BIN + ("fma",), vec=0.1) + [o] * r.choice([33000, 66000])
        return mixed(r, n, BIN + ("fma", "cast", "cmp"), vec=0.1)

    def trace(self, cfg, ops):
        """list of pieces: ('h', header) or ('t', text); counts"""
        out = []
        cnt = dict.fromkeys(("mul", "div", "add", "sub", "fma"), 0)
        nl = "\n" if cfg["nl"] else ""

        def v(f, u):
            if u == "nan":
                return "nan" if cfg["dec"] else "+nan"
            return decimal(f, u) if cfg["dec"] else binary(f, u, cfg["norm"])
        for o in ops:
            f = fmt(o)
            for a, w in zip(lane_args(o), ieee_ref(o)):
                if o.op in cnt:
                    cnt[o.op] += 1
                if not (cfg["dec"] or cfg["bin"]):
                    continue
                if not cfg["nohead"]:
                    out.append(("h", ("Decimal " if cfg["dec"] else "Binary ") + nl))
                x = [v(f, y) for y in a]
                if o.op == "cmp":
                    p = [x[0] + " [FCMP_%s] " % PRED[o.aux].upper(), x[1] + " -> %s\n" % ("true" if w else "false")]
                elif o.op == "cast":
                    p = [x[0] + " (float) -> ", v(F32, w) + "\n"]
                elif o.op == "fma":
                    p = [x[0] + " * ", x[1] + " + ", x[2] + " -> ", v(f, w) + "\n"]
                else:
                    p = [x[0] + " %s " % SYM[o.op], x[1] + " -> ", v(f, w) + "\n"]
                out.append(("t", "".join(y + nl for y in p)))
        return out, cnt

    def eval_case(self, b, cfg, ops):
        d = tempfile.mkdtemp(dir="/dev/shm")
        try:
            env = dict(cfg["env"])
            if cfg["logfile"]:
                env["VFC_BACKENDS_LOGFILE"] = os.path.join(d, "log")
            res = run_ops(b, cfg["backends"], ops, fcmp=True, env=env, quiet=False)
            if res.timeout:
                return res, [(None, HANG)]
            if res.results is None:
                return res, [(None, "process ended with status %s; stderr: %s" % (res.rc, res.err.strip()[-300:]))]
            log = ""
            if cfg["logfile"]:
                fs = os.listdir(d)
                if any(not x.startswith("log.") for x in fs):
                    return res, [(None, "log files: %s" % fs)]
                log = "".join(open(os.path.join(d, x)).read() for x in fs)
            bad = list(check_ieee(cfg, ops, res.results))
            if not bad:
                m = self.compare(cfg, ops, res.err, log)
                bad = [m] if m else []
            return res, bad
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def compare(self, cfg, ops, err, log):
        e = cfg["env"]
        loud = e["VFC_BACKENDS_LOGGER"].lower() == "true" and e.get("VFC_BACKENDS_LOGGER_LEVEL", "info").lower() in ("debug", "info")
        silent = e["VFC_BACKENDS_SILENT_LOAD"].lower() == "true"
        colored = e.get("VFC_BACKENDS_COLORED_LOGGER", "").lower() == "true"
        if not colored and "\x1b" in err + log:
            return None, "colours are printed although they are not requested"
        err, log = ANSI.sub("", err).replace("-nan", "nan"), ANSI.sub("", log)
        err, log = (re.sub(r"Info \[interflop.ieee\]", "Info [ieee]", t) for t in (err, log))
        pieces, cnt = self.trace(cfg, ops)
        head = "Info [ieee]: "
        want = wlog = ""
        for k, t in pieces:
            if k == "h":
                if loud and cfg["logfile"]:
                    wlog += head + t
                elif loud:
                    want += head + t
            else:
                want += t
        want = want.replace("-nan", "nan")
        if cfg["count"]:
            want += "operations count:\n" + "".join("\t %s=%d\n" % (k, cnt[k]) for k in ("mul", "div", "add", "sub", "fma"))

        def strip(t, w):
            """removes the loading messages"""
            if not (loud and not silent) or not t.endswith(w):
                return t
            pre = t[:len(t) - len(w)]
            return w if all(x.startswith("Info [") for x in pre.split("\n")[:-1]) else t
        got, glog = (err, strip(log, wlog)) if cfg["logfile"] else (strip(err, want), log)
        if glog != wlog:
            return None, "the log file holds %r instead of %r" % (glog[:300], wlog[:300])
        if got == want:
            return None
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        return None, "the trace differs at character %d: %r printed instead of %r (%s, %s)" % (
            i, got[max(0, i - 60):i + 100], want[max(0, i - 60):i + 100], cfg["backends"], e)

    def label(self, cfg):
        return "binary" if cfg["bin"] and not cfg["dec"] else "decimal" if cfg["dec"] else "no trace"

    def nontrivial(self, cfg, o, x):
        return cfg["dec"] or cfg["bin"] or cfg["count"]
