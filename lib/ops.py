"""Driving instrumented operations through the wrapper (opserver)."""
import os
import struct
import subprocess

OPS = {"add": 0, "sub": 1, "mul": 2, "div": 3, "fma": 4, "cast": 5, "cmp": 6, "call": 7, "inexact": 8, "inexactq": 9}
CALL_IDS = {"prec32": 2, "prec64": 3, "range32": 4, "range64": 5, "custom": -1, "unknown": 77}


class Op:
    """one instrumented operation; args: list of operand bit patterns (lane-major:
    all lanes of operand 0, then of operand 1, ...)"""
    __slots__ = ("op", "ty", "lanes", "thr", "aux", "args")

    def __init__(self, op, ty, args, lanes=1, thr=0, aux=0):
        self.op, self.ty, self.lanes, self.thr, self.aux, self.args = op, ty, lanes, thr, aux, args

    def pack(self):
        return struct.pack("<BBBBi%dQ" % len(self.args), OPS[self.op], self.ty, self.lanes,
                           self.thr, self.aux, *[x & 0xFFFFFFFFFFFFFFFF for x in self.args])

    def to_json(self):
        return {"op": self.op, "ty": self.ty, "lanes": self.lanes, "thr": self.thr,
                "aux": self.aux, "args": ["0x%x" % (x & 0xFFFFFFFFFFFFFFFF) for x in self.args]}

    @staticmethod
    def from_json(j):
        return Op(j["op"], j["ty"], [int(x, 16) for x in j["args"]], j["lanes"], j["thr"], j["aux"])


class RunResult:
    __slots__ = ("rc", "out", "err", "results", "timeout")


def run_ops(build, backends, ops, mode="seq", fcmp=False, env=None, timeout=45, quiet=True, raw_env=None, exe=""):
    """returns RunResult; results[i] is the list of lanes of ops[i] (None if absent)"""
    e = build.env()
    if backends is not None:
        e["VFC_BACKENDS"] = backends
    if quiet:
        e["VFC_BACKENDS_LOGGER"] = "False"
    if env:
        e.update(env)
    exe = build.p("bin", ("opserver_cmp" if fcmp else "opserver") + exe)
    data = b"".join(o.pack() for o in ops)
    r = RunResult()
    r.timeout = False
    p = subprocess.Popen([exe, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=e)
    try:
        out, err = p.communicate(data, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        r.timeout = True
    r.rc, r.out, r.err = p.returncode, out, err.decode("utf-8", "replace")
    n = sum(o.lanes for o in ops)
    if r.rc == 0 and len(out) == 8 * n:
        vals = struct.unpack("<%dQ" % n, out)
        res = []
        i = 0
        for o in ops:
            res.append(list(vals[i:i + o.lanes]))
            i += o.lanes
        r.results = res
    else:
        r.results = None
    return r
