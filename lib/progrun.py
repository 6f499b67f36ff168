"""Compiling and running generated programs with the toolchain built from /repo."""
import collections
import os
import shutil
import signal
import struct
import subprocess
import tempfile

import vbuild

KIND = {0: "add", 1: "sub", 2: "mul", 3: "div", 4: "fma", 5: "cast", 6: "cmp"}


class Work:
    """a scratch directory, removed on exit"""

    def __init__(self, fast=False):
        self.fast = fast and os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK)

    def __enter__(self):
        base = "/dev/shm/verif" if self.fast else os.path.join(vbuild.VERIF, "out", "tmp")
        os.makedirs(base, exist_ok=True)
        self.d = tempfile.mkdtemp(dir=base)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def p(self, *a):
        return os.path.join(self.d, *a)

    def write(self, name, text):
        p = self.p(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w" if isinstance(text, str) else "wb") as f:
            f.write(text)
        return p


Res = collections.namedtuple("Res", "rc out err timeout")


def call(cmd, cwd, env, timeout=60, input=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(input, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        to = True
    return Res(p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), to)


def vfc(b, w, args, lang="c", timeout=120, cwd=None, env=None):
    e = b.env()
    if env:
        e.update(env)
    return call([b.p("bin", "verificarlo-c" if lang == "c" else "verificarlo-c++")] + args, cwd or w.d, e, timeout)


def native(b, w, args, lang="c", timeout=120, cwd=None):
    return call([vbuild.CLANG + ("++" if lang == "c++" else "")] + args, cwd or w.d, b.env(), timeout)


def run(b, w, exe, backends=None, env=None, quiet=True, timeout=40, args=(), cwd=None, input=None):
    e = b.env()
    if backends is not None:
        e["VFC_BACKENDS"] = backends
    if quiet:
        e["VFC_BACKENDS_LOGGER"] = "False"
    if env:
        e.update(env)
    return call([exe] + list(args), cwd or w.d, e, timeout, input)


def patterns(text):
    """the printed bit patterns"""
    return [int(x, 16) for x in text.split()]


def read_log(path):
    """records of the recording back-end: (kind, ty, pred, tag, aux, a, b, c)"""
    if not os.path.exists(path):
        return []
    data = open(path, "rb").read()
    return list(struct.iter_unpack("<BBBBIQQQ", data))


DEFS = {"--inst-fcmp": "-DINST_FCMP", "--ddebug": "-DDDEBUG", "--inst-func": "-DINST_FUNC",
        "--inst-fma": "-DINST_FMA", "--inst-cast": "-DINST_CAST"}


def wrapper(b, flags):
    """the wrapper compiled once per set of flags: (bitcode, object)"""
    ds = sorted(DEFS[f] for f in flags if f in DEFS)
    stem = b.p("obj", "wrapper_" + "".join(d[2:] + "_" for d in ds))
    for suf, opt in ((".bc", ["-emit-llvm"]), (".o", [])):
        if not os.path.exists(stem + suf):
            tmp = stem + suf + ".%d" % os.getpid()
            vbuild.sh([vbuild.CLANG, "-O3", "-march=native", "-g", "-fPIC", "-c", "-Wno-varargs", "-I", b.p("include")] + opt + ds +
                      [b.p("include", "vfcwrapper.c"), "-o", tmp])
            os.rename(tmp, stem + suf)
    return stem + ".bc", stem + ".o"


def fast(b, w, args, lang="c", timeout=120):
    """the commands that the driver runs for these arguments, with the wrapper compiled once for
    all programs; used for most programs, the driver itself for the others"""
    flags = [a for a in args if a in DEFS]
    sel = []
    opts, srcs, libs, out, compile_only = [], [], [], "a.out", False
    it = iter(a for a in args if a not in DEFS)
    for a in it:
        if a == "-o":
            out = next(it)
        elif a == "-c":
            compile_only = True
        elif a.startswith("--function="):
            sel += ["-vfclibinst-function", a[11:]]
        elif a.startswith("--include-file="):
            sel += ["-vfclibinst-include-file", a[15:]]
        elif a.startswith("--exclude-file="):
            sel += ["-vfclibinst-exclude-file", a[15:]]
        elif a.endswith((".c", ".cpp")):
            srcs.append(a)
        elif a.startswith("-l"):
            libs.append(a)
        else:
            opts.append(a)
    cc = vbuild.CLANG + ("++" if lang == "c++" else "")
    bc, wo = wrapper(b, flags)
    opts.append("-Wno-unused-command-line-argument")
    g = ["-g"] if "--inst-func" in flags or "--ddebug" in flags else []
    objs = []
    e = b.env()

    def sh(cmd):
        return call(cmd, w.d, e, timeout)
    for s in srcs:
        stem = os.path.splitext(s)[0]
        ir, ins = stem + ".1.bc", stem + ".2.bc"
        r = sh([cc, "-c", "-emit-llvm"] + g + [s, "-I", b.p("include")] + opts + ["-o", ir])
        if r.rc:
            return r
        if "--inst-func" in flags:
            r = sh([vbuild.LLVM + "/bin/opt", "-load-pass-plugin", b.p("lib", "libvfcfuncinstrument.so"), "-passes=vfclibfunc", ir, "-o", ins])
            if r.rc:
                return r
            ir, ins = ins, stem + ".3.bc"
        x = {"--inst-fcmp": "-vfclibinst-inst-fcmp", "--inst-fma": "-vfclibinst-inst-fma", "--inst-cast": "-vfclibinst-inst-cast"}
        r = sh([vbuild.LLVM + "/bin/opt", "-load-pass-plugin", b.p("lib", "libvfcinstrument.so"), "-passes=vfclibinst"] +
               [x[f] for f in flags if f in x] + ["-vfclibinst-vfcwrapper-file", bc] + sel + [ir, "-o", ins])
        if r.rc:
            return r
        o = out if compile_only else stem + ".o"
        r = sh([cc, "-c", "-o", o, ins] + opts)
        if r.rc:
            return r
        objs.append(o)
    if compile_only:
        return r
    if g:
        opts.append("-no-pie")
    return sh([cc, "-o", out] + objs + opts + libs + [wo, "-Wl,-rpath," + b.p("lib"), "-L", b.p("lib"), "-ldl",
              "-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger"])
