"""Builds what a check needs straight from /repo's working tree, into a scratch
or content-addressed cache directory (never inside /repo's tracked files).

The layout of the result is the layout of an installed verificarlo:
  <prefix>/include/interflop/..., include/vfcwrapper.c, include/vfc_probes.h
  <prefix>/lib/libinterflop_*.so, libvfc*.so
  <prefix>/bin/verificarlo*
Source lists and -D flags are read from the repository's own Makefile.am files,
so that a file added to a library is picked up.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang"

STDLIB = "src/interflop-stdlib"
# name -> (directory, needed libs)
CLIBS = {
    "libinterflop_rng": (STDLIB + "/rng", []),
    "libinterflop_fma": (STDLIB + "/fma", ["-lm", "-lquadmath"]),
    "libinterflop_hashmap": (STDLIB + "/hashmap", []),
    "libinterflop_logger": (STDLIB + "/iostream", []),
    "libinterflop_stdlib": (STDLIB, []),
    "libvfc_probes": ("src/common", ["-linterflop_hashmap"]),
}
BASE = ["-linterflop_rng", "-linterflop_fma", "-linterflop_hashmap",
        "-linterflop_logger", "-linterflop_stdlib", "-lm", "-lquadmath"]
BACKENDS = {
    "libinterflop_bitmask": "src/backends/interflop-backend-bitmask",
    "libinterflop_cancellation": "src/backends/interflop-backend-cancellation",
    "libinterflop_ieee": "src/backends/interflop-backend-ieee",
    "libinterflop_mca": "src/backends/interflop-backend-mcaquad",
    "libinterflop_mca_int": "src/backends/interflop-backend-mcaint",
    "libinterflop_vprec": "src/backends/interflop-backend-vprec",
}
PASSES = {
    "libvfcinstrument": "src/libvfcinstrument",
    "libvfcfuncinstrument": "src/libvfcfuncinstrument",
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed (%d): %s\n%s" % (
            r.returncode, " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def makefile_var(path, var):
    try:
        text = open(path).read().replace("\\\n", " ")
    except OSError:
        return []
    m = re.search(r"^%s\s*=(.*)$" % re.escape(var), text, re.M)
    return m.group(1).split() if m else []


def lib_sources(d, name):
    am = os.path.join(REPO, d, "Makefile.am")
    v = re.sub(r"[^A-Za-z0-9_]", "_", name) + "_la"
    src = [s for s in makefile_var(am, v + "_SOURCES") if s.endswith((".c", ".cpp"))]
    if not src:
        src = [os.path.basename(p) for p in
               glob.glob(os.path.join(REPO, d, "*.c")) + glob.glob(os.path.join(REPO, d, "*.cpp"))]
    flags = [f for f in makefile_var(am, v + "_CFLAGS") if f.startswith("-D")]
    return [os.path.join(REPO, d, s) for s in src], flags


def tree_hash(extra=""):
    h = hashlib.sha256(extra.encode())
    files = subprocess.run(
        ["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-co", "--exclude-standard",
         "src", "verificarlo.in.in", "verificarlo-c", "verificarlo-c++", "verificarlo-f", "VERSION"],
        stdout=subprocess.PIPE, text=True).stdout.split("\n")
    if len(files) < 10:  # not a git tree: walk
        files = []
        for root in ("src",):
            for dp, _, fs in os.walk(os.path.join(REPO, root)):
                files += [os.path.relpath(os.path.join(dp, f), REPO) for f in fs]
        files += ["verificarlo.in.in"]
    for f in sorted(files):
        p = os.path.join(REPO, f)
        if f and os.path.isfile(p):
            h.update(f.encode() + b"\0")
            h.update(open(p, "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))):
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


class Build:
    """Lazily builds pieces of the tree; pieces are independent and cached by the
    hash of the whole source tree."""

    def __init__(self):
        self.key = tree_hash()
        self.prefix = os.path.join(CACHE, self.key)
        os.makedirs(CACHE, exist_ok=True)
        self._prune()
        for d in ("include", "lib", "bin", "obj"):
            os.makedirs(os.path.join(self.prefix, d), exist_ok=True)
        os.utime(self.prefix)
        self._include()

    def _prune(self):
        ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE)]
        ds = [d for d in ds if os.path.isdir(d) and d != self.prefix]
        ds.sort(key=lambda d: os.path.getmtime(d))
        for d in ds[:-4]:
            shutil.rmtree(d, ignore_errors=True)

    def p(self, *a):
        return os.path.join(self.prefix, *a)

    def _include(self):
        inc = self.p("include", "interflop")
        if os.path.isdir(inc):
            return
        tmp = self.p("include", ".tmp%d" % os.getpid())
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)

        def copy_headers(src, dst):
            for dp, dn, fs in os.walk(src):
                if "tests" in dn:
                    dn.remove("tests")
                for f in fs:
                    if f.endswith((".h",)):
                        t = os.path.join(dst, os.path.relpath(os.path.join(dp, f), src))
                        os.makedirs(os.path.dirname(t), exist_ok=True)
                        shutil.copyfile(os.path.join(dp, f), t)
        copy_headers(os.path.join(REPO, STDLIB), tmp)
        for d in BACKENDS.values():
            copy_headers(os.path.join(REPO, d), tmp)
        shutil.copyfile(os.path.join(REPO, "src/common/vfc_probes.h"), self.p("include", "vfc_probes.h"))
        w = open(os.path.join(REPO, "src/vfcwrapper/main.c.in")).read().replace("@LLVM_BINDIR@", LLVM + "/bin")
        w += open(os.path.join(REPO, "src/vfcwrapper/funcinstr.c")).read()
        with open(self.p("include", "vfcwrapper.c"), "w") as f:
            f.write(w)
        try:
            os.rename(tmp, inc)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)

    def _so(self, name, srcs, flags, libs, cc="gcc", tag=""):
        out = self.p("lib", name + ".so")
        if os.path.exists(out):
            return out
        tmp = out + ".%d.tmp" % os.getpid()
        sh([cc, "-shared", "-fPIC", "-g1", "-O2", "-w", "-fno-stack-protector", "-I", self.p("include")] + flags +
           srcs + ["-o", tmp, "-L", self.p("lib"), "-Wl,-rpath," + self.p("lib"), "-Wl,-soname," + name + ".so"] + libs)
        os.rename(tmp, out)
        return out

    def stdlib(self):
        def one(name):
            d, libs = CLIBS[name]
            srcs, flags = lib_sources(d, name)
            if name == "libinterflop_fma":
                flags = flags + ["-DHAS_QUADMATH"]
            self._so(name, srcs, flags + ["-I", self.p("include", "interflop")], libs)
        self._par(one, [n for n in CLIBS if n != "libvfc_probes"])
        one("libvfc_probes")

    def backends(self, names=None, no_tls=False):
        self.stdlib()
        names = names or list(BACKENDS)
        jobs = []
        for n in names:
            nm = n if n.startswith("lib") else "libinterflop_" + n
            jobs.append((nm, nm))
            if no_tls and nm not in ("libinterflop_ieee", "libinterflop_vprec"):
                jobs.append((nm + "_no-tls", nm))

        def one(j):
            out, base = j
            srcs, flags = lib_sources(BACKENDS[base], out)
            self._so(out, srcs, flags, BASE)
        self._par(one, jobs)

    def passes(self, names=None):
        def one(n):
            out = self.p("lib", n + ".so")
            if os.path.exists(out):
                return
            d = PASSES[n]
            t = self.p("obj", n + ".tree%d" % os.getpid())
            shutil.rmtree(t, ignore_errors=True)
            shutil.copytree(os.path.join(REPO, d), os.path.join(t, d))
            with open(os.path.join(t, "config.h"), "w") as f:
                f.write("#ifndef LLVM_VERSION_MAJOR\n#define LLVM_VERSION_MAJOR 18\n#endif\n"
                        '#define PACKAGE_STRING "verificarlo"\n')
            srcs = [s.replace(REPO, t, 1) for s in lib_sources(d, n)[0]]
            tmp = out + ".%d.tmp" % os.getpid()
            sh(["g++", "-shared", "-fPIC", "-O1", "-w", "-I" + LLVM + "/include", "-std=c++17",
                "-fno-exceptions", "-funwind-tables", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS"] + srcs + ["-o", tmp])
            os.rename(tmp, out)
            shutil.rmtree(t, ignore_errors=True)
        self._par(one, names or list(PASSES))

    def driver(self):
        t = open(os.path.join(REPO, "verificarlo.in.in")).read()
        for k, v in {"@PACKAGE_STRING@": "verificarlo", "@INTERFLOP_PREFIX@": self.prefix,
                     "@INTERFLOP_INCLUDEDIR@": self.p("include"), "@INTERFLOP_LIBDIR@": self.p("lib"),
                     "@LLVM_BINDIR@": LLVM + "/bin", "@LLVM_VERSION_MAJOR@": "18", "@CLANG_PATH@": CLANG,
                     "@CLANGXX_PATH@": CLANG + "++", "@LLVM_LINK_PATH@": LLVM + "/bin/llvm-link",
                     "@FLANG_PATH@": LLVM + "/bin/flang-new", "@MARCH_FLAG@": "-march=native",
                     "%LIBDIR%": self.p("lib"), "%INCLUDEDIR%": self.p("include")}.items():
            t = t.replace(k, v)
        out = self.p("bin", "verificarlo")
        if not os.path.exists(out):
            with open(out + ".tmp%d" % os.getpid(), "w") as f:
                f.write(t)
            os.chmod(out + ".tmp%d" % os.getpid(), 0o755)
            os.rename(out + ".tmp%d" % os.getpid(), out)
        for n in ("verificarlo-c", "verificarlo-c++", "verificarlo-f"):
            if not os.path.exists(self.p("bin", n)):
                shutil.copyfile(os.path.join(REPO, n), self.p("bin", n))
                os.chmod(self.p("bin", n), 0o755)

    def toolchain(self):
        """everything a user needs to compile and run an instrumented program"""
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(self.passes), ex.submit(self.backends)]
            for f in fs:
                f.result()
        self.driver()

    def harness(self, name, src=None, flags=(), libs=(), cc=CLANG):
        """an executable of ours from /verif/harness"""
        out = self.p("bin", name)
        if os.path.exists(out):
            return out
        src = src or [os.path.join(VERIF, "harness", name + ".c")]
        tmp = out + ".%d.tmp" % os.getpid()
        sh([cc, "-O2", "-g1", "-w", "-I", self.p("include")] + list(flags) + list(src) +
           ["-o", tmp, "-L", self.p("lib"), "-Wl,-rpath," + self.p("lib")] + list(libs))
        os.rename(tmp, out)
        return out

    def opserver(self, fcmp=False):
        """the wrapper plus our command interpreter"""
        self.stdlib()
        defs = ["-DINST_FMA", "-DINST_CAST"] + (["-DINST_FCMP"] if fcmp else [])
        return self.harness("opserver_cmp" if fcmp else "opserver",
                            [os.path.join(VERIF, "harness", "opserver.c")],
                            flags=defs + ["-march=native", "-Wno-varargs", "-ffp-contract=off"],
                            libs=["-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger",
                                  "-ldl", "-lpthread", "-lm", "-rdynamic"])

    def structs(self):
        """histories on the hash map and the probes, with the sources compiled with the address sanitizer"""
        srcs = []
        for n in ("libinterflop_hashmap", "libinterflop_stdlib", "libvfc_probes"):
            srcs += lib_sources(CLIBS[n][0], n)[0]
        return self.harness("structs", [os.path.join(VERIF, "harness", "structs.c")] + srcs,
                            flags=["-fsanitize=address", "-I", self.p("include", "interflop")], libs=["-lm"])

    def hostfe(self):
        """a front-end on the interflop interface"""
        self.backends()
        return self.harness("hostfe", flags=["-I", self.p("include", "interflop")],
                            libs=["-Wl,--no-as-needed", "-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger", "-ldl", "-lm", "-rdynamic"])

    def sanitized(self):
        """the libraries and back-ends compiled with gcc's address and undefined-behaviour sanitizers in
        lib/san, and the command interpreter with the wrapper compiled with those of clang"""
        os.makedirs(self.p("lib", "san"), exist_ok=True)
        san = ["-shared", "-fPIC", "-g1", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=shift-base",
               "-fno-omit-frame-pointer", "-fsanitize-recover=all", "-I", self.p("include"), "-I", self.p("include", "interflop")]

        def so(name, d, libs):
            out = self.p("lib", "san", name + ".so")
            if os.path.exists(out):
                return
            srcs, flags = lib_sources(d, name)
            if name == "libinterflop_fma":
                flags = flags + ["-DHAS_QUADMATH"]
            tmp = out + ".%d.tmp" % os.getpid()
            sh(["gcc"] + san + flags + srcs + ["-o", tmp, "-L", self.p("lib", "san"), "-Wl,-soname," + name + ".so"] + libs)
            os.rename(tmp, out)
        self.stdlib()
        self._par(lambda n: so(n, *CLIBS[n]), [n for n in CLIBS if n != "libvfc_probes"])
        self._par(lambda n: so(n, BACKENDS[n], BASE), list(BACKENDS))
        for fcmp in (False, True):
            self.harness("opserver_cmp_san" if fcmp else "opserver_san", [os.path.join(VERIF, "harness", "opserver.c")],
                         flags=["-DINST_FMA", "-DINST_CAST"] + (["-DINST_FCMP"] if fcmp else []) +
                         ["-march=native", "-Wno-varargs", "-ffp-contract=off", "-fsanitize=address,undefined", "-fno-sanitize=shift-base,function"],
                         libs=["-linterflop_stdlib", "-linterflop_hashmap", "-linterflop_logger", "-ldl", "-lpthread", "-lm", "-rdynamic"])

    def san_env(self, wrapper):
        e = {"ASAN_OPTIONS": "detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=0"}
        if not wrapper:
            e["LD_LIBRARY_PATH"] = self.p("lib", "san")
            if not hasattr(self, "_pre"):
                self._pre = ":".join(subprocess.run(["gcc", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True).stdout.strip()
                                     for n in ("libasan.so", "libubsan.so"))
            e["LD_PRELOAD"] = self._pre
        return e

    def logbackend(self):
        """the recording back-end of harness/logbackend.c"""
        return self._so("libinterflop_vlog", [os.path.join(VERIF, "harness", "logbackend.c")], [], ["-lm", "-lpthread"])

    def env(self, **kw):
        e = {k: v for k, v in os.environ.items()
             if not k.startswith(("VFC_", "INTERFLOP_", "VERIF_"))}
        e["PATH"] = self.p("bin") + ":" + LLVM + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        e["LD_LIBRARY_PATH"] = self.p("lib")
        e["LIBRARY_PATH"] = self.p("lib")
        e["LC_ALL"] = "C.UTF-8"
        for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS", "MAKEFLAGS", "PYTHONPATH"):
            e.pop(k, None)
        e.update(kw)
        return e

    @staticmethod
    def _par(fn, items):
        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(fn, i) for i in items]:
                f.result()


if __name__ == "__main__":
    import time
    t = time.time()
    b = Build()
    b.toolchain()
    b.opserver()
    b.opserver(True)
    b.structs()
    b.logbackend()
    print(b.prefix, "%.1f s" % (time.time() - t))
