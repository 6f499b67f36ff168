"""Programs assembled from generated features of C and C++ (by-value structs, variadic functions,
recursion, callbacks, exceptions, threads, ...); the native compilation of the same text is the oracle."""

T = {"f": "float", "d": "double"}

PRE_C = r"""#include <complex.h>
#undef I
"""
PRE = r"""#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <setjmp.h>
#include <math.h>
#include <pthread.h>
#define NOI __attribute__((noinline))
static void outd(const char *t, double x) { if (x != x) printf("%s nan\n", t); else printf("%s %a\n", t, x); }
static void outl(const char *t, long double x) { if (x != x) printf("%s nan\n", t); else printf("%s %La\n", t, x); }
static void outi(const char *t, long long x) { printf("%s %lld\n", t, x); }
volatile double vd[32]; volatile float vf[32]; volatile int vi[32];
"""


def num(r, t="d"):
    v = r.choice([r.uniform(-5, 5), r.uniform(-5, 5), r.uniform(-1e6, 1e6), r.choice([0.1, 1.0, 0.5, -2.0, 3.0])])
    return "%r%s" % (v, "f" if t == "f" else "")


def var(r, t="d"):
    return ("vd[%d]" if t == "d" else "vf[%d]") % r.randrange(32)


def expr(r, names, t, depth=3):
    """an expression of type t over (name, type) pairs"""
    own = [n for n, ty in names if ty == t]
    oth = [n for n, ty in names if ty != t]
    if depth == 0 or r.random() < 0.15:
        k = r.random()
        if own and k < 0.7:
            return r.choice(own)
        if oth and k < 0.8:
            return "(%s)%s" % (T[t], r.choice(oth))
        return num(r, t)
    k = r.random()
    a, b = expr(r, names, t, depth - 1), expr(r, names, t, depth - 1)
    if k < 0.75:
        return "(%s %s %s)" % (a, r.choice("+-*+-*/"), b)
    if k < 0.82:
        return "(- %s)" % a
    if k < 0.9:
        return "(%s %s %s ? %s : %s)" % (a, r.choice(["<", ">", "<=", ">=", "==", "!="]), b, expr(r, names, t, depth - 1), b)
    if k < 0.95:
        return "%s(%s, %s, %s)" % ("fma" if t == "d" else "fmaf", a, b, expr(r, names, t, depth - 1))
    return "%s(%s)" % (r.choice(["fabs", "sqrt", "floor"]) + ("f" if t == "f" else ""), a)


def f_struct(r, n, cpp):
    fs = []
    for i in range(r.randint(1, 6)):
        k = r.choice(["float", "double", "float", "double", "int", "char", "float[%d]" % r.randint(2, 4), "double[2]"])
        fs.append(("m%d" % i, k))
    decl = " ".join("%s %s%s;" % (k.split("[")[0], m, "[" + k.split("[")[1] if "[" in k else "") for m, k in fs)
    acc = [(("s.%s[%d]" % (m, r.randrange(int(k.split("[")[1][:-1])))) if "[" in k else "s.%s" % m,
            "f" if k.startswith("float") else "d") for m, k in fs if k[0] in "fd"]
    g = "struct S%d { %s };\n" % (n, decl)
    body = []
    for m, k in fs:
        if k.startswith(("float", "double")):
            t = "f" if k.startswith("float") else "d"
            idx = "[%d]" % r.randrange(int(k.split("[")[1][:-1])) if "[" in k else ""
            body.append("  s.%s%s = %s;" % (m, idx, expr(r, acc + [("x", "d"), ("y", "f")], t)))
        else:
            body.append("  s.%s += %d;" % (m, r.randint(1, 9)))
    g += "%sstruct S%d st%d(struct S%d s, double x, int k, float y) {\n%s\n  if (k > 0) return st%d(s, x + 1.5, k - 1, y * 0.5f);\n  return s;\n}\n" % (
        r.choice(["NOI ", "", "static "]), n, n, n, "\n".join(body), n)
    m = "  { struct S%d s; memset(&s, 0, sizeof s); s = st%d(s, %s, %d, %s);\n" % (n, n, var(r), r.randint(0, 3), var(r, "f"))
    for a, t in acc:
        m += '    outd("st%d", %s);\n' % (n, a)
    for mm, k in fs:
        if k in ("int", "char"):
            m += '    outi("st%d", s.%s);\n' % (n, mm)
    return g, m + "  }\n"


def f_varargs(r, n, cpp):
    sig = [r.choice("id") for _ in range(r.randint(1, 12))]
    g = "NOI static double va%d(const char *sig, ...) {\n  va_list ap; va_start(ap, sig); double s = %s;\n" % (n, num(r))
    g += "  for (; *sig; sig++) if (*sig == 'd') s = s * 0.75 + va_arg(ap, double); else s -= va_arg(ap, int) * 0.5;\n  va_end(ap); return s; }\n"
    args = ", ".join(var(r, r.choice("df")) if c == "d" else "vi[%d]" % r.randrange(32) for c in sig)
    return g, '  outd("va%d", va%d("%s", %s));\n' % (n, n, "".join(sig), args)


def f_recursion(r, n, cpp):
    t = r.choice("df")
    g = "static %s ra%d(%s x, int k); NOI static %s rb%d(int k, %s y) { return k <= 0 ? y : ra%d(%s, k - 1) %s y; }\n" % (
        T[t], n, T[t], T[t], n, T[t], n, expr(r, [("y", t)], t, 2), r.choice("+-*"))
    g += "static %s ra%d(%s x, int k) { if (k <= 0) return %s; return rb%d(k - 1, %s) %s x; }\n" % (
        T[t], n, T[t], expr(r, [("x", t)], t, 2), n, expr(r, [("x", t)], t, 2), r.choice("+-*"))
    return g, '  outd("rec%d", ra%d(%s, %d));\n' % (n, n, var(r, t), r.randint(0, 12))


def f_fptr(r, n, cpp):
    t = r.choice("df")
    k = r.randint(2, 4)
    g = ""
    for i in range(k):
        g += "static %s fp%d_%d(%s x, %s y) { return %s; }\n" % (T[t], n, i, T[t], T[t], expr(r, [("x", t), ("y", t)], t, 2))
    g += "static %s (*tab%d[])(%s, %s) = {%s};\n" % (T[t], n, T[t], T[t], ", ".join("fp%d_%d" % (n, i) for i in range(k)))
    g += "NOI static %s ap%d(%s (*f)(%s, %s), %s x, %s y) { return f(f(x, y), x) %s y; }\n" % (
        T[t], n, T[t], T[t], T[t], T[t], T[t], r.choice("+-*"))
    return g, "".join('  outd("fp%d", ap%d(tab%d[(unsigned)vi[%d] %% %d], %s, %s));\n' % (
        n, n, n, r.randrange(32), k, var(r, t), var(r, t)) for _ in range(2))


def f_longdouble(r, n, cpp):
    g = "NOI static long double ld%d(long double x, double y, float z) { long double s = x; for (int i = 0; i < %d; i++) s = s * %s + y / (z + %s); return s %s x; }\n" % (
        n, r.randint(1, 6), num(r) + "L", num(r) + "L", r.choice("+-*/"))
    return g, '  outl("ld%d", ld%d(%s, %s, %s)); outd("ldd%d", (double)ld%d(%s, %s, %s) * %s);\n' % (
        n, n, var(r), var(r), var(r, "f"), n, n, var(r), var(r), var(r, "f"), var(r))


def f_complex(r, n, cpp):
    t = r.choice("df")
    if cpp:
        ty = "std::complex<%s>" % T[t]
        re, im = "std::real(%s)", "std::imag(%s)"
        mk = "%s(%%s, %%s)" % ty
    else:
        ty = "%s _Complex" % T[t]
        s = "f" if t == "f" else ""
        re, im = "creal%s(%%s)" % s, "cimag%s(%%s)" % s
        mk = "((%s)__builtin_complex((%s)%%s, (%s)%%s))" % (ty, T[t], T[t])
    g = "NOI static %s cx%d(%s a, %s b) { return (a %s b) %s (a %s %s); }\n" % (
        ty, n, ty, ty, r.choice("+-*/"), r.choice("+-*"), r.choice("+-*/"), "b")
    m = "  { %s z = cx%d(%s, %s);\n" % (ty, n, mk % (var(r, t), var(r, t)), mk % (var(r, t), var(r, t)))
    return g, m + '    outd("cx%d", %s); outd("cx%d", %s); }\n' % (n, re % "z", n, im % "z")


def f_control(r, n, cpp):
    t = r.choice("df")
    v = [("x", t), ("y", t), ("s", t)]
    cases = "".join("      case %d: s = %s; %s\n" % (i, expr(r, v, t, 2), r.choice(["break;", "", "continue;", "if (s > %s) goto end;" % num(r, t)]))
                    for i in range(r.randint(2, 5)))
    g = "NOI static %s ct%d(%s x, %s y, int k) {\n  %s s = %s;\n  for (int i = 0; i < k; i++) {\n    switch ((i * %d + k) %% 6) {\n%s      default: s = s * %s + y;\n    }\n    x = %s;\n    while (s > %s && i < k) { s = s * %s; i++; }\n  }\n  goto end;\nend:\n  return s - x;\n}\n" % (
        T[t], n, T[t], T[t], T[t], num(r, t), r.randint(1, 7), cases, num(r, t), expr(r, v, t, 2), num(r, t), "0.5f" if t == "f" else "0.5")
    return g, '  outd("ct%d", ct%d(%s, %s, %d));\n' % (n, n, var(r, t), var(r, t), r.randint(0, 20))


def f_setjmp(r, n, cpp):
    g = "static jmp_buf jb%d; NOI static double sj%d(double x, int k) { if (k == 0) longjmp(jb%d, 1 + (x * x > %s)); return sj%d(%s, k - 1) + 1.0; }\n" % (
        n, n, n, num(r), n, expr(r, [("x", "d")], "d", 2))
    return g, '  { volatile double s = %s; int c = setjmp(jb%d); if (!c) { s = s * 1.5; s += sj%d(%s, %d); } outi("sj%d", c); outd("sj%d", s); }\n' % (
        var(r), n, n, var(r), r.randint(0, 5), n, n)


def f_qsort(r, n, cpp):
    t = r.choice("df")
    g = "static int qc%d(const void *a, const void *b) { %s x = *(const %s *)a %s %s, y = *(const %s *)b %s %s; return (x > y) - (x < y); }\n" % (
        n, T[t], T[t], "*", "1.0f" if t == "f" else "1.0", T[t], "*", "1.0f" if t == "f" else "1.0")
    k = r.randint(3, 20)
    return g, '  { %s a[%d]; for (int i = 0; i < %d; i++) a[i] = %s[(i * 7 + %d) %% 32] - %s; qsort(a, %d, sizeof *a, qc%d); for (int i = 0; i < %d; i++) outd("qs%d", a[i]); }\n' % (
        T[t], k, k, "vd" if t == "d" else "vf", r.randrange(32), num(r, t), k, n, k, n)


def f_bits(r, n, cpp):
    g = "NOI static double bt%d(double x, uint64_t m) { union { double d; uint64_t u; } v; v.d = x %s %s; v.u ^= m; double y; memcpy(&y, &v.u, 8); return y %s x; }\n" % (
        n, r.choice("+-*"), num(r), r.choice("+-*/"))
    return g, '  outd("bt%d", bt%d(%s, 0x%xull));\n' % (n, n, var(r), r.getrandbits(52) & r.getrandbits(52))


def f_static(r, n, cpp):
    t = r.choice("df")
    g = "static const %s tb%d[] = {%s};\nNOI static %s sl%d(%s x) { static %s acc = %s; static int calls; calls++; acc = acc * %s + x * tb%d[calls %% %d]; return acc + calls; }\n" % (
        T[t], n, ", ".join(num(r, t) for _ in range(5)), T[t], n, T[t], T[t], num(r, t), "0.25f" if t == "f" else "0.25", n, 5)
    return g, '  for (int i = 0; i < %d; i++) outd("sl%d", sl%d(%s[i]));\n' % (r.randint(1, 9), n, n, "vd" if t == "d" else "vf")


def f_conv(r, n, cpp):
    ty = r.choice(["int", "unsigned", "short", "long long", "unsigned char", "_Bool" if not cpp else "bool", "unsigned long"])
    g = "NOI static %s cv%d(double x, float y) { x = fabs(x) + 1.0; while (x > 100.0) x = x * 0.125; return (%s)(x + (double)fabsf(y) * 1e-30); }\nNOI static double cw%d(%s k, float z) { return (double)k * 0.3 + (float)k * z; }\n" % (
        ty, n, ty, n, ty)
    return g, '  outi("cv%d", cv%d(%s, %s)); outd("cw%d", cw%d((%s)vi[%d], %s));\n' % (
        n, n, var(r), var(r, "f"), n, n, ty, r.randrange(32), var(r, "f"))


def f_matmul(r, n, cpp):
    t = r.choice("df")
    k = r.randint(2, 9)
    g = "NOI static void mm%d(int n, const %s *a, const %s *b, %s *c) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { %s s = 0; for (int k = 0; k < n; k++) s %s= a[i * n + k] * b[k * n + j]; c[i * n + j] = s; } }\n" % (
        n, T[t], T[t], T[t], T[t], r.choice("+-"))
    m = "  { int n = %d; %s *a = (%s *)malloc(3 * n * n * sizeof *a), *b = a + n * n, *c = b + n * n;\n" % (k, T[t], T[t])
    m += "    for (int i = 0; i < n * n; i++) { a[i] = %s[(i * 3 + %d) %% 32]; b[i] = %s[(i * 5) %% 32] %s %s; }\n" % (
        "vd" if t == "d" else "vf", r.randrange(32), "vd" if t == "d" else "vf", r.choice("+-*"), num(r, t))
    return g, m + '    mm%d(n, a, b, c); for (int i = 0; i < n * n; i++) outd("mm%d", c[i]); free(a); }\n' % (n, n)


def f_stencil(r, n, cpp):
    t = r.choice("df")
    k = r.randint(4, 40)
    g = "NOI static void sc%d(int n, %s *restrict_ o, const %s *a, const %s *b) { for (int i = 1; i + 1 < n; i++) o[i] = %s; }\n".replace("restrict_", "__restrict") % (
        n, T[t], T[t], T[t], expr(r, [("a[i]", t), ("a[i - 1]", t), ("b[i + 1]", t), ("b[i]", t)], t, 3))
    a = "vd" if t == "d" else "vf"
    return g, '  { %s a[%d], b[%d], o[%d]; for (int i = 0; i < %d; i++) { a[i] = %s[i %% 32]; b[i] = %s[(i + 9) %% 32]; o[i] = 0; } sc%d(%d, o, a, b); for (int i = 0; i < %d; i++) outd("sc%d", o[i]); }\n' % (
        T[t], k, k, k, k, a, a, n, k, k, n)


def f_libm(r, n, cpp):
    e = ["sin(x)", "cos(x)", "exp(x * 0.01)", "log(fabs(x) + 1.0)", "pow(fabs(x), 0.3)", "atan2(x, y)", "hypot(x, y)", "fmin(x, y)",
         "fmax(x, y)", "floor(x)", "rint(y)", "copysign(x, y)", "cbrt(x)", "fmod(x, 3.5)", "ldexp(x, 3)", "(double)sinf((float)y)", "trunc(x * y)",
         "(double)fminf((float)x, (float)y)", "remainder(x, 2.5)", "tgamma(1.0 + fabs(y) * 1e-3)"]
    g = "NOI static double lm%d(double x, double y) { return %s; }\n" % (n, " + ".join(r.sample(e, r.randint(1, 5))))
    return g, '  outd("lm%d", lm%d(%s, %s));\n' % (n, n, var(r), var(r))


def f_half(r, n, cpp):
    g = "NOI static float hf%d(float x, float y) { _Float16 a = (_Float16)x, b = (_Float16)y; a = a %s b; b = b %s a; return (float)(a %s b); }\n" % (
        n, r.choice("+-*"), r.choice("+-*/"), r.choice("+-*"))
    return g, '  outd("hf%d", hf%d(%s, %s));\n' % (n, n, var(r, "f"), var(r, "f"))


def f_vec(r, n, cpp):
    t = r.choice("df")
    k = r.choice([2, 3, 4, 5, 6, 7, 8, 12, 16, 32])
    it = "long" if t == "d" else "int"
    nm = "v%d_t" % n
    g = "typedef %s %s __attribute__((ext_vector_type(%d))); typedef %s i%s __attribute__((ext_vector_type(%d)));\n" % (T[t], nm, k, it, nm, k)
    passing = r.random() < 0.5
    e = "(x %s y) %s (x %s y)" % (r.choice("+-*/"), r.choice("+-*"), r.choice("+-*"))
    sel = r.random() < 0.5
    if passing:
        g += "NOI static %s vf%d(%s x, %s y) { %s z = %s; return z; }\n" % (nm, n, nm, nm, nm, e)
        c = "z = vf%d(x, y);" % n
    else:
        g += "NOI static void vf%d(%s *a, %s *b, %s *c) { %s x = *a, y = *b; *c = %s; }\n" % (n, nm, nm, nm, nm, e)
        c = "vf%d(&x, &y, &z);" % n
    if sel:
        c += " i%s m = x %s y; for (int i = 0; i < %d; i++) outi(\"vm%d\", m[i]);" % (nm, r.choice(["<", "==", ">=", "!="]), k, n)
    a = "vd" if t == "d" else "vf"
    return g, '  { %s x, y, z; for (int i = 0; i < %d; i++) { x[i] = %s[i]; y[i] = %s[(i * 3 + 1) %% 32]; } %s for (int i = 0; i < %d; i++) outd("vc%d", z[i]); }\n' % (
        nm, k, a, a, c, k, n)


def f_outparam(r, n, cpp):
    g = "NOI static int op%d(float *a, double *b, const float *in, int n, double **pp) { *a = 0; for (int i = 0; i < n; i++) *a += in[i] * 0.5f; *b = *a * 2.0 - %s; **pp = *b / 3.0; return *a %s *b; }\n" % (
        n, num(r), r.choice(["<", ">", "!=", "<="]))
    return g, '  { float a; double b, c, *p = &c; float in[5]; for (int i = 0; i < 5; i++) in[i] = vf[i + %d]; outi("op%d", op%d(&a, &b, in, %d, &p)); outd("op%d", a); outd("op%d", b); outd("op%d", c); }\n' % (
        r.randrange(20), n, n, r.randint(0, 5), n, n, n)


def f_manyargs(r, n, cpp):
    k = r.randint(7, 16)
    ps = [(r.choice("dfil"), "q%d" % i) for i in range(k)]
    ct = {"d": "double", "f": "float", "i": "int", "l": "long double"}
    g = "NOI static double ma%d(%s) { return %s; }\n" % (n, ", ".join("%s %s" % (ct[t], nm) for t, nm in ps),
                                                        " + ".join("%s * %s" % (nm, num(r)) for _, nm in ps))
    return g, '  outd("ma%d", ma%d(%s));\n' % (n, n, ", ".join(
        {"d": var(r), "f": var(r, "f"), "i": "vi[%d]" % r.randrange(32), "l": var(r)}[t] for t, _ in ps))


def f_cmpval(r, n, cpp):
    t = r.choice("df")
    rel = ["<", ">", "<=", ">=", "==", "!="]
    g = "NOI static int cm%d(%s x, %s y) { return (x %s y) + 2 * (!(x %s y)) + 4 * (x %s y && y %s x) + 8 * (x != x) + 16 * (isless(x, y) || isunordered(x, y)) + 32 * !(y %s x); }\n" % (
        n, T[t], T[t], r.choice(rel), r.choice(rel), r.choice(rel), r.choice(rel), r.choice(rel))
    m = ""
    for _ in range(3):
        m += '  outi("cm%d", cm%d(%s, %s));\n' % (n, n, var(r, t), r.choice([var(r, t), "NAN", "0.0", "-0.0", "INFINITY", num(r, t)]))
    return g, m


def f_ctor(r, n, cpp):
    g = "static double cg%d;\n__attribute__((constructor%s)) static void cc%d(void) { volatile double x = %s; cg%d = x * 3.0 - x / 7.0; }\n__attribute__((destructor)) static void cd%d(void) { outd(\"cd%d\", cg%d * 0.5); }\n" % (
        n, r.choice(["", "(101)", "(200)"]), n, num(r), n, n, n, n)
    if r.random() < 0.4:
        g += "static void ae%d(void) { outd(\"ae%d\", cg%d + 0.25); }\n" % (n, n, n)
        return g, '  atexit(ae%d); cg%d += vd[3];\n' % (n, n)
    return g, '  outd("cg%d", cg%d);\n' % (n, n)


def f_threads(r, n, cpp):
    k = r.randint(2, 6)
    t = r.choice("df")
    g = "static %s th%d_res[8]; static void *th%d(void *p) { int k = (int)(intptr_t)p; %s s = k; for (int i = 0; i < %d; i++) s = s * %s + %s[(i + k) %% 32]; th%d_res[k] = s; return 0; }\n" % (
        T[t], n, n, T[t], r.randint(5, 60), "0.5f" if t == "f" else "0.5", "vd" if t == "d" else "vf", n)
    return g, '  { pthread_t t[8]; for (int i = 0; i < %d; i++) pthread_create(&t[i], 0, th%d, (void *)(intptr_t)i); for (int i = 0; i < %d; i++) pthread_join(t[i], 0); for (int i = 0; i < %d; i++) outd("th%d", th%d_res[i]); }\n' % (
        k, n, k, k, n, n)


def f_str(r, n, cpp):
    g = "NOI static double sp%d(const char *s) { double a = 0; char *e; while (*s) { a = a * 0.5 + strtod(s, &e); if (e == s) break; s = e; } return a; }\n" % n
    return g, '  { char b[128]; snprintf(b, sizeof b, "%%g %%.3e %%f", %s * 1.5, %s / 3.0, (double)%s); puts(b); outd("sp%d", sp%d(b)); }\n' % (
        var(r), var(r), var(r, "f"), n, n)


def f_void(r, n, cpp):
    g = "static double vg%d; NOI static void vv%d(void) { vg%d = vg%d * 0.5 + %s; } NOI static void vw%d(int k) { for (int i = 0; i < k; i++) vv%d(); }\n" % (
        n, n, n, n, var(r), n, n)
    return g, '  vw%d(%d); outd("vg%d", vg%d);\n' % (n, r.randint(0, 6), n, n)


# ---------------------------------------------------------------- C++
def f_except(r, n, cpp):
    t = r.choice("df")
    g = "struct E%d { %s v; }; NOI static %s ex%d(%s x, int k) { struct G { %s &y; ~G() { y = y * %s; } }; %s loc = x; G g{loc}; if (k <= 0) { if (x * x > %s) throw E%d{x + loc}; throw (int)(x > 0); } return ex%d(x %s loc, k - 1) + loc; }\n" % (
        n, T[t], T[t], n, T[t], T[t], "0.5f" if t == "f" else "0.5", T[t], num(r, t), n, n, r.choice("+-"))
    return g, '  try { outd("ex%d", ex%d(%s, %d)); } catch (const E%d &e) { outd("ex%d", e.v * 2.0); } catch (int i) { outi("ex%d", i); }\n' % (
        n, n, var(r, t), r.randint(0, 4), n, n, n)


def f_virtual(r, n, cpp):
    g = "struct B%d { double m; B%d(double x) : m(x) {} virtual ~B%d() {} virtual double ev(double x) const { return m %s x; } };\n" % (n, n, n, r.choice("+-*"))
    g += "struct D%d : B%d { float k; D%d(double x, float y) : B%d(x * 1.5), k(y) {} double ev(double x) const override { return %s; } };\n" % (
        n, n, n, n, expr(r, [("x", "d"), ("k", "f"), ("m", "d")], "d", 2))
    return g, '  { std::vector<B%d *> v; for (int i = 0; i < %d; i++) if (vi[i] & 1) v.push_back(new B%d(vd[i])); else v.push_back(new D%d(vd[i], vf[i])); double s = 0; for (auto p : v) { s = s * 0.5 + p->ev(%s); delete p; } outd("vt%d", s); }\n' % (
        n, r.randint(1, 20), n, n, var(r), n)


def f_template(r, n, cpp):
    g = "template <typename T, int N> struct M%d { T a[N]; M%d operator%s(const M%d &o) const { M%d r; for (int i = 0; i < N; i++) r.a[i] = a[i] %s o.a[N - 1 - i]; return r; } T dot(const M%d &o) const { T s = 0; for (int i = 0; i < N; i++) s += a[i] * o.a[i]; return s; } };\n" % (
        n, n, "+", n, n, r.choice("+-*/"), n)
    t = r.choice("df")
    k = r.randint(1, 9)
    return g, '  { M%d<%s, %d> x, y; for (int i = 0; i < %d; i++) { x.a[i] = %s[i]; y.a[i] = %s[i + 10]; } auto z = x + y; for (int i = 0; i < %d; i++) outd("tm%d", z.a[i]); outd("tm%d", z.dot(x)); }\n' % (
        n, T[t], k, k, "vd" if t == "d" else "vf", "vd" if t == "d" else "vf", k, n, n)


def f_stl(r, n, cpp):
    return "", '  { std::vector<double> v; for (int i = 0; i < %d; i++) v.push_back(vd[i] * %s); std::sort(v.begin(), v.end(), [](double a, double b) { return a * 1.0 < b; }); double c = %s; std::transform(v.begin(), v.end(), v.begin(), [c](double x) { return x %s c; }); outd("stl%d", std::accumulate(v.begin(), v.end(), 0.0)); std::map<double, int> m; for (double x : v) m[x * 0.5]++; for (auto &p : m) outd("stl%d", p.first); std::function<float(float)> f = [c](float x) { return x * (float)c; }; outd("stl%d", f(%s)); }\n' % (
        r.randint(1, 30), num(r), var(r), r.choice("+-*"), n, n, n, var(r, "f"))


def f_staticinit(r, n, cpp):
    g = "static volatile double si_in%d = %s; struct SI%d { double v; SI%d() : v(si_in%d * 1.25 + 0.1) {} ~SI%d() { outd(\"si%d\", v * 0.5); } }; static SI%d si%d; static double sj%d = si%d.v / 3.0;\n" % (
        n, num(r), n, n, n, n, n, n, n, n, n)
    return g, '  outd("si%d", sj%d); si%d.v += %s;\n' % (n, n, n, var(r))


BOTH = [f_struct, f_varargs, f_recursion, f_fptr, f_longdouble, f_complex, f_control, f_setjmp, f_qsort, f_bits, f_static, f_conv,
        f_matmul, f_stencil, f_libm, f_half, f_vec, f_vec, f_outparam, f_manyargs, f_cmpval, f_ctor, f_threads, f_str, f_void]
CPP = [f_except, f_virtual, f_template, f_stl, f_staticinit, f_except]


def generate(r, lang, k):
    """{"parts": [[name, globals, main]], "data": ...}"""
    cpp = lang == "c++"
    pool = BOTH + (CPP * 2 if cpp else [])
    parts = []
    for i in range(k):
        f = r.choice(pool)
        g, m = f(r, i, cpp)
        parts.append([f.__name__[2:], g, m])
    dat = []
    for i in range(32):
        d = r.choice([r.uniform(-10, 10), r.uniform(-10, 10), r.uniform(-1e5, 1e5), r.uniform(-1, 1) * 2.0 ** r.randint(-40, 40)])
        f = r.choice([r.uniform(-10, 10), r.uniform(-10, 10), r.uniform(-1, 1) * 2.0 ** r.randint(-15, 15)])
        dat.append([d, f, r.randint(-100, 100)])
    return {"lang": lang, "parts": parts, "data": dat}


def source(P):
    cpp = P["lang"] == "c++"
    o = []
    if cpp:
        o.append("#include <complex>\n#include <vector>\n#include <map>\n#include <algorithm>\n#include <numeric>\n#include <functional>\n")
    else:
        o.append(PRE_C)
    o.append(PRE)
    for _, g, _ in P["parts"]:
        o.append(g)
    o.append("int main(int argc, char **argv) {\n")
    for i, (d, f, k) in enumerate(P["data"]):
        o.append("  vd[%d] = %r; vf[%d] = %rf; vi[%d] = %d;\n" % (i, d, i, f, i, k))
    for _, _, m in P["parts"]:
        o.append(m)
    o.append("  return argc + 2;\n}\n")
    return "".join(o)
