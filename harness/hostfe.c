/* A front-end that loads one back-end through the interflop interface.
 * hostfe LIB NAME, commands on the standard input:
 *   cli ARG...            interflop_cli
 *   conf KEY=VALUE...     interflop_<name>_configure
 *   init
 *   o OP TYPE BITS...     one operation, prints the bits of its result
 *   push SEED, pop        <name>_push_seed and <name>_pop_seed
 *   end                   interflop_finalize */
#define _GNU_SOURCE
#include <argp.h>
#include <dlfcn.h>
#include <err.h>
#include <errno.h>
#include <printf.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include "interflop/interflop_stdlib.h"
#include "interflop/interflop.h"

#include "interflop_bitmask.h"
#include "interflop_cancellation.h"
#include "interflop_ieee.h"
#include "interflop_mca.h"
#include "interflop_mca_int.h"
#include "interflop_vprec.h"

static int full(const char *s, const char *e) { return e != s && e[strspn(e, " \t\r\n")] == 0; }
static long h_strtol(const char *s, char **e, int *error) {
  errno = 0;
  long v = strtoll(s, e, 10);
  *error = errno != 0 || !full(s, *e);
  return v;
}
static double h_strtod(const char *s, char **e, int *error) {
  errno = 0;
  double v = strtod(s, e);
  *error = errno != 0 || !full(s, *e);
  return v;
}
static pid_t h_gettid(void) { return syscall(SYS_gettid); }
static void h_none(void) {}
static void h_panic(const char *m) {
  fprintf(stderr, "%s", m);
  exit(1);
}

static char *tok[4096];
static int ntok;
static const char *key(const char *k) {
  size_t n = strlen(k);
  for (int i = 1; i < ntok; i++)
    if (strncmp(tok[i], k, n) == 0 && tok[i][n] == '=')
      return tok[i] + n + 1;
  fprintf(stderr, "hostfe: no value for %s\n", k);
  exit(99);
}
#define I(k) strtoll(key(k), NULL, 0)
#define U(k) strtoull(key(k), NULL, 0)

struct pair { const char *n; long v; };
/* the value of the enumeration for a keyword */
static long en(const char *k, const struct pair *t) {
  const char *v = key(k);
  for (; t->n; t++)
    if (!strcmp(t->n, v))
      return t->v;
  fprintf(stderr, "hostfe: bad value %s for %s\n", v, k);
  exit(99);
}
#define EN(k, ...) en(k, (struct pair[]){__VA_ARGS__, {0}})

static void *sym(void *h, const char *fmt, const char *name) {
  char b[256];
  snprintf(b, sizeof b, fmt, name);
  void *p = dlsym(h, b);
  if (!p) {
    fprintf(stderr, "hostfe: no %s\n", b);
    exit(99);
  }
  return p;
}

int main(int argc, char **argv) {
  const char *lib = argv[1], *name = argv[2];
  void *h = dlopen(lib, RTLD_NOW | RTLD_LOCAL), *ctx = NULL;
  if (!h) {
    fprintf(stderr, "hostfe: %s\n", dlerror());
    return 99;
  }
  void (*set)(const char *, void *) = sym(h, "interflop_set_handler%s", "");
#define S(n) set(#n, n)
  S(getenv); S(sprintf); S(strerror); S(fopen); S(strcasecmp); S(vwarnx); S(fprintf); S(exit); S(vfprintf);
  S(malloc); S(strcmp); S(strcpy); S(strncpy); S(fclose); S(fgets); S(strtok_r); S(free); S(calloc);
  S(argp_parse); S(gettimeofday); S(register_printf_specifier);
  set("gettid", h_gettid);
  set("strtol", h_strtol);
  set("strtod", h_strtod);
  set("infHandler", h_none); set("nanHandler", h_none); set("cancellationHandler", h_none);
  set("denormalHandler", h_none); set("maxHandler", h_none);
  ((void (*)(interflop_panic_t, File *, void **))sym(h, "interflop_pre_init%s", ""))(h_panic, (File *)stderr, &ctx);
  struct interflop_backend_interface_t B;
  memset(&B, 0, sizeof B);
  static char line[1 << 16];
  while (fgets(line, sizeof line, stdin)) {
    ntok = 0;
    for (char *p = strtok(line, " \n"); p; p = strtok(NULL, " \n"))
      tok[ntok++] = p;
    if (!ntok)
      continue;
    if (!strcmp(tok[0], "cli")) {
      tok[0] = (char *)lib;
      tok[ntok] = NULL;
      ((void (*)(int, char **, void *))sym(h, "interflop_cli%s", ""))(ntok, tok, ctx);
    } else if (!strcmp(tok[0], "conf")) {
      void (*conf)(void *, void *) = sym(h, "interflop_%s_configure", name);
      if (!strcmp(name, "mcaquad")) {
        mcaquad_conf_t c = {.seed = U("seed"), .sparsity = strtof(key("sparsity"), NULL), .precision_binary32 = U("p32"), .precision_binary64 = U("p64"),
                            .mode = EN("mode", {"ieee", mcaquad_mode_ieee}, {"mca", mcaquad_mode_mca}, {"pb", mcaquad_mode_pb}, {"rr", mcaquad_mode_rr}), .err_mode = EN("emode", {"rel", mcaquad_err_mode_rel}, {"abs", mcaquad_err_mode_abs}, {"all", mcaquad_err_mode_all}), .max_abs_err_exponent = I("eexp"), .daz = U("daz"), .ftz = U("ftz")};
        conf(&c, ctx);
      } else if (!strcmp(name, "mcaint")) {
        mcaint_conf_t c = {.seed = U("seed"), .sparsity = strtof(key("sparsity"), NULL), .precision_binary32 = U("p32"), .precision_binary64 = U("p64"),
                           .mode = EN("mode", {"ieee", mcaint_mode_ieee}, {"mca", mcaint_mode_mca}, {"pb", mcaint_mode_pb}, {"rr", mcaint_mode_rr}), .err_mode = EN("emode", {"rel", mcaint_err_mode_rel}, {"abs", mcaint_err_mode_abs}, {"all", mcaint_err_mode_all}), .max_abs_err_exponent = I("eexp"), .daz = U("daz"), .ftz = U("ftz")};
        conf(&c, ctx);
      } else if (!strcmp(name, "bitmask")) {
        bitmask_conf_t c = {.seed = U("seed"), .binary32_precision = I("p32"), .binary64_precision = I("p64"), .operator= EN("operator", {"zero", bitmask_operator_zero}, {"one", bitmask_operator_one}, {"rand", bitmask_operator_rand}), .mode = EN("mode", {"ieee", bitmask_mode_ieee}, {"full", bitmask_mode_full}, {"ib", bitmask_mode_ib}, {"ob", bitmask_mode_ob}),
                            .daz = U("daz"), .ftz = U("ftz"), .choose_seed = 1};
        conf(&c, ctx);
      } else if (!strcmp(name, "cancellation")) {
        cancellation_conf_t c = {.seed = U("seed"), .tolerance = I("tolerance"), .warning = U("warning"), .choose_seed = 1};
        conf(&c, ctx);
      } else if (!strcmp(name, "vprec")) {
        vprec_conf_t c = {.precision_binary32 = U("p32"), .precision_binary64 = U("p64"), .range_binary32 = U("r32"), .range_binary64 = U("r64"),
                          .mode = EN("mode", {"ieee", vprecmode_ieee}, {"full", vprecmode_full}, {"ib", vprecmode_ib}, {"ob", vprecmode_ob}), .preset = EN("preset", {"none", -1}, {"binary16", vprec_preset_binary16}, {"binary32", vprec_preset_binary32}, {"bfloat16", vprec_preset_bfloat16}, {"tensorfloat", vprec_preset_tensorfloat}, {"fp24", vprec_preset_fp24}, {"PXR24", vprec_preset_PXR24}), .err_mode = EN("emode", {"rel", vprec_err_mode_rel}, {"abs", vprec_err_mode_abs}, {"all", vprec_err_mode_all}), .max_abs_err_exponent = I("eexp"), .daz = U("daz"), .ftz = U("ftz")};
        conf(&c, ctx);
      } else {
        ieee_conf_t c = {.debug = U("debug"), .debug_binary = U("debug_binary"), .no_backend_name = U("no_backend_name"), .print_new_line = U("print_new_line"),
                         .print_subnormal_normalized = U("print_subnormal_normalized"), .count_op = U("count_op")};
        conf(&c, ctx);
      }
    } else if (!strcmp(tok[0], "init")) {
      B = ((struct interflop_backend_interface_t(*)(void *))sym(h, "interflop_init%s", ""))(ctx);
    } else if (!strcmp(tok[0], "push")) {
      ((void (*)(uint64_t))sym(h, "%s_push_seed", name))(strtoull(tok[1], NULL, 0));
    } else if (!strcmp(tok[0], "pop")) {
      ((void (*)(void))sym(h, "%s_pop_seed", name))();
    } else if (!strcmp(tok[0], "end")) {
      if (B.interflop_finalize)
        B.interflop_finalize(ctx);
      printf("end\n");
      fflush(NULL);
      return 0;
    } else if (!strcmp(tok[0], "o")) {
      union { uint32_t u; float f; } a, b, c, r = {0};
      union { uint64_t u; double f; } A, B2, C, R = {0};
      int d = tok[2][0] == 'd';
      const char *op = tok[1];
      A.u = strtoull(tok[3], NULL, 16);
      B2.u = ntok > 4 ? strtoull(tok[4], NULL, 16) : 0;
      C.u = ntok > 5 ? strtoull(tok[5], NULL, 16) : 0;
      a.u = A.u; b.u = B2.u; c.u = C.u;
#define OP(o)                                                                                                          \
  if (!strcmp(op, #o)) {                                                                                               \
    if (d) B.interflop_##o##_double(A.f, B2.f, &R.f, ctx); else B.interflop_##o##_float(a.f, b.f, &r.f, ctx);          \
  }
      OP(add) OP(sub) OP(mul) OP(div)
      if (!strcmp(op, "fma")) {
        if (d) B.interflop_fma_double(A.f, B2.f, C.f, &R.f, ctx); else B.interflop_fma_float(a.f, b.f, c.f, &r.f, ctx);
      }
      if (!strcmp(op, "cast")) {
        B.interflop_cast_double_to_float(A.f, &r.f, ctx);
        d = 0;
      }
      if (d) printf("%016lx\n", R.u); else printf("%08x\n", r.u);
    } else {
      fprintf(stderr, "hostfe: unknown command %s\n", tok[0]);
      return 99;
    }
  }
  fprintf(stderr, "hostfe: no end\n");
  return 99;
}
