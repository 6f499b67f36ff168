/* A back-end of ours: records every call it receives in the file named by VLOG
 * (binary records, see lib/proglog.py) and computes the native result plus an
 * optional bias, so that the wrapper's dispatching can be observed.
 * options: --tag=N  --skip=op[,op...]  --ulp=N (adds N to the result's bit pattern)
 *          --fail=stage */
#define _GNU_SOURCE
#include <fcntl.h>
#include <math.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "interflop/interflop.h"

typedef struct {
  uint32_t tag;
  int32_t ulp;
  char skip[1024];
  char args[2048];
} ctx_t;

typedef struct {
  uint8_t kind, ty, pred, tag;
  uint32_t aux;
  uint64_t a, b, c;
} rec_t;

static int fd = -2;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static rec_t buf[4096];
static int nbuf;

static void flush(void) {
  if (fd == -2) {
    const char *p = getenv("VLOG");
    fd = p ? open(p, O_WRONLY | O_CREAT | O_APPEND, 0666) : -1;
  }
  if (fd >= 0 && nbuf)
    if (write(fd, buf, nbuf * sizeof(rec_t)) < 0)
      abort();
  nbuf = 0;
}

static void put(int kind, int ty, int pred, ctx_t *c, uint64_t a, uint64_t b, uint64_t d, uint32_t aux) {
  pthread_mutex_lock(&mu);
  if (nbuf == 4096)
    flush();
  buf[nbuf++] = (rec_t){kind, ty, pred, c ? c->tag : 0, aux, a, b, d};
  pthread_mutex_unlock(&mu);
}

__attribute__((destructor)) static void fini(void) { flush(); }

static uint64_t fb(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
static uint64_t db(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
static float fo(float x, ctx_t *c) { uint32_t u; memcpy(&u, &x, 4); u += c->ulp; memcpy(&x, &u, 4); return x; }
static double dob(double x, ctx_t *c) { uint64_t u; memcpy(&u, &x, 8); u += (int64_t)c->ulp; memcpy(&x, &u, 8); return x; }

#define BIN(name, code, op)                                                    \
  static void name##_f(float a, float b, float *c, void *x) {                  \
    put(code, 0, 0, x, fb(a), fb(b), 0, 0);                                    \
    *c = fo(a op b, x);                                                        \
  }                                                                            \
  static void name##_d(double a, double b, double *c, void *x) {               \
    put(code, 1, 0, x, db(a), db(b), 0, 0);                                    \
    *c = dob(a op b, x);                                                       \
  }
BIN(add, 0, +)
BIN(sub, 1, -)
BIN(mul, 2, *)
BIN(div, 3, /)

static int cmp(int p, double a, double b) {
  int u = isnan(a) || isnan(b);
  int r = (a == b ? 1 : 0) | (a > b ? 2 : 0) | (a < b ? 4 : 0) | (u ? 8 : 0);
  return (r & p) != 0;
}
static void cmp_f(enum FCMP_PREDICATE p, float a, float b, int *c, void *x) {
  put(6, 0, p, x, fb(a), fb(b), 0, 0);
  *c = cmp(p, a, b);
}
static void cmp_d(enum FCMP_PREDICATE p, double a, double b, int *c, void *x) {
  put(6, 1, p, x, db(a), db(b), 0, 0);
  *c = cmp(p, a, b);
}
static void cast_df(double a, float *c, void *x) {
  put(5, 1, 0, x, db(a), 0, 0, 0);
  *c = fo((float)a, x);
}
static void fma_f(float a, float b, float c, float *r, void *x) {
  put(4, 0, 0, x, fb(a), fb(b), fb(c), 0);
  *r = fo(fmaf(a, b, c), x);
}
static void fma_d(double a, double b, double c, double *r, void *x) {
  put(4, 1, 0, x, db(a), db(b), db(c), 0);
  *r = dob(fma(a, b, c), x);
}
static uint64_t h64(const char *s) {
  uint64_t h = 1469598103934665603ull;
  while (s && *s)
    h = (h ^ (unsigned char)*s++) * 1099511628211ull;
  return h;
}
static void fn(int kind, interflop_function_stack_t *st, void *x, int n, va_list ap) {
  interflop_function_info_t *fi = st->array[st->top];
  put(kind, 0, 0, x, h64(fi->id), n, st->top, 0);
  for (int i = 0; i < n; i++) {
    int type = va_arg(ap, int);
    char *name = va_arg(ap, char *);
    unsigned size = va_arg(ap, unsigned);
    void *v = va_arg(ap, void *);
    uint64_t val = 0;
    if (type == FFLOAT || (type == FFLOAT_PTR && v))
      val = fb(*(float *)v);
    else if (type == FDOUBLE || (type == FDOUBLE_PTR && v))
      val = db(*(double *)v);
    put(kind + 1, type, 0, x, h64(name), size, val, 0);
  }
}
static void enter_fn(interflop_function_stack_t *st, void *x, int n, va_list ap) { fn(8, st, x, n, ap); }
static void exit_fn(interflop_function_stack_t *st, void *x, int n, va_list ap) { fn(10, st, x, n, ap); }
static void user_call(void *x, interflop_call_id id, va_list ap) {
  uint64_t v = 0;
  if (id >= 2 && id <= 5)
    v = va_arg(ap, int);
  put(7, 0, 0, x, (uint64_t)(int64_t)id, v, 0, 0);
}
static void finalize(void *x) {
  put(12, 0, 0, x, 0, 0, 0, 0);
  flush();
}

const char *interflop_get_backend_name(void) { return "log"; }
const char *interflop_get_backend_version(void) { return "1"; }

void interflop_pre_init(interflop_panic_t panic, File *stream, void **context) {
  *context = calloc(1, sizeof(ctx_t));
}

void interflop_cli(int argc, char *argv[], void *context) {
  ctx_t *c = context;
  for (int i = 0; i < argc; i++) {
    strncat(c->args, argv[i], sizeof c->args - strlen(c->args) - 2);
    strcat(c->args, "\n");
    if (!strncmp(argv[i], "--tag=", 6))
      c->tag = atoi(argv[i] + 6);
    else if (!strncmp(argv[i], "--skip=", 7))
      snprintf(c->skip, sizeof c->skip, ",%s,", argv[i] + 7);
    else if (!strncmp(argv[i], "--ulp=", 6))
      c->ulp = atoi(argv[i] + 6);
  }
  put(13, 0, 0, c, argc, h64(c->args), argv[argc] == NULL, 0);
}

void interflop_configure(void *configure, void *context) {}

void interflop_set_handler(const char *name, void *function_ptr) {}

static int skipped(ctx_t *c, const char *n) {
  char s[64];
  snprintf(s, sizeof s, ",%s,", n);
  return strstr(c->skip, s) != NULL;
}

struct interflop_backend_interface_t interflop_init(void *context) {
  ctx_t *c = context;
  struct interflop_backend_interface_t b;
  memset(&b, 0, sizeof b);
#define SET(n, v)                                                              \
  if (!skipped(c, #n))                                                         \
    b.interflop_##n = v;
  SET(add_float, add_f) SET(sub_float, sub_f) SET(mul_float, mul_f) SET(div_float, div_f)
  SET(add_double, add_d) SET(sub_double, sub_d) SET(mul_double, mul_d) SET(div_double, div_d)
  SET(cmp_float, cmp_f) SET(cmp_double, cmp_d)
  SET(fma_float, fma_f) SET(fma_double, fma_d)
  SET(cast_double_to_float, cast_df)
  SET(enter_function, enter_fn) SET(exit_function, exit_fn)
  SET(user_call, user_call) SET(finalize, finalize)
  return b;
}
