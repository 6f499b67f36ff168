/* Command interpreter linked with verificarlo's run-time wrapper (vfcwrapper.c of
 * the tree under test).  It plays the role of an instrumented program: every record
 * read on stdin is one instrumented operation, executed through the very entry
 * points that instrumented code calls, with the back-ends chosen by the
 * environment.  Results are written on stdout.
 *
 *   record  = op:u8 type:u8 lanes:u8 thread:u8 aux:i32 operands:u64[...]
 *   results = u64[lanes]
 *
 * argv[1] = "seq": records run in order, each on the thread it names
 *         = "env": prints the back-end variables that a child process inherits
 *         = "par": one real thread per thread id, each runs its own records
 */
#define main vfc_unused_main
#include "vfcwrapper.c"
#undef main
#include <pthread.h>
#include <semaphore.h>
#include <stdint.h>

enum { ADD, SUB, MUL, DIV, FMA, CAST, CMP, CALL, INEXACT, INEXACTQ };

typedef struct {
  uint8_t op, type, lanes, thread;
  int32_t aux;
} hdr_t;

typedef struct {
  hdr_t h;
  const uint64_t *in;
  uint64_t *out;
} rec_t;

static float f_of(uint64_t u) {
  float f;
  uint32_t v = (uint32_t)u;
  memcpy(&f, &v, 4);
  return f;
}
static double d_of(uint64_t u) {
  double f;
  memcpy(&f, &u, 8);
  return f;
}
static uint64_t u_of_f(float f) {
  uint32_t v;
  memcpy(&v, &f, 4);
  return v;
}
static uint64_t u_of_d(double f) {
  uint64_t v;
  memcpy(&v, &f, 8);
  return v;
}

#define VEC(P, N, OFN, UFN)                                                    \
  do {                                                                         \
    P##N a, b, c;                                                              \
    for (int i = 0; i < N; i++) {                                              \
      a[i] = OFN(r->in[i]);                                                    \
      b[i] = OFN(r->in[N + i]);                                                \
    }                                                                          \
    switch (r->h.op) {                                                         \
    case ADD:                                                                  \
      c = _##N##x##P##add(a, b);                                               \
      break;                                                                   \
    case SUB:                                                                  \
      c = _##N##x##P##sub(a, b);                                               \
      break;                                                                   \
    case MUL:                                                                  \
      c = _##N##x##P##mul(a, b);                                               \
      break;                                                                   \
    case DIV:                                                                  \
      c = _##N##x##P##div(a, b);                                               \
      break;                                                                   \
    default: {                                                                 \
      int##N d = _##N##x##P##cmp(r->h.aux, a, b);                              \
      for (int i = 0; i < N; i++)                                              \
        r->out[i] = (uint64_t)(int64_t)d[i];                                   \
      return;                                                                  \
    }                                                                          \
    }                                                                          \
    for (int i = 0; i < N; i++)                                                \
      r->out[i] = UFN(c[i]);                                                   \
  } while (0)

static void run_one(rec_t *r) {
  const uint64_t *x = r->in;
  uint64_t *o = r->out;
  if (r->h.op == CALL) {
    interflop_call(r->h.aux, (int)(int64_t)x[0]);
    o[0] = 0;
    return;
  }
  if (r->h.op == INEXACTQ) {
    uint64_t q[2] __attribute__((aligned(16)));
    memcpy(q, x, 16);
    interflop_call(INTERFLOP_INEXACT_ID, FQUAD, q, (int)r->h.aux);
    memcpy(o, q, 16);
    return;
  }
  if (r->h.op == INEXACT) {
    if (r->h.type == 0) {
      float f = f_of(x[0]);
      interflop_call(INTERFLOP_INEXACT_ID, FFLOAT, &f, (int)r->h.aux);
      o[0] = u_of_f(f);
    } else {
      double f = d_of(x[0]);
      interflop_call(INTERFLOP_INEXACT_ID, FDOUBLE, &f, (int)r->h.aux);
      o[0] = u_of_d(f);
    }
    return;
  }
  if (r->h.type == 0) {
    switch (r->h.lanes) {
    case 2:
      VEC(float, 2, f_of, u_of_f);
      return;
    case 4:
      VEC(float, 4, f_of, u_of_f);
      return;
    case 8:
      VEC(float, 8, f_of, u_of_f);
      return;
    case 16:
      VEC(float, 16, f_of, u_of_f);
      return;
    }
    float a = f_of(x[0]), b = 0, c = 0;
    if (r->h.op != CAST)
      b = f_of(x[1]);
    switch (r->h.op) {
    case ADD:
      o[0] = u_of_f(_floatadd(a, b));
      break;
    case SUB:
      o[0] = u_of_f(_floatsub(a, b));
      break;
    case MUL:
      o[0] = u_of_f(_floatmul(a, b));
      break;
    case DIV:
      o[0] = u_of_f(_floatdiv(a, b));
      break;
    case FMA:
      c = f_of(x[2]);
      o[0] = u_of_f(_floatfma(a, b, c));
      break;
    case CMP:
      o[0] = (uint64_t)(int64_t)_floatcmp(r->h.aux, a, b);
      break;
    }
  } else {
    switch (r->h.lanes) {
    case 2:
      VEC(double, 2, d_of, u_of_d);
      return;
    case 4:
      VEC(double, 4, d_of, u_of_d);
      return;
    case 8:
      VEC(double, 8, d_of, u_of_d);
      return;
    case 16:
      VEC(double, 16, d_of, u_of_d);
      return;
    }
    double a = d_of(x[0]), b = 0, c = 0;
    if (r->h.op != CAST)
      b = d_of(x[1]);
    switch (r->h.op) {
    case ADD:
      o[0] = u_of_d(_doubleadd(a, b));
      break;
    case SUB:
      o[0] = u_of_d(_doublesub(a, b));
      break;
    case MUL:
      o[0] = u_of_d(_doublemul(a, b));
      break;
    case DIV:
      o[0] = u_of_d(_doublediv(a, b));
      break;
    case FMA:
      c = d_of(x[2]);
      o[0] = u_of_d(_doublefma(a, b, c));
      break;
    case CMP:
      o[0] = (uint64_t)(int64_t)_doublecmp(r->h.aux, a, b);
      break;
    case CAST:
      o[0] = u_of_f(_doubletofloatcast(a));
      break;
    }
  }
}

static int n_in(const hdr_t *h) {
  if (h->op == CAST || h->op == CALL || h->op == INEXACT ||
      h->op == INEXACTQ)
    return h->lanes;
  if (h->op == FMA)
    return 3 * h->lanes;
  return 2 * h->lanes;
}

/* ---- sequential mode with real threads, handed runs of records ---- */
static sem_t go[256], done;
static rec_t *job[256];
static size_t jobn[256];

static void *seq_worker(void *arg) {
  long k = (long)arg;
  for (;;) {
    while (sem_wait(&go[k]))
      ;
    if (!job[k])
      return NULL;
    for (size_t i = 0; i < jobn[k]; i++)
      run_one(&job[k][i]);
    sem_post(&done);
  }
}

static rec_t *recs;
static size_t nrec;
static pthread_barrier_t bar;
static void *par_worker(void *arg) {
  long k = (long)arg;
  pthread_barrier_wait(&bar);
  for (size_t i = 0; i < nrec; i++)
    if (recs[i].h.thread == k)
      run_one(&recs[i]);
  return NULL;
}

int main(int argc, char **argv) {
  if (argc > 1 && strcmp(argv[1], "env") == 0) /* the environment of a child process */
    return system("printenv VFC_BACKENDS; printenv VFC_BACKENDS_FROM_FILE; true");
  size_t cap = 1 << 20, len = 0;
  char *buf = malloc(cap);
  size_t n;
  while ((n = fread(buf + len, 1, cap - len, stdin)) > 0) {
    len += n;
    if (len == cap)
      buf = realloc(buf, cap *= 2);
  }
  size_t nr = 0, no = 0, pos = 0;
  int used[256] = {0};
  while (pos + 8 <= len) {
    hdr_t h;
    memcpy(&h, buf + pos, 8);
    pos += 8 + 8 * (size_t)n_in(&h);
    nr++;
    no += h.lanes;
    used[h.thread] = 1;
  }
  recs = calloc(nr + 1, sizeof *recs);
  uint64_t *out = calloc(no + 1, 8);
  pos = 0;
  no = 0;
  for (size_t i = 0; i < nr; i++) {
    memcpy(&recs[i].h, buf + pos, 8);
    recs[i].in = (const uint64_t *)(buf + pos + 8);
    recs[i].out = out + no;
    pos += 8 + 8 * (size_t)n_in(&recs[i].h);
    no += recs[i].h.lanes;
  }
  nrec = nr;
  pthread_t th[256];
  int par = argc > 1 && strcmp(argv[1], "par") == 0;
  if (par) {
    int cnt = 0;
    for (int k = 0; k < 256; k++)
      cnt += used[k];
    pthread_barrier_init(&bar, NULL, cnt);
    for (long k = 0; k < 256; k++)
      if (used[k])
        pthread_create(&th[k], NULL, par_worker, (void *)k);
    for (int k = 0; k < 256; k++)
      if (used[k])
        pthread_join(th[k], NULL);
  } else {
    sem_init(&done, 0, 0);
    for (long k = 1; k < 256; k++)
      if (used[k]) {
        sem_init(&go[k], 0, 0);
        pthread_create(&th[k], NULL, seq_worker, (void *)k);
      }
    for (size_t i = 0; i < nr;) {
      int k = recs[i].h.thread;
      size_t e = i + 1;
      while (e < nr && recs[e].h.thread == k)
        e++;
      if (k == 0) {
        for (; i < e; i++)
          run_one(&recs[i]);
        continue;
      }
      job[k] = &recs[i];
      jobn[k] = e - i;
      sem_post(&go[k]);
      while (sem_wait(&done))
        ;
      i = e;
    }
    for (int k = 1; k < 256; k++)
      if (used[k]) {
        job[k] = NULL;
        sem_post(&go[k]);
      }
    for (int k = 1; k < 256; k++)
      if (used[k])
        pthread_join(th[k], NULL);
  }
  fwrite(out, 8, no, stdout);
  fflush(stdout);
  return 0;
}
