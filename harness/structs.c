/* interpreter of operation histories on the hash map and on the probes */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "interflop/interflop.h"
#include "interflop/interflop_stdlib.h"
#include "interflop/hashmap/vfc_hashmap.h"
typedef struct { vfc_hashmap_t map; } probes_t;
probes_t vfc_init_probes();
void vfc_init_probes_f(probes_t *);
void vfc_free_probes(probes_t *);
int vfc_probe(probes_t *, char *, char *, double);
int vfc_probe_check(probes_t *, char *, char *, double, double);
int vfc_probe_check_relative(probes_t *, char *, char *, double, double);
int vfc_probe_f(probes_t *, char *, char *, double *);
int vfc_probe_check_f(probes_t *, char *, char *, double *, double *);
int vfc_probe_check_relative_f(probes_t *, char *, char *, double *, double *);
unsigned int vfc_num_probes(probes_t *);
int vfc_dump_probes(probes_t *);
static long live;
static void *my_malloc(size_t n) { live++; return malloc(n); }
static void *my_calloc(size_t n, size_t m) { live++; return calloc(n, m); }
static void my_free(void *p) { if (p) live--; free(p); }
static char buf[1 << 20];
static char *unhex(const char *s) {
  size_t n = strlen(s) / 2; char *r = malloc(n + 1);
  for (size_t i = 0; i < n; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); r[i] = x; }
  r[n] = 0; return r; }
static double dbl(const char *s) { uint64_t u = strtoull(s, NULL, 16); double d; memcpy(&d, &u, 8); return d; }
static int cmp(const void *a, const void *b) { long x = *(long *)a, y = *(long *)b; return x < y ? -1 : x > y; }
static void id(void *p) { if (!p) printf("-\n"); else if ((size_t)p < 4096) printf("dangling %zu\n", (size_t)p); else printf("%ld\n", *(long *)p); }
int main(int argc, char **argv) {
  interflop_set_handler("malloc", my_malloc); interflop_set_handler("calloc", my_calloc); interflop_set_handler("free", my_free);
  vfc_hashmap_t m = NULL; probes_t pr; 
  while (fgets(buf, sizeof buf, stdin)) {
    char *v[8]; int n = 0; for (char *t = strtok(buf, " \n"); t && n < 8; t = strtok(NULL, " \n")) v[n++] = t;
    if (!n) continue;
    size_t k = n > 1 ? strtoull(v[1], NULL, 16) : 0;
    switch (v[0][0]) {
    case 'C': m = vfc_hashmap_create(); break;
    case 'i': { long *p = my_malloc(sizeof(long)); *p = atol(v[2]); vfc_hashmap_insert(m, k, p); break; }
    case 'g': id(vfc_hashmap_get(m, k)); break;
    case 'h': printf("%d\n", vfc_hashmap_have(m, k) ? 1 : 0); break;
    case 'r': { void *p = vfc_hashmap_get(m, k); vfc_hashmap_remove(m, k); if ((size_t)p > 4096) my_free(p); break; }
    case 'n': printf("%zu\n", (size_t)vfc_hashmap_num_items(m)); break;
    case 's': { char *x = unhex(n > 1 ? v[1] : ""); printf("%zx\n", (size_t)vfc_hashmap_str_function(x)); free(x); break; }
    case 'e': { long *a = malloc(sizeof(long) * (m->capacity + 1)); long c = 0;
      for (size_t i = 0; i < m->capacity; i++) { size_t x = get_value_at(m->items, i); if (x > 1) a[c++] = *(long *)x; }
      qsort(a, c, sizeof(long), cmp); for (long i = 0; i < c; i++) printf("%ld ", a[i]); printf("\n"); free(a); break; }
    case 'F': vfc_hashmap_free(m); vfc_hashmap_destroy(m); m = NULL; printf("live %ld\n", live); break;
    /* probes */
    case 'P': if (k) vfc_init_probes_f(&pr); else pr = vfc_init_probes(); break;
    case 'p': { char *a = unhex(v[2] + 1), *b = unhex(v[3] + 1); double x = dbl(v[4]), y = dbl(v[5]); int r = -1;
      switch (k) { case 0: r = vfc_probe(&pr, a, b, x); break; case 1: r = vfc_probe_check(&pr, a, b, x, y); break;
      case 2: r = vfc_probe_check_relative(&pr, a, b, x, y); break; case 3: r = vfc_probe_f(&pr, a, b, &x); break;
      case 4: r = vfc_probe_check_f(&pr, a, b, &x, &y); break; case 5: r = vfc_probe_check_relative_f(&pr, a, b, &x, &y); break; }
      printf("%d\n", r); memset(a, 'Z', strlen(a)); memset(b, 'Z', strlen(b)); free(a); free(b); break; }
    case 'N': printf("%u\n", vfc_num_probes(&pr)); break;
    case 'D': printf("dump %d\n", vfc_dump_probes(&pr)); break;
    case 'Q': vfc_free_probes(&pr); break;
    }
    fflush(stdout);
  }
  printf("end\n");
  return 0;
}
