/* Stand-in for a test executable run by vfc_ci: the n-th run under a back-end copies the file
 * w/<name>.<hash of VFC_BACKENDS>.<n> to VFC_PROBES_OUTPUT, and records how it was called. */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

int main(int argc, char **argv) {
  const char *be = getenv("VFC_BACKENDS"), *out = getenv("VFC_PROBES_OUTPUT");
  const char *name = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  unsigned long long h = 14695981039346656037ull;
  char p[600];
  static char buf[1 << 20];
  int n, fd = -1, rc = 0;
  for (const char *c = be ? be : ""; *c; c++)
    h = (h ^ (unsigned char)*c) * 1099511628211ull;
  for (n = 0;; n++) {
    snprintf(p, sizeof p, "w/%s.%016llx.%d.log", name, h, n);
    fd = open(p, O_CREAT | O_EXCL | O_WRONLY, 0644);
    if (fd >= 0 || n > 5000)
      break;
  }
  FILE *l = fdopen(fd, "w");
  fprintf(l, "%s\n", be ? be : "(none)");
  for (int i = 1; i < argc; i++)
    fprintf(l, "%s\n", argv[i]);
  fclose(l);
  snprintf(p, sizeof p, "w/%s.%016llx.%d", name, h, n);
  FILE *f = fopen(p, "r");
  if (!f)
    return 3;
  if (fscanf(f, "%d", &rc) != 1)
    return 4;
  fgetc(f);
  size_t k = fread(buf, 1, sizeof buf, f);
  fclose(f);
  if (out && k) {
    FILE *o = fopen(out, "w");
    if (!o)
      return 5;
    fwrite(buf, 1, k, o);
    fclose(o);
  }
  if (rc == 99)
    abort();
  return rc;
}
