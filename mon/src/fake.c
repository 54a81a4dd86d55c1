/* A stand-in for a solver. It lives in the directory where it records what it
 * is given and finds what to answer; its file name is the solver's name.
 *   NAME.K.plan or NAME.plan:  delay_ms exit_code signal(0: none, -1: hang) output_file other
 * other: the solver that must have started as often before this one answers ("-": none)
 */
#include <fcntl.h>
#include <libgen.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

static char dir[3000], *name;
static void event(const char *what, long k) {
  char p[4000], l[300];
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  snprintf(p, sizeof p, "%s/events", dir);
  int n = snprintf(l, sizeof l, "%s %s %ld %d %lld\n", what, name, k, (int)getpid(), t.tv_sec * 1000000000LL + t.tv_nsec);
  int f = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (f >= 0) { if (write(f, l, n) < 0) _exit(97); close(f); }
}

int main(int argc, char **argv) {
  char p[4000], buf[65536];
  ssize_t n;
  strncpy(dir, argv[0], sizeof dir - 1);
  name = strrchr(dir, '/');
  if (!name) return 98;
  *name++ = 0;
  alarm(40); /* never stay behind */
  snprintf(p, sizeof p, "%s/%s.count", dir, name);
  int f = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (write(f, "x", 1) != 1) return 98;
  struct stat st;
  fstat(f, &st);
  close(f);
  long k = st.st_size;
  event("start", k);
  /* complete records only: it may be killed at any time */
  char q[4000];
  snprintf(q, sizeof q, "%s/%s.%ld.part", dir, name, k);
  f = open(q, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  for (int i = 1; i < argc; i++) if (write(f, argv[i], strlen(argv[i]) + 1) < 0) return 98;
  close(f);
  snprintf(p, sizeof p, "%s/%s.%ld.args", dir, name, k);
  if (rename(q, p)) return 98;
  int in = argc > 1 ? open(argv[argc - 1], O_RDONLY) : -1;
  if (in >= 0) {
    f = open(q, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    while ((n = read(in, buf, sizeof buf)) > 0) if (write(f, buf, n) != n) return 98;
    close(f);
    close(in);
    snprintf(p, sizeof p, "%s/%s.%ld.smt", dir, name, k);
    if (rename(q, p)) return 98;
  }
  snprintf(p, sizeof p, "%s/%s.%ld.plan", dir, name, k);
  FILE *h = fopen(p, "r");
  if (!h) { snprintf(p, sizeof p, "%s/%s.plan", dir, name); h = fopen(p, "r"); }
  long delay = 0; int rc = 0, sig = 0; char out[3000] = "", other[300] = "-";
  if (h) { if (fscanf(h, "%ld %d %d %2999s %299s", &delay, &rc, &sig, out, other) < 3) return 98; fclose(h); }
  if (sig == -1) for (;;) pause();
  if (other[0] != '-') {
    snprintf(p, sizeof p, "%s/%s.count", dir, other);
    for (int i = 0; i < 4000 && (stat(p, &st) || st.st_size < k); i++) usleep(1000);
  }
  struct timespec ts = {delay / 1000, (delay % 1000) * 1000000L};
  nanosleep(&ts, 0);
  event("answer", k);
  if (*out) {
    f = open(out, O_RDONLY);
    while (f >= 0 && (n = read(f, buf, sizeof buf)) > 0)
      for (ssize_t o = 0; o < n;) { ssize_t w = write(1, buf + o, n - o); if (w <= 0) return 96; o += w; }
  }
  if (sig > 0) { signal(sig, SIG_DFL); kill(getpid(), sig); }
  return rc;
}
