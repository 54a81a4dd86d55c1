/* Preloaded into the tool: makes the I/O calls it issues fail, be interrupted
 * or transfer less than asked, as planned, and records every call it saw.
 *   CVSHIM_EXE   only the process running this executable is touched
 *   CVSHIM_ROOT  files below this directory are concerned (and stdin, and pipes)
 *   CVSHIM_PLAN  "class.op:n:action:arg;..."  class f(ile) i(nput) p(ipe), op
 *                open|read|write|mkdir|close|pipe|spawn, n-th call (0: every one)
 *                action err (arg: errno), short (arg: bytes), intr (before every
 *                second call)
 *   CVSHIM_LOG   one line per call: class.op n result
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXFD 1024
static int active, logfd = -1, nplan;
static char root[4000], class_of[MAXFD];
static size_t rootlen;
struct plan { char op[16]; long n; int act; long arg; } plans[64];
static struct { char op[16]; long n; long calls; } ops[32];
static int nops;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

__attribute__((constructor)) static void start(void) {
  const char *exe = getenv("CVSHIM_EXE"), *r = getenv("CVSHIM_ROOT"), *p = getenv("CVSHIM_PLAN"), *l = getenv("CVSHIM_LOG");
  char me[4000];
  ssize_t n = readlink("/proc/self/exe", me, sizeof me - 1);
  if (n < 0 || !exe || !r) return;
  me[n] = 0;
  if (strcmp(me, exe)) return;
  strncpy(root, r, sizeof root - 1);
  rootlen = strlen(root);
  if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  if (logfd >= 0) { int f = syscall(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, logfd); logfd = f; }
  char buf[4000] = "", *save, *t;
  if (p) strncpy(buf, p, sizeof buf - 1);
  for (t = strtok_r(buf, ";", &save); t && nplan < 64; t = strtok_r(0, ";", &save)) {
    struct plan *q = &plans[nplan];
    char act[16];
    if (sscanf(t, "%15[^:]:%ld:%15[^:]:%ld", q->op, &q->n, act, &q->arg) < 3) continue;
    q->act = *act;
    nplan++;
  }
  class_of[0] = 'i';
  active = 1;
}

/* the plan for this call, and its number */
static struct plan *next(char c, const char *what, long *no, char *op) {
  sprintf(op, "%c.%s", c, what);
  pthread_mutex_lock(&mu);
  int i;
  for (i = 0; i < nops && strcmp(ops[i].op, op); i++);
  if (i == nops) { strcpy(ops[i].op, op); nops++; }
  long calls = ops[i].calls++;
  struct plan *r = 0;
  for (int j = 0; j < nplan && !r; j++)
    if (!strcmp(plans[j].op, op)) {
      if (plans[j].act == 'i') { if (calls % 2 == 0 && (!plans[j].n || plans[j].n == calls / 2 + 1)) r = &plans[j]; }
      else if (!plans[j].n || plans[j].n == calls + 1) r = &plans[j];
    }
  *no = calls + 1;
  pthread_mutex_unlock(&mu);
  return r;
}
static void note(const char *op, long no, long res, int err, const char *how) {
  char l[200];
  int n = snprintf(l, sizeof l, "%s %ld %ld %d %s\n", op, no, res, err, how);
  if (logfd >= 0) syscall(SYS_write, logfd, l, n);
}
static char cls(int fd) { return fd >= 0 && fd < MAXFD ? class_of[fd] : 0; }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name);
#define FAIL(op) if (p && (p->act == 'e' || p->act == 'i')) { int e = p->act == 'i' ? EINTR : p->arg; note(op, no, -1, e, "fault"); errno = e; return -1; }

static int do_open(int (*real)(const char *, int, ...), const char *path, int flags, int mode) {
  if (!active || strncmp(path, root, rootlen)) return real(path, flags, mode);
  long no; char op[16];
  struct plan *p = next('f', "open", &no, op);
  FAIL(op)
  int fd = real(path, flags, mode);
  int e = errno;
  if (fd >= 0 && fd < MAXFD) class_of[fd] = 'f';
  note(op, no, fd, fd < 0 ? e : 0, "-");
  errno = e;
  return fd;
}
int open(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  REAL(int, "open", const char *, int, ...)
  return do_open(real, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  REAL(int, "open64", const char *, int, ...)
  return do_open(real, path, flags, mode);
}
ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, "read", int, void *, size_t)
  char c = cls(fd);
  if (!active || !c) return real(fd, b, n);
  long no; char op[16];
  struct plan *p = next(c, "read", &no, op);
  FAIL(op)
  if (p && p->act == 's' && n > (size_t)p->arg) n = p->arg;
  ssize_t k = real(fd, b, n);
  int e = errno;
  note(op, no, k, k < 0 ? e : 0, p ? "fault" : "-");
  errno = e;
  return k;
}
ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t)
  char c = cls(fd);
  if (!active || c != 'f') return real(fd, b, n);
  long no; char op[16];
  struct plan *p = next(c, "write", &no, op);
  FAIL(op)
  if (p && p->act == 's' && n > (size_t)p->arg) n = p->arg;
  ssize_t k = real(fd, b, n);
  int e = errno;
  note(op, no, k, k < 0 ? e : 0, p ? "fault" : "-");
  errno = e;
  return k;
}
int mkdir(const char *path, mode_t m) {
  REAL(int, "mkdir", const char *, mode_t)
  if (!active || strncmp(path, root, rootlen)) return real(path, m);
  long no; char op[16];
  struct plan *p = next('f', "mkdir", &no, op);
  FAIL(op)
  int k = real(path, m), e = errno;
  note(op, no, k, k < 0 ? e : 0, "-");
  errno = e;
  return k;
}
int close(int fd) {
  REAL(int, "close", int)
  if (active && fd >= 0 && fd < MAXFD && fd != 0) class_of[fd] = 0;
  return real(fd);
}
int pipe2(int fds[2], int flags) {
  REAL(int, "pipe2", int *, int)
  if (!active) return real(fds, flags);
  long no; char op[16];
  struct plan *p = next('p', "pipe", &no, op);
  FAIL(op)
  int k = real(fds, flags);
  if (!k && fds[0] < MAXFD && fds[1] < MAXFD) class_of[fds[0]] = class_of[fds[1]] = 'p';
  note(op, no, k, 0, "-");
  return k;
}
static int do_spawn(int (*real)(pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[]),
                    pid_t *pid, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) {
  if (!active) return real(pid, f, a, t, v, e);
  long no; char op[16];
  struct plan *p = next('p', "spawn", &no, op);
  if (p) { note(op, no, -1, p->arg, "fault"); return p->arg; }
  int k = real(pid, f, a, t, v, e);
  note(op, no, k, k, "-");
  return k;
}
int posix_spawnp(pid_t *pid, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) {
  REAL(int, "posix_spawnp", pid_t *, const char *, const posix_spawn_file_actions_t *, const posix_spawnattr_t *, char *const[], char *const[])
  return do_spawn(real, pid, f, a, t, v, e);
}
