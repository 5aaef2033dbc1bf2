/* LD_PRELOAD monitor: appends one line per file-system changing call ("op path", path made absolute) to $WLOG. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static void rec(const char* op, const char* path) {
  int saved = errno;
  const char* log = getenv("WLOG");
  if (log && path) {
    static int (*ropen)(const char*, int, ...);
    if (!ropen) ropen = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open");
    int fd = ropen(log, O_WRONLY | O_APPEND | O_CREAT, 0600);
    if (fd >= 0) {
      char buf[20000], cwd[4096];
      int n;
      if (path[0] == '/') n = snprintf(buf, sizeof buf, "%s %s\n", op, path);
      else n = snprintf(buf, sizeof buf, "%s %s/%s\n", op, getcwd(cwd, sizeof cwd) ? cwd : "?", path);
      if (n > (int)sizeof buf) n = sizeof buf;
      if (write(fd, buf, n) < 0) {}
      close(fd);
    }
  }
  errno = saved;
}
#define NEXT(name, ret, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
#define FOPEN(fn) FILE* fn(const char* p, const char* m) { NEXT(#fn, FILE*, const char*, const char*); \
  if (strpbrk(m, "wa+")) rec("write", p); else rec("read", p); return real(p, m); }
FOPEN(fopen)
FOPEN(fopen64)
#define OPEN(fn) int fn(const char* p, int fl, ...) { NEXT(#fn, int, const char*, int, ...); va_list a; va_start(a, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
  if ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)) rec("write", p); else rec("read", p); return real(p, fl, mode); }
OPEN(open)
OPEN(open64)
#define OPENAT(fn) int fn(int d, const char* p, int fl, ...) { NEXT(#fn, int, int, const char*, int, ...); va_list a; va_start(a, fl); int mode = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; va_end(a); \
  if ((fl & O_ACCMODE) != O_RDONLY || (fl & O_CREAT)) rec(d == AT_FDCWD || p[0] == '/' ? "write" : "writeat", p); return real(d, p, fl, mode); }
OPENAT(openat)
OPENAT(openat64)
int creat(const char* p, mode_t m) { NEXT("creat", int, const char*, mode_t); rec("write", p); return real(p, m); }
#define P1(fn) int fn(const char* p) { NEXT(#fn, int, const char*); rec(#fn, p); return real(p); }
P1(unlink) P1(rmdir) P1(remove)
#define P2(fn) int fn(const char* p, const char* q) { NEXT(#fn, int, const char*, const char*); rec(#fn, p); rec(#fn, q); return real(p, q); }
P2(rename) P2(link)
int symlink(const char* p, const char* q) { NEXT("symlink", int, const char*, const char*); rec("symlink", q); return real(p, q); }
int mkdir(const char* p, mode_t m) { NEXT("mkdir", int, const char*, mode_t); int r = real(p, m); if (r == 0) rec("mkdir", p); return r; }
int mkdirat(int d, const char* p, mode_t m) { NEXT("mkdirat", int, int, const char*, mode_t); int r = real(d, p, m); if (r == 0) rec("mkdir", p); return r; }
int unlinkat(int d, const char* p, int f) { NEXT("unlinkat", int, int, const char*, int); rec("unlink", p); return real(d, p, f); }
int renameat(int d, const char* p, int e, const char* q) { NEXT("renameat", int, int, const char*, int, const char*); rec("rename", p); rec("rename", q); return real(d, p, e, q); }
int truncate(const char* p, off_t l) { NEXT("truncate", int, const char*, off_t); rec("write", p); return real(p, l); }
int chmod(const char* p, mode_t m) { NEXT("chmod", int, const char*, mode_t); rec("chmod", p); return real(p, m); }
