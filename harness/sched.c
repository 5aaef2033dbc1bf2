/* sched MARK SCHEDULE LOG CMDFILE: runs several programs under ptrace and lets exactly one of them proceed at a time.
 * CMDFILE: one program per line, arguments separated by tabs; its standard output goes to LOG.<n>.
 * A program stops in front of every file system call whose path (or descriptor's path) contains MARK.
 * SCHEDULE: "seg:P,N;P,N;..." lets program P pass N such calls, and so on; what is left runs to its end in the order of the programs.
 *           "rnd:SEED:PERMILLE" changes to a random program with the given probability in front of every call.
 * LOG: "P syscall path" per passed call, then "exit P status" per program. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#define MAXP 8
static struct { pid_t pid; int done, status, in; long passed; char what[700]; } P[MAXP];
static int n;
static const char* mark;
static FILE* lg;

static const struct { long nr; int kind; const char* name; } CALLS[] = {
    /* kind 0: path in argument 0, 1: path in argument 1, 2: descriptor in argument 0 */
    {SYS_open, 0, "open"}, {SYS_openat, 1, "openat"}, {SYS_creat, 0, "creat"}, {SYS_mkdir, 0, "mkdir"}, {SYS_mkdirat, 1, "mkdirat"}, {SYS_stat, 0, "stat"}, {SYS_lstat, 0, "lstat"},
    {SYS_newfstatat, 1, "newfstatat"}, {SYS_statx, 1, "statx"}, {SYS_access, 0, "access"}, {SYS_faccessat, 1, "faccessat"}, {SYS_faccessat2, 1, "faccessat2"}, {SYS_unlink, 0, "unlink"},
    {SYS_unlinkat, 1, "unlinkat"}, {SYS_rename, 0, "rename"}, {SYS_renameat, 1, "renameat"}, {SYS_renameat2, 1, "renameat2"}, {SYS_rmdir, 0, "rmdir"}, {SYS_link, 0, "link"},
    {SYS_linkat, 1, "linkat"}, {SYS_symlink, 1, "symlink"}, {SYS_truncate, 0, "truncate"}, {SYS_readlink, 0, "readlink"}, {SYS_write, 2, "write"}, {SYS_writev, 2, "writev"},
    {SYS_pwrite64, 2, "pwrite64"}, {SYS_ftruncate, 2, "ftruncate"}, {SYS_close, 2, "close"}, {SYS_getdents64, 2, "getdents64"}, {SYS_chdir, 0, "chdir"}, {SYS_flock, 2, "flock"}};

static int relevant(int i) {
  struct user_regs_struct r;
  if (ptrace(PTRACE_GETREGS, P[i].pid, 0, &r)) return 0;
  for (size_t c = 0; c < sizeof CALLS / sizeof *CALLS; c++)
    if ((long)r.orig_rax == CALLS[c].nr) {
      char b[600] = {0};
      if (CALLS[c].kind == 2) {
        char l[64];
        snprintf(l, sizeof l, "/proc/%d/fd/%d", P[i].pid, (int)r.rdi);
        if (readlink(l, b, sizeof b - 1) < 0) return 0;
      } else {
        unsigned long a = CALLS[c].kind ? r.rsi : r.rdi;
        for (size_t k = 0; k + 8 < sizeof b; k += 8) {
          errno = 0;
          long w = ptrace(PTRACE_PEEKDATA, P[i].pid, a + k, 0);
          if (errno) break;
          memcpy(b + k, &w, 8);
          if (memchr(&w, 0, 8)) break;
        }
      }
      if (!strstr(b, mark)) return 0;
      snprintf(P[i].what, sizeof P[i].what, "%s %s", CALLS[c].name, strstr(b, mark));
      return 1;
    }
  return 0;
}

/* lets program i run until it stands in front of a relevant call or has ended. */
static void advance(int i) {
  int sig = 0, st;
  if (P[i].done) return;
  for (;;) {
    if (ptrace(PTRACE_SYSCALL, P[i].pid, 0, (void*)(long)sig) && errno == ESRCH) { P[i].done = 1; P[i].status = -1; return; }
    sig = 0;
    if (waitpid(P[i].pid, &st, 0) < 0) { P[i].done = 1; P[i].status = -2; return; }
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      P[i].done = 1;
      P[i].status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
      return;
    }
    if (WSTOPSIG(st) == (SIGTRAP | 0x80)) {
      P[i].in = !P[i].in;
      if (P[i].in && relevant(i)) return;
    } else if (WSTOPSIG(st) == SIGTRAP) {
      P[i].in = 0; /* execve */
    } else
      sig = WSTOPSIG(st);
  }
}

static int alive(void) { int k = 0; for (int i = 0; i < n; i++) k += !P[i].done; return k; }

static void pass(int i) {
  if (P[i].done) return;
  fprintf(lg, "%d %s\n", i, P[i].what);
  P[i].passed++;
  advance(i);
}

int main(int argc, char** argv) {
  if (argc != 5) return 99;
  mark = argv[1];
  lg = fopen(argv[3], "w");
  FILE* f = fopen(argv[4], "r");
  static char line[70000];
  if (!lg || !f) return 99;
  while (n < MAXP && fgets(line, sizeof line, f)) {
    char* av[200]; int k = 0;
    line[strcspn(line, "\n")] = 0;
    for (char* t = strtok(line, "\t"); t && k < 199; t = strtok(0, "\t")) av[k++] = t;
    av[k] = 0;
    pid_t p = fork();
    if (p < 0) return 99;
    if (p == 0) {
      char o[600];
      snprintf(o, sizeof o, "%s.%d", argv[3], n);
      int fd = open(o, O_WRONLY | O_CREAT | O_TRUNC, 0644);
      dup2(fd, 1); dup2(fd, 2); close(fd);
      ptrace(PTRACE_TRACEME, 0, 0, 0);
      raise(SIGSTOP);
      execv(av[0], av);
      _exit(98);
    }
    int st;
    P[n].pid = p;
    if (waitpid(p, &st, 0) < 0 || !WIFSTOPPED(st)) return 99;
    if (ptrace(PTRACE_SETOPTIONS, p, 0, (void*)(long)(PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL))) return 99;
    n++;
  }
  for (int i = 0; i < n; i++) advance(i);
  if (!strncmp(argv[2], "seg:", 4)) {
    char* s = argv[2] + 4;
    while (*s) {
      int p = (int)strtol(s, &s, 10); long c = 0;
      if (*s == ',') c = strtol(s + 1, &s, 10);
      if (*s == ';') s++;
      while (p < n && c-- > 0 && !P[p].done) pass(p);
    }
  } else {
    uint64_t x = 0; unsigned pm = 0;
    if (sscanf(argv[2], "rnd:%lu:%u", &x, &pm) != 2) return 99;
    x = x * 2654435761u + 88172645463325252ull;
    int cur = (int)(x >> 20) % n;
    if (cur < 0) cur = 0;
    while (alive()) {
      x ^= x << 13; x ^= x >> 7; x ^= x << 17;
      if (P[cur].done || (x >> 11) % 1000 < pm) {
        do { x ^= x << 13; x ^= x >> 7; x ^= x << 17; cur = (int)((x >> 11) % (unsigned)n); } while (P[cur].done);
      }
      pass(cur);
    }
  }
  for (int i = 0; i < n; i++) while (!P[i].done) pass(i);
  for (int i = 0; i < n; i++) fprintf(lg, "exit %d %d %ld\n", i, P[i].status, P[i].passed);
  fclose(lg);
  return 0;
}
