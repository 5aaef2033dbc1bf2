/* rss CMD ARGS...: runs the command and prints its exit status and peak memory (kB). A process of its own, so that only the command's memory counts. */
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/wait.h>
int main(int argc, char** argv) {
  pid_t p = fork();
  if (!p) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); execv(argv[1], argv + 1); _exit(127); }
  int st = 0; struct rusage ru;
  if (wait4(p, &st, 0, &ru) < 0) return 1;
  printf("%d %ld\n", st, ru.ru_maxrss);
  return 0;
}
