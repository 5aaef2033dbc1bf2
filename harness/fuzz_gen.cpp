// libFuzzer target: the whole generator (its main() renamed gen_main) runs in-process on every input file.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" int gen_main(int argc, char** argv);

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static int fd = -1;
  static std::string path;
  static const char* out = getenv("FUZZ_OUT");
  if (fd < 0) {
    fd = memfd_create("in.dbc", 0);
    path = "/proc/self/fd/" + std::to_string(fd);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
  }
  if (size < 1) return 0;
  uint8_t flags = data[size - 1];
  if (ftruncate(fd, 0) != 0 || pwrite(fd, data, size - 1, 0) != (ssize_t)(size - 1)) abort();
  std::vector<std::string> a = {"coderdbc", "-dbc", path, "-out", out, "-drvname", "drv", "-rw"};
  if (flags & 1) a.push_back("-nodeutils");
  if (flags & 2) a.push_back("-gendate");
  if (flags & 4) a.push_back("-nofmon");
  std::vector<char*> v;
  for (auto& x : a) v.push_back(&x[0]);
  v.push_back(nullptr);
  gen_main((int)a.size(), v.data());
  return 0;
}
