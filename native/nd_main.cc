// Runs a module over a range of seeds: nd_main FROM TO [ONLY]
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
extern "C" int nd_run(uint64_t seed, const char *only, char *out, int cap);
int main(int argc, char **argv) {
  static char buf[16384]; int rc = 0;
  for (uint64_t s = strtoull(argv[1], 0, 10), e = strtoull(argv[2], 0, 10); s < e; s++) {
    printf("=%llu\n", (unsigned long long)s); fflush(stdout);
    int x = nd_run(s, argc > 3 ? argv[3] : "", buf, sizeof buf);
    fputs(buf, stdout); printf("~%d\n", x); fflush(stdout); if (x > rc) rc = x;
  }
  fflush(stdout); _exit(rc);   // the process's pool is never destroyed
}
