#include "vp.h"
#include <signal.h>
#include <unistd.h>
static FILE *f; static unsigned used;
uint32_t vp_next_input(uint32_t mask) { unsigned long v = 0; if (f && fscanf(f, "%lu", &v) == 1) used++; else v = 0; return (uint32_t)v & mask; }
void vp_fail(const char *m, const char *file, int line) { printf("REPLAY-CHECK-FAILED: %s (%s:%d)\n", m, file, line); fflush(stdout); _exit(77); }
void vp_assume_failed(const char *m) { printf("REPLAY-ASSUMPTION-FALSE: %s\n", m); fflush(stdout); _exit(78); }
void vp_cover(const char *m) { printf("REPLAY-COVER: %s\n", m); fflush(stdout); }
static void hang(int s) { (void)s; static const char m[] = "REPLAY-HANG\n"; (void)!write(1, m, sizeof m - 1); _exit(79); }
int main(int c, char **v) { if (c > 1) f = fopen(v[1], "r"); signal(SIGALRM, hang); alarm(20); harness(); printf("REPLAY-PASSED\n"); return 0; }
