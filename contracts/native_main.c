/* replay driver: reads "tag value" lines and runs the contract harness on the real code */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>

/* the harness defines the globals of the files it replaces a second time */
const char *__asan_default_options(void) { return "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0"; }

static FILE *s_in, *s_rec;
static int s_verbose = 1, s_random = 0;
static unsigned long long s_state;

static unsigned int rnd(void) {
  s_state = s_state * 6364136223846793005ULL + 1442695040888963407ULL;
  return (unsigned int)(s_state >> 32);
}

static long long rnd_range(long long lo, long long hi) {
  unsigned int k = rnd();
  if (k % 8 == 0) return lo;
  if (k % 8 == 1) return hi;
  if (k % 8 == 2 && hi - lo > 16) return lo + rnd() % 16;
  return lo + (long long)((((unsigned long long)rnd() << 32) | rnd()) % (unsigned long long)(hi - lo + 1));
}

void harness(void);

static void next_line(const char *tag, char *val, int n) {
  char line[256], t[128];
  while (fgets(line, sizeof(line), s_in) != NULL) {
    if (line[0] == '#' || line[0] == '\n') continue;
    if (sscanf(line, "%127s %127s", t, val) != 2) continue;
    if (strcmp(t, tag) != 0) {
      fprintf(stderr, "REPLAY-MISMATCH: wanted %s, file has %s\n", tag, t);
      exit(78);
    }
    (void)n;
    return;
  }
  /* input not constrained by the counterexample */
  strcpy(val, "0");
}

long long vc_next_int(const char *tag) {
  char v[128];
  long long x;
  if (s_random) {
    static const int special[] = { 0, 1, -1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536 };
    unsigned int k = rnd();
    x = k % 4 == 0 ? special[rnd() % 12] : k % 4 == 1 ? (int)rnd() : (int)(rnd() % 16);
    fprintf(s_rec, "%s %lld\n", tag, x);
    return x;
  }
  next_line(tag, v, sizeof(v));
  x = strtoll(v, NULL, 0);
  if (s_verbose) fprintf(stderr, "  input %s = %lld\n", tag, x);
  return x;
}

double vc_next_double(const char *tag) {
  char v[128];
  double x;
  next_line(tag, v, sizeof(v));
  x = strtod(v, NULL);
  if (s_verbose) fprintf(stderr, "  input %s = %.17g\n", tag, x);
  return x;
}

int vc_next_range(const char *tag, int lo, int hi) {
  long long x;
  if (s_random) {
    x = rnd_range(lo, hi);
    fprintf(s_rec, "%s %lld\n", tag, x);
    return (int)x;
  }
  x = vc_next_int(tag);
  if (x < lo) x = lo;      /* an input the counterexample does not fix */
  return (int)x;
}

void vc_assume_failed(const char *what, int line) {
  if (s_random) _exit(79);
  fprintf(stderr, "REPLAY-INVALID: precondition not met: %s (line %d)\n", what, line);
  exit(79);
}

void vc_check_failed(const char *what, int line) {
  fprintf(stderr, "REPLAY-CONFIRMED: CHECK failed on the real code: %s (line %d)\n", what, line);
  exit(77);
}

void vc_reach(const char *what) { (void)what; }

/* main FILE                       replays the inputs in FILE
   main --random SEED COUNT FILE   runs the harness on random inputs; FILE holds those of the
                                   first run that breaks the contract (status 77) */
int main(int argc, char **argv) {
  if (argc > 4 && strcmp(argv[1], "--random") == 0) {
    int i, n = atoi(argv[3]), st, left = 10 * n;
    unsigned long long seed = strtoull(argv[2], NULL, 0);
    for (i = 0; i < n; i++) {
      pid_t p;
      fflush(NULL);
      p = fork();
      if (p == 0) {
        int j;
        s_random = 1; s_state = seed * 1000003ULL + (unsigned long long)i * 2654435761ULL;
        for (j = 0; j < 4; j++) rnd();
        s_rec = fopen(argv[4], "w");
        if (s_rec == NULL) _exit(80);
        setvbuf(s_rec, NULL, _IOLBF, 4096);
        alarm(10);
        harness();
        fflush(s_rec);
        _exit(0);
      }
      if (p < 0) return 80;
      waitpid(p, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 79 && left-- > 0) n++;      /* not a run of the code */
      if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 78 || WEXITSTATUS(st) == 79 || WEXITSTATUS(st) == 80)) continue;
      return 77;
    }
    return 0;
  }
  if (argc < 2) return 80;
  s_in = fopen(argv[1], "r");
  if (s_in == NULL) return 80;
  harness();
  fprintf(stderr, "REPLAY-PASSED: no contract violated\n");
  return 0;
}
