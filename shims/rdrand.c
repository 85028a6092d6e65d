/* Scripted hardware random number generator: every execution of the instruction is answered from a script
 * of successes and failures and logged. A failing instruction clears its destination, as the hardware does. */
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static unsigned char *script; static uint64_t nscript, pos; static int tail = 1;
static uint64_t *vals, nlog, cap; static unsigned char *stat;
static uint64_t ctr = 0x1234567;

static int step(uint64_t *v) {
  pthread_mutex_lock(&mu);
  int ok = pos < nscript ? script[pos] : tail;
  pos++;
  uint64_t z = 0;
  if (ok) {
    do {
      z = (ctr += 0x9E3779B97F4A7C15ULL);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
    } while (z == 0 || z == ~0ULL);
  }
  if (nlog == cap) { cap = cap ? 2 * cap : 4096; vals = realloc(vals, cap * 8); stat = realloc(stat, cap); }
  vals[nlog] = z; stat[nlog++] = ok;
  *v = z;
  pthread_mutex_unlock(&mu);
  return ok;
}
int vf_rdrand64(unsigned long long *p) { uint64_t v; int s = step(&v); *p = v; return s; }
int vf_rdrand32(unsigned int *p) { uint64_t v; int s = step(&v); *p = (unsigned int)v; return s; }
int vf_rdrand16(unsigned short *p) { uint64_t v; int s = step(&v); *p = (unsigned short)v; return s; }

void vf_script(const unsigned char *s, uint64_t n, int t, uint64_t seed) {
  pthread_mutex_lock(&mu);
  free(script); script = malloc(n + 1); memcpy(script, s, n); nscript = n; pos = 0; tail = t; nlog = 0; ctr = seed;
  pthread_mutex_unlock(&mu);
}
uint64_t vf_count(void) { return nlog; }
void vf_log(uint64_t from, uint64_t n, uint64_t *v, unsigned char *s) { memcpy(v, vals + from, n * 8); memcpy(s, stat + from, n); }
