/* Memory build (-DMEMORY): records the addresses of all loads and stores of the instrumented code and of libc's copying
   functions, for two runs at a time.  Instrumented build: folds the sequence of executed basic blocks, and the outcome of byte comparisons done by
   libc, into a hash.  Plain build (-DPLAIN): valgrind client requests only. */
#include <stddef.h>
#include <stdint.h>
#ifdef PLAIN
#include <valgrind/callgrind.h>
void ct_start(void) {}
void ct_stop(uint64_t *h, uint64_t *n) { *h = 0; *n = 0; }
int ct_valgrind(void) { return RUNNING_ON_VALGRIND; }
void ct_zero(void) { CALLGRIND_ZERO_STATS; }
void ct_dump(const char *s) { CALLGRIND_DUMP_STATS_AT(s); }
int ct_instrumented(void) { return 0; }
long ct_apart(uint64_t *n, uint64_t *at) { (void)n; (void)at; return -1; }
#elif defined(MEMORY)
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
#define MOST (24u << 20)
static __thread uint64_t *buf[2], used[2], *to;
static __thread uint64_t left;
static __thread int on, turn;
static int seen;
static void note(uint64_t a) {
  if (!on) return;
  if (!left) { fprintf(stderr, "HARNESS-BUG: more than %u memory accesses\n", MOST); _exit(3); }
  left--;
  *to++ = a;
}
/* bit 63: written, bit 62: two bytes read */
#define CB(n) \
  void __sanitizer_cov_load##n(void *p) { note((uint64_t)p | (uint64_t)(n == 2) << 62); } \
  void __sanitizer_cov_store##n(void *p) { note((uint64_t)p | 1ULL << 63); }
CB(1) CB(2) CB(4) CB(8) CB(16)
#define SPAN(p, n, w) do { if (on) { note((uint64_t)(p) | (uint64_t)(w) << 63 | (uint64_t)((n) == 2 && !(w)) << 62); note((uint64_t)(n) << 16); } } while (0)
void *memcpy(void *d, const void *s, size_t n) {
  SPAN(d, n, 1); SPAN(s, n, 0);
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) {
  SPAN(d, n, 1); SPAN(s, n, 0);
  void *r = d;
  if ((uint64_t)d - (uint64_t)s >= n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  else {
    unsigned char *x = (unsigned char *)d + n - 1;
    const unsigned char *y = (const unsigned char *)s + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(x), "+S"(y), "+c"(n) : : "memory");
  }
  return r;
}
void *memset(void *d, int c, size_t n) {
  SPAN(d, n, 1);
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}
/* what LLVM would otherwise expand in place */
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  size_t i = 0;
  while (i < n && x[i] == y[i]) i++;
  SPAN(a, i, 0); SPAN(b, i, 0);
  return i == n ? 0 : (int)x[i] - (int)y[i];
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void ct_start(void) {
  if (!buf[turn]) {
    buf[turn] = mmap(0, 8ul * MOST, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (buf[turn] == MAP_FAILED) { fprintf(stderr, "HARNESS-BUG: no memory\n"); _exit(3); }
  }
  to = buf[turn];
  left = MOST;
  on = 1;
}
void ct_stop(uint64_t *h, uint64_t *n) {
  on = 0;
  used[turn] = to - buf[turn];
  *h = 0;
  *n = used[turn];
  if (used[turn]) seen = 1;
  turn ^= 1;
}
extern char __executable_start, end;
static int is_static(uint64_t a) { a &= ~(1ULL << 62); return a >= (uint64_t)&__executable_start && a < (uint64_t)&end; }
static int lookup(uint64_t x, uint64_t y) { return (x & y) >> 62 == 1 || (is_static(x) && is_static(y)); }
/* The last two runs: index of the first access at which they differ, or -1.  Reads of static data, and of two bytes anywhere
   (where the compiler copies the table to the stack first), may be less than 128 bytes apart: the table of the noise sampler
   has 64 entries of two bytes */
long ct_apart(uint64_t *n, uint64_t *at) {
  const uint64_t *x = buf[turn], *y = buf[turn ^ 1];
  uint64_t m = used[turn] < used[turn ^ 1] ? used[turn] : used[turn ^ 1], k = 0;
  for (uint64_t i = 0; i < m; i++) {
    if (x[i] == y[i]) continue;
    k++;
    uint64_t d = x[i] < y[i] ? y[i] - x[i] : x[i] - y[i];
    if (d >= 128 || !lookup(x[i], y[i])) { *n = k; at[0] = x[i]; at[1] = y[i]; return (long)i; }
  }
  *n = k;
  at[0] = at[1] = 0;
  return used[0] == used[1] ? -1 : (long)m;
}
int ct_valgrind(void) { return 0; }
void ct_zero(void) {}
void ct_dump(const char *s) { (void)s; }
int ct_instrumented(void) { return seen ? 2 : 0; }
#else
static __thread uint64_t hash, count;
static __thread int on;
static uint32_t guards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *s, uint32_t *e) {
  if (s == e || *s) return;
  for (; s < e; s++) *s = ++guards;
}
static void fold(uint64_t v) {
  count++;
  hash = (hash ^ v) * 0x100000001b3ULL;
  hash ^= hash >> 29;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (on) fold(*g); }
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = a, *y = b;
  size_t i = 0;
  while (i < n && x[i] == y[i]) i++;
  if (on) { fold(0x6d656d636d70ULL); fold(n); fold(i); }
  return i == n ? 0 : (int)x[i] - (int)y[i];
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void ct_start(void) { hash = 1; count = 0; on = 1; }
void ct_stop(uint64_t *h, uint64_t *n) { on = 0; *h = hash; *n = count; }
int ct_valgrind(void) { return 0; }
void ct_zero(void) {}
void ct_dump(const char *s) { (void)s; }
int ct_instrumented(void) { return guards > 0; }
long ct_apart(uint64_t *n, uint64_t *at) { (void)n; (void)at; return -1; }
#endif
