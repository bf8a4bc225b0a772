/* Collects the comparisons made by instrumented code while collection is on. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define SITES 65536
#define RECORDS 4096
typedef struct { uint64_t a, b; uint32_t site; uint8_t size, konst, mem, pad; } rec;
typedef struct { uint8_t a[64], b[64]; } memrec;
static __thread int on;
/* per site: bit 0 a<b seen, bit 1 a==b seen, bit 2 a>b seen, bit 7 not wanted any more */
static __thread uint8_t seen[SITES];
static __thread uint8_t news[SITES]; /* outcomes first seen in this run */
static __thread uint32_t newlist[SITES], nnew;
static __thread uint16_t perrun[SITES]; /* records of this site in this run */
static __thread uint32_t touched[SITES], ntouched;
static __thread rec recs[RECORDS];
static __thread memrec mems[256];
static __thread uint32_t nrec, nmem;
static __thread uint64_t total;

void cf_start(void);
static uint32_t site_of(void *pc, uint64_t extra) {
  /* relative to a fixed place, so that the numbers are the same in every run */
  uint64_t x = (uint64_t)pc - (uint64_t)&cf_start + extra * 0x9e3779b97f4a7c15ULL;
  x *= 0x9e3779b97f4a7c15ULL;
  return (uint32_t)(x >> 48);
}
static int outcome(uint32_t s, int bit) {
  if (!(seen[s] & bit)) {
    seen[s] |= bit;
    if (!news[s]) newlist[nnew++] = s;
    news[s] |= bit;
    return 1;
  }
  return 0;
}
static void cmp(uint32_t s, uint64_t a, uint64_t b, uint8_t size, uint8_t konst) {
  total++;
  if (seen[s] & 0x80) return;
  int bit = a < b ? 1 : a == b ? 2 : 4;
  outcome(s, bit);
  if (nrec >= RECORDS) return;
  if (!perrun[s]) touched[ntouched++] = s;
  /* a few of each site per run: the first ones, then every so often */
  uint16_t n = ++perrun[s];
  if (n > 24 && (n & (n - 1))) return;
  recs[nrec++] = (rec){a, b, s, size, konst, 0, 0};
}
#define PC __builtin_return_address(0)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { if (on) cmp(site_of(PC, 0), a, b, 1, 0); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { if (on) cmp(site_of(PC, 0), a, b, 2, 0); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { if (on) cmp(site_of(PC, 0), a, b, 4, 0); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { if (on) cmp(site_of(PC, 0), a, b, 8, 0); }
void __sanitizer_cov_trace_const_cmp1(uint8_t b, uint8_t a) { if (on) cmp(site_of(PC, 0), a, b, 1, 1); }
void __sanitizer_cov_trace_const_cmp2(uint16_t b, uint16_t a) { if (on) cmp(site_of(PC, 0), a, b, 2, 1); }
void __sanitizer_cov_trace_const_cmp4(uint32_t b, uint32_t a) { if (on) cmp(site_of(PC, 0), a, b, 4, 1); }
void __sanitizer_cov_trace_const_cmp8(uint64_t b, uint64_t a) { if (on) cmp(site_of(PC, 0), a, b, 8, 1); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
  if (!on) return;
  uint64_t n = c[0] > 32 ? 32 : c[0];
  for (uint64_t i = 0; i < n; i++) cmp(site_of(PC, i + 1), v, c[2 + i], c[1] <= 8 ? 1 : c[1] <= 16 ? 2 : c[1] <= 32 ? 4 : 8, 1);
}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *s, uint32_t *e) { (void)s; (void)e; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; }
static int compare(const unsigned char *x, const unsigned char *y, size_t n, void *pc) {
  size_t i = 0;
  while (i < n && x[i] == y[i]) i++;
  int r = i == n ? 0 : (int)x[i] - (int)y[i];
  if (on && n) {
    uint32_t s = site_of(pc, n);
    total++;
    if (!(seen[s] & 0x80)) {
      outcome(s, r < 0 ? 1 : r == 0 ? 2 : 4);
      if (r && nrec < RECORDS && nmem < 256 && n >= 2) {
        if (!perrun[s]) touched[ntouched++] = s;
        if (++perrun[s] <= 24) {
          size_t k = n > 64 ? 64 : n, from = n > 64 ? (i + 64 > n ? n - 64 : i) : 0;
          memcpy(mems[nmem].a, x + from, k);
          memcpy(mems[nmem].b, y + from, k);
          recs[nrec++] = (rec){nmem++, i, s, (uint8_t)k, 0, 1, 0};
        }
      }
    }
  }
  return r;
}
int memcmp(const void *a, const void *b, size_t n) { return compare(a, b, n, PC); }
int bcmp(const void *a, const void *b, size_t n) { return compare(a, b, n, PC); }

void cf_start(void) {
  for (uint32_t i = 0; i < nnew; i++) news[newlist[i]] = 0;
  for (uint32_t i = 0; i < ntouched; i++) perrun[touched[i]] = 0;
  nnew = ntouched = nrec = nmem = 0;
}
void cf_gate(int x) { on = x; }
uint32_t cf_records(const rec **r, const memrec **m) { *r = recs; *m = mems; return nrec; }
uint32_t cf_new(const uint32_t **l) { *l = newlist; return nnew; }
uint8_t cf_seen(uint32_t s) { return seen[s]; }
void cf_settle(uint32_t s) { seen[s] |= 0x80; }
uint64_t cf_total(void) { return total; }
