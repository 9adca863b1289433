/* Drives the real library (public API only) against the reference of
   spec/csa_ref.c and against itself.  Used to replay counterexamples, to
   confirm failed obligations and for bounded differential runs.

     drv camp PROPS SEED COUNT SECONDS [key=value ...]
     drv digest SEED COUNT            (one line per case, for comparing builds)

   A failure prints "FAIL <property> <what> | <case>", and a case can be given
   back to camp with COUNT 1.  Buffers end (or begin) at inaccessible pages. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include "dvbcsa/dvbcsa.h"

extern void spec_decrypt(const uint8_t cw[8], uint8_t *data, uint64_t len);
extern void spec_encrypt(const uint8_t cw[8], uint8_t *data, uint64_t len);
extern void spec_key_schedule(const uint8_t *in, uint8_t *out);

#define NPK 512                 /* packets of a case */
#define DCAP 4096               /* bytes kept of a packet */
#define CLCAP (1 << 17)

static uint64_t rs;
static uint64_t rnd(void) { uint64_t z = (rs += 0x9e3779b97f4a7c15ULL); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ULL; z = (z ^ z >> 27) * 0x94d049bb133111ebULL; return z ^ z >> 31; }
static unsigned rn(unsigned n) { return n ? rnd() % n : 0; }

static struct kase {
  int cl, enc, n, side;         /* classical?  side: where the guard page is; 2: packets of a batch lie back to back */
  unsigned maxlen;
  uint8_t cw[8];
  unsigned len[NPK];
  uint8_t *data[NPK];           /* initial contents, min(len, cap) bytes */
  uint64_t seed;
} K;
static char overrides[1 << 18];
static int W, psize;
static uint8_t *slots[NPK], *at[NPK], *packed, *clslot, *out[NPK], *ref;
static const char *curprop = "";
static char casebuf[1 << 18];

static uint64_t hash(const uint8_t *p, size_t n, uint64_t h) { while (n--) { h ^= *p++; h *= 0x100000001b3ULL; } return h; }
static unsigned cap(unsigned l) { return K.cl ? (l < CLCAP ? l : CLCAP) : l < DCAP ? l : DCAP; }
static unsigned eff(unsigned l) { return K.cl || l < K.maxlen ? l : K.maxlen; }

static const char *props;
static int want(const char *p) { return !strcmp(props, "all") || strstr(props, p) != NULL; }

static void describe(void)
{
  snprintf(casebuf, sizeof casebuf, "cl=%d enc=%d maxlen=%u n=%d seed=%llu %s", K.cl, K.enc, K.maxlen, K.n, (unsigned long long)K.seed, overrides);
}
static char failed[64][8];
static int nfailed;
static void fail(const char *prop, const char *fmt, long a, long b)
{
  char t[256];
  int i;
  if (!want(prop)) return;
  for (i = 0; i < nfailed; i++) if (!strcmp(failed[i], prop)) return;
  snprintf(failed[nfailed++], 8, "%s", prop);
  snprintf(t, sizeof t, fmt, a, b);
  describe();
  printf("FAIL %s %s | %s\n", prop, t, casebuf);
  fflush(stdout);
}
static void onsig(int s)
{
  char t[64];
  describe();
  snprintf(t, sizeof t, "signal %d", s);
  printf("FAIL %s %s | %s\n", *curprop ? curprop : "C10", t, casebuf);
  fflush(stdout);
  _exit(3);
}

/* ---- allocation hooks (linked with --wrap) */
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t); void *__real_memalign(size_t, size_t);
static int track, failnext, nlive, badfree, nalloc;
static struct { void *p, *map; size_t n, al, maplen; } live[64];
static void *galloc(size_t al, size_t n)
{
  size_t pages = (n + psize - 1) / psize * psize + psize;
  uint8_t *m;
  nalloc++;
  if (failnext > 0 && --failnext == 0) { errno = ENOMEM; return NULL; }
  m = mmap(NULL, pages + psize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) return NULL;
  mprotect(m + pages, psize, PROT_NONE);
  memset(m, 0xb7, pages);
  if (al < 16) al = 16;
  uint8_t *p = (uint8_t *)(((uintptr_t)m + pages - n) & ~(uintptr_t)(al - 1));
  /* as unaligned as the request allows */
  if (((uintptr_t)p & (2 * al - 1)) == 0 && p - al >= m) p -= al;
  if (nlive < 64) { live[nlive].p = p; live[nlive].map = m; live[nlive].n = n; live[nlive].al = al; live[nlive].maplen = pages + psize; nlive++; }
  return p;
}
/* bytes written behind the object, in front of the guard page */
static int overrun(const void *p)
{
  int i;
  for (i = 0; i < nlive; i++)
    if (live[i].p == p) { const uint8_t *e = (uint8_t *)p + live[i].n, *g = (uint8_t *)live[i].map + live[i].maplen - psize; for (; e < g; e++) if (*e != 0xb7) return 1; }
  return 0;
}
void *__wrap_malloc(size_t n) { return track ? galloc(16, n) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { void *p; if (!track) return __real_calloc(a, b); p = galloc(16, a * b); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *p, size_t n) { return __real_realloc(p, n); }
int __wrap_posix_memalign(void **o, size_t al, size_t n)
{
  void *p;
  if (!track) return __real_posix_memalign(o, al, n);
  if (al & (al - 1) || al < sizeof(void *)) return EINVAL;
  p = galloc(al, n);
  if (!p) return ENOMEM;        /* *o stays as it was */
  *o = p;
  return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return track ? galloc(al, n) : __real_aligned_alloc(al, n); }
void *__wrap_memalign(size_t al, size_t n) { return track ? galloc(al, n) : __real_memalign(al, n); }
void __wrap_free(void *p)
{
  int i;
  if (p) for (i = 0; i < nlive; i++) if (live[i].p == p) { munmap(live[i].map, live[i].maplen); live[i] = live[--nlive]; return; }
  if (track) { if (p) badfree++; return; }
  __real_free(p);
}

/* ---- globals of the library (section renamed when the build can do that) */
extern uint8_t __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
extern uint8_t __start_libbss[] __attribute__((weak)), __stop_libbss[] __attribute__((weak));
static uint64_t globals(void)
{
  return (__start_libdata ? hash(__start_libdata, __stop_libdata - __start_libdata, 7) : 0) ^ (__start_libbss ? hash(__start_libbss, __stop_libbss - __start_libbss, 9) : 0);
}

static struct dvbcsa_key_s *ck, *ck2;
static struct dvbcsa_bs_key_s *bk, *bk2;
static size_t cksize, bksize;
static size_t sizeof_live(void *p) { int i; for (i = 0; i < nlive; i++) if (live[i].p == p) return live[i].n; return 0; }
static void mkkeys(void)
{
  track = 1;
  ck = dvbcsa_key_alloc(); ck2 = dvbcsa_key_alloc(); bk = dvbcsa_bs_key_alloc(); bk2 = dvbcsa_bs_key_alloc();
  track = 0;
  if (!ck || !ck2 || !bk || !bk2) { fail("C14", "allocation failed with memory available", 0, 0); exit(1); }
  cksize = sizeof_live(ck); bksize = sizeof_live(bk);
}
static void setkeys(const uint8_t *cw)
{
  if (K.cl) dvbcsa_key_set(cw, ck); else dvbcsa_bs_key_set(cw, bk);
}

/* run the case's operation; truncated: packets cut to maxlen, run with the other maxlen */
static struct dvbcsa_bs_batch_s *arr;
static uint8_t *place(uint8_t *slot, unsigned c, unsigned area, int side) { return side ? slot : slot + area - c; }
static void load(int i, int slot, unsigned len)
{
  unsigned c = cap(len);
  uint8_t *s = K.cl ? clslot : slots[slot], *p = K.cl ? place(s, c, CLCAP, K.side) : at[slot];
  if (K.cl || K.side < 2) memset(s, 0xa5, (K.cl ? CLCAP : DCAP));
  memcpy(p, K.data[i], c);
}
static void checkarea(int slot, unsigned len, const char *prop)
{
  unsigned c = cap(len), area = K.cl ? CLCAP : DCAP, i;
  uint8_t *s = K.cl ? clslot : slots[slot], *p = K.cl ? place(s, c, area, K.side) : at[slot];
  if (!K.cl && K.side > 1) { if (slot == 0) for (s = p - DCAP; s < p; s++) if (*s != 0xa5) { fail(prop, "write outside the payload (packet %ld, offset %ld)", slot, s - p); return; } return; }
  for (i = 0; i < area; i++) if ((s + i < p || s + i >= p + c) && s[i] != 0xa5) { fail(prop, "write outside the payload (packet %ld, offset %ld)", slot, s + i - p); return; }
}
/* idx[j]: packet of position j; res: results by position */
static void bs(int enc, const int *idx, int m, unsigned maxlen, int trunc, uint8_t **res)
{
  struct dvbcsa_bs_batch_s *a = place((uint8_t *)arr, (m + 1) * sizeof *arr, 8 * psize, 0);
  int i;
  uint8_t *q = packed + (NPK + 1) * DCAP;
  for (i = m - 1; i >= 0; i--)
    {
      unsigned l = K.len[idx[i]];
      if (trunc && l > K.maxlen) l = K.maxlen;
      at[i] = K.side < 2 ? place(slots[i], cap(l), DCAP, K.side) : (q -= cap(l));
    }
  if (K.side > 1) memset(q - DCAP, 0xa5, DCAP);
  for (i = 0; i < m; i++)
    {
      unsigned l = K.len[idx[i]];
      if (trunc && l > K.maxlen) l = K.maxlen;
      load(idx[i], i, l);
      a[i].data = at[i];
      a[i].len = l;
    }
  a[m].data = NULL;
  a[m].len = rnd();
  /* an entry in front of the array: another packet of the caller */
  static uint8_t front[192], front0[192];
  memset(front, 0x5c, sizeof front); memset(front0, 0x5c, sizeof front0);
  a[-1].data = front; a[-1].len = 184;
  uint64_t h = hash((uint8_t *)a, (m + 1) * sizeof *a, 1), hk = hash((uint8_t *)bk, bksize, 1), hg = globals();
  if (enc) dvbcsa_bs_encrypt(bk, a, maxlen); else dvbcsa_bs_decrypt(bk, a, maxlen);
  if (h != hash((uint8_t *)a, (m + 1) * sizeof *a, 1)) fail("C11", "batch array modified", 0, 0);
  if (hk != hash((uint8_t *)bk, bksize, 1)) fail("C11", "key object modified", 0, 0);
  if (hg != globals()) fail("C11", "global data modified", 0, 0);
  if (memcmp(front, front0, sizeof front)) { fail("C10", "packet in front of the batch array written", 0, 0); if (m == 0) fail("C13", "packet in front of an empty batch processed", 0, 0); }
  for (i = 0; i < m; i++)
    {
      unsigned l = K.len[idx[i]];
      if (trunc && l > K.maxlen) l = K.maxlen;
      checkarea(i, l, "C10");
      memcpy(res[i], at[i], cap(l));
    }
}
static void cl(int enc, uint8_t *res)
{
  unsigned l = K.len[0];
  uint8_t *p = place(clslot, cap(l), CLCAP, K.side);
  load(0, 0, l);
  uint64_t hk = hash((uint8_t *)ck, cksize, 1), hg = globals();
  if (enc) dvbcsa_encrypt(ck, p, l); else dvbcsa_decrypt(ck, p, l);
  if (hk != hash((uint8_t *)ck, cksize, 1)) fail("C11", "key object modified", 0, 0);
  if (hg != globals()) fail("C11", "global data modified", 0, 0);
  checkarea(0, l, "C10");
  memcpy(res, p, cap(l));
}
static void spec(int enc, uint8_t *d, unsigned l) { if (enc) spec_encrypt(K.cw, d, l); else spec_decrypt(K.cw, d, l); }

static int idn[NPK];
static uint8_t *res2[NPK];

/* the library's own result for one payload of any length alone */
static void alone(int i, unsigned maxlen, int trunc, uint8_t *r) { int ix = i; uint8_t *rr[1] = { r }; bs(K.enc, &ix, 1, maxlen, trunc, rr); }

static void tail_rule(const uint8_t *pre, const uint8_t *post, unsigned l, unsigned full)
{
  /* full: bytes of the payload object; l: bytes processed */
  static uint8_t d2[CLCAP], *save, r2[CLCAP];
  unsigned nb = l & ~7u, i;
  if (l < 8) { if (memcmp(pre, post, cap(full))) fail("C09", "payload of %ld bytes changed", l, 0); return; }
  if (nb == l || l != full) return;
  /* another payload with the same IV block */
  for (i = 0; i < l; i++) d2[i] = rnd();
  if (K.enc) { memcpy(d2, post, 8); spec_decrypt(K.cw, d2, l); } else memcpy(d2, pre, 8);
  save = K.data[0];
  unsigned sl = K.len[0];
  K.data[0] = d2; K.len[0] = l;
  if (K.cl) cl(K.enc, r2); else { int z = 0; uint8_t *rr[1] = { r2 }; bs(K.enc, &z, 1, K.maxlen, 0, rr); }
  K.data[0] = save; K.len[0] = sl;
  if (!K.enc || !memcmp(r2, post, 8))
    for (i = nb; i < l; i++) if ((r2[i] ^ d2[i]) != (pre[i] ^ post[i])) { fail("C09", "residue byte %ld of %ld depends on more than control word, IV and position", i, l); return; }
  /* residue bytes do not enter the chain */
  memcpy(d2, pre, nb);
  for (i = nb; i < l; i++) d2[i] = pre[i] ^ (1 + rn(255));
  K.data[0] = d2; K.len[0] = l;
  if (K.cl) cl(K.enc, r2); else { int z = 0; uint8_t *rr[1] = { r2 }; bs(K.enc, &z, 1, K.maxlen, 0, rr); }
  K.data[0] = save; K.len[0] = sl;
  if (memcmp(r2, post, nb)) fail("C09", "residue bytes change whole blocks (length %ld)", l, 0);
}

static void run_bs(void)
{
  int i, j;
  unsigned b;
  if (want("C04")) { memset(bk, rnd(), bksize); }
  setkeys(K.cw);
  bs(K.enc, idn, K.n, K.maxlen, 0, out);
  for (i = 0; i < K.n; i++)
    {
      unsigned l = K.len[i], e = eff(l), c = cap(l);
      memcpy(ref, K.data[i], c);
      spec(K.enc, ref, e);
      if (memcmp(ref, out[i], e)) { fail(K.enc ? "C06" : "C05", "packet %ld of length %ld", i, l); }
      if (l > K.maxlen && memcmp(K.data[i] + e, out[i] + e, c - e)) { fail("C08", "bytes behind maxlen changed in packet %ld of length %ld", i, l); fail(K.enc ? "C06" : "C05", "packet %ld of length %ld, behind maxlen", i, l); }
      if (e < 8 && memcmp(K.data[i], out[i], c)) fail("C09", "short payload changed, packet %ld of length %ld", i, l);
      if (want("C09") && (i < 3 || rn(8) == 0)) tail_rule(K.data[i], out[i], e, l);
    }
  if (want("C13") || want("C07"))
    {
      for (j = 0; j < 6 && K.n; j++)
        {
          i = j == 0 ? K.n - 1 : rn(K.n);
          alone(i, K.maxlen, 0, res2[0]);
          if (memcmp(res2[0], out[i], cap(K.len[i]))) { fail("C07", "packet %ld differs from the same packet alone (length %ld)", i, K.len[i]); fail("C13", "packet %ld of the batch not handled as alone (length %ld)", i, K.len[i]); }
        }
      if (want("C13"))
        {
          bs(K.enc, idn, 0, K.maxlen, 0, res2);
          if (dvbcsa_bs_batch_size() != (unsigned)W) fail("C13", "batch size changes", 0, 0);
          if (W != 32 && W != 64 && W != 128 && W != 256) fail("C13", "batch size %ld", W, 0);
          for (i = 0; i < K.n; i++)
            if (eff(K.len[i]) >= 8 && !memcmp(out[i], K.data[i], cap(K.len[i])))
              { alone(i, K.maxlen, 0, res2[0]); if (memcmp(res2[0], out[i], cap(K.len[i]))) fail("C13", "packet %ld of %ld not processed", i, K.n); }
        }
      /* other neighbours */
      if (want("C07") && K.n > 1)
        {
          static int ix[NPK];
          int keep = rn(K.n), at = rn(K.n);
          for (i = 0; i < K.n; i++) ix[i] = rn(K.n);
          ix[at] = keep;
          bs(K.enc, ix, at + 1 + rn(K.n - at), K.maxlen, 0, res2);
          if (memcmp(res2[at], out[keep], cap(K.len[keep]))) fail("C07", "packet depends on its neighbours or position (length %ld, position %ld)", K.len[keep], at);
        }
    }
  if (want("C08"))
    {
      unsigned m2 = K.maxlen + 8 * rn((184 - K.maxlen) / 8 + 1);
      if (rn(2)) m2 = 184;
      bs(K.enc, idn, K.n, m2, 1, res2);
      for (i = 0; i < K.n; i++) if (memcmp(res2[i], out[i], eff(K.len[i]) < DCAP ? eff(K.len[i]) : DCAP)) { fail("C08", "packet of length %ld: not as with maxlen %ld", K.len[i], m2); break; }
    }
  if (want("C11"))
    {
      static uint8_t other[8];
      for (b = 0; b < 8; b++) other[b] = rnd();
      dvbcsa_bs_key_set(other, bk2);
      dvbcsa_key_set(other, ck2);
      int m = rn(K.n + 1);
      struct dvbcsa_bs_key_s *t = bk; bk = bk2;
      bs(rn(2), idn, m, 8 * (1 + rn(23)), 0, res2);
      bk = t;
      bs(K.enc, idn, K.n, K.maxlen, 0, res2);
      for (i = 0; i < K.n; i++) if (memcmp(res2[i], out[i], cap(K.len[i]))) { fail("C11", "same call, other result (packet %ld, length %ld)", i, K.len[i]); break; }
    }
  if (want("C03"))
    {
      uint8_t *save[NPK];
      for (i = 0; i < K.n; i++) { save[i] = K.data[i]; K.data[i] = out[i]; }
      bs(!K.enc, idn, K.n, K.maxlen, 0, res2);
      for (i = 0; i < K.n; i++) { K.data[i] = save[i]; if (memcmp(res2[i], K.data[i], cap(K.len[i]))) { fail("C03", "parallel round trip, packet %ld of length %ld", i, K.len[i]); } }
      /* classical inverse of the parallel result */
      dvbcsa_key_set(K.cw, ck);
      for (i = 0; i < K.n; i++)
        {
          unsigned e = eff(K.len[i]); if (e > DCAP) continue;
          memcpy(ref, out[i], e);
          if (K.enc) dvbcsa_decrypt(ck, ref, e); else dvbcsa_encrypt(ck, ref, e);
          if (memcmp(ref, K.data[i], e)) fail("C03", "mixed round trip, packet %ld of length %ld", i, K.len[i]);
        }
    }
}
static uint8_t *clres, *clres2;
static void run_cl(void)
{
  unsigned l = K.len[0], c = cap(l);
  if (want("C04")) memset(ck, rnd(), cksize);
  setkeys(K.cw);
  cl(K.enc, clres);
  memcpy(ref, K.data[0], c);
  if (l == c) spec(K.enc, ref, l);
  if (memcmp(ref, clres, c)) fail(K.enc ? "C02" : "C01", "length %ld", l, 0);
  if (want("C09")) tail_rule(K.data[0], clres, l, l);
  if (want("C03"))
    {
      uint8_t *s = K.data[0];
      K.data[0] = clres; cl(!K.enc, clres2); K.data[0] = s;
      if (memcmp(clres2, s, c)) fail("C03", "classical round trip, length %ld", l, 0);
    }
  if (want("C11"))
    {
      uint8_t o[8]; int i; for (i = 0; i < 8; i++) o[i] = rnd();
      dvbcsa_key_set(o, ck2);
      memcpy(ref, K.data[0], c < 200 ? c : 200);
      dvbcsa_encrypt(ck2, ref, c < 200 ? c : 200);
      cl(K.enc, clres2);
      if (memcmp(clres2, clres, c)) fail("C11", "same call, other result (length %ld)", l, 0);
    }
}
/* the round keys, seen through the library's own operations */
static void one(int parallel, int enc, uint8_t *d, unsigned l)
{
  if (parallel) { struct dvbcsa_bs_batch_s a[2]; a[0].data = d; a[0].len = l; a[1].data = NULL; a[1].len = 0; if (enc) dvbcsa_bs_encrypt(bk, a, 184); else dvbcsa_bs_decrypt(bk, a, 184); }
  else if (enc) dvbcsa_encrypt(ck, d, l); else dvbcsa_decrypt(ck, d, l);
}
static void set1(int parallel, const uint8_t *cw) { if (parallel) dvbcsa_bs_key_set(cw, bk); else dvbcsa_key_set(cw, ck); }
static void run_keys(void)
{
  uint8_t base[16], d[2][2][24], x[24], cw2[8];
  int p, e, i;
  for (i = 0; i < 16; i++) base[i] = rnd();
  for (p = 0; p < 2; p++)
    {
      memset(p ? (void *)bk : (void *)ck, 0, p ? bksize : cksize);
      set1(p, K.cw);
      for (e = 0; e < 2; e++) { memcpy(d[p][e], base, 16); one(p, e, d[p][e], 16); }
      /* dirty object, then object with another key set before */
      memset(p ? (void *)bk : (void *)ck, (int)rnd(), p ? bksize : cksize);
      for (i = 0; i < 8; i++) cw2[i] = rnd();
      if (rn(2)) { if (rn(2)) { memcpy(cw2, K.cw, 8); cw2[rn(8)] ^= 1 << rn(8); } set1(p, cw2); }
      set1(p, K.cw);
      for (e = 0; e < 2; e++) { memcpy(x, base, 16); one(p, e, x, 16); if (memcmp(x, d[p][e], 16)) fail("C04", "result depends on what the key object held before (parallel %ld, encrypt %ld)", p, e); }
      /* every bit counts: one of two payloads must see it */
      i = rn(64);
      memcpy(cw2, K.cw, 8);
      cw2[i / 8] ^= 1 << i % 8;
      set1(p, cw2);
      for (e = 0; e < 2; e++) { memcpy(x, base, 16); one(p, e, x, 16); if (!memcmp(x, d[p][e], 8) && !memcmp(x + 8, d[p][e] + 8, 8)) fail("C04", "bit %ld of the control word is not used (parallel %ld)", i, p); }
      set1(p, K.cw);
    }
  /* only asked for when the key set-up itself failed its obligations: a fault
     of the ciphers is C01..C06's */
  if (want("C04k"))
    for (e = 0; e < 2; e++)
      {
        memcpy(x, base, 16);
        if (e) spec_encrypt(K.cw, x, 16); else spec_decrypt(K.cw, x, 16);
        for (p = 0; p < 2; p++) if (memcmp(d[p][e], x, 16)) fail("C04k", "key set-up: wrong result for this control word (parallel %ld, encrypt %ld)", p, e);
      }
}
static void run_alloc(void)
{
  int k, i;
  curprop = "C14";
  for (k = 0; k < 2; k++)
    {
      void *v[6];
      int base = nlive, m = 2 + rn(4);
      track = 1;
      for (i = 0; i < m; i++)
        {
          v[i] = k ? (void *)dvbcsa_bs_key_alloc() : (void *)dvbcsa_key_alloc();
          if (!v[i]) { fail("C14", "allocation failed with memory available", 0, 0); m = i; break; }
          for (int j = 0; j < i; j++) if (v[j] == v[i]) fail("C14", "not a new object", 0, 0);
          size_t n = sizeof_live(v[i]);
          if (!n) { fail("C14", "not an object of the allocator", 0, 0); track = 0; return; }
          track = 0;
          uint8_t w[8]; for (int j = 0; j < 8; j++) w[j] = rnd();
          if (k) dvbcsa_bs_key_set(w, v[i]); else dvbcsa_key_set(w, v[i]);
          if (overrun(v[i])) fail("C14", "key object too small for its key (parallel %ld)", k, 0);
          track = 1;
        }
      if (nlive != base + m) fail("C14", "%ld objects for %ld keys", nlive - base, m);
      uint64_t h[6]; for (i = 0; i < m; i++) h[i] = hash(v[i], sizeof_live(v[i]), 1);
      failnext = 1; nalloc = 0;
      void *q = k ? (void *)dvbcsa_bs_key_alloc() : (void *)dvbcsa_key_alloc();
      if (nalloc && failnext == 0 && q) { int f = 0; for (i = 0; i < nlive; i++) f |= live[i].p == q; if (!f) fail("C14", "no NULL when memory is short", 0, 0); else { if (k) dvbcsa_bs_key_free(q); else dvbcsa_key_free(q); } }
      failnext = 0;
      badfree = 0;
      if (k) dvbcsa_bs_key_free(NULL); else dvbcsa_key_free(NULL);
      if (nlive != base + m) fail("C14", "freeing NULL changes the heap", 0, 0);
      while (m)
        {
          i = rn(m);
          void *p = v[i];
          if (k) dvbcsa_bs_key_free(p); else dvbcsa_key_free(p);
          if (badfree) { fail("C14", "free of a pointer that was not allocated", 0, 0); badfree = 0; }
          v[i] = v[--m]; h[i] = h[m];
          if (nlive != base + m) { fail("C14", "free does not return the object", 0, 0); break; }
          for (i = 0; i < m; i++) if (h[i] != hash(v[i], sizeof_live(v[i]), 1)) fail("C14", "freeing one key changes another", 0, 0);
        }
      track = 0;
    }
  curprop = "";
}

static int unhex(const char *s, uint8_t *o, int max)
{
  int n = 0, a, b;
  static const char *h = "0123456789abcdef";
  while (n < max && s[0] && s[1]) { const char *p = strchr(h, s[0]), *q = strchr(h, s[1]); if (!p || !q) break; a = p - h; b = q - h; o[n++] = a << 4 | b; s += 2; }
  return n;
}
static const char *ov(const char *key)
{
  size_t n = strlen(key);
  const char *p = overrides;
  while ((p = strstr(p, key))) { if ((p == overrides || p[-1] == ' ') && p[n] == '=') return p + n + 1; p += n; }
  return NULL;
}
static int hascl, hasbs;
static const unsigned biglens[] = { 65528, 65535, 65536, 65537, 65543, 65544, 65552, 32767, 32768, 32776, 100000, 131071, 131072, 4096, 4095, 8192, 16384, 16383, 1024, 1023, 2048, 255, 256, 257, 263, 264, 511, 512, 513 };
static void mkcase(uint64_t seed)
{
  const char *v;
  char nm[32];
  int i, style;
  unsigned c;
  rs = seed;
  K.seed = seed;
  K.cl = rn(2);
  if (!hascl) K.cl = 0; else if (!hasbs) K.cl = 1;
  K.enc = rn(2);
  K.side = rn(3);
  K.maxlen = rn(3) ? 8 * rn(24) : 184;
  style = rn(8);
  K.n = style == 0 ? W : style == 1 ? rn(4) : rn(W + 1);
  if ((v = ov("cl"))) K.cl = atoi(v);
  if ((v = ov("enc"))) K.enc = atoi(v);
  if ((v = ov("maxlen"))) K.maxlen = strtoul(v, 0, 0);
  if ((v = ov("n"))) K.n = atoi(v);
  if ((v = ov("side"))) K.side = atoi(v);
  if (K.n > NPK - 1) K.n = NPK - 1;
  if (K.cl) K.n = 1;
  for (i = 0; i < 8; i++) K.cw[i] = rnd();
  if (rn(3) == 0) { K.cw[3] = K.cw[0] + K.cw[1] + K.cw[2]; K.cw[7] = K.cw[4] + K.cw[5] + K.cw[6]; }
  if (rn(10) == 0) { int b = rn(64); memset(K.cw, rn(2) ? 255 : 0, 8); K.cw[b / 8] ^= 1 << b % 8; }
  if (rn(40) == 0) memset(K.cw, 0, 8);
  if ((v = ov("cw"))) unhex(v, K.cw, 8);
  style = rn(6);
  unsigned common = rn(200);
  for (i = 0; i < K.n; i++)
    {
      unsigned l = rn(186);
      if (style == 0) l = common;
      if (style == 1) l = 184;
      if (style == 2 && rn(3)) l = rn(18);
      if (rn(6) == 0) l = K.maxlen + rn(18) - 9;
      if (rn(24) == 0) l = rn(3) ? rn(400) : (unsigned)(rnd() >> (32 + rn(32)));
      if (rn(60) == 0) l = -1 - rn(9);
      if (l > 0xf0000000u && rn(2)) l = 184;
      if (K.cl) { l = rn(3) ? rn(300) : rn(2) ? rn(1200) : biglens[rn(sizeof biglens / sizeof *biglens)]; if (!rn(3) && l > 8) l = l - 8 + rn(17); if (l > CLCAP) l = CLCAP; }
      snprintf(nm, sizeof nm, "len%d", i);
      if ((v = ov(nm)) || (K.cl && (v = ov("len")))) l = strtoul(v, 0, 0);
      if (K.cl && l > CLCAP) l = CLCAP;
      K.len[i] = l;
      c = cap(l);
      if (style == 3 || rn(20) == 0) { int k = rn(3); memset(K.data[i], k == 0 ? 0 : k == 1 ? 255 : (int)rnd(), c); }
      else { uint64_t r = 0; for (unsigned j = 0; j < c; j++) { if (j % 8 == 0) r = rnd(); K.data[i][j] = r >> 8 * (j % 8); } }
      snprintf(nm, sizeof nm, K.cl ? "data" : "pkt%d", i);
      if ((v = ov(nm))) unhex(v, K.data[i], c);
    }
}
static void runcase(uint64_t seed)
{
  mkcase(seed);
  if (want("C04")) run_keys();
  if (want("C14")) run_alloc();
  if (K.cl) run_cl(); else run_bs();
}
static uint8_t *guarded(unsigned area)
{
  uint8_t *m = mmap(NULL, area + 2 * psize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(2); }
  mprotect(m, psize, PROT_NONE);
  mprotect(m + psize + area, psize, PROT_NONE);
  return m + psize;
}
int main(int argc, char **argv)
{
  int i;
  psize = sysconf(_SC_PAGESIZE);
  if (argc < 4) return 2;
  props = !strcmp(argv[1], "camp") ? argv[2] : "none";
  W = dvbcsa_bs_batch_size();
  if (W < 0 || W > NPK - 1) { fail("C13", "batch size %ld", W, 0); if (W < 0) return 1; W = NPK - 1; }
  for (i = 0; i < NPK; i++) { slots[i] = guarded(DCAP); K.data[i] = malloc(DCAP); out[i] = malloc(DCAP); res2[i] = malloc(CLCAP); idn[i] = i; }
  free(K.data[0]); K.data[0] = malloc(CLCAP);
  packed = guarded((NPK + 1) * DCAP);
  clslot = guarded(CLCAP); ref = malloc(CLCAP); clres = malloc(CLCAP); clres2 = malloc(CLCAP);
  arr = (void *)guarded(8 * psize);
#if !defined(__SANITIZE_ADDRESS__)
  signal(SIGSEGV, onsig); signal(SIGBUS, onsig); signal(SIGILL, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig);
#endif
  mkkeys();
  if (!strcmp(argv[1], "digest"))
    {
      /* the same packets in every build: up to 256, in as many calls as it takes */
      uint64_t seed = strtoull(argv[2], 0, 0), cnt = strtoull(argv[3], 0, 0), j;
      int w = W;
      for (i = 4; i < argc; i++) { strcat(overrides, argv[i]); strcat(overrides, " "); }
      hasbs = hascl = 1;
      for (j = 0; j < cnt; j++)
        {
          uint64_t h = 1;
          int k;
          W = 256;
          mkcase(seed + j * 1000003);
          W = w;
          setkeys(K.cw);
          if (K.cl) { cl(K.enc, clres); h = hash(clres, cap(K.len[0]), h); }
          else
            for (k = 0; k < K.n; k += W)
              {
                int m = K.n - k < W ? K.n - k : W;
                bs(K.enc, idn + k, m, K.maxlen, 0, out);
                for (i = 0; i < m; i++) h = hash(out[i], cap(K.len[k + i]), h);
              }
          printf("%llu cl=%d enc=%d maxlen=%u n=%d %016llx\n", (unsigned long long)K.seed, K.cl, K.enc, K.maxlen, K.n, (unsigned long long)h);
        }
      return 0;
    }
  uint64_t seed = strtoull(argv[3], 0, 0), cnt = argc > 4 ? strtoull(argv[4], 0, 0) : 1, j;
  double secs = argc > 5 ? atof(argv[5]) : 1e9;
  struct timespec t0, t;
  for (i = 6; i < argc; i++) { strcat(overrides, argv[i]); strcat(overrides, " "); }
  hascl = want("C01") || want("C02") || want("C03") || want("C09") || want("C10") || want("C11") || want("C04") || want("C12");
  hasbs = !(strlen(props) == 3 && (want("C01") || want("C02")));
  clock_gettime(CLOCK_MONOTONIC, &t0);
  for (j = 0; j < cnt; j++)
    {
      runcase(seed + j * 1000003);
      clock_gettime(CLOCK_MONOTONIC, &t);
      if (t.tv_sec - t0.tv_sec + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) { j++; break; }
      if (nfailed && strlen(props) == 3) { j++; break; }
    }
  printf("RAN %llu\n", (unsigned long long)j);
  return nfailed ? 1 : 0;
}
