/* The classical implementation: contracts of its functions, obligations of
   the contracts, and the API against the specification. */
#include "vc.h"
#include "dvbcsa/dvbcsa.h"
#include "dvbcsa_pv.h"
#include "../spec/csa_spec.h"

#define NMAX 256                /* bytes of payload the bounded harnesses model */

/* ensures out = spec_block_dec(key, in); requires 56 + 8 readable and 8
   writable bytes, out may be in */
void contract__dvbcsa_block_decrypt(const dvbcsa_keys_t key, const dvbcsa_block_t in, dvbcsa_block_t out)
{
  uint8_t a[64], o[8];
  memcpy(a, key, 56);
  memcpy(a + 56, in, 8);
  spec_block_dec(a, o);
  memcpy(out, o, 8);
}
void contract__dvbcsa_block_encrypt(const dvbcsa_keys_t key, const dvbcsa_block_t in, dvbcsa_block_t out)
{
  uint8_t a[64], o[8];
  memcpy(a, key, 56);
  memcpy(a + 56, in, 8);
  spec_block_enc(a, o);
  memcpy(out, o, 8);
}
static void keystream(const uint8_t *cws, const uint8_t *iv, uint8_t *o)
{
  uint8_t in[16];
  int i;
  for (i = 0; i < 8; i++) in[i] = cws[i] >> 4 | cws[i] << 4;
  memcpy(in + 8, iv, 8);
  spec_keystream(in, o);
}
/* ensures data[i] ^= keystream(swapped cw, iv)[i] for i < len */
void contract__dvbcsa_stream_xor(const dvbcsa_cw_t cw, const dvbcsa_block_t iv, uint8_t *data, unsigned int len)
{
  uint8_t ks[256];
  unsigned i;
  if (vc_is_array(data))        /* a payload of any length: key stream byte i is the function ks(cw, iv, i) */
    {
      uint8_t c[8], v[8];
      for (i = 0; i < 8; i++) c[i] = cw[i] >> 4 | cw[i] << 4;
      memcpy(v, iv, 8);
      vc_arr_stream(c, iv, data, len);
      return;
    }
  keystream(cw, iv, ks);
  for (i = 0; i < len; i++) data[i] ^= ks[i];
}

/* see bs_contracts.h */
static int use(const char *fn, const char *spec)
{
  if (!vc_contract(fn)) return 0;
  vc_opaque(spec);
  return 1;
}
static int use_contracts(void)
{
  return use("dvbcsa_block_decrypt", "spec_block_dec") + use("dvbcsa_block_encrypt", "spec_block_enc") + use("dvbcsa_stream_xor", "spec_keystream");
}

extern void vc_fn__dvbcsa_block_decrypt(const uint8_t *key, const uint8_t *in, uint8_t *out);
extern void vc_fn__dvbcsa_block_encrypt(const uint8_t *key, const uint8_t *in, uint8_t *out);
extern void vc_fn__dvbcsa_stream_xor(const uint8_t *cw, const uint8_t *iv, uint8_t *data, unsigned int len);

static void block(int enc, int alias)
{
  uint8_t *key = vc_object("key", 56, 56, 1), *in = vc_object("in", 8, 8, 1), *out = alias ? in : vc_object("out", 8, 8, 1), want[8], a[64];
  vc_sym(key, 56, "kk");
  vc_sym(in, 8, "in");
  memcpy(a, key, 56);
  memcpy(a + 56, in, 8);
  vc_protect(key, 1);
  if (!alias) vc_protect(in, 1);
  vc_frame(1);
  if (enc) vc_fn__dvbcsa_block_encrypt(key, in, out); else vc_fn__dvbcsa_block_decrypt(key, in, out);
  vc_frame(0);
  if (enc) spec_block_enc(a, want); else spec_block_dec(a, want);
  vc_tag(enc ? "block encryption" : "block decryption");
  vc_eq(out, want, 8, alias ? "in place" : "to another buffer");
}
void check_cl_block_dec(void) { block(0, 0); block(0, 1); vc_reach(); }
void check_cl_block_enc(void) { block(1, 0); block(1, 1); vc_reach(); }

static uint64_t nvals[NMAX + 1];
static uint64_t length(int n)
{
  int i;
  for (i = 0; i <= n; i++) nvals[i] = i;
  return vc_dom("len", nvals, n + 1);
}
/* the length is any number up to the parameter n */
void check_cl_stream(void)
{
  int n = vc_param("n"), i;
  uint8_t *cws = vc_object("cws", 8, 8, 1), *iv = vc_object("iv", 8, 8, 1), ks[256];
  uint64_t len = length(n);
  uint8_t *data = vc_object("data", n, len, 1), *want = vc_object("want", n, n, 1);
  vc_sym(cws, 8, "cws");
  vc_sym(iv, 8, "iv");
  vc_sym(data, n, "data");
  vc_copy(want, data, n);
  vc_protect(cws, 1);
  vc_protect(iv, 1);
  vc_frame(1);
  vc_fn__dvbcsa_stream_xor(cws, iv, data, len);
  vc_frame(0);
  keystream(cws, iv, ks);
  for (i = 0; i < n; i++) if ((uint64_t)i < len) want[i] ^= ks[i];
  vc_eq(data, want, n, "data");
  vc_reach();
}
static void xorb(uint8_t *d, const uint8_t *s) { int i; for (i = 0; i < 8; i++) d[i] ^= s[i]; }
static void blk(int enc, const uint8_t *kk, uint8_t *d)
{
  uint8_t a[64];
  memcpy(a, kk, 56);
  memcpy(a + 56, d, 8);
  if (enc) spec_block_enc(a, d); else spec_block_dec(a, d);
}
static void spec_payload(int enc, const uint8_t *cw, uint8_t *d, int n)
{
  uint8_t kk[56], in[16], ks[256];
  int nb = n / 8, i;
  if (nb == 0) return;
  spec_key_schedule(cw, kk);
  if (!enc)
    {
      memcpy(in, cw, 8); memcpy(in + 8, d, 8); spec_keystream(in, ks);
      for (i = 8; i < n; i++) d[i] ^= ks[i - 8];
      for (i = 0; i < nb; i++) { blk(0, kk, d + 8 * i); if (i + 1 < nb) xorb(d + 8 * i, d + 8 * i + 8); }
    }
  else
    {
      for (i = nb - 1; i >= 0; i--) { if (i + 1 < nb) xorb(d + 8 * i, d + 8 * i + 8); blk(1, kk, d + 8 * i); }
      memcpy(in, cw, 8); memcpy(in + 8, d, 8); spec_keystream(in, ks);
      for (i = 8; i < n; i++) d[i] ^= ks[i - 8];
    }
}
/* key setup and one operation, any payload of up to n bytes */
void check_cl(void)
{
  int n = vc_param("n"), enc = vc_param("enc"), l;
  uint8_t *cw = vc_object("cw", 8, 8, 1), *pre = vc_object("pre", NMAX, NMAX, 1), *want = vc_object("want", NMAX, NMAX, 1);
  struct dvbcsa_key_s *key = vc_object("key", sizeof *key, sizeof *key, _Alignof(struct dvbcsa_key_s));
  uint64_t len = length(n);
  uint8_t *data = vc_object("data", 0x100000000ULL, len, 1);
  vc_limit(data, n);
  use_contracts();
  vc_sym(cw, 8, "cw");
  vc_sym(data, n, "data");
  vc_copy(pre, data, n);
  vc_protect(cw, 1);
  vc_frame(1);
  dvbcsa_key_set(cw, key);
  vc_protect(key, 1);
  if (enc) dvbcsa_encrypt(key, data, len); else dvbcsa_decrypt(key, data, len);
  vc_frame(0);
  for (l = 0; l <= n; l++)
    {
      vc_copy(want, pre, n);
      spec_payload(enc, cw, want, l);
      vc_restrict_clear();
      vc_restrict_range("len", l, l);
      vc_tagn("length ", l);
      vc_eq(data, want, n, "payload");
      vc_support(data, n, "cw data len", "payload");
    }
  vc_restrict_clear();
  vc_tag("");
  vc_reach();
}

/* lemma on the specification: the block ciphers are inverse, for any round keys */
void check_inverse(void)
{
  uint8_t a[64], b[64], o[8];
  vc_sym(a, 64, "in");
  memcpy(b, a, 64);
  vc_tag("block ciphers are inverse");
  spec_block_enc(b, b + 56);
  spec_block_dec(b, o);
  vc_eq(o, a + 56, 8, "decryption after encryption");
  memcpy(b, a, 64);
  spec_block_dec(b, b + 56);
  spec_block_enc(b, o);
  vc_eq(o, a + 56, 8, "encryption after decryption");
  vc_reach();
}
/* one operation and then its inverse give the payload back (uses the lemma) */
void check_cl_rt(void)
{
  int n = vc_param("n"), enc = vc_param("enc"), l;
  uint8_t *cw = vc_object("cw", 8, 8, 1);
  struct dvbcsa_key_s *key = vc_object("key", sizeof *key, sizeof *key, _Alignof(struct dvbcsa_key_s));
  vc_inverse("spec_block_dec", "spec_block_enc", 448);
  vc_inverse("spec_block_enc", "spec_block_dec", 448);
  use_contracts();
  vc_sym(cw, 8, "cw");
  dvbcsa_key_set(cw, key);
  for (l = 0; l <= n; l++)
    {
      uint8_t *data = vc_object("data", l, l, 1), *pre = vc_object("pre", l, l, 1);
      vc_sym(data, l, "data");
      vc_copy(pre, data, l);
      if (enc) { dvbcsa_encrypt(key, data, l); dvbcsa_decrypt(key, data, l); }
      else { dvbcsa_decrypt(key, data, l); dvbcsa_encrypt(key, data, l); }
      vc_tagn("length ", l);
      vc_eq(data, pre, l, "round trip");
    }
  vc_tag("");
  vc_reach();
}

/* residue bytes: only the stream cipher touches them and they touch nothing else */
void check_cl_tail(void)
{
  int n = vc_param("n"), enc = vc_param("enc"), l, i, nb;
  uint8_t *cw = vc_object("cw", 8, 8, 1), in[16], ks[256];
  struct dvbcsa_key_s *key = vc_object("key", sizeof *key, sizeof *key, _Alignof(struct dvbcsa_key_s));
  use_contracts();
  vc_sym(cw, 8, "cw");
  dvbcsa_key_set(cw, key);
  for (l = 0; l <= n; l++)
    {
      uint8_t *data = vc_object("data", l, l, 1), *alt = vc_object("alt", l, l, 1), *want = vc_object("want", NMAX, NMAX, 1), *iv = vc_object("iv", 8, 8, 1);
      nb = l & ~7;
      vc_sym(data, l, "data");
      vc_sym(alt, l, "fresh");
      vc_copy(alt, data, nb);
      vc_copy(want, data, l);
      if (!enc && nb) vc_copy(iv, data, 8);
      if (enc) { dvbcsa_encrypt(key, data, l); dvbcsa_encrypt(key, alt, l); }
      else { dvbcsa_decrypt(key, data, l); dvbcsa_decrypt(key, alt, l); }
      if (enc && nb) vc_copy(iv, data, 8);
      vc_tagn("length ", l);
      if (nb)
        {
          memcpy(in, cw, 8); memcpy(in + 8, iv, 8); spec_keystream(in, ks);
          for (i = nb; i < l; i++) want[i] ^= ks[i - 8];
        }
      vc_eq(data + nb, want + nb, l - nb, "bytes behind the last whole block");
      vc_eq(data, alt, nb, "whole blocks with other residue bytes");
    }
  vc_tag("");
  vc_reach();
}

/* ------------------------------------------------------------------------
   Payloads of any length (0 .. 2^32 - 1): loop invariants.  NAME__pred is
   the range of the number t of iterations, NAME__end the number at which the
   loop stops, NAME__at the payload byte x after t iterations, NAME__var
   (optional) t as a function of another variable, NAME__ghost
   the loop state.  A loop is cut with the first candidate the verifier can
   prove to be an invariant.  See vc/loops.cpp. */
static uint8_t *P;              /* the payload */
static uint64_t LEN;
/* with 32-bit pointers no object is larger than 2^31 - 1 bytes */
#define BLOCKS_BITS (sizeof(void *) == 4 ? 28 : 29)
static const uint8_t *CW, *KK;
#define NB (LEN >> 3)
/* the same of a loop with its condition at the end (do ... while) */
#define ROTATED(c, END, INV) \
  uint64_t c##_r__end(void) { return END; } \
  int c##_r__pred(uint64_t m) { return INV; } \
  uint8_t c##_r__at(uint64_t t, uint64_t x, int prove) { return c##__at(t, x, prove); }
#define ROTATED_D(c, END, INV) \
  uint64_t c##_rd__end(void) { return END; } \
  uint64_t c##_rd__var(uint64_t m) { return (END) - m; } \
  int c##_rd__pred(uint64_t t) { uint64_t m = (END) - t; return INV; } \
  uint8_t c##_rd__at(uint64_t t, uint64_t x, int prove) { return c##__at(t, x, prove); }
#define COUNTING_DOWN_GHOST(c) void c##_d__ghost(uint64_t t, int mode, uint8_t *out) { c##__ghost(t, mode, out); }
/* a candidate that stops after END iterations.  INV says that the number of
   iterations is at most END, of the number m of iterations done (counting
   up) or to do (counting down: NAME_d, where t = END - m); both mean the
   same, but which one is easy depends on the loop */
#define CANDIDATE(c, END, INV) \
  uint64_t c##__end(void) { return END; } \
  int c##__pred(uint64_t m) { return INV; }
#define CANDIDATE_D(c, END, INV) \
  uint64_t c##_d__end(void) { return END; } \
  uint64_t c##_d__var(uint64_t m) { return (END) - m; } \
  int c##_d__pred(uint64_t t) { uint64_t m = (END) - t; return INV; } \
  uint8_t c##_d__at(uint64_t t, uint64_t x, int prove) { return c##__at(t, x, prove); }

/* --- the stream cipher: state(i) is the state in front of byte i */
static uint8_t *s_cw, *s_iv;
static void stream_state(uint64_t i, uint8_t *st)
{
  int j;
  vc_ghost("state", i, st, ST_N);
  for (j = 0; j < ST_N; j++) st[j] &= j == ST_PQR ? 7 : 15;
}
static uint8_t stream_byte(uint8_t *st)
{
  uint8_t r = 0;
  int j;
  for (j = 0; j < 4; j++)
    {
      unsigned D;
      spec_stream_round(st, 0, 0, 0);
      D = st[ST_D];
      r = r << 2 | ((D >> 3 ^ D >> 2) & 1) << 1 | ((D >> 1 ^ D) & 1);
    }
  return r;
}
void stream__ghost(uint64_t t, int mode, uint8_t *out)
{
  uint8_t s[ST_N + 16];
  int i;
  if (mode == 0) stream_state(t, out);
  else if (mode == 1) { stream_state(t - 1, out); stream_byte(out); }
  else
    {
      uint8_t c[8];
      for (i = 0; i < 8; i++) c[i] = s_cw[i] >> 4 | s_cw[i] << 4;
      spec_stream_load(c, s);
      for (i = 0; i < 8; i++) { s[ST_N + 2 * i] = s_iv[i] & 15; s[ST_N + 2 * i + 1] = s_iv[i] >> 4; }
      spec_stream_init(s, out);
    }
}
uint8_t stream__at(uint64_t t, uint64_t x, int prove)
{
  uint8_t r = vc_base(P, x);
  if (x < t) { uint8_t st[ST_N]; stream_state(x, st); r ^= stream_byte(st); }
  return r;
}
CANDIDATE(stream, LEN, m <= LEN)
COUNTING_DOWN_GHOST(stream)
CANDIDATE_D(stream, LEN, m <= LEN)
/* blocks of eight bytes, and the bytes behind them */
void stream8__ghost(uint64_t t, int mode, uint8_t *out)
{
  int i;
  if (mode == 1) { stream_state(8 * (t - 1), out); for (i = 0; i < 8; i++) stream_byte(out); }
  else stream__ghost(8 * t, mode, out);
}
uint8_t stream8__at(uint64_t t, uint64_t x, int prove)
{
  uint8_t st[ST_N], r;
  unsigned i;
  if (!prove || (x & ~7ULL) != 8 * (t - 1)) return stream__at(8 * t, x, prove);
  stream_state(8 * (t - 1), st);        /* state(x), from the state in front of the eight bytes */
  r = stream_byte(st);
  for (i = 0; i < (x & 7); i++) r = stream_byte(st);
  return vc_base(P, x) ^ r;
}
ROTATED(stream, LEN - 1, m < LEN)
void stream_r__ghost(uint64_t t, int mode, uint8_t *out) { stream__ghost(t, mode, out); }
CANDIDATE(stream8, LEN >> 3, m <= LEN >> 3)
COUNTING_DOWN_GHOST(stream8)
CANDIDATE_D(stream8, LEN >> 3, m <= LEN >> 3)
void streamt__ghost(uint64_t t, int mode, uint8_t *out) { stream__ghost((LEN & ~7ULL) + t, mode == 2 ? 0 : mode, out); }
uint8_t streamt__at(uint64_t t, uint64_t x, int prove) { return stream__at((LEN & ~7ULL) + t, x, prove); }
CANDIDATE(streamt, LEN & 7, m <= (LEN & 7))
COUNTING_DOWN_GHOST(streamt)
CANDIDATE_D(streamt, LEN & 7, m <= (LEN & 7))
void check_cl_stream_all(void)
{
  uint8_t *cws = vc_object("cws", 8, 8, 1), *iv = vc_object("iv", 8, 8, 1), st[ST_N], *got = vc_object("got", 1, 1, 1), *want = vc_object("want", 1, 1, 1);
  uint64_t x;
  LEN = 8 * vc_word("blocks", BLOCKS_BITS) + vc_word("residue", 3);
  P = vc_array("data", LEN);
  vc_sym(cws, 8, "cws");
  vc_sym(iv, 8, "iv");
  s_cw = cws; s_iv = iv;
  vc_protect(cws, 1);
  vc_protect(iv, 1);
  vc_loops("stream"); vc_loops("stream_d"); vc_loops("stream8"); vc_loops("stream8_d"); vc_loops("streamt"); vc_loops("streamt_d"); vc_loops("stream_r");
  vc_frame(1);
  vc_fn__dvbcsa_stream_xor(cws, iv, P, LEN);
  vc_frame(0);
  x = vc_word("x", 32);
  if (x < LEN)
    {
      *got = vc_at(P, x);
      stream_state(x, st);
      *want = vc_base(P, x) ^ stream_byte(st);
      vc_eq(got, want, 1, "data");
    }
  vc_reach();
}

/* --- decryption and encryption of a payload of n = len / 8 whole blocks */
static int encrypted, decrypted; /* the payload has been encrypted, decrypted before the operation */
static uint8_t iv0[8];          /* the first block of the ciphertext */
static void enc_block(const uint8_t *in, uint8_t *o) { uint8_t a[64]; memcpy(a, KK, 56); memcpy(a + 56, in, 8); spec_block_enc(a, o); }
static void dec_block(const uint8_t *in, uint8_t *o) { uint8_t a[64]; memcpy(a, KK, 56); memcpy(a + 56, in, 8); spec_block_dec(a, o); }
/* the block chain of encryption, from its definition
   E(b) = enc(plain block b ^ (b + 1 < n ? E(b + 1) : 0)) */
static void chain(uint64_t b, uint8_t *o) { vc_ghost("chain", 8 * b, o, 8); }
/* byte x of a ciphertext with the key stream taken off, of which block 0 is iv0 */
static uint8_t S(uint64_t x)
{
  uint8_t r;
  if (encrypted)                /* the chain, and the residue */
    {
      uint8_t o[8];
      if (x >= (LEN & ~7ULL)) return vc_base(P, x);
      chain(x >> 3, o);
      return o[x & 7];
    }
  r = vc_base(P, x);
  if (x >= 8) r ^= vc_ks(CW, iv0, x - 8);
  return r;
}
static void S8(uint64_t b, uint8_t *o) { int j; for (j = 0; j < 8; j++) o[j] = S(8 * b + j); }
/* byte x of the plaintext */
static uint8_t plain(uint64_t x)
{
  uint8_t s[8], d[8], r;
  if (x >= (LEN & ~7ULL)) return S(x);
  S8(x >> 3, s);
  dec_block(s, d);
  r = d[x & 7];
  if ((x >> 3) + 1 < LEN >> 3) r ^= S(x + 8);
  return r;
}
/* decryption: the first k blocks are final, except that block k - 1 still
   lacks the chaining with block k */
static uint8_t dec_at(uint64_t k, uint64_t x)
{
  uint8_t s[8], d[8], r;
  uint64_t b = x >> 3;
  if (b >= LEN >> 3 || b >= k) return S(x);
  S8(b, s);
  dec_block(s, d);
  r = d[x & 7];
  if (b + 1 < k) r ^= S(x + 8);
  return r;
}
uint8_t dec1__at(uint64_t t, uint64_t x, int prove) { return dec_at(t + 1, x); }
uint8_t dec0__at(uint64_t t, uint64_t x, int prove) { return dec_at(t, x); }
/* the first k blocks are final */
static uint8_t decf_at(uint64_t k, uint64_t x) { return x >> 3 < LEN >> 3 && x >> 3 < k ? plain(x) : S(x); }
uint8_t decf1__at(uint64_t t, uint64_t x, int prove) { return decf_at(t + 1, x); }
uint8_t decf0__at(uint64_t t, uint64_t x, int prove) { return decf_at(t, x); }
CANDIDATE(dec1, NB - 1, m < NB)
CANDIDATE_D(dec1, NB - 1, m < NB)
CANDIDATE(dec0, NB, m <= NB)
CANDIDATE_D(dec0, NB, m <= NB)
CANDIDATE(decf1, NB - 1, m < NB)
CANDIDATE_D(decf1, NB - 1, m < NB)
CANDIDATE(decf0, NB, m <= NB)
CANDIDATE_D(decf0, NB, m <= NB)
ROTATED(dec1, NB - 2, m < NB - 1)
ROTATED(dec0, NB - 1, m < NB)
ROTATED(decf1, NB - 2, m < NB - 1)
ROTATED(decf0, NB - 1, m < NB)
/* encryption: the last k blocks are encrypted */
static uint8_t enc_base(uint64_t x) { return decrypted ? plain(x) : vc_base(P, x); }
static uint8_t enc_at(uint64_t k, uint64_t x, int prove)
{
  uint32_t lo = (uint32_t)(LEN & ~7ULL) - 8 * (uint32_t)k;      /* where the encrypted part starts */
  uint64_t b = x >> 3, n = LEN >> 3;
  uint8_t o[8], q[8];
  int j;
  if (b >= n || x < lo) return enc_base(x);
  if (decrypted) { S8(b, o); return o[x & 7]; }   /* E(b) = S(b): enc(dec(S(b)) ^ S(b + 1) ^ S(b + 1)) */
  if (prove && (x & ~7ULL) == lo)
    {
      for (j = 0; j < 8; j++) o[j] = enc_base(8 * b + j);
      if (b + 1 < n) { chain(b + 1, q); for (j = 0; j < 8; j++) o[j] ^= q[j]; }
      enc_block(o, q);
      return q[x & 7];
    }
  chain(b, o);
  return o[x & 7];
}
uint8_t enc1__at(uint64_t t, uint64_t x, int prove) { return enc_at(t + 1, x, prove); }
uint8_t enc0__at(uint64_t t, uint64_t x, int prove) { return enc_at(t, x, prove); }
CANDIDATE(enc1, NB - 1, m < NB)
CANDIDATE_D(enc1, NB - 1, m < NB)
CANDIDATE(enc0, NB, m <= NB)
CANDIDATE_D(enc0, NB, m <= NB)
ROTATED_D(enc1, NB - 2, m < NB - 1)
ROTATED_D(enc0, NB - 1, m < NB)

static struct dvbcsa_key_s *setup_all(void)
{
  static uint8_t kk[56];
  uint8_t *cw = vc_object("cw", 8, 8, 1);
  struct dvbcsa_key_s *key = vc_object("key", sizeof *key, sizeof *key, _Alignof(struct dvbcsa_key_s));
  int j;
  LEN = 8 * vc_word("blocks", BLOCKS_BITS) + vc_word("residue", 3);
  P = vc_array("data", LEN);
  use_contracts();
  vc_sym(cw, 8, "cw");
  spec_key_schedule(cw, kk);
  CW = cw; KK = kk;
  vc_protect(cw, 1);
  vc_frame(1);
  if (vc_param0("dirty"))
    {
      uint8_t *cw2 = vc_object("cw2", 8, 8, 1);
      vc_sym(cw2, 8, "cw2");
      dvbcsa_key_set(cw2, key);
    }
  dvbcsa_key_set(cw, key);
  vc_protect(key, 1);
  vc_frame(0);
  vc_loops("dec1"); vc_loops("enc1_d"); vc_loops("dec0"); vc_loops("enc0_d"); vc_loops("decf1"); vc_loops("decf0");
  vc_loops("dec1_d"); vc_loops("enc1"); vc_loops("dec0_d"); vc_loops("enc0"); vc_loops("decf1_d"); vc_loops("decf0_d");
  vc_loops("dec1_r"); vc_loops("enc1_rd"); vc_loops("dec0_r"); vc_loops("enc0_rd"); vc_loops("decf1_r"); vc_loops("decf0_r");
  for (j = 0; j < 8; j++) iv0[j] = vc_base(P, j);
  return key;
}
/* byte r of block b, or of the residue */
static void check_block(int enc, uint64_t b)
{
  uint8_t *got = vc_object("got", 8, 8, 1), *want = vc_object("want", 8, 8, 1);
  int r;
  for (r = 0; r < 8; r++)
    {
      uint64_t x = 8 * b + r;
      if (x < LEN)
        {
          if (LEN < 8) want[r] = vc_base(P, x);
          else if (!enc) want[r] = plain(x);
          else if (x < (LEN & ~7ULL)) { uint8_t o[8]; chain(b, o); want[r] = o[r]; if (b >= 1) want[r] ^= vc_ks(CW, iv0, x - 8); }
          else want[r] = vc_base(P, x) ^ vc_ks(CW, iv0, x - 8);
          got[r] = vc_at(P, x);
          vc_eq(got + r, want + r, 1, "payload");
        }
    }
}
/* any block: the first and the last are cases of their own */
static void any_block(void (*f)(int, uint64_t), int enc)
{
  uint64_t b = vc_word("block", 29);
  f(enc, 0);
  if (NB >= 2) f(enc, NB - 1);
  if (b != 0 && b != NB - 1) f(enc, b);
}
void check_cl_all(void)
{
  int enc = vc_param("enc");
  struct dvbcsa_key_s *key = setup_all();
  vc_frame(1);
  if (enc) dvbcsa_encrypt(key, P, LEN); else dvbcsa_decrypt(key, P, LEN);
  vc_frame(0);
  vc_loops("");
  if (enc) chain(0, iv0);
  any_block(check_block, enc);
  vc_reach();
}
/* E(b) by its definition */
static void unfold(uint64_t b, uint8_t *v)
{
  uint8_t e[8], d[8], q[8], f[8];
  int j;
  chain(b, e);
  for (j = 0; j < 8; j++) d[j] = vc_base(P, 8 * b + j);
  if (8 * b + 16 <= LEN) { chain(b + 1, q); for (j = 0; j < 8; j++) d[j] ^= q[j]; }
  enc_block(d, f);
  vc_subst(v, 1, e, f, 8);
}
static void rt_block(int enc, uint64_t b)
{
  uint8_t *got = vc_object("got", 8, 8, 1), *want = vc_object("want", 8, 8, 1);
  int r;
  for (r = 0; r < 8; r++)
    {
      uint64_t x = 8 * b + r;
      if (x < LEN)
        {
          got[r] = vc_at(P, x);
          want[r] = vc_base(P, x);
          if (enc && 8 * b + 8 <= LEN) unfold(b, got + r);
          vc_eq(got + r, want + r, 1, "round trip");
        }
    }
}
/* one operation and then its inverse, for a payload of any length */
void check_cl_rt_all(void)
{
  int enc = vc_param("enc");
  struct dvbcsa_key_s *key;
  vc_inverse("spec_block_dec", "spec_block_enc", 448);
  vc_inverse("spec_block_enc", "spec_block_dec", 448);
  key = setup_all();
  vc_frame(1);
  if (enc) dvbcsa_encrypt(key, P, LEN); else dvbcsa_decrypt(key, P, LEN);
  vc_frame(0);
  encrypted = enc; decrypted = !enc;
  if (enc) chain(0, iv0);       /* see check_cl_all */
  vc_frame(1);
  if (enc) dvbcsa_decrypt(key, P, LEN); else dvbcsa_encrypt(key, P, LEN);
  vc_frame(0);
  vc_loops("");
  any_block(rt_block, enc);
  vc_reach();
}
