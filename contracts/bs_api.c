/* The parallel API against the specification. Parameters: maxlen, enc. */
#include "bs_contracts.h"
#include <string.h>

#define W BS_BATCH_SIZE
#define PKTMODEL 192            /* modelled bytes of a packet; the code may not touch more than 184 */

#define MAXLEN32 0xffffffffULL

static char *nm(char *buf, const char *s, int i)
{
  char t[8];
  int k = 0, n = 0;
  while (*s) buf[n++] = *s++;
  do { t[k++] = '0' + i % 10; i /= 10; } while (i);
  while (k) buf[n++] = t[--k];
  buf[n] = 0;
  return buf;
}
struct setup { struct dvbcsa_bs_key_s *key; struct dvbcsa_bs_batch_s *pcks; uint8_t *cw, *pkt[W], *pre[W]; uint64_t n, len[W]; };

static void batch(struct setup *s)
{
  static uint64_t nvals[W + 1];
  char b[32];
  int i;
  s->cw = vc_object("cw", 8, 8, 1);
  vc_sym(s->cw, 8, "cw");
  s->key = vc_object("key", sizeof *s->key, sizeof *s->key, _Alignof(struct dvbcsa_bs_key_s));
  if (vc_param0("dirty"))
    {
      uint8_t *cw2 = vc_object("cw2", 8, 8, 1);
      vc_sym(cw2, 8, "cw2");
      dvbcsa_bs_key_set(cw2, s->key);
    }
  dvbcsa_bs_key_set(s->cw, s->key);
  for (i = 0; i <= W; i++) nvals[i] = i;
  s->n = vc_dom("n", nvals, W + 1);
  s->pcks = vc_object("batch", (W + 1) * sizeof *s->pcks, (W + 1) * sizeof *s->pcks, _Alignof(struct dvbcsa_bs_batch_s));
  for (i = 0; i <= W; i++)
    {
      void *garbage;
      struct dvbcsa_bs_batch_s e;
      unsigned glen;
      if (i < W)
        {
          s->len[i] = vc_len(nm(b, "len", i));
          s->pkt[i] = vc_object(nm(b, "data", i), 0x100000000ULL, s->len[i], 1);
          vc_limit(s->pkt[i], PKTMODEL);
          vc_sym(s->pkt[i], PKTMODEL, nm(b, "pkt", i));
          s->pre[i] = vc_object(nm(b, "pre", i), PKTMODEL, PKTMODEL, 1);
          vc_copy(s->pre[i], s->pkt[i], PKTMODEL);
          e.data = (uint64_t)i < s->n ? s->pkt[i] : NULL;
          e.len = (uint64_t)i < s->n ? (unsigned)s->len[i] : glen;
        }
      else { e.data = NULL; e.len = glen; }
      s->pcks[i] = e;
    }
  /* the caller's array ends with the terminator */
  vc_size(s->pcks, (s->n + 1) * sizeof *s->pcks);
}
static void xorb(uint8_t *d, const uint8_t *s, int n) { int i; for (i = 0; i < n; i++) d[i] ^= s[i]; }

static void spec_stream_xor(const uint8_t *cw, const uint8_t *iv, uint8_t *d, int n)
{
  uint8_t in[43], st[27], o[43];
  int i, j;
  spec_stream_load(cw, in);
  for (i = 0; i < 8; i++) { in[27 + 2 * i] = iv[i] & 15; in[28 + 2 * i] = iv[i] >> 4; }
  spec_stream_init(in, st);
  for (i = 0; i < n; i += 8)
    {
      st[ST_PQR] &= 7;
      spec_stream8(st, o);
      for (j = 0; j < 8 && i + j < n; j++) d[i + j] ^= (uint8_t)(o[27 + 2 * j] | o[28 + 2 * j] << 4);
      for (j = 0; j < 27; j++) st[j] = o[j];
    }
}
static void spec_blk(int enc, const uint8_t *kk, uint8_t *d)
{
  uint8_t in[64], out[8];
  int i;
  for (i = 0; i < 56; i++) in[i] = kk[i];
  for (i = 0; i < 8; i++) in[56 + i] = d[i];
  if (enc) spec_block_enc(in, out); else spec_block_dec(in, out);
  for (i = 0; i < 8; i++) d[i] = out[i];
}
/* the specification for a payload of constant length n */
static void spec_payload(int enc, const uint8_t *cw, uint8_t *d, int n)
{
  uint8_t kk[56];
  int nb = n / 8, i;
  if (nb == 0) return;
  spec_key_schedule(cw, kk);
  if (!enc) spec_stream_xor(cw, d, d + 8, n - 8);
  if (!enc)
    for (i = 0; i < nb; i++) { spec_blk(0, kk, d + 8 * i); if (i + 1 < nb) xorb(d + 8 * i, d + 8 * i + 8, 8); }
  else
    for (i = nb - 1; i >= 0; i--) { if (i + 1 < nb) xorb(d + 8 * i, d + 8 * i + 8, 8); spec_blk(1, kk, d + 8 * i); }
  if (enc) spec_stream_xor(cw, d, d + 8, n - 8);
}

void check_bs(void)
{
  static struct setup s;
  uint8_t want[PKTMODEL];
  int64_t maxlen = vc_param("maxlen"), enc = vc_param("enc"), l, i, r;
  char b[32];
  use_contracts();
  batch(&s);
  vc_protect(s.key, 1);
  vc_protect(s.pcks, 1);
  vc_protect(s.cw, 1);
  vc_frame(1);
  if (enc) dvbcsa_bs_encrypt(s.key, s.pcks, maxlen); else dvbcsa_bs_decrypt(s.key, s.pcks, maxlen);
  vc_frame(0);
  /* packet 0, every length */
  vc_restrict_range("n", 1, W);
  for (l = 0; l <= maxlen; l++)
    {
      memcpy(want, s.pre[0], PKTMODEL);
      spec_payload(enc, s.cw, want, l);
      vc_restrict_clear();
      vc_restrict_range("n", 1, W);
      vc_restrict_range("len0", l, l < maxlen ? l : MAXLEN32);
      vc_tagn("length ", l);
      vc_eq(s.pkt[0], want, PKTMODEL, "packet 0");
    }
  /* what packet 0 becomes depends on nothing else, and every other position
     behaves like position 0 */
  for (l = 0; l <= maxlen; l = r + 1)
    {
      r = l + 7 < maxlen ? l + 7 : l < maxlen ? maxlen - 1 : maxlen;
      vc_restrict_clear();
      vc_restrict_range("n", 1, W);
      vc_restrict_range("len0", l, l < maxlen ? r : MAXLEN32);
      vc_tagn("length ", l);
      vc_support(s.pkt[0], PKTMODEL, "cw pkt0 len0", "packet 0");
      vc_restrict_clear();
      vc_restrict_range("len0", l, l < maxlen ? r : MAXLEN32);
      for (i = 1; i < W; i++)
        {
          vc_rename_clear();
          vc_rename(nm(b, "pkt", i), "pkt0");
          vc_rename(nm(b, "len", i), "len0");
          vc_iso(s.pkt[i], s.pkt[0], PKTMODEL, "n", i, 0, "position independence");
        }
    }
  vc_restrict_clear();
  vc_tag("");
  vc_reach();
}

/* one operation and then its inverse: every packet is what it was */
void check_bs_rt(void)
{
  static struct setup s;
  int64_t maxlen = vc_param("maxlen"), enc = vc_param("enc"), l, i, r;
  char b[32];
  use_contracts();
  vc_inverse("spec_block_dec", "spec_block_enc", 448);
  vc_inverse("spec_block_enc", "spec_block_dec", 448);
  batch(&s);
  if (enc) { dvbcsa_bs_encrypt(s.key, s.pcks, maxlen); dvbcsa_bs_decrypt(s.key, s.pcks, maxlen); }
  else { dvbcsa_bs_decrypt(s.key, s.pcks, maxlen); dvbcsa_bs_encrypt(s.key, s.pcks, maxlen); }
  for (l = 0; l <= maxlen; l++)
    {
      vc_restrict_clear();
      vc_restrict_range("n", 1, W);
      vc_restrict_range("len0", l, l < maxlen ? l : MAXLEN32);
      vc_tagn("length ", l);
      vc_eq(s.pkt[0], s.pre[0], PKTMODEL, "round trip, packet 0");
    }
  for (l = 0; l <= maxlen; l = r + 1)
    {
      r = l + 7 < maxlen ? l + 7 : l < maxlen ? maxlen - 1 : maxlen;
      vc_restrict_clear();
      vc_restrict_range("len0", l, l < maxlen ? r : MAXLEN32);
      vc_tagn("length ", l);
      for (i = 1; i < W; i++)
        {
          vc_rename_clear();
          vc_rename(nm(b, "pkt", i), "pkt0");
          vc_rename(nm(b, "len", i), "len0");
          vc_iso(s.pkt[i], s.pkt[0], PKTMODEL, "n", i, 0, "position independence");
        }
    }
  vc_restrict_clear();
  vc_tag("");
  vc_reach();
}

/* maxlen = m against maxlen = m2 >= m with the payloads cut to m bytes */
void check_bs_maxlen(void)
{
  static struct setup s;
  static uint8_t *cut[W];
  static struct dvbcsa_bs_batch_s *pc2;
  int64_t m = vc_param("maxlen"), m2 = vc_param("maxlen2"), enc = vc_param("enc"), l, i, r;
  char b[32];
  use_contracts();
  batch(&s);
  pc2 = vc_object("batch2", (W + 1) * sizeof *pc2, (W + 1) * sizeof *pc2, _Alignof(struct dvbcsa_bs_batch_s));
  for (i = 0; i <= W; i++)
    {
      struct dvbcsa_bs_batch_s e;
      e.data = NULL; e.len = 0;
      if (i < W)
        {
          uint64_t l2 = s.len[i] > (uint64_t)m ? (uint64_t)m : s.len[i];
          cut[i] = vc_object(nm(b, "cut", i), PKTMODEL, l2, 1);
          vc_copy(cut[i], s.pkt[i], m ? PKTMODEL : 0);
          e.data = (uint64_t)i < s.n ? cut[i] : NULL;
          e.len = l2;
        }
      pc2[i] = e;
    }
  if (enc) { dvbcsa_bs_encrypt(s.key, s.pcks, m); dvbcsa_bs_encrypt(s.key, pc2, m2); }
  else { dvbcsa_bs_decrypt(s.key, s.pcks, m); dvbcsa_bs_decrypt(s.key, pc2, m2); }
  for (l = 0; l <= m; l++)
    {
      vc_restrict_clear();
      vc_restrict_range("n", 1, W);
      vc_restrict_range("len0", l, l < m ? l : MAXLEN32);
      vc_tagn("length ", l);
      vc_eq(s.pkt[0], cut[0], m, "as with the other maxlen, packet 0");
      vc_eq(s.pkt[0] + m, s.pre[0] + m, PKTMODEL - m, "bytes behind maxlen, packet 0");
    }
  for (l = 0; l <= m; l = r + 1)
    {
      r = l + 7 < m ? l + 7 : l < m ? m - 1 : m;
      vc_restrict_clear();
      vc_restrict_range("len0", l, l < m ? r : MAXLEN32);
      vc_tagn("length ", l);
      for (i = 1; i < W; i++)
        {
          vc_rename_clear();
          vc_rename(nm(b, "pkt", i), "pkt0");
          vc_rename(nm(b, "len", i), "len0");
          vc_iso(s.pkt[i], s.pkt[0], PKTMODEL, "n", i, 0, "position independence");
          vc_iso(cut[i], cut[0], m, "n", i, 0, "position independence, other maxlen");
        }
    }
  vc_restrict_clear();
  vc_tag("");
  vc_reach();
}

/* residue bytes: only the stream cipher touches them and they touch nothing else */
void check_bs_tail(void)
{
  static struct setup s;
  static uint8_t *alt[W];
  static struct dvbcsa_bs_batch_s *pc2;
  uint8_t want[PKTMODEL], iv[8];
  int64_t m = vc_param("maxlen"), enc = vc_param("enc"), l, i, j, r, nb;
  char b[32];
  use_contracts();
  batch(&s);
  pc2 = vc_object("batch2", (W + 1) * sizeof *pc2, (W + 1) * sizeof *pc2, _Alignof(struct dvbcsa_bs_batch_s));
  for (i = 0; i <= W; i++)
    {
      struct dvbcsa_bs_batch_s e;
      e.data = NULL; e.len = 0;
      if (i < W)
        {
          uint64_t whole = s.len[i] >= (uint64_t)m ? (uint64_t)m : s.len[i] & ~7ULL;
          uint8_t *fresh = vc_object(nm(b, "other", i), PKTMODEL, PKTMODEL, 1);
          vc_sym(fresh, PKTMODEL, nm(b, "fresh", i));
          alt[i] = vc_object(nm(b, "alt", i), 0x100000000ULL, s.len[i], 1);
          vc_limit(alt[i], PKTMODEL);
          vc_copy(alt[i], s.pkt[i], PKTMODEL);
          for (j = 0; j < PKTMODEL; j += 8) if ((uint64_t)j >= whole) vc_copy(alt[i] + j, fresh + j, 8);
          e.data = (uint64_t)i < s.n ? alt[i] : NULL;
          e.len = s.len[i];
        }
      pc2[i] = e;
    }
  if (enc) { dvbcsa_bs_encrypt(s.key, s.pcks, m); dvbcsa_bs_encrypt(s.key, pc2, m); }
  else { dvbcsa_bs_decrypt(s.key, s.pcks, m); dvbcsa_bs_decrypt(s.key, pc2, m); }
  for (l = 0; l <= m; l++)
    {
      nb = l & ~7;
      memcpy(want, s.pre[0], PKTMODEL);
      vc_copy(iv, enc ? s.pkt[0] : s.pre[0], 8);
      if (nb) spec_stream_xor(s.cw, iv, want + 8, l - 8);
      vc_restrict_clear();
      vc_restrict_range("n", 1, W);
      vc_restrict_range("len0", l, l < m ? l : MAXLEN32);
      vc_tagn("length ", l);
      vc_eq(s.pkt[0] + nb, want + nb, PKTMODEL - nb, "bytes behind the last whole block, packet 0");
      vc_eq(s.pkt[0], alt[0], nb, "whole blocks with other residue bytes, packet 0");
    }
  for (l = 0; l <= m; l = r + 1)
    {
      r = l + 7 < m ? l + 7 : l < m ? m - 1 : m;
      vc_restrict_clear();
      vc_restrict_range("len0", l, l < m ? r : MAXLEN32);
      vc_tagn("length ", l);
      for (i = 1; i < W; i++)
        {
          vc_rename_clear();
          vc_rename(nm(b, "pkt", i), "pkt0");
          vc_rename(nm(b, "fresh", i), "fresh0");
          vc_rename(nm(b, "len", i), "len0");
          vc_iso(s.pkt[i], s.pkt[0], PKTMODEL, "n", i, 0, "position independence");
          vc_iso(alt[i], alt[0], PKTMODEL, "n", i, 0, "position independence");
        }
    }
  vc_restrict_clear();
  vc_tag("");
  vc_reach();
}
