/* Key objects: allocation, release, set-up; the batch size. */
#include "vc.h"
#include "dvbcsa/dvbcsa.h"
#include "dvbcsa_pv.h"
#include "dvbcsa_bs.h"
#include "../spec/csa_spec.h"

static struct dvbcsa_key_s *ca(void) { return dvbcsa_key_alloc(); }
static struct dvbcsa_bs_key_s *ba(void) { return dvbcsa_bs_key_alloc(); }

/* allocate, use, release; with other keys around */
void check_alloc(void)
{
  static uint8_t cw[8];
  int k, fail;
  vc_sym(cw, 8, "cw");
  for (k = 0; k < 2; k++)
    {
      void *p, *q, *f;
      vc_tag(k ? "parallel key" : "classical key");
      p = k ? (void *)ba() : (void *)ca();
      vc_true(!vc_is_null(p), "allocation succeeds while memory lasts");
      vc_true(vc_heap_size(p) >= (k ? sizeof(struct dvbcsa_bs_key_s) : sizeof(struct dvbcsa_key_s)), "large enough");
      vc_true(vc_heap_align(p) >= (k ? _Alignof(struct dvbcsa_bs_key_s) : _Alignof(struct dvbcsa_key_s)), "aligned");
      if (k) vc_true(vc_heap_align(p) >= sizeof(dvbcsa_bs_word_t), "aligned for the words");
      if (k) dvbcsa_bs_key_set(cw, p); else dvbcsa_key_set(cw, p);
      vc_protect(p, 1);
      vc_frame(1);
      q = k ? (void *)ba() : (void *)ca();
      vc_true(!vc_is_null(q), "second allocation");
      vc_true(!vc_same_object(p, q), "a new object");
      vc_frame(0);
      if (k) dvbcsa_bs_key_set(cw, q); else dvbcsa_key_set(cw, q);
      /* memory runs short */
      vc_frame(1);
      vc_alloc_fail(1);
      f = k ? (void *)ba() : (void *)ca();
      vc_true(vc_is_null(f), "NULL when memory is short");
      vc_alloc_fail(-1);
      if (k) dvbcsa_bs_key_free(NULL); else dvbcsa_key_free(NULL);
      vc_true(vc_live(p) && vc_live(q), "freeing NULL does nothing");
      if (k) dvbcsa_bs_key_free(q); else dvbcsa_key_free(q);
      vc_frame(0);
      vc_true(vc_live(p), "the other key stays");
      vc_true(!vc_live(q), "the object is released");
      vc_protect(p, 0);
      if (k) dvbcsa_bs_key_free(p); else dvbcsa_key_free(p);
      vc_true(!vc_live(p), "the object is released");
    }
  vc_tag("");
  vc_reach();
}
void check_batch_size(void)
{
  unsigned a = dvbcsa_bs_batch_size(), b = dvbcsa_bs_batch_size();
  vc_true(a == BS_BATCH_SIZE, "the number of lanes of the build");
  vc_true(a == b, "constant");
  vc_true(a == 32 || a == 64 || a == 128 || a == 256, "32, 64, 128 or 256");
  vc_true(a == 8 * sizeof(dvbcsa_bs_word_t), "bits of a word");
  vc_reach();
}
/* ensures: after key set-up the key object holds the schedule of cw, whatever
   it held before (another key, or nothing) */
static void cl_key(int dirty)
{
  struct dvbcsa_key_s *key = vc_object("key", sizeof *key, sizeof *key, _Alignof(struct dvbcsa_key_s));
  uint8_t *cw = vc_object("cw", 8, 8, 1), *cw2 = vc_object("cw2", 8, 8, 1), kk[56], sw[8];
  int i;
  vc_sym(cw, 8, "cw");
  vc_sym(cw2, 8, "cw2");
  vc_protect(cw, 1);
  vc_protect(cw2, 1);
  vc_frame(1);
  if (dirty) dvbcsa_key_set(cw2, key);
  dvbcsa_key_set(cw, key);
  vc_frame(0);
  spec_key_schedule(cw, kk);
  for (i = 0; i < 8; i++) sw[i] = cw[i] << 4 | cw[i] >> 4;
  vc_tag(dirty ? "classical key, set before" : "classical key");
  vc_eq(key->sch, kk, 56, "round keys");
  vc_eq(key->cws, sw, 8, "stream key");
  vc_support(key->sch, 56, "cw", "round keys");
  vc_support(key->cws, 8, "cw", "stream key");
}
static void bs_key(int dirty)
{
  struct dvbcsa_bs_key_s *key = vc_object("key", sizeof *key, sizeof *key, _Alignof(struct dvbcsa_bs_key_s));
  uint8_t *cw = vc_object("cw", 8, 8, 1), *cw2 = vc_object("cw2", 8, 8, 1), kk[56];
  static uint8_t want[56 * sizeof(dvbcsa_bs_word_t)], swant[64 * sizeof(dvbcsa_bs_word_t)];
  unsigned i, j;
  vc_sym(cw, 8, "cw");
  vc_sym(cw2, 8, "cw2");
  vc_protect(cw, 1);
  vc_protect(cw2, 1);
  vc_frame(1);
  if (dirty) dvbcsa_bs_key_set(cw2, key);
  dvbcsa_bs_key_set(cw, key);
  vc_frame(0);
  spec_key_schedule(cw, kk);
  for (i = 0; i < 56; i++) for (j = 0; j < sizeof(dvbcsa_bs_word_t); j++) want[i * sizeof(dvbcsa_bs_word_t) + j] = kk[i];
  for (i = 0; i < 64; i++) for (j = 0; j < sizeof(dvbcsa_bs_word_t); j++) swant[i * sizeof(dvbcsa_bs_word_t) + j] = -((cw[i / 8] >> ((i ^ 4) & 7)) & 1);
  vc_tag(dirty ? "parallel key, set before" : "parallel key");
  vc_eq(key->block, want, sizeof want, "round keys");
  vc_eq(key->stream, swant, sizeof swant, "stream key");
  vc_support(key->block, sizeof want, "cw", "round keys");
  vc_support(key->stream, sizeof swant, "cw", "stream key");
}
void check_key_set(void)
{
  cl_key(0);
  cl_key(1);
  bs_key(0);
  bs_key(1);
  vc_tag("");
  vc_reach();
}
