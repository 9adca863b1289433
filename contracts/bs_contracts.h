/* Contracts of the bit-sliced functions.  Each contract__F has the type of F
   and states its effect: reads of the pre-state, ghost function per lane,
   results, and what becomes unspecified. */
#include "vc.h"
#include "dvbcsa/dvbcsa.h"
#include "dvbcsa_bs.h"
#include "dvbcsa_bs_stream_kernel.h"
#include "../spec/csa_spec.h"

typedef struct dvbcsa_bs_stream_regs_s regs_t;

/* the 27 nibbles of the stream state, one pointer per bit */
static void state_ptrs(regs_t *g, dvbcsa_bs_word_t *zero, void **v)
{
  int i, b;
  for (b = 0; b < 4; b++)
    {
      for (i = 0; i < 10; i++) { v[4 * (ST_A + i) + b] = &g->A[32 + i][b]; v[4 * (ST_B + i) + b] = &g->B[32 + i][b]; }
      v[4 * ST_X + b] = &g->X[b]; v[4 * ST_Y + b] = &g->Y[b]; v[4 * ST_Z + b] = &g->Z[b];
      v[4 * ST_D + b] = &g->D[b]; v[4 * ST_E + b] = &g->E[b]; v[4 * ST_F + b] = &g->F[b];
    }
  v[4 * ST_PQR] = &g->p; v[4 * ST_PQR + 1] = &g->q; v[4 * ST_PQR + 2] = &g->r; v[4 * ST_PQR + 3] = zero;
}
static void sb_ptrs(regs_t *g, void **v)
{
  int i;
  for (i = 0; i < 64; i++) v[i] = &g->sb[i];
}
static void stream_scratch(regs_t *g)
{
  vc_havoc(g->A, 32 * sizeof g->A[0]);
  vc_havoc(g->B, 32 * sizeof g->B[0]);
}

/* requires: regs valid.  ensures, for every bit lane: (state, sb) =
   spec_stream8(old state); A[0..31], B[0..31] unspecified. */
void contract__dvbcsa_bs_stream_cipher_kernel(regs_t *g)
{
  void *in[27 * 4], *out[43 * 4];
  dvbcsa_bs_word_t zero;
  vc_zero(&zero, sizeof zero);
  state_ptrs(g, &zero, in);
  state_ptrs(g, &zero, out);
  sb_ptrs(g, out + 27 * 4);
  vc_lanes("spec_stream8", 1, BS_BATCH_SIZE, 27 * 4, in, 43 * 4, out);
  stream_scratch(g);
}
/* ensures, for every bit lane: state = spec_stream_init(old state, old sb);
   sb, A[0..31], B[0..31] unspecified. */
void contract__dvbcsa_bs_stream_cipher_kernel_init(regs_t *g)
{
  void *in[43 * 4], *out[27 * 4];
  dvbcsa_bs_word_t zero;
  vc_zero(&zero, sizeof zero);
  state_ptrs(g, &zero, in);
  sb_ptrs(g, in + 27 * 4);
  state_ptrs(g, &zero, out);
  vc_lanes("spec_stream_init", 1, BS_BATCH_SIZE, 43 * 4, in, 27 * 4, out);
  vc_havoc(g->sb, sizeof g->sb);
  stream_scratch(g);
}
/* requires: block[0..55], r[0..511] valid.  ensures, for every g and byte
   lane: r[8k+g], k = 0..7, is the spec_block_dec of old r[8(56+k)+g] under
   the lane's round keys block[0..55]; the rest of r is unspecified. */
void contract__dvbcsa_bs_block_decrypt_register(const dvbcsa_bs_word_t *block, dvbcsa_bs_word_t *r)
{
  void *in[64], *out[8];
  int g, k;
  for (g = 0; g < 8; g++)
    {
      for (k = 0; k < 56; k++) in[k] = (void *)(block + k);
      for (k = 0; k < 8; k++) { in[56 + k] = r + 8 * (56 + k) + g; out[k] = r + 8 * k + g; }
      vc_lanes("spec_block_dec", 8, sizeof(dvbcsa_bs_word_t), 64, in, 8, out);
    }
  vc_havoc(r + 64, sizeof(dvbcsa_bs_word_t) * (512 - 64));
}
/* the same for encryption: old r[8k+g] to r[8(56+k)+g] */
void contract__dvbcsa_bs_block_encrypt_register(const dvbcsa_bs_word_t *block, dvbcsa_bs_word_t *r)
{
  void *in[64], *out[8];
  int g, k;
  for (g = 0; g < 8; g++)
    {
      for (k = 0; k < 56; k++) in[k] = (void *)(block + k);
      for (k = 0; k < 8; k++) { in[56 + k] = r + 8 * k + g; out[k] = r + 8 * (56 + k) + g; }
      vc_lanes("spec_block_enc", 8, sizeof(dvbcsa_bs_word_t), 64, in, 8, out);
    }
  vc_havoc(r, sizeof(dvbcsa_bs_word_t) * (512 - 64));
}
/* a function is replaced by its contract when there is one of that name and
   type; otherwise its body is used and the ghost function is not opaque */
static int use(const char *fn, const char *spec)
{
  if (!vc_contract(fn)) return 0;
  vc_opaque(spec);
  return 1;
}
static int use_contracts(void)
{
  return use("dvbcsa_bs_stream_cipher_kernel", "spec_stream8") + use("dvbcsa_bs_stream_cipher_kernel_init", "spec_stream_init")
    + use("dvbcsa_bs_block_decrypt_register", "spec_block_dec") + use("dvbcsa_bs_block_encrypt_register", "spec_block_enc");
}
