/* Obligations of the contracts in bs_contracts.h against the bodies. */
#include "bs_contracts.h"
extern void vc_fn__dvbcsa_bs_stream_cipher_kernel(regs_t *);
extern void vc_fn__dvbcsa_bs_stream_cipher_kernel_init(regs_t *);
extern void vc_fn__dvbcsa_bs_block_decrypt_register(const dvbcsa_bs_word_t *, dvbcsa_bs_word_t *);
extern void vc_fn__dvbcsa_bs_block_encrypt_register(const dvbcsa_bs_word_t *, dvbcsa_bs_word_t *);

void check_stream_kernel(void)
{
  void *in[27 * 4], *out[43 * 4];
  dvbcsa_bs_word_t zero;
  regs_t *pre = vc_object("pre", sizeof(regs_t), sizeof(regs_t), _Alignof(regs_t)), *g = vc_object("regs", sizeof(regs_t), sizeof(regs_t), _Alignof(regs_t));
  vc_zero(&zero, sizeof zero);
  vc_sym(g, sizeof *g, "regs");
  vc_copy(pre, g, sizeof *g);
  vc_frame(1);
  vc_fn__dvbcsa_bs_stream_cipher_kernel(g);
  vc_frame(0);
  state_ptrs(pre, &zero, in);
  state_ptrs(g, &zero, out);
  sb_ptrs(g, out + 27 * 4);
  vc_lanes_check("spec_stream8", 1, BS_BATCH_SIZE, 27 * 4, in, 43 * 4, out, "stream kernel");
  vc_reach();
}
void check_stream_init(void)
{
  void *in[43 * 4], *out[27 * 4];
  dvbcsa_bs_word_t zero;
  regs_t *pre = vc_object("pre", sizeof(regs_t), sizeof(regs_t), _Alignof(regs_t)), *g = vc_object("regs", sizeof(regs_t), sizeof(regs_t), _Alignof(regs_t));
  vc_zero(&zero, sizeof zero);
  vc_sym(g, sizeof *g, "regs");
  vc_copy(pre, g, sizeof *g);
  vc_frame(1);
  vc_fn__dvbcsa_bs_stream_cipher_kernel_init(g);
  vc_frame(0);
  state_ptrs(pre, &zero, in);
  sb_ptrs(pre, in + 27 * 4);
  state_ptrs(g, &zero, out);
  vc_lanes_check("spec_stream_init", 1, BS_BATCH_SIZE, 43 * 4, in, 27 * 4, out, "stream kernel init");
  vc_reach();
}
#define W_ sizeof(dvbcsa_bs_word_t)
static void check_block(int enc)
{
  void *in[64], *out[8];
  int g, k;
  dvbcsa_bs_word_t *pre = vc_object("pre", 512 * W_, 512 * W_, _Alignof(dvbcsa_bs_word_t)), *r = vc_object("r", 512 * W_, 512 * W_, _Alignof(dvbcsa_bs_word_t));
  dvbcsa_bs_word_t *kk = vc_object("block", 56 * W_, 56 * W_, _Alignof(dvbcsa_bs_word_t));
  vc_sym(kk, 56 * W_, "kk");
  vc_sym(enc ? r : r + 448, 64 * W_, "r");
  vc_copy(enc ? pre : pre + 448, enc ? r : r + 448, 64 * W_);
  vc_protect(kk, 1);
  vc_frame(1);
  if (enc) vc_fn__dvbcsa_bs_block_encrypt_register(kk, r); else vc_fn__dvbcsa_bs_block_decrypt_register(kk, r);
  vc_frame(0);
  for (g = 0; g < 8; g++)
    {
      for (k = 0; k < 56; k++) in[k] = kk + k;
      for (k = 0; k < 8; k++)
        {
          in[56 + k] = pre + 8 * (enc ? k : 56 + k) + g;
          out[k] = r + 8 * (enc ? 56 + k : k) + g;
        }
      vc_lanes_check(enc ? "spec_block_enc" : "spec_block_dec", 8, W_, 64, in, 8, out, enc ? "block encrypt register" : "block decrypt register");
    }
  vc_reach();
}
void check_block_decrypt(void) { check_block(0); }
void check_block_encrypt(void) { check_block(1); }
