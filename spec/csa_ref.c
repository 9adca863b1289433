/* Whole payloads, built on the primitives of csa_spec.c: the reference of
   replays and differential runs. */
#include "csa_spec.h"

static void stream(const uint8_t *cw, const uint8_t *iv, uint8_t *data, uint64_t len)
{
  uint8_t in[ST_N + 16], st[ST_N + 16], o[ST_N + 16];
  uint64_t i, j;
  spec_stream_load(cw, in);
  for (i = 0; i < 8; i++) { in[ST_N + 2 * i] = iv[i] & 15; in[ST_N + 2 * i + 1] = iv[i] >> 4; }
  spec_stream_init(in, st);
  for (i = 0; i < len; i += 8)
    {
      spec_stream8(st, o);
      for (j = 0; j < 8 && i + j < len; j++) data[i + j] ^= o[ST_N + 2 * j] | o[ST_N + 2 * j + 1] << 4;
      for (j = 0; j < ST_N; j++) st[j] = o[j];
    }
}
static void block(void (*f)(const uint8_t *, uint8_t *), const uint8_t *kk, uint8_t *d)
{
  uint8_t in[64];
  int i;
  for (i = 0; i < 56; i++) in[i] = kk[i];
  for (i = 0; i < 8; i++) in[56 + i] = d[i];
  f(in, d);
}
void spec_decrypt(const uint8_t cw[8], uint8_t *data, uint64_t len)
{
  uint8_t kk[56];
  uint64_t n = len / 8, i, j;
  if (!n) return;
  spec_key_schedule(cw, kk);
  stream(cw, data, data + 8, len - 8);
  for (i = 0; i < n; i++)
    {
      block(spec_block_dec, kk, data + 8 * i);
      if (i + 1 < n) for (j = 0; j < 8; j++) data[8 * i + j] ^= data[8 * i + 8 + j];
    }
}
void spec_encrypt(const uint8_t cw[8], uint8_t *data, uint64_t len)
{
  uint8_t kk[56];
  uint64_t n = len / 8, i, j;
  if (!n) return;
  spec_key_schedule(cw, kk);
  for (i = n; i-- > 0;)
    {
      if (i + 1 < n) for (j = 0; j < 8; j++) data[8 * i + j] ^= data[8 * i + 8 + j];
      block(spec_block_enc, kk, data + 8 * i);
    }
  stream(cw, data, data + 8, len - 8);
}
