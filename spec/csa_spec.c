#include "csa_spec.h"

/* ---------------------------------------------------------------- stream cipher */
/* the seven 5 -> 2 bit s-boxes; index: first named register bit is the MSB */
static const uint8_t s1[32] = {2,0,1,1,2,3,3,0,3,2,2,0,1,1,0,3,0,3,3,0,2,2,1,1,2,2,0,3,1,1,3,0};
static const uint8_t s2[32] = {3,1,0,2,2,3,3,0,1,3,2,1,0,0,1,2,3,1,0,3,3,2,0,2,0,0,1,2,2,1,3,1};
static const uint8_t s3[32] = {2,0,1,2,2,3,3,1,1,1,0,3,3,0,2,0,1,3,0,1,3,0,2,2,2,0,1,2,0,3,3,1};
static const uint8_t s4[32] = {3,1,2,3,0,2,1,2,1,2,0,1,3,0,0,3,1,0,3,1,2,3,0,3,0,3,2,0,1,2,2,1};
static const uint8_t s5[32] = {2,0,0,1,3,2,3,2,0,1,3,3,1,0,2,1,2,3,2,0,0,3,1,1,1,0,3,2,3,1,0,2};
static const uint8_t s6[32] = {0,1,2,3,1,2,2,0,0,1,3,0,2,3,1,3,2,3,0,2,3,0,1,1,2,1,1,2,0,3,3,0};
static const uint8_t s7[32] = {0,3,2,2,3,0,0,1,3,0,1,3,1,2,2,1,1,0,3,3,0,1,1,2,2,3,1,0,2,3,0,2};

/* bit n of nibble i (1..10) of a register stored from nibble 1 on */
static unsigned bt(const uint8_t *r, int i, int n) { return (r[i - 1] >> n) & 1; }
static unsigned ix(unsigned a, unsigned b, unsigned c, unsigned d, unsigned e) { return a << 4 | b << 3 | c << 2 | d << 1 | e; }

void spec_stream_round(uint8_t *st, int init, uint8_t ia, uint8_t ib)
{
  const uint8_t *A = st + ST_A, *B = st + ST_B;
  unsigned p = st[ST_PQR] & 1, q = (st[ST_PQR] >> 1) & 1, r = (st[ST_PQR] >> 2) & 1;
  unsigned X = st[ST_X], Y = st[ST_Y], Z = st[ST_Z], D = st[ST_D], E = st[ST_E], F = st[ST_F];
  unsigned v1 = s1[ix(bt(A,4,0), bt(A,1,2), bt(A,6,1), bt(A,7,3), bt(A,9,0))];
  unsigned v2 = s2[ix(bt(A,2,1), bt(A,3,2), bt(A,6,3), bt(A,7,0), bt(A,9,1))];
  unsigned v3 = s3[ix(bt(A,1,3), bt(A,2,0), bt(A,5,1), bt(A,5,3), bt(A,6,2))];
  unsigned v4 = s4[ix(bt(A,3,3), bt(A,1,1), bt(A,2,3), bt(A,4,2), bt(A,8,0))];
  unsigned v5 = s5[ix(bt(A,5,2), bt(A,4,3), bt(A,6,0), bt(A,8,1), bt(A,9,2))];
  unsigned v6 = s6[ix(bt(A,3,1), bt(A,4,1), bt(A,5,0), bt(A,7,2), bt(A,9,3))];
  unsigned v7 = s7[ix(bt(A,2,2), bt(A,3,0), bt(A,7,1), bt(A,8,2), bt(A,8,3))];
  /* 4 x 4 xor of bits of B */
  unsigned x3 = bt(B,3,0) ^ bt(B,6,1) ^ bt(B,7,2) ^ bt(B,9,3);
  unsigned x2 = bt(B,6,0) ^ bt(B,8,1) ^ bt(B,3,3) ^ bt(B,4,2);
  unsigned x1 = bt(B,5,3) ^ bt(B,8,2) ^ bt(B,4,0) ^ bt(B,5,1);
  unsigned x0 = bt(B,9,2) ^ bt(B,6,3) ^ bt(B,3,1) ^ bt(B,8,0);
  unsigned xb = x3 << 3 | x2 << 2 | x1 << 1 | x0;
  unsigned na = A[9] ^ X, nb = B[6] ^ B[9] ^ Y, nF = E, nr = r, sum;
  int i;
  if (init) { na ^= D ^ ia; nb ^= ib; }
  if (p) nb = ((nb << 1) | (nb >> 3)) & 15;
  sum = Z + E + r;
  if (q) { nF = sum & 15; nr = sum >> 4; }
  st[ST_D] = E ^ Z ^ xb;
  st[ST_E] = F;
  st[ST_F] = nF;
  for (i = 9; i > 0; i--) { st[ST_A + i] = st[ST_A + i - 1]; st[ST_B + i] = st[ST_B + i - 1]; }
  st[ST_A] = na & 15;
  st[ST_B] = nb & 15;
  st[ST_X] = (v4 & 1) << 3 | (v3 & 1) << 2 | (v2 & 2) | v1 >> 1;
  st[ST_Y] = (v6 & 1) << 3 | (v5 & 1) << 2 | (v4 & 2) | v3 >> 1;
  st[ST_Z] = (v2 & 1) << 3 | (v1 & 1) << 2 | (v6 & 2) | v5 >> 1;
  st[ST_PQR] = v7 >> 1 | (v7 & 1) << 1 | nr << 2;
}

static uint8_t out2(const uint8_t *st)
{
  unsigned D = st[ST_D];
  return ((D >> 3 ^ D >> 2) & 1) << 1 | ((D >> 1 ^ D) & 1);
}

void spec_stream8(const uint8_t *in, uint8_t *out)
{
  uint8_t st[ST_N];
  int i, j;
  for (i = 0; i < ST_N; i++) st[i] = in[i];
  for (i = 0; i < 8; i++)
    {
      uint8_t o[4];
      for (j = 0; j < 4; j++) { spec_stream_round(st, 0, 0, 0); o[j] = out2(st); }
      out[ST_N + 2 * i + 1] = o[0] << 2 | o[1];
      out[ST_N + 2 * i] = o[2] << 2 | o[3];
    }
  for (i = 0; i < ST_N; i++) out[i] = st[i];
}

void spec_stream_init(const uint8_t *in, uint8_t *out)
{
  uint8_t st[ST_N];
  int i, j;
  for (i = 0; i < ST_N; i++) st[i] = in[i];
  for (i = 0; i < 8; i++)
    for (j = 0; j < 4; j++)
      {
        uint8_t lo = in[ST_N + 2 * i], hi = in[ST_N + 2 * i + 1];
        spec_stream_round(st, 1, j & 1 ? lo : hi, j & 1 ? hi : lo);
      }
  for (i = 0; i < ST_N; i++) out[i] = st[i];
}

void spec_stream_load(const uint8_t *cw, uint8_t *st)
{
  int i;
  for (i = 0; i < ST_N; i++) st[i] = 0;
  for (i = 0; i < 4; i++)
    {
      st[ST_A + 2 * i] = cw[i] >> 4;
      st[ST_A + 2 * i + 1] = cw[i] & 15;
      st[ST_B + 2 * i] = cw[4 + i] >> 4;
      st[ST_B + 2 * i + 1] = cw[4 + i] & 15;
    }
}

/* ---------------------------------------------------------------- block cipher */
const uint8_t spec_sbox[256] = {
0x3a,0xea,0x68,0xfe,0x33,0xe9,0x88,0x1a,0x83,0xcf,0xe1,0x7f,0xba,0xe2,0x38,0x12,
  0xe8,0x27,0x61,0x95,0x0c,0x36,0xe5,0x70,0xa2,0x06,0x82,0x7c,0x17,0xa3,0x26,0x49,
  0xbe,0x7a,0x6d,0x47,0xc1,0x51,0x8f,0xf3,0xcc,0x5b,0x67,0xbd,0xcd,0x18,0x08,0xc9,
  0xff,0x69,0xef,0x03,0x4e,0x48,0x4a,0x84,0x3f,0xb4,0x10,0x04,0xdc,0xf5,0x5c,0xc6,
  0x16,0xab,0xac,0x4c,0xf1,0x6a,0x2f,0x3c,0x3b,0xd4,0xd5,0x94,0xd0,0xc4,0x63,0x62,
  0x71,0xa1,0xf9,0x4f,0x2e,0xaa,0xc5,0x56,0xe3,0x39,0x93,0xce,0x65,0x64,0xe4,0x58,
  0x6c,0x19,0x42,0x79,0xdd,0xee,0x96,0xf6,0x8a,0xec,0x1e,0x85,0x53,0x45,0xde,0xbb,
  0x7e,0x0a,0x9a,0x13,0x2a,0x9d,0xc2,0x5e,0x5a,0x1f,0x32,0x35,0x9c,0xa8,0x73,0x30,
  0x29,0x3d,0xe7,0x92,0x87,0x1b,0x2b,0x4b,0xa5,0x57,0x97,0x40,0x15,0xe6,0xbc,0x0e,
  0xeb,0xc3,0x34,0x2d,0xb8,0x44,0x25,0xa4,0x1c,0xc7,0x23,0xed,0x90,0x6e,0x50,0x00,
  0x99,0x9e,0x4d,0xd9,0xda,0x8d,0x6f,0x5f,0x3e,0xd7,0x21,0x74,0x86,0xdf,0x6b,0x05,
  0x8e,0x5d,0x37,0x11,0xd2,0x28,0x75,0xd6,0xa7,0x77,0x24,0xbf,0xf0,0xb0,0x02,0xb7,
  0xf8,0xfc,0x81,0x09,0xb1,0x01,0x76,0x91,0x7d,0x0f,0xc8,0xa0,0xf2,0xcb,0x78,0x60,
  0xd1,0xf7,0xe0,0xb5,0x98,0x22,0xb3,0x20,0x1d,0xa6,0xdb,0x7b,0x59,0x9f,0xae,0x31,
  0xfb,0xd3,0xb6,0xca,0x43,0x72,0x07,0xf4,0xd8,0x41,0x14,0x55,0x0d,0x54,0x8b,0xb9,
  0xad,0x46,0x0b,0xaf,0x80,0x52,0x2c,0xfa,0x8c,0x89,0x66,0xfd,0xb2,0xa9,0x9b,0xc0
};
/* the bit permutation behind the s-box: bit i goes to bit perm8[i] */
static const uint8_t perm8[8] = {1, 7, 5, 4, 2, 6, 0, 3};
uint8_t spec_perm(uint8_t x)
{
  unsigned i, y = 0;
  for (i = 0; i < 8; i++) y |= ((x >> i) & 1u) << perm8[i];
  return (uint8_t)y;
}

void spec_block_dec(const uint8_t *in, uint8_t *out)
{
  uint8_t R[8];
  int i, k;
  for (i = 0; i < 8; i++) R[i] = in[56 + i];
  for (k = 55; k >= 0; k--)
    {
      uint8_t s = spec_sbox[in[k] ^ R[6]], w = R[7] ^ s;
      R[7] = R[6];
      R[6] = R[5] ^ spec_perm(s);
      R[5] = R[4];
      R[4] = R[3] ^ w;
      R[3] = R[2] ^ w;
      R[2] = R[1] ^ w;
      R[1] = R[0];
      R[0] = w;
    }
  for (i = 0; i < 8; i++) out[i] = R[i];
}

void spec_block_enc(const uint8_t *in, uint8_t *out)
{
  uint8_t R[8];
  int i, k;
  for (i = 0; i < 8; i++) R[i] = in[56 + i];
  for (k = 0; k < 56; k++)
    {
      uint8_t s = spec_sbox[in[k] ^ R[7]], w = R[0];
      R[0] = R[1];
      R[1] = R[2] ^ w;
      R[2] = R[3] ^ w;
      R[3] = R[4] ^ w;
      R[4] = R[5];
      R[5] = R[6] ^ spec_perm(s);
      R[6] = R[7];
      R[7] = w ^ s;
    }
  for (i = 0; i < 8; i++) out[i] = R[i];
}

/* the bit permutation of the key schedule; bits counted from 1, from the
   most significant bit of the first byte on */
static const uint8_t kperm[64] = {
  0x12,0x24,0x09,0x07,0x2a,0x31,0x1d,0x15,0x1c,0x36,0x3e,0x32,0x13,0x21,0x3b,0x40,
  0x18,0x14,0x25,0x27,0x02,0x35,0x1b,0x01,0x22,0x04,0x0d,0x0e,0x39,0x28,0x1a,0x29,
  0x33,0x23,0x34,0x0c,0x16,0x30,0x1e,0x3a,0x2d,0x1f,0x08,0x19,0x17,0x2f,0x3d,0x11,
  0x3c,0x05,0x38,0x2b,0x0b,0x06,0x0a,0x2c,0x20,0x3f,0x2e,0x0f,0x03,0x26,0x10,0x37 };

void spec_key_schedule(const uint8_t *in, uint8_t *out)
{
  uint8_t k[7][8];
  int i, j;
  for (j = 0; j < 8; j++) k[6][j] = in[j];
  for (i = 5; i >= 0; i--)
    {
      for (j = 0; j < 8; j++) k[i][j] = 0;
      for (j = 0; j < 64; j++)
        {
          unsigned b = (k[i + 1][j / 8] >> (7 - j % 8)) & 1u, d = kperm[j] - 1u;
          k[i][d / 8] |= b << (7 - d % 8);
        }
    }
  for (i = 0; i < 7; i++)
    for (j = 0; j < 8; j++)
      out[8 * i + j] = k[i][j] ^ i;
}
/* in: control word, first payload block; out: the first 256 bytes of the key stream */
void spec_keystream(const uint8_t *in, uint8_t *out)
{
  uint8_t s[ST_N + 16], st[ST_N], o[ST_N + 16];
  int i, j;
  spec_stream_load(in, s);
  for (i = 0; i < 8; i++) { s[ST_N + 2 * i] = in[8 + i] & 15; s[ST_N + 2 * i + 1] = in[8 + i] >> 4; }
  spec_stream_init(s, st);
  for (i = 0; i < 256; i += 8)
    {
      spec_stream8(st, o);
      for (j = 0; j < 8; j++) out[i + j] = o[ST_N + 2 * j] | o[ST_N + 2 * j + 1] << 4;
      for (j = 0; j < ST_N; j++) st[j] = o[j];
    }
}
