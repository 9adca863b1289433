/* DVB-CSA, written down from the published description of the algorithm
   (Weinmann/Wirt 2004 notation: registers A, B, X, Y, Z, D, E, F, p, q, r),
   independently of the code in /repo.  Every function takes one input and
   one output byte array so that it can be used as an uninterpreted
   function in the contracts. */
#ifndef CSA_SPEC_H
#define CSA_SPEC_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* stream state: 27 nibbles: A1..A10, B1..B10, X, Y, Z, D, E, F, p|q<<1|r<<2 */
enum { ST_A = 0, ST_B = 10, ST_X = 20, ST_Y, ST_Z, ST_D, ST_E, ST_F, ST_PQR, ST_N };
/* in: state (27 nibbles); out: state, then 16 nibbles: 8 stream bytes, low nibble first */
void spec_stream8(const uint8_t *in, uint8_t *out);
/* in: state (27 nibbles), 16 nibbles of the IV, low nibble of each byte first; out: state */
void spec_stream_init(const uint8_t *in, uint8_t *out);
/* in: 56 round keys, 8 bytes; out: 8 bytes */
void spec_block_dec(const uint8_t *in, uint8_t *out);
void spec_block_enc(const uint8_t *in, uint8_t *out);
/* in: control word; out: 56 round keys */
void spec_key_schedule(const uint8_t *in, uint8_t *out);
/* in: control word, 8 bytes of IV; out: the first 256 bytes of the key stream */
void spec_keystream(const uint8_t *in, uint8_t *out);
/* one round of the stream cipher on one state; in: state, 2 nibbles in1 in2, init flag */
void spec_stream_round(uint8_t *st, int init, uint8_t ia, uint8_t ib);
/* initial stream state for a control word */
void spec_stream_load(const uint8_t *cw, uint8_t *st);
/* whole payloads (plain C: used as reference for replays) */
void spec_decrypt(const uint8_t cw[8], uint8_t *data, uint64_t len);
void spec_encrypt(const uint8_t cw[8], uint8_t *data, uint64_t len);
extern const uint8_t spec_sbox[256];
uint8_t spec_perm(uint8_t x);
#ifdef __cplusplus
}
#endif
#endif
