/* Single packet API, payloads of more than 64 KiB, against the reference: fixed control word and payload,
   except for a few bytes that are arbitrary. Decryption: the block given by parameter 2 (counted from the
   end) and the residue; encryption: the residue.
   params: 0 op (0 decrypt, 1 encrypt), 1 payload length, 2 which block is arbitrary (0: the last whole one),
   3 0: the result is judged; else the heap is: k: the k-th allocation within the call fails, -1: none does */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXC ((1 << 17) + 64)
static unsigned char exp_[MAXC];
void h_long(void)
{
  int op = sy_param(0), f = sy_param(3); unsigned len = sy_param(1), back = sy_param(2), nb = len / 8, cap = len + 16, i, x = 12345;
  static const unsigned char w[8] = { 0x31, 0xf2, 0x07, 0x2a, 0x9c, 0x55, 0xe0, 0xd1 };
  unsigned char *cw = sy_alloc(8, 0, "cw"), *d = sy_alloc(cap, 0, "payload");
  struct ref_key rk; dvbcsa_key_t *k;
  memcpy(cw, w, 8);
  ref_key_set(cw, &rk);
  for (i = 0; i < cap; i++) { x = x * 1103515245u + 12345u; d[i] = x >> 16; }
  if (!op && nb > back + 1) sy_bytes(d + (nb - 1 - back) * 8, 8, "payload");
  if (len & 7) sy_bytes(d + nb * 8, len & 7, "payload");
  memcpy(exp_, d, cap);
  if (!sy_checking() || f) ; else if (op) ref_encrypt(&rk, exp_, len); else ref_decrypt(&rk, exp_, len);
  sy_limit(d, len);
  sy_lib(1);
  k = dvbcsa_key_alloc();
  dvbcsa_key_set(cw, k);
  if (f > 0) { sy_lib(0); sy_fail_alloc(f); sy_lib(1); }
  if (op) dvbcsa_encrypt(k, d, len); else dvbcsa_decrypt(k, d, len);
  if (f > 0) { sy_lib(0); sy_fail_alloc(0); sy_lib(1); }
  dvbcsa_key_free(k);
  sy_lib(0);
  if (f) sy_assert(sy_heap_live() == 0, "leak"); else sy_assert_eq(d, exp_, cap, "payload", len);
  sy_reach("end");
}
