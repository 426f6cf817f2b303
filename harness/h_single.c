/* Single packet API against the reference.
   params: 0 op (0 decrypt, 1 encrypt), 1 first payload length, 2 extra bytes of backing store,
           3 misalignment, 4 last payload length (0: only the first), 5 payload misalignment step */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXC 8192
static unsigned char exp_[MAXC];
void h_single(void)
{
  int op = sy_param(0); unsigned len, last = sy_param(4), mis = sy_param(3), cap;
  unsigned char *cw = sy_alloc(8, mis, "cw"), *d;
  struct ref_key rk; dvbcsa_key_t *k;
  sy_bytes(cw, 8, "cw");
  ref_key_set(cw, &rk);
  sy_protect(cw, 1);
  sy_lib(1);
  k = dvbcsa_key_alloc();
  dvbcsa_key_set(cw, k);
  sy_lib(0);
  for (len = sy_param(1); len == (unsigned)sy_param(1) || len <= last; len++) {
    cap = len + sy_param(2);
    d = sy_alloc(cap, mis, "payload");
    mis = (mis + sy_param(5)) & 63;
    sy_bytes(d, cap, "payload");
    memcpy(exp_, d, cap);
    if (!sy_checking()) ; else if (op) ref_encrypt(&rk, exp_, len); else ref_decrypt(&rk, exp_, len);
    sy_limit(d, len);
    sy_protect(k, 1);
    sy_lib(1);
    if (op) dvbcsa_encrypt(k, d, len); else dvbcsa_decrypt(k, d, len);
    sy_lib(0);
    sy_assert_eq(d, exp_, cap, "payload", len);
  }
  sy_protect(k, 0);
  sy_lib(1);
  dvbcsa_key_free(k);
  sy_lib(0);
  sy_reach("end");
}
