/* The advertised batch capacity. params: 0 op, 1 maxlen, 2 history between the queries: 0 one packet,
   1 failing allocations, freeing NULL, other contexts, the single-packet API, batches of 0 to 3 packets and of all lanes, short and
   longer ones, both operations */
#include "sy.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
static unsigned first_, now_; static int same_ = 1;
static void query(void) { sy_lib(1); now_ = dvbcsa_bs_batch_size(); sy_lib(0); if (now_ != first_) same_ = 0; }
static void crypt(int op, const dvbcsa_bs_key_t *k, const struct dvbcsa_bs_batch_s *b, unsigned m)
{ sy_lib(1); if (op) dvbcsa_bs_encrypt(k, b, m); else dvbcsa_bs_decrypt(k, b, m); sy_lib(0); query(); }
void h_size(void)
{
  unsigned i, n, op = sy_param(0), maxlen = sy_param(1), r;
  unsigned char *cw = sy_alloc(8, 0, "cw"), *d = sy_alloc(184, 0, "payload"), *z; dvbcsa_bs_key_t *k; dvbcsa_key_t *s;
  struct dvbcsa_bs_batch_s *b;
  sy_bytes(cw, 8, "cw"); sy_bytes(d, 184, "payload");
  sy_lib(1); first_ = dvbcsa_bs_batch_size(); sy_lib(0);
  sy_assert(first_ >= 1, "positive");
  if (first_ < 1 || first_ > 256) return;
  b = (void *)sy_alloc((first_ + 1) * sizeof *b, 0, "batch"); z = sy_alloc(256 * 24, 0, "payloads"); memset(z, 0x42, 256 * 24);
  if (sy_param(2)) {
    sy_lib(1); dvbcsa_bs_key_free(0); dvbcsa_key_free(0); sy_lib(0); query();
    sy_fail_alloc(1); sy_lib(1); k = dvbcsa_bs_key_alloc(); sy_lib(0); query(); if (k) { sy_lib(1); dvbcsa_bs_key_free(k); sy_lib(0); }
    sy_fail_alloc(1); sy_lib(1); s = dvbcsa_key_alloc(); sy_lib(0); query(); if (s) { sy_lib(1); dvbcsa_key_free(s); sy_lib(0); }
    sy_fail_alloc(0); query();
    sy_lib(1); s = dvbcsa_key_alloc(); dvbcsa_key_set(cw, s); dvbcsa_decrypt(s, d, 19); dvbcsa_encrypt(s, d, 8); dvbcsa_key_free(s); sy_lib(0); query();
  }
  for (r = 0; r < (sy_param(2) ? 2u : 1u); r++) {
    sy_lib(1); k = dvbcsa_bs_key_alloc(); sy_lib(0); query();
    sy_lib(1); dvbcsa_bs_key_set(cw, k); sy_lib(0); query();
    b[0].data = d; b[0].len = 184; b[1].data = 0; b[1].len = 16;
    crypt(op, k, b, maxlen);
    if (sy_param(2)) {
      static const unsigned short cnt[5] = { 0, 2, 3, 1, 0xffff };
      for (n = 0; n < 5; n++) {
        unsigned c = cnt[n] > first_ ? first_ : cnt[n];
        for (i = 0; i < c; i++) { b[i].data = z + 24 * i; b[i].len = (n + i) % 3 ? 24 - i % 9 : 3; }
        b[c].data = 0; b[c].len = 0;
        crypt((op + n) & 1, k, b, n == 4 ? 8 : maxlen > 24 ? 24 : maxlen);
      }
    }
    sy_lib(1); dvbcsa_bs_key_free(k); sy_lib(0); query();
  }
  sy_assert(same_, "constant");
  sy_reach("end");
}
