/* Symbolic payload lengths: one query covers every combination of lengths at once.
   params: 0 api (0 single, 1 batch), 1 op (0 decrypt, 1 encrypt), 2 packets (-k: batch size - k + 1),
           3 maxlen, 4 lo, 5 hi (each length is arbitrary in [lo,hi]), 6 stride (0,1: every packet has its
           own arbitrary length and contents; otherwise only packets i % stride == 0 and the last, the
           others are zero packets of hi bytes),
           7 short: bit j % 24 set: the j-th packet with an arbitrary length has it in [lo,7], else in [8,hi];
           -1: no distinction.  All values together cover [lo,hi] for every packet. */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXN 260
#define MAXC 512
static unsigned char exp_[MAXN][MAXC];
static unsigned char *buf[MAXN];
void h_symlen(void)
{
  int api = sy_param(0), op = sy_param(1), np = sy_param(2);
  unsigned maxlen = sy_param(3), lo = sy_param(4), hi = sy_param(5), stride = sy_param(6);
  int shrt = sy_param(7); unsigned j = 0;
  unsigned bs = dvbcsa_bs_batch_size(), n = np < 0 ? bs + 1 + np : (unsigned)np, i, lim;
  unsigned char *cw; struct dvbcsa_bs_batch_s *b; struct ref_key rk;
  if (!api) { n = 1; maxlen = hi; }
  if (bs == 0 || bs > 256 || n > bs) { sy_assert(0, "batch-size"); return; }
  cw = sy_alloc(8, 0, "cw");
  b = (void *)sy_alloc((n + 1) * sizeof *b, 0, "batch");
  sy_bytes(cw, 8, "cw");
  ref_key_set(cw, &rk);
  lim = (hi < maxlen ? hi : maxlen);
  for (i = 0; i < n; i++) {
    unsigned len = hi;
    buf[i] = sy_alloc(hi, 0, "payload");
    if (stride < 2 || i % stride == 0 || i == n - 1) {
      sy_bytes(buf[i], hi, "payload");
      unsigned l = lo, h = hi;
      if (shrt >= 0) { if (shrt >> j % 24 & 1) h = 7; else if (l < 8) l = 8; }
      len = sy_range(l, h, "length"); j++;
    }
    memcpy(exp_[i], buf[i], hi);
    if (lim >= 8 && sy_checking()) {
      if (op) ref_encrypt_sym(&rk, exp_[i], lim, len); else ref_decrypt_sym(&rk, exp_[i], lim, len);
    }
    sy_limit(buf[i], len);
    b[i].data = buf[i]; b[i].len = len;
  }
  b[n].data = 0; b[n].len = 16;
  sy_protect(cw, 1); sy_protect(b, 1);
  if (api) {
    dvbcsa_bs_key_t *k;
    sy_lib(1);
    k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_set(cw, k);
    if (op) dvbcsa_bs_encrypt(k, b, maxlen); else dvbcsa_bs_decrypt(k, b, maxlen);
    dvbcsa_bs_key_free(k);
    sy_lib(0);
  } else {
    dvbcsa_key_t *k;
    sy_lib(1);
    k = dvbcsa_key_alloc(); dvbcsa_key_set(cw, k);
    if (op) dvbcsa_encrypt(k, buf[0], b[0].len); else dvbcsa_decrypt(k, buf[0], b[0].len);
    dvbcsa_key_free(k);
    sy_lib(0);
  }
  for (i = 0; i < n; i++) sy_assert_eq(buf[i], exp_[i], hi, "payload", i);
  sy_reach("end");
}
