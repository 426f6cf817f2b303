/* Symbolic number of packets: one query covers every count in a range at once.
   params: 0 op (0 decrypt, 1 encrypt), 1 lo, 2 hi (the count is arbitrary in [lo,hi]; -k: batch size - k + 1), 3 maxlen,
           4 length of each packet (-k: the lengths k-i%7), 5 stride (0,1: every packet has arbitrary contents,
           otherwise only packets i % stride == 0 and those around lo and hi),
           6 1: the entries after the terminator hold a stale packet */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXN 260
#define MAXC 256
static unsigned char exp_[MAXN][MAXC];
static unsigned char *buf[MAXN];
void h_symn(void)
{
  int op = sy_param(0), lo_ = sy_param(1), hi_ = sy_param(2), pl = sy_param(4); unsigned maxlen = sy_param(3), stride = sy_param(5);
  unsigned bs = dvbcsa_bs_batch_size(), lo = lo_ < 0 ? bs + 1 + lo_ : (unsigned)lo_, hi = hi_ < 0 ? bs + 1 + hi_ : (unsigned)hi_, i, n;
  unsigned char *cw; struct dvbcsa_bs_batch_s *b; struct ref_key rk; dvbcsa_bs_key_t *k; unsigned char *stale = 0;
  if (bs == 0 || bs > 256 || hi > bs || lo > hi) { sy_assert(0, "batch-size"); return; }
  cw = sy_alloc(8, 0, "cw");
  b = (void *)sy_alloc((hi + 1) * sizeof *b, 0, "batch");
  sy_bytes(cw, 8, "cw");
  ref_key_set(cw, &rk);
  n = sy_range(lo, hi, "count");
  if (sy_param(6)) { stale = sy_alloc(16, 0, "stale"); memset(stale, 0x5a, 16); sy_protect(stale, 1); }
  for (i = 0; i < hi; i++) {
    unsigned len = pl >= 0 ? (unsigned)pl : (unsigned)-pl - i % 7, lim = len < maxlen ? len : maxlen;
    buf[i] = sy_alloc(len, 0, "payload");
    if (stride < 2 || i % stride == 0 || i + 2 >= hi || (i >= lo && i <= lo + 1)) sy_bytes(buf[i], len, "payload");
    memcpy(exp_[i], buf[i], len);
    if (sy_checking() && i < n) { if (op) ref_encrypt(&rk, exp_[i], lim); else ref_decrypt(&rk, exp_[i], lim); }
    b[i].data = i < n ? buf[i] : i > n ? stale : 0; b[i].len = len;
  }
  b[hi].data = n < hi ? stale : 0; b[hi].len = 16;
  sy_limit(b, (n + 1) * sizeof *b);
  sy_protect(cw, 1); sy_protect(b, 1);
  sy_lib(1);
  k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_set(cw, k);
  if (op) dvbcsa_bs_encrypt(k, b, maxlen); else dvbcsa_bs_decrypt(k, b, maxlen);
  dvbcsa_bs_key_free(k);
  sy_lib(0);
  for (i = 0; i < hi; i++) sy_assert_eq(buf[i], exp_[i], pl >= 0 ? (unsigned)pl : (unsigned)-pl - i % 7, "payload", i);
  if (stale) for (i = 0; i < 16; i++) if (stale[i] != 0x5a) sy_assert(0, "stale");
  sy_reach("end");
}
