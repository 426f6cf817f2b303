/* Batch API against the per-packet reference.
   params: 0 op (0 decrypt, 1 encrypt), 1 packets (-1: batch size; -k: batch size - k + 1), 2 maxlen,
           3 payload length: >=0 all equal; -2-s: packet i has (i + s) % (cap + 1)
           4 cap (bytes of backing store per packet), 5 misalignment (packet i at mis * (i + 1) % 64),
           6,7 stride and phase: only packets i % stride == phase (and the last) have arbitrary
               contents, the others are zero (stride 0 or 1: all arbitrary)
   The entries after the terminator are valid packets that must stay untouched. */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXN 260
#define MAXC 512
static unsigned char exp_[MAXN][MAXC];
static unsigned char *buf[MAXN];
static unsigned lens[MAXN];
void h_batch(void)
{
  int op = sy_param(0), np = sy_param(1), plen = sy_param(3);
  unsigned maxlen = sy_param(2), cap = sy_param(4), mm = sy_param(5), stride = sy_param(6), phase = sy_param(7), zl = 0;
  unsigned bs = dvbcsa_bs_batch_size(), n = np < 0 ? bs + 1 + np : (unsigned)np, i, e, zdone = 0;
  unsigned char *cw, *zexp = 0;
  struct dvbcsa_bs_batch_s *b;
  struct ref_key rk; dvbcsa_bs_key_t *k;
  if (bs == 0 || bs > 256 || n > bs) { sy_assert(0, "batch-size"); return; }
  cw = sy_alloc(8, mm, "cw");
  b = (void *)sy_alloc((n + 1 + (n < bs)) * sizeof *b, 0, "batch");
  sy_bytes(cw, 8, "cw");
  ref_key_set(cw, &rk);
  for (i = 0; i < n; i++) {
    int sym = stride < 2 || i % stride == phase || i == n - 1;
    buf[i] = sy_alloc(cap, (mm * (i + 1)) & 63, "payload");
    lens[i] = plen >= 0 ? (unsigned)plen : (i + (unsigned)(-2 - plen)) % (cap + 1);
    e = lens[i] < maxlen ? lens[i] : maxlen;
    if (sym) sy_bytes(buf[i], cap, "payload"); else memset(buf[i], 0, cap);
    if (!sym && zdone && zl == e) memcpy(exp_[i], zexp, cap);
    else {
      memcpy(exp_[i], buf[i], cap);
      if (!sy_checking()) ; else if (op) ref_encrypt(&rk, exp_[i], e); else ref_decrypt(&rk, exp_[i], e);
      if (!sym) { zdone = 1; zl = e; zexp = exp_[i]; }
    }
    sy_limit(buf[i], lens[i]);
    b[i].data = buf[i]; b[i].len = lens[i];
  }
  b[n].data = 0; b[n].len = 16;   /* only the pointer ends the batch */
  if (n < bs) {   /* a stale entry after the terminator */
    buf[n] = sy_alloc(cap, 0, "stale"); memset(buf[n], 0x5a, cap);
    b[n + 1].data = buf[n]; b[n + 1].len = cap; sy_limit(buf[n], 0);
    sy_limit(b, (n + 1) * sizeof *b);
  }
  sy_protect(cw, 1); sy_protect(b, 1);
  sy_lib(1);
  k = dvbcsa_bs_key_alloc();
  dvbcsa_bs_key_set(cw, k);
  sy_lib(0);
  sy_protect(k, 1);
  sy_lib(1);
  if (op) dvbcsa_bs_encrypt(k, b, maxlen); else dvbcsa_bs_decrypt(k, b, maxlen);
  sy_lib(0);
  sy_protect(k, 0);
  sy_lib(1);
  dvbcsa_bs_key_free(k);
  sy_lib(0);
  for (i = 0; i < n; i++) sy_assert_eq(buf[i], exp_[i], cap, "payload", i);
  sy_reach("end");
}
