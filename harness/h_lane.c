/* A packet's result does not depend on its position, nor on the other packets of its batch.
   params: 0 op, 1 position of the packet (-k: batch size - k), 2 maxlen, 3 its length, 4 cap,
           5 lengths of the others (as h_batch's plen), 6 others arbitrary from i % stride == 0 (zero otherwise),
           7 packets in the batch (0: a full one; -k: batch size - k),
           8: k: lengths are arbitrary in [0,k] for this packet, its neighbours, the first, the middle and the last packet */
#include "sy.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXN 260
static unsigned char *buf[MAXN];
void h_lane(void)
{
  int op = sy_param(0), pp = sy_param(1), olen = sy_param(5);
  unsigned maxlen = sy_param(2), len = sy_param(3), cap = sy_param(4), stride = sy_param(6), any = sy_param(8), full = dvbcsa_bs_batch_size();
  int cnt = sy_param(7); unsigned bs = cnt > 0 ? (unsigned)cnt : full + cnt;
  unsigned pos = pp < 0 ? bs + pp : (unsigned)pp, i;
  unsigned char *cw = sy_alloc(8, 0, "cw"), *alone = sy_alloc(cap, 0, "alone"); dvbcsa_bs_key_t *k;
  struct dvbcsa_bs_batch_s *b = (void *)sy_alloc((bs + 1) * sizeof *b, 0, "batch"), *a = (void *)sy_alloc(2 * sizeof *a, 0, "abatch");
  sy_bytes(cw, 8, "cw");
  for (i = 0; i < bs; i++) {
    buf[i] = sy_alloc(cap, i & 63, "payload");
    if (i == pos || stride < 2 || i % stride == 0) sy_bytes(buf[i], cap, "payload"); else memset(buf[i], 0, cap);
    b[i].data = buf[i];
    if (any && (i == pos || i + 1 == pos || i == pos + 1 || i == 0 || i == bs / 2 || i == bs - 1)) b[i].len = sy_range(0, any, "length"); else
    b[i].len = i == pos ? len : olen >= 0 ? (unsigned)olen : (i + (unsigned)(-2 - olen)) % (cap + 1);
  }
  b[bs].data = 0; b[bs].len = 16;
  memcpy(alone, buf[pos], cap);
  a[0].data = alone; a[0].len = b[pos].len; a[1].data = 0; a[1].len = 16;
  sy_lib(1);
  k = dvbcsa_bs_key_alloc();
  dvbcsa_bs_key_set(cw, k);
  if (op) { dvbcsa_bs_encrypt(k, a, maxlen); dvbcsa_bs_encrypt(k, b, maxlen); } else { dvbcsa_bs_decrypt(k, a, maxlen); dvbcsa_bs_decrypt(k, b, maxlen); }
  dvbcsa_bs_key_free(k);
  sy_lib(0);
  sy_assert_eq(buf[pos], alone, cap, "payload", pos);
  sy_reach("end");
}
