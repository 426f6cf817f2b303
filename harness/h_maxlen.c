/* An invalid processing length aborts before any payload is touched.
   params: 0 op, 1 the processing length (-1: arbitrary invalid value), 2 packets, 3 payload length */
#include "sy.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
static unsigned char *buf[64], orig[64][256]; static unsigned n, len;
static void aborted(void)
{
  unsigned i; for (i = 0; i < n; i++) sy_assert_eq(buf[i], orig[i], len, "untouched", i);
  sy_reach("abort");
}
void h_maxlen(void)
{
  int op = sy_param(0); unsigned m, i; unsigned char *cw = sy_alloc(8, 0, "cw");
  struct dvbcsa_bs_batch_s *b; dvbcsa_bs_key_t *k;
  n = sy_param(2); len = sy_param(3);
  b = (void *)sy_alloc((n + 1) * sizeof *b, 0, "batch");
  sy_bytes(cw, 8, "cw");
  for (i = 0; i < n; i++) { buf[i] = sy_alloc(len, i, "payload"); sy_bytes(buf[i], len, "payload"); memcpy(orig[i], buf[i], len); b[i].data = buf[i]; b[i].len = len; }
  b[n].data = 0; b[n].len = 16;
  sy_on_abort(aborted);
  if (sy_param(1) == -1) { m = sy_range(1, 0xffffffffu, "maxlen"); if (m % 8 == 0 && m <= 184) return; }
  else m = sy_param(1);
  sy_lib(1);
  k = dvbcsa_bs_key_alloc();
  dvbcsa_bs_key_set(cw, k);
  if (op) dvbcsa_bs_encrypt(k, b, m); else dvbcsa_bs_decrypt(k, b, m);
  sy_lib(0);
  sy_assert(0, "returned");
}
