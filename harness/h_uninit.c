/* No result depends on memory that was never written (run with uninitialised memory as tagged
   variables). params: 0 api (0 single, 1 batch), 1 op, 2 packets (-k: batch size - k + 1), 3 maxlen, 4 length, 5 cap */
#include "sy.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXN 260
static unsigned char *buf[MAXN];
void h_uninit(void)
{
  int api = sy_param(0), op = sy_param(1), np = sy_param(2), plen = sy_param(4);
  unsigned maxlen = sy_param(3), cap = sy_param(5), bs = dvbcsa_bs_batch_size(), n = np < 0 ? bs + 1 + np : (unsigned)np, i;
  unsigned char *cw = sy_alloc(8, 0, "cw"); void *k;
  struct dvbcsa_bs_batch_s *b = (void *)sy_alloc((n + 1) * sizeof *b, 0, "batch");
  sy_bytes(cw, 8, "cw");
  for (i = 0; i < n; i++) {
    buf[i] = sy_alloc(cap, i & 63, "payload"); sy_bytes(buf[i], cap, "payload");
    b[i].data = buf[i]; b[i].len = plen >= 0 ? (unsigned)plen : (i + (unsigned)(-2 - plen)) % (cap + 1);
  }
  b[n].data = 0; b[n].len = 16;
  sy_lib(1);
  if (api) {
    k = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_set(cw, k);
    if (op) dvbcsa_bs_encrypt(k, b, maxlen); else dvbcsa_bs_decrypt(k, b, maxlen);
    dvbcsa_bs_key_free(k);
  } else {
    k = dvbcsa_key_alloc(); dvbcsa_key_set(cw, k);
    for (i = 0; i < n; i++) { if (op) dvbcsa_encrypt(k, buf[i], b[i].len); else dvbcsa_decrypt(k, buf[i], b[i].len); }
    dvbcsa_key_free(k);
  }
  sy_lib(0);
  for (i = 0; i < n; i++) sy_assert_untainted(buf[i], cap, 1, "determined");
  sy_reach("end");
}
