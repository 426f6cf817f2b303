/* The batch API against the single packet API.
   params: as h_batch 0..7. A packet longer than maxlen must come out like its
   first maxlen bytes processed alone, the rest unchanged.
   The reference is evaluated too, but nothing is compared with it: its values are only
   intermediate points that let the solver relate the two implementations step by step. */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXN 260
static unsigned char *buf[MAXN], *oth[MAXN];
static unsigned lens[MAXN];
static unsigned char lemma[512];
void h_cross(void)
{
  int op = sy_param(0), np = sy_param(1), plen = sy_param(3);
  unsigned maxlen = sy_param(2), cap = sy_param(4), mm = sy_param(5), stride = sy_param(6), phase = sy_param(7);
  unsigned bs = dvbcsa_bs_batch_size(), n = np < 0 ? bs + 1 + np : (unsigned)np, i, e;
  unsigned char *cw = sy_alloc(8, mm, "cw");
  struct dvbcsa_bs_batch_s *b = (void *)sy_alloc((n + 1) * sizeof *b, 0, "batch");
  dvbcsa_bs_key_t *bk; dvbcsa_key_t *k; struct ref_key rk;
  sy_bytes(cw, 8, "cw");
  ref_key_set(cw, &rk);
  for (i = 0; i < n; i++) {
    int sym = stride < 2 || i % stride == phase || i == n - 1;
    buf[i] = sy_alloc(cap, (mm * (i + 1)) & 63, "payload");
    oth[i] = sy_alloc(cap, 0, "twin");
    lens[i] = plen >= 0 ? (unsigned)plen : (i + (unsigned)(-2 - plen)) % (cap + 1);
    if (sym) sy_bytes(buf[i], cap, "payload"); else memset(buf[i], 0, cap);
    memcpy(oth[i], buf[i], cap);
    memcpy(lemma, buf[i], cap); e = lens[i] < maxlen ? lens[i] : maxlen;
    if (op) ref_encrypt(&rk, lemma, e); else ref_decrypt(&rk, lemma, e);
    b[i].data = buf[i]; b[i].len = lens[i];
  }
  b[n].data = 0; b[n].len = 16;
  sy_lib(1);
  k = dvbcsa_key_alloc(); dvbcsa_key_set(cw, k);
  bk = dvbcsa_bs_key_alloc(); dvbcsa_bs_key_set(cw, bk);
  for (i = 0; i < n; i++) {
    e = lens[i] < maxlen ? lens[i] : maxlen;
    if (op) dvbcsa_encrypt(k, oth[i], e); else dvbcsa_decrypt(k, oth[i], e);
  }
  if (op) dvbcsa_bs_encrypt(bk, b, maxlen); else dvbcsa_bs_decrypt(bk, b, maxlen);
  dvbcsa_key_free(k); dvbcsa_bs_key_free(bk);
  sy_lib(0);
  for (i = 0; i < n; i++) sy_assert_eq(buf[i], oth[i], cap, "payload", i);
  sy_reach("end");
}
