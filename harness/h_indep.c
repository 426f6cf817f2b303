/* Contexts and calls do not influence each other: two single and two batch contexts
   with arbitrary control words are used interleaved; every result is the one of a
   context used alone. params: 0 length, 1 maxlen, 2 schedule */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define NP 12
static unsigned char *p[NP], e[NP][256];
static unsigned np;
static unsigned char *fresh(unsigned len) { p[np] = sy_alloc(len, np, "payload"); sy_bytes(p[np], len, "payload"); memcpy(e[np], p[np], len); return p[np++]; }
static struct ref_key rk[2]; static dvbcsa_key_t *sk[2]; static dvbcsa_bs_key_t *bk[2];
static void step(int w, unsigned len, unsigned maxlen)
{
  int c = w & 1, op = w >> 1 & 1, api = w >> 2 & 1; unsigned i = np; unsigned char *d = fresh(len);
  struct dvbcsa_bs_batch_s *b = (void *)sy_alloc(2 * sizeof *b, 0, "batch");
  b[0].data = d; b[0].len = len; b[1].data = 0; b[1].len = 16;
  if (op) ref_encrypt(&rk[c], e[i], len); else ref_decrypt(&rk[c], e[i], len);
  sy_lib(1);
  if (api) { if (op) dvbcsa_bs_encrypt(bk[c], b, maxlen); else dvbcsa_bs_decrypt(bk[c], b, maxlen); }
  else if (op) dvbcsa_encrypt(sk[c], d, len); else dvbcsa_decrypt(sk[c], d, len);
  sy_lib(0);
}
void h_indep(void)
{
  static const unsigned char order[3][8] = { {0, 1, 2, 3, 4, 5, 6, 7}, {7, 0, 5, 2, 3, 6, 1, 4}, {4, 4, 5, 4, 0, 0, 1, 0} };
  unsigned len = sy_param(0), maxlen = sy_param(1), s = sy_param(2), i;
  unsigned char *cw[2]; dvbcsa_key_t *s0, *s1; dvbcsa_bs_key_t *b0, *b1;
  for (i = 0; i < 2; i++) { cw[i] = sy_alloc(8, 0, "cw"); sy_bytes(cw[i], 8, "cw"); ref_key_set(cw[i], &rk[i]); }
  sy_lib(1);
  s0 = dvbcsa_key_alloc(); b0 = dvbcsa_bs_key_alloc(); s1 = dvbcsa_key_alloc(); b1 = dvbcsa_bs_key_alloc();
  sy_lib(0);
  sk[0] = s0; sk[1] = s1; bk[0] = b0; bk[1] = b1;
  sy_lib(1);
  dvbcsa_key_set(cw[0], sk[0]); dvbcsa_bs_key_set(cw[0], bk[0]);
  dvbcsa_bs_key_set(cw[1], bk[1]); dvbcsa_key_set(cw[1], sk[1]);
  sy_lib(0);
  for (i = 0; i < 8; i++) step(order[s][i], len, maxlen);
  sy_lib(1);
  dvbcsa_key_free(sk[1]); dvbcsa_bs_key_free(bk[1]);
  sy_lib(0);
  step(0, len, maxlen); step(4, len, maxlen);
  sy_lib(1);
  dvbcsa_key_free(sk[0]); dvbcsa_bs_key_free(bk[0]);
  sy_lib(0);
  for (i = 0; i < np; i++) sy_assert_eq(p[i], e[i], len, "payload", i);
  sy_reach("end");
}
