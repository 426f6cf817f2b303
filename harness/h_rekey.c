/* A context is determined by the last control word it was given.
   params: 0 api (0 single, 1 batch), 1 op, 2 length, 3 packets (-1: batch size), 4 maxlen,
           5 history: 0 arbitrary bytes in the context, 1 first an arbitrary other control word,
             2 also a packet processed in between, 3 set twice to the same word
   The control word buffer is overwritten after the last set. */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXN 260
static unsigned char exp_[MAXN][256];
static unsigned char *buf[MAXN];
static void proc(int api, int op, void *k, struct dvbcsa_bs_batch_s *b, unsigned n, unsigned maxlen)
{
  unsigned i;
  if (api) { if (op) dvbcsa_bs_encrypt(k, b, maxlen); else dvbcsa_bs_decrypt(k, b, maxlen); return; }
  for (i = 0; i < n; i++) { if (op) dvbcsa_encrypt(k, b[i].data, b[i].len); else dvbcsa_decrypt(k, b[i].data, b[i].len); }
}
void h_rekey(void)
{
  int api = sy_param(0), op = sy_param(1), np = sy_param(3), hist = sy_param(5);
  unsigned len = sy_param(2), maxlen = sy_param(4), n = np < 0 ? dvbcsa_bs_batch_size() : (unsigned)np, i;
  unsigned char *cw = sy_alloc(8, 0, "cw"), *cw2 = sy_alloc(8, 0, "cw2"), *junk = sy_alloc(16, 0, "junk");
  struct dvbcsa_bs_batch_s *b = (void *)sy_alloc((n + 1) * sizeof *b, 0, "batch"), *jb = (void *)sy_alloc(2 * sizeof *b, 0, "jbatch");
  struct ref_key rk; void *k;
  sy_bytes(cw, 8, "cw"); sy_bytes(cw2, 8, "cw2");
  ref_key_set(cw2, &rk);
  for (i = 0; i < n; i++) {
    buf[i] = sy_alloc(len, 0, "payload"); sy_bytes(buf[i], len, "payload");
    memcpy(exp_[i], buf[i], len);
    if (!sy_checking()) ; else if (op) ref_encrypt(&rk, exp_[i], len < maxlen ? len : maxlen); else ref_decrypt(&rk, exp_[i], len < maxlen ? len : maxlen);
    b[i].data = buf[i]; b[i].len = len;
  }
  b[n].data = 0; b[n].len = 16;
  memset(junk, 0x47, 16); jb[0].data = junk; jb[0].len = 16; jb[1].data = 0; jb[1].len = 16;
  sy_lib(1);
  k = api ? (void *)dvbcsa_bs_key_alloc() : (void *)dvbcsa_key_alloc();
  sy_lib(0);
  if (hist == 0) sy_seed_heap(k);
  if (hist >= 1) { sy_lib(1); if (api) dvbcsa_bs_key_set(hist == 3 ? cw2 : cw, k); else dvbcsa_key_set(hist == 3 ? cw2 : cw, k); sy_lib(0); }
  if (hist == 2) { sy_lib(1); proc(api, !op, k, jb, 1, 16); proc(api, op, k, jb, 1, 16); sy_lib(0); }
  sy_lib(1);
  if (api) dvbcsa_bs_key_set(cw2, k); else dvbcsa_key_set(cw2, k);
  sy_lib(0);
  memset(cw2, 0x5c, 8);
  sy_lib(1);
  proc(api, op, k, b, n, maxlen);
  if (api) dvbcsa_bs_key_free(k); else dvbcsa_key_free(k);
  sy_lib(0);
  for (i = 0; i < n; i++) sy_assert_eq(buf[i], exp_[i], len, "payload", i);
  sy_reach("end");
}
