/* Round trips through the library alone.
   params: 0 first operation: api | op << 1 (api 0 single, 1 batch; op 0 decrypt, 1 encrypt), 1 second operation,
           2 packets (-1: batch size), 3 maxlen of the first batch operation, 4 payload length (as h_batch),
           5 cap, 6 misalignment, 7 maxlen of the second batch operation
   The second operation undoes the first: every payload must be restored.
   When the two operations belong to different APIs the reference is evaluated too, but nothing
   is compared with it: its values are intermediate points that help the solver relate the two. */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
#define MAXN 260
static unsigned char orig[MAXN][256];
static unsigned char *buf[MAXN];
static unsigned lens[MAXN];
static unsigned char lemma[256];
static void go(int what, const unsigned char *cw, unsigned n, struct dvbcsa_bs_batch_s *b, unsigned maxlen)
{
  unsigned i;
  sy_lib(1);
  if (what & 1) {
    dvbcsa_bs_key_t *k = dvbcsa_bs_key_alloc();
    dvbcsa_bs_key_set(cw, k);
    if (what & 2) dvbcsa_bs_encrypt(k, b, maxlen); else dvbcsa_bs_decrypt(k, b, maxlen);
    dvbcsa_bs_key_free(k);
  } else {
    dvbcsa_key_t *k = dvbcsa_key_alloc();
    dvbcsa_key_set(cw, k);
    for (i = 0; i < n; i++) { if (what & 2) dvbcsa_encrypt(k, b[i].data, b[i].len); else dvbcsa_decrypt(k, b[i].data, b[i].len); }
    dvbcsa_key_free(k);
  }
  sy_lib(0);
}
void h_round(void)
{
  int f = sy_param(0), s = sy_param(1), np = sy_param(2), plen = sy_param(4);
  unsigned cap = sy_param(5), mm = sy_param(6), n = np < 0 ? dvbcsa_bs_batch_size() : (unsigned)np, i;
  unsigned char *cw = sy_alloc(8, mm, "cw");
  struct dvbcsa_bs_batch_s *b = (void *)sy_alloc((n + 1) * sizeof *b, 0, "batch");
  sy_bytes(cw, 8, "cw");
  for (i = 0; i < n; i++) {
    buf[i] = sy_alloc(cap, (mm * (i + 1)) & 63, "payload");
    lens[i] = plen >= 0 ? (unsigned)plen : (i + (unsigned)(-2 - plen)) % (cap + 1);
    sy_bytes(buf[i], cap, "payload");
    memcpy(orig[i], buf[i], cap);
    b[i].data = buf[i]; b[i].len = lens[i];
  }
  b[n].data = 0; b[n].len = 16;
  if ((f ^ s) & 1) {
    struct ref_key rk; ref_key_set(cw, &rk);
    for (i = 0; i < n; i++) {
      memcpy(lemma, orig[i], cap);
      if (f & 2) { ref_encrypt(&rk, lemma, lens[i]); ref_decrypt(&rk, lemma, lens[i]); }
      else { ref_decrypt(&rk, lemma, lens[i]); ref_encrypt(&rk, lemma, lens[i]); }
    }
  }
  go(f, cw, n, b, sy_param(3));
  go(s, cw, n, b, sy_param(7));
  for (i = 0; i < n; i++) sy_assert_eq(buf[i], orig[i], cap, "payload", i);
  sy_reach("end");
}
