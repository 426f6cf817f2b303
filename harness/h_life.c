/* Life cycle of key contexts. params: 0 api (0 single, 1 batch), 1 fault: 0 none,
   k: the k-th allocation fails, 2 order in which the three contexts are freed, 3 free(NULL),
   4: 1: each context is also used for empty batches, packets of 0 and of few bytes, processing length 0;
   5 k: the k-th allocation (if any) within each processing call or control word setting fails */
#include "sy.h"
#include "../ref/csa_ref.h"
#include <dvbcsa/dvbcsa.h>
#include <string.h>
static void *alloc_(int api) { void *k; sy_lib(1); k = api ? (void *)dvbcsa_bs_key_alloc() : (void *)dvbcsa_key_alloc(); sy_lib(0); return k; }
static void free_(int api, void *k) { sy_lib(1); if (api) dvbcsa_bs_key_free(k); else dvbcsa_key_free(k); sy_lib(0); }
static void use(int api, void *k, const unsigned char *cw, const struct ref_key *rk)
{
  unsigned char *d = sy_alloc(8, 0, "payload"), e[8]; struct dvbcsa_bs_batch_s *b = (void *)sy_alloc(2 * sizeof *b, 0, "batch");
  sy_bytes(d, 8, "payload"); memcpy(e, d, 8); ref_encrypt(rk, e, 8);
  b[0].data = d; b[0].len = 8; b[1].data = 0; b[1].len = 16;
  sy_fail_alloc(sy_param(5));
  sy_lib(1);
  if (api) dvbcsa_bs_key_set(cw, k); else dvbcsa_key_set(cw, k);
  sy_lib(0);
  sy_fail_alloc(sy_param(5));
  sy_lib(1);
  if (api) dvbcsa_bs_encrypt(k, b, 8); else dvbcsa_encrypt(k, d, 8);
  sy_lib(0);
  sy_fail_alloc(0);
  if (sy_param(5)) return; /* what a call that lacks memory does is not judged, only that it does no harm */
  sy_assert_eq(d, e, 8, "usable", 0);
}
static void odd(int api, void *k, const unsigned char *cw)
{
  unsigned char *d = sy_alloc(24, 0, "odd"), *e = sy_alloc(24, 0, "odd"); struct dvbcsa_bs_batch_s *b = (void *)sy_alloc(3 * sizeof *b, 0, "batch"); unsigned i, n;
  static const unsigned char l[6] = { 0, 5, 8, 9, 16, 23 };
  sy_bytes(d, 24, "odd"); sy_bytes(e, 24, "odd");
  sy_lib(1);
  if (api) dvbcsa_bs_key_set(cw, k); else dvbcsa_key_set(cw, k);
  if (api) {
    for (n = 0; n < 3; n++) for (i = 0; i < 4; i++) {
      unsigned m = i & 2 ? 16 : 0;
      b[0].data = n ? d : 0; b[0].len = l[n + i]; b[1].data = n > 1 ? e : 0; b[1].len = l[i]; b[2].data = 0; b[2].len = 7;
      sy_lib(0); sy_fail_alloc(sy_param(5)); sy_lib(1);
      if (i & 1) dvbcsa_bs_encrypt(k, b, m); else dvbcsa_bs_decrypt(k, b, m);
    }
  } else for (i = 0; i < 6; i++) {
    sy_lib(0); sy_fail_alloc(sy_param(5)); sy_lib(1);
    dvbcsa_encrypt(k, d, l[i]);
    sy_lib(0); sy_fail_alloc(sy_param(5)); sy_lib(1);
    dvbcsa_decrypt(k, d, l[i]);
  }
  sy_lib(0);
  sy_fail_alloc(0);
}
void h_life(void)
{
  static const unsigned char ord[6][3] = { {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0} };
  int api = sy_param(0), fault = sy_param(1), o = sy_param(2); unsigned i, live; void *k[3];
  unsigned char *cw = sy_alloc(8, 0, "cw"); struct ref_key rk;
  sy_bytes(cw, 8, "cw"); ref_key_set(cw, &rk);
  if (sy_param(3)) { free_(api, 0); sy_assert(sy_heap_live() == 0, "free-null"); }
  if (fault) {
    void *f;
    sy_fail_alloc(fault);
    f = alloc_(api);
    sy_fail_alloc(0);
    if (!f) { sy_assert(sy_heap_live() == 0, "leak-on-failure"); sy_reach("fault"); }
    else { use(api, f, cw, &rk); free_(api, f); }  /* the fault was survived: the context must be sound */
  }
  for (i = 0; i < 3; i++) {
    k[i] = alloc_(api);
    sy_assert(k[i] != 0, "allocated");
    if (!k[i]) return;
    sy_assert(i == 0 || k[i] != k[0], "distinct");
  }
  live = sy_heap_live();
  sy_assert(live >= 3, "live");
  for (i = 0; i < 3; i++) { use(api, k[i], cw, &rk); if (sy_param(4)) odd(api, k[i], cw); }
  for (i = 0; i < 3; i++) { unsigned j = i; free_(api, k[ord[o][i]]); for (j = i + 1; j < 3; j++) use(api, k[ord[o][j]], cw, &rk); }
  sy_assert(sy_heap_live() == 0, "leak");
  sy_reach("end");
}
