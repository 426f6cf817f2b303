/* Reference model of DVB-CSA, written from the published description of the
   algorithm (block cipher: 56 rounds of a byte shift register; stream cipher:
   two nibble shift registers with seven 5-to-2 S-boxes and a combiner with
   memory), one packet at a time, without any of the library's code. */
#include "csa_ref.h"
typedef unsigned char u8;

static const u8 sbox[256] = {
  0x3a,0xea,0x68,0xfe,0x33,0xe9,0x88,0x1a,0x83,0xcf,0xe1,0x7f,0xba,0xe2,0x38,0x12,
  0xe8,0x27,0x61,0x95,0x0c,0x36,0xe5,0x70,0xa2,0x06,0x82,0x7c,0x17,0xa3,0x26,0x49,
  0xbe,0x7a,0x6d,0x47,0xc1,0x51,0x8f,0xf3,0xcc,0x5b,0x67,0xbd,0xcd,0x18,0x08,0xc9,
  0xff,0x69,0xef,0x03,0x4e,0x48,0x4a,0x84,0x3f,0xb4,0x10,0x04,0xdc,0xf5,0x5c,0xc6,
  0x16,0xab,0xac,0x4c,0xf1,0x6a,0x2f,0x3c,0x3b,0xd4,0xd5,0x94,0xd0,0xc4,0x63,0x62,
  0x71,0xa1,0xf9,0x4f,0x2e,0xaa,0xc5,0x56,0xe3,0x39,0x93,0xce,0x65,0x64,0xe4,0x58,
  0x6c,0x19,0x42,0x79,0xdd,0xee,0x96,0xf6,0x8a,0xec,0x1e,0x85,0x53,0x45,0xde,0xbb,
  0x7e,0x0a,0x9a,0x13,0x2a,0x9d,0xc2,0x5e,0x5a,0x1f,0x32,0x35,0x9c,0xa8,0x73,0x30,
  0x29,0x3d,0xe7,0x92,0x87,0x1b,0x2b,0x4b,0xa5,0x57,0x97,0x40,0x15,0xe6,0xbc,0x0e,
  0xeb,0xc3,0x34,0x2d,0xb8,0x44,0x25,0xa4,0x1c,0xc7,0x23,0xed,0x90,0x6e,0x50,0x00,
  0x99,0x9e,0x4d,0xd9,0xda,0x8d,0x6f,0x5f,0x3e,0xd7,0x21,0x74,0x86,0xdf,0x6b,0x05,
  0x8e,0x5d,0x37,0x11,0xd2,0x28,0x75,0xd6,0xa7,0x77,0x24,0xbf,0xf0,0xb0,0x02,0xb7,
  0xf8,0xfc,0x81,0x09,0xb1,0x01,0x76,0x91,0x7d,0x0f,0xc8,0xa0,0xf2,0xcb,0x78,0x60,
  0xd1,0xf7,0xe0,0xb5,0x98,0x22,0xb3,0x20,0x1d,0xa6,0xdb,0x7b,0x59,0x9f,0xae,0x31,
  0xfb,0xd3,0xb6,0xca,0x43,0x72,0x07,0xf4,0xd8,0x41,0x14,0x55,0x0d,0x54,0x8b,0xb9,
  0xad,0x46,0x0b,0xaf,0x80,0x52,0x2c,0xfa,0x8c,0x89,0x66,0xfd,0xb2,0xa9,0x9b,0xc0,
};
static const u8 kperm[64] = {
  0x12,0x24,0x09,0x07,0x2A,0x31,0x1D,0x15,0x1C,0x36,0x3E,0x32,0x13,0x21,0x3B,0x40,
  0x18,0x14,0x25,0x27,0x02,0x35,0x1B,0x01,0x22,0x04,0x0D,0x0E,0x39,0x28,0x1A,0x29,
  0x33,0x23,0x34,0x0C,0x16,0x30,0x1E,0x3A,0x2D,0x1F,0x08,0x19,0x17,0x2F,0x3D,0x11,
  0x3C,0x05,0x38,0x2B,0x0B,0x06,0x0A,0x2C,0x20,0x3F,0x2E,0x0F,0x03,0x26,0x10,0x37 };
static const u8 s1[32]={2,0,1,1,2,3,3,0,3,2,2,0,1,1,0,3,0,3,3,0,2,2,1,1,2,2,0,3,1,1,3,0};
static const u8 s2[32]={3,1,0,2,2,3,3,0,1,3,2,1,0,0,1,2,3,1,0,3,3,2,0,2,0,0,1,2,2,1,3,1};
static const u8 s3[32]={2,0,1,2,2,3,3,1,1,1,0,3,3,0,2,0,1,3,0,1,3,0,2,2,2,0,1,2,0,3,3,1};
static const u8 s4[32]={3,1,2,3,0,2,1,2,1,2,0,1,3,0,0,3,1,0,3,1,2,3,0,3,0,3,2,0,1,2,2,1};
static const u8 s5[32]={2,0,0,1,3,2,3,2,0,1,3,3,1,0,2,1,2,3,2,0,0,3,1,1,1,0,3,2,3,1,0,2};
static const u8 s6[32]={0,1,2,3,1,2,2,0,0,1,3,0,2,3,1,3,2,3,0,2,3,0,1,1,2,1,1,2,0,3,3,0};
static const u8 s7[32]={0,3,2,2,3,0,0,1,3,0,1,3,1,2,2,1,1,0,3,3,0,1,1,2,2,3,1,0,2,3,0,2};

static unsigned perm(unsigned s)
{
  return ((s & 0x01) << 1) | ((s & 0x02) << 6) | ((s & 0x04) << 3) | ((s & 0x08) << 1)
       | ((s & 0x10) >> 2) | ((s & 0x20) << 1) | ((s & 0x40) >> 6) | ((s & 0x80) >> 4);
}

void ref_key_set(const u8 *cw, struct ref_key *k)
{
  u8 kb[7][8]; int i, j, b;
  for (i = 0; i < 8; i++) k->cw[i] = kb[6][i] = cw[i];
  for (i = 5; i >= 0; i--) {
    for (j = 0; j < 8; j++) kb[i][j] = 0;
    for (b = 0; b < 64; b++) {              /* bit b (msb first) moves to kperm[b]-1 */
      int d = kperm[b] - 1;
      kb[i][d / 8] |= ((kb[i + 1][b / 8] >> (7 - b % 8)) & 1) << (7 - d % 8);
    }
  }
  for (i = 0; i < 7; i++) for (j = 0; j < 8; j++) k->kk[i * 8 + j] = kb[i][j] ^ i;
}

void ref_block_decrypt(const struct ref_key *k, const u8 *in, u8 *out)
{
  unsigned R[9], i, s, p, r7;
  for (i = 0; i < 8; i++) R[i + 1] = in[i];
  for (i = 56; i > 0; i--) {
    s = sbox[k->kk[i - 1] ^ R[7]]; p = perm(s);
    r7 = R[7];
    R[7] = R[6] ^ p;
    R[6] = R[5];
    R[5] = R[4] ^ R[8] ^ s;
    R[4] = R[3] ^ R[8] ^ s;
    R[3] = R[2] ^ R[8] ^ s;
    R[2] = R[1];
    R[1] = R[8] ^ s;
    R[8] = r7;
  }
  for (i = 0; i < 8; i++) out[i] = R[i + 1];
}

void ref_block_encrypt(const struct ref_key *k, const u8 *in, u8 *out)
{
  unsigned R[9], i, s, p, r1;
  for (i = 0; i < 8; i++) R[i + 1] = in[i];
  for (i = 0; i < 56; i++) {
    s = sbox[k->kk[i] ^ R[8]]; p = perm(s);
    r1 = R[2];
    R[2] = R[3] ^ R[1];
    R[3] = R[4] ^ R[1];
    R[4] = R[5] ^ R[1];
    R[5] = R[6];
    R[6] = R[7] ^ p;
    R[7] = R[8];
    R[8] = R[1] ^ s;
    R[1] = r1;
  }
  for (i = 0; i < 8; i++) out[i] = R[i + 1];
}

struct st { unsigned A[11], B[11], X, Y, Z, D, E, F, p, q, r; };
#define BIT(v, n) (((v) >> (n)) & 1)
#define IDX(a, b, c, d, e) ((a) << 4 | (b) << 3 | (c) << 2 | (d) << 1 | (e))

static unsigned st_round(struct st *s, int init, unsigned ina, unsigned inb)
{
  unsigned *A = s->A, *B = s->B, i, na, nb, eb, t;
  unsigned v1 = s1[IDX(BIT(A[4],0), BIT(A[1],2), BIT(A[6],1), BIT(A[7],3), BIT(A[9],0))];
  unsigned v2 = s2[IDX(BIT(A[2],1), BIT(A[3],2), BIT(A[6],3), BIT(A[7],0), BIT(A[9],1))];
  unsigned v3 = s3[IDX(BIT(A[1],3), BIT(A[2],0), BIT(A[5],1), BIT(A[5],3), BIT(A[6],2))];
  unsigned v4 = s4[IDX(BIT(A[3],3), BIT(A[1],1), BIT(A[2],3), BIT(A[4],2), BIT(A[8],0))];
  unsigned v5 = s5[IDX(BIT(A[5],2), BIT(A[4],3), BIT(A[6],0), BIT(A[8],1), BIT(A[9],2))];
  unsigned v6 = s6[IDX(BIT(A[3],1), BIT(A[4],1), BIT(A[5],0), BIT(A[7],2), BIT(A[9],3))];
  unsigned v7 = s7[IDX(BIT(A[2],2), BIT(A[3],0), BIT(A[7],1), BIT(A[8],2), BIT(A[8],3))];
  eb = (BIT(B[3],0) ^ BIT(B[6],1) ^ BIT(B[7],2) ^ BIT(B[9],3)) << 3
     | (BIT(B[6],0) ^ BIT(B[8],1) ^ BIT(B[3],3) ^ BIT(B[4],2)) << 2
     | (BIT(B[5],3) ^ BIT(B[8],2) ^ BIT(B[4],0) ^ BIT(B[5],1)) << 1
     | (BIT(B[9],2) ^ BIT(B[6],3) ^ BIT(B[3],1) ^ BIT(B[8],0));
  na = A[10] ^ s->X; nb = B[7] ^ B[10] ^ s->Y;
  if (init) { na ^= s->D ^ ina; nb ^= inb; }
  t = ((nb << 1) | (nb >> 3)) & 15;
  nb = (t & (0u - s->p)) | (nb & ~(0u - s->p));
  s->D = s->E ^ s->Z ^ eb;
  { unsigned f = s->Z + s->E + s->r, m = 0u - s->q, oe = s->E;
    s->E = s->F;
    s->F = ((f & m) | (oe & ~m)) & 15;
    s->r = (BIT(f, 4) & s->q) | (s->r & (s->q ^ 1)); }
  for (i = 10; i > 1; i--) { A[i] = A[i - 1]; B[i] = B[i - 1]; }
  A[1] = na; B[1] = nb;
  s->X = (v4 & 1) << 3 | (v3 & 1) << 2 | (v2 & 2) | (v1 & 2) >> 1;
  s->Y = (v6 & 1) << 3 | (v5 & 1) << 2 | (v4 & 2) | (v3 & 2) >> 1;
  s->Z = (v2 & 1) << 3 | (v1 & 1) << 2 | (v6 & 2) | (v5 & 2) >> 1;
  s->p = v7 >> 1; s->q = v7 & 1;
  return (BIT(s->D,3) ^ BIT(s->D,2)) << 1 | (BIT(s->D,1) ^ BIT(s->D,0));
}

static u8 ks[1 << 17];
void ref_keystream(const struct ref_key *k, const u8 *iv, u8 *out, unsigned n)
{
  struct st s; unsigned i, j;
  for (i = 0; i < 11; i++) s.A[i] = s.B[i] = 0;
  s.X = s.Y = s.Z = s.D = s.E = s.F = s.p = s.q = s.r = 0;
  for (i = 0; i < 4; i++) {
    s.A[1 + 2 * i] = k->cw[i] >> 4;     s.A[2 + 2 * i] = k->cw[i] & 15;
    s.B[1 + 2 * i] = k->cw[4 + i] >> 4; s.B[2 + 2 * i] = k->cw[4 + i] & 15;
  }
  for (i = 0; i < 8; i++) for (j = 0; j < 4; j++) {
    unsigned h = iv[i] >> 4, l = iv[i] & 15;
    if (j & 1) st_round(&s, 1, l, h); else st_round(&s, 1, h, l);
  }
  for (i = 0; i < n; i++) {
    unsigned o = 0;
    for (j = 0; j < 4; j++) o = o << 2 | st_round(&s, 0, 0, 0);
    out[i] = o;
  }
}

void ref_decrypt(const struct ref_key *k, u8 *d, unsigned len)
{
  u8 t[8]; unsigned i, j, a = len & ~7u;
  if (len < 8) return;
  ref_keystream(k, d, ks, len - 8);
  for (i = 8; i < len; i++) d[i] ^= ks[i - 8];
  for (i = 0; i < a; i += 8) {
    ref_block_decrypt(k, d + i, t);
    for (j = 0; j < 8; j++) d[i + j] = t[j] ^ (i + 8 < a ? d[i + 8 + j] : 0);
  }
}

void ref_encrypt(const struct ref_key *k, u8 *d, unsigned len)
{
  u8 t[8]; unsigned i, j, a = len & ~7u;
  if (len < 8) return;
  for (i = a; i > 0; i -= 8) {
    for (j = 0; j < 8; j++) t[j] = d[i - 8 + j] ^ (i < a ? d[i + j] : 0);
    ref_block_encrypt(k, t, d + i - 8);
  }
  ref_keystream(k, d, ks, len - 8);
  for (i = 8; i < len; i++) d[i] ^= ks[i - 8];
}

/* ---- symbolic length: straight-line over the whole backing store ---- */
static void sel(u8 *d, u8 v, int c) { u8 m = (u8)(0 - (c != 0)); *d ^= (u8)((*d ^ v) & m); }

void ref_decrypt_sym(const struct ref_key *k, u8 *d, unsigned cap, unsigned len)
{
  u8 t[8]; unsigned i, j, a = len & ~7u;
  ref_keystream(k, d, ks, cap - 8);
  for (i = 8; i < cap; i++) sel(&d[i], d[i] ^ ks[i - 8], len >= 8 && i < len);
  for (i = 0; i + 8 <= cap; i += 8) {
    ref_block_decrypt(k, d + i, t);
    for (j = 0; j < 8; j++) {
      u8 nx = 0; if (i + 8 + j < cap) sel(&nx, d[i + 8 + j], i + 8 < a);
      sel(&d[i + j], t[j] ^ nx, i < a);
    }
  }
}

void ref_encrypt_sym(const struct ref_key *k, u8 *d, unsigned cap, unsigned len)
{
  u8 t[8], o[8]; unsigned i, j, a = len & ~7u;
  for (i = cap & ~7u; i > 0; i -= 8) {
    for (j = 0; j < 8; j++) { u8 nx = 0; if (i + j < cap) sel(&nx, d[i + j], i < a); t[j] = d[i - 8 + j] ^ nx; }
    ref_block_encrypt(k, t, o);
    for (j = 0; j < 8; j++) sel(&d[i - 8 + j], o[j], i - 8 < a);
  }
  ref_keystream(k, d, ks, cap - 8);
  for (i = 8; i < cap; i++) sel(&d[i], d[i] ^ ks[i - 8], len >= 8 && i < len);
}
