#include "xag.h"
#include <z3++.h>
#include <minisat/core/Solver.h>
#include <sys/mman.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unordered_set>
#include <map>
#include <memory>
#include <chrono>
using namespace std;

XagStats xstats;
bool xag_andor_mux = false;
bool xag_sweep = true;
double now_s() {
  return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count();
}
[[noreturn]] static void die(const char *m) { fprintf(stderr, "xag: %s\n", m); exit(3); }

struct Sig { uint64_t w[W]; };
static const size_t MAXN = 400u * 1000 * 1000;
static uint32_t *NA, *NB; static uint8_t *NK, *NCTL; static Sig *NS; // NCTL: depends on range variables only
static uint32_t NN = 0;
static vector<Lit> pool;                // LUT fanins (positive literals)
static uint64_t rng_s;
static uint64_t rnd() { uint64_t z = (rng_s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
template <class T> static T *big(size_t n) {
  void *p = mmap(0, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) die("mmap"); return (T *)p;
}
// ---- variable groups
struct Group { uint32_t lo, hi; vector<uint32_t> vars; };
static vector<Group> groups;
static unordered_map<uint32_t, int> var_group;     // var node -> group
static unordered_map<uint32_t, int> vtag;
int var_tag(uint32_t n) { auto i = vtag.find(n); return i == vtag.end() ? 0 : i->second; }

// ---- strash
struct SE { uint32_t a, b; Lit r; };               // AND: a<b ; XOR: a>b ; empty: a==b==0
static SE *st; static size_t stcap, stcnt;
static inline uint64_t h2(uint64_t a, uint64_t b) {
  uint64_t x = (a * 0x9e3779b97f4a7c15ULL) ^ (b + 0x7f4a7c15) * 0xc2b2ae3d27d4eb4fULL; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ULL; return x ^ (x >> 32);
}
static SE *st_find(uint32_t a, uint32_t b) {
  size_t i = h2(a, b) & (stcap - 1);
  while (st[i].a | st[i].b) { if (st[i].a == a && st[i].b == b) return &st[i]; i = (i + 1) & (stcap - 1); }
  return &st[i];
}
static void st_grow() {
  SE *o = st; size_t oc = stcap; stcap *= 2; st = big<SE>(stcap);
  for (size_t i = 0; i < oc; i++) if (o[i].a | o[i].b) *st_find(o[i].a, o[i].b) = o[i];
  munmap(o, oc * sizeof(SE));
}
static void st_put(uint32_t a, uint32_t b, Lit r) {
  if (stcnt * 3 > stcap * 2) st_grow();
  SE *e = st_find(a, b); e->a = a; e->b = b; e->r = r; stcnt++;
}
// ---- signature classes
static uint32_t *sc; static size_t sccap, sccnt;
static inline bool sig_inv(const Sig &s) { return s.w[0] & 1; }
static inline uint64_t sig_hash(const Sig &s) {
  uint64_t m = sig_inv(s) ? ~0ULL : 0, h = 0;
  for (int i = 0; i < W; i++) h = h2(h, s.w[i] ^ m);
  return h;
}
static inline bool sig_eq(const Sig &a, const Sig &b, bool inv) {
  uint64_t m = inv ? ~0ULL : 0;
  for (int i = 0; i < W; i++) if (a.w[i] != (b.w[i] ^ m)) return false;
  return true;
}
static void sc_insert_raw(uint32_t n) {
  size_t i = sig_hash(NS[n]) & (sccap - 1); while (sc[i]) i = (i + 1) & (sccap - 1); sc[i] = n; }
static void sc_put(uint32_t n) {
  if (sccnt * 3 > sccap * 2) {
    uint32_t *o = sc; size_t oc = sccap; sccap *= 2; sc = big<uint32_t>(sccap);
    for (size_t i = 0; i < oc; i++) if (o[i]) sc_insert_raw(o[i]);
    munmap(o, oc * 4);
  }
  sc_insert_raw(n); sccnt++;
}

// ---- truth tables
struct TT { int k; vector<uint64_t> w; uint32_t support; int affine; /* -1 unknown 0 no 1 yes */ };
static vector<unique_ptr<TT>> tts;
static unordered_map<string, int> ttmap;
static inline size_t ttwords(int k) { return k <= 6 ? 1 : (size_t)1 << (k - 6); }
static inline uint64_t ttmask(int k) { return k >= 6 ? ~0ULL : ((1ULL << (1 << k)) - 1); }
static inline bool ttbit(const uint64_t *w, uint32_t i) { return (w[i >> 6] >> (i & 63)) & 1; }
int tt_intern(int k, const uint64_t *w0) {
  size_t n = ttwords(k); string key; key.push_back((char)k);
  vector<uint64_t> w(w0, w0 + n); if (k < 6) w[0] &= ttmask(k);
  key.append((const char *)w.data(), n * 8);
  auto it = ttmap.find(key); if (it != ttmap.end()) return it->second;
  auto t = make_unique<TT>(); t->k = k; t->w = w; t->support = 0; t->affine = -1;
  for (int i = 0; i < k; i++)
    for (uint32_t m = 0; m < (1u << k); m++) if (!((m >> i) & 1) && ttbit(w.data(), m) != ttbit(w.data(), m | (1u << i))) { t->support |= 1u << i; break; }
  tts.push_back(move(t)); int id = tts.size() - 1; ttmap[key] = id; return id;
}
struct Tr { int kind; /*0 const,1 affine,2 and2,3 lut*/ bool inv; int tt; vector<uint8_t> idx; vector<bool> neg; };
static unordered_map<uint64_t, vector<pair<int, Tr>>> trcache;  // code -> (tt, Tr)

// LUT strash
struct LKey { int tt; vector<Lit> in; bool operator==(const LKey &o) const { return tt == o.tt && in == o.in; } };
struct LHash { size_t operator()(const LKey &k) const { uint64_t h = k.tt; for (Lit l : k.in) h = h2(h, l); return h; } };
// compact open-addressing LUT table keyed by node or alias
struct LE { uint64_t h; Lit r; uint32_t off; int tt; };
static vector<LE> lt; static size_t ltcnt;
static uint64_t lut_hash(int tt, int k, const Lit *in) { uint64_t h = tt * 31 + k; for (int i = 0; i < k; i++) h = h2(h, in[i]); return h | 1; }
static LE *lt_find(uint64_t h, int tt, int k, const Lit *in) {
  size_t i = h & (lt.size() - 1);
  while (lt[i].h) {
    if (lt[i].h == h && lt[i].tt == tt && (int)pool[lt[i].off] == k && !memcmp(&pool[lt[i].off + 1], in, k * sizeof(Lit))) return &lt[i];
    i = (i + 1) & (lt.size() - 1);
  }
  return &lt[i];
}
static void lt_put(uint64_t h, int tt, uint32_t off, Lit r) {
  if (ltcnt * 3 > lt.size() * 2) {
    vector<LE> o; o.swap(lt); lt.resize(o.size() * 2);
    for (auto &e : o) if (e.h) { size_t i = e.h & (lt.size() - 1); while (lt[i].h) i = (i + 1) & (lt.size() - 1); lt[i] = e; }
  }
  size_t i = h & (lt.size() - 1); while (lt[i].h) i = (i + 1) & (lt.size() - 1);
  lt[i] = LE{h, r, off, tt}; ltcnt++;
}

uint32_t xag_nodes() { return NN; }
Kind xag_kind(uint32_t n) { return (Kind)NK[n]; }
const uint64_t *xag_sig(uint32_t n) { return NS[n].w; }
int xag_fanins(uint32_t n, Lit *out) {
  switch (NK[n]) {
  case K_AND: case K_XOR: out[0] = NA[n]; out[1] = NB[n]; return 2;
  case K_LUT: { uint32_t o = NB[n]; int k = pool[o]; for (int i = 0; i < k; i++) out[i] = pool[o + 1 + i]; return k; }
  default: return 0;
  }
}
void xag_init(uint64_t seed) {
  rng_s = seed * 0x2545F4914F6CDD1DULL + 12345;
  NA = big<uint32_t>(MAXN); NB = big<uint32_t>(MAXN); NK = big<uint8_t>(MAXN); NCTL = big<uint8_t>(MAXN); NS = big<Sig>(MAXN);
  stcap = 1 << 20; st = big<SE>(stcap); sccap = 1 << 20; sc = big<uint32_t>(sccap);
  lt.resize(1 << 16);
  NK[0] = K_CONST; NCTL[0] = 1; NN = 1; pool.reserve(1 << 20);
}
static uint32_t new_node(Kind k, uint32_t a, uint32_t b) {
  if (NN >= MAXN - 2) die("node limit");
  NK[NN] = k; NA[NN] = a; NB[NN] = b; NCTL[NN] = k == K_CONST ? 1 : k == K_AND || k == K_XOR ? NCTL[a >> 1] & NCTL[b >> 1] : 0; return NN++;
}
static inline Lit ln(uint32_t n, bool c = false) { return n << 1 | (c ? 1 : 0); }
Lit mk_var(int tag) {
  uint32_t n = new_node(K_VAR, 0, 0);
  for (int i = 0; i < W; i++) NS[n].w[i] = rnd();
  if (tag) vtag[n] = tag;
  return ln(n);
}
vector<Lit> mk_range(uint32_t lo, uint32_t hi) {
  int nb = 0; while (nb < 32 && hi >> nb) nb++;
  Group g; g.lo = lo; g.hi = hi; vector<Lit> r;
  uint32_t vals[64 * W]; uint64_t span = (uint64_t)hi - lo + 1;
  for (int p = 0; p < 64 * W; p++) vals[p] = lo + (span >= 64 * W ? rnd() % span : p % span);
  if (span >= 64 * W) { vals[0] = lo; vals[1] = hi; }
  for (int p = 64 * W - 1; p > 0; p--) swap(vals[p], vals[rnd() % (p + 1)]);
  for (int b = 0; b < nb; b++) {
    uint32_t n = new_node(K_VAR, 0, 0);
    for (int i = 0; i < W; i++) { uint64_t w = 0; for (int j = 0; j < 64; j++) w |= (uint64_t)((vals[i * 64 + j] >> b) & 1) << j; NS[n].w[i] = w; }
    NCTL[n] = 1; g.vars.push_back(n); var_group[n] = groups.size(); r.push_back(ln(n));
  }
  groups.push_back(g);
  return r;
}
static inline Sig litsig(Lit l) { Sig s = NS[lnode(l)]; if (l & 1) for (int i = 0; i < W; i++) s.w[i] = ~s.w[i]; return s; }
bool sig_nonzero(Lit l, int *pat) {
  Sig s = litsig(l);
  for (int i = 0; i < W; i++) if (s.w[i]) { if (pat) *pat = i * 64 + __builtin_ctzll(s.w[i]); return true; }
  return false;
}
bool lit_under_pattern(Lit l, int p) { return ((NS[lnode(l)].w[p >> 6] >> (p & 63)) & 1) ^ (l & 1); }

// ---- ISOP (Minato-Morreale) on <=12 input truth tables
typedef vector<uint64_t> TV;
static TV tv_var(int k, int v) {
  static const uint64_t m[6] = {0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL, 0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL};
  TV t(ttwords(k));
  for (size_t i = 0; i < t.size(); i++) t[i] = v < 6 ? m[v] : ((i >> (v - 6)) & 1 ? ~0ULL : 0);
  if (k < 6) t[0] &= ttmask(k);
  return t;
}
typedef pair<uint32_t, uint32_t> Cube; // (pos mask, neg mask)
static TV cof(const TV &t, int k, int v, bool val) {
  TV r(t.size());
  if (v < 6) { TV mv = tv_var(6, v); uint64_t m = mv[0]; int s = 1 << v;
    for (size_t i = 0; i < t.size(); i++) { uint64_t x = val ? t[i] & m : t[i] & ~m; r[i] = val ? x | x >> s : x | x << s; } if (k < 6) r[0] &= ttmask(k); }
  else { size_t st = (size_t)1 << (v - 6); for (size_t i = 0; i < t.size(); i++) r[i] = t[val ? i | st : i & ~st]; }
  return r;
}
static bool tvzero(const TV &a) { for (auto x : a) if (x) return false; return true; }
static TV tvand(const TV &a, const TV &b, bool nb = false) { TV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = a[i] & (nb ? ~b[i] : b[i]); return r; }
static TV tvor(const TV &a, const TV &b) { TV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = a[i] | b[i]; return r; }
static TV isop(int k, const TV &on, const TV &ondc, int v, vector<Cube> &out) {
  if (tvzero(on)) return TV(on.size(), 0);
  TV full(on.size(), ttmask(k)); { TV x = ondc; bool all = true; for (size_t i = 0; i < x.size(); i++) if (x[i] != full[i]) all = false; if (all) { out.push_back({0, 0}); return full; } }
  TV o0, o1, d0, d1; 
  for (v = v - 1; v >= 0; v--) { o0 = cof(on, k, v, 0); o1 = cof(on, k, v, 1); d0 = cof(ondc, k, v, 0); d1 = cof(ondc, k, v, 1); if (o0 != o1 || d0 != d1) break; }
  if (v < 0) { out.push_back({0, 0}); return full; }
  size_t b = out.size();
  TV r0 = isop(k, tvand(o0, d1, true), d0, v, out); size_t m0 = out.size();
  for (size_t i = b; i < m0; i++) out[i].second |= 1u << v;
  TV r1 = isop(k, tvand(o1, d0, true), d1, v, out); size_t m1 = out.size();
  for (size_t i = m0; i < m1; i++) out[i].first |= 1u << v;
  TV nw = tvor(tvand(o0, r0, true), tvand(o1, r1, true));
  TV r2 = isop(k, nw, tvand(d0, d1), v, out);
  TV vv = tv_var(k, v), r(on.size());
  for (size_t i = 0; i < r.size(); i++) r[i] = (r0[i] & ~vv[i]) | (r1[i] & vv[i]) | r2[i];
  if (k < 6) r[0] &= ttmask(k);
  return r;
}
static unordered_map<int, pair<vector<Cube>, vector<Cube>>> isopc;
static const pair<vector<Cube>, vector<Cube>> &get_isop(int tt) {
  auto it = isopc.find(tt); if (it != isopc.end()) return it->second;
  const TT &t = *tts[tt]; TV on = t.w, off(on.size()); for (size_t i = 0; i < on.size(); i++) off[i] = ~on[i] & ttmask(t.k);
  pair<vector<Cube>, vector<Cube>> p; isop(t.k, on, on, t.k, p.first); isop(t.k, off, off, t.k, p.second);
  return isopc[tt] = p;
}

// ---- local proofs
struct Cone {
  static const int MX = 200;
  uint32_t node[MX]; uint8_t side[MX]; bool leaf[MX]; int cnt = 0, leaves = 0;
  int find(uint32_t n) { for (int i = 0; i < cnt; i++) if (node[i] == n) return i; return -1; }
  int add(uint32_t n, int s) {
    int i = find(n);
    if (i >= 0) { prop(i, s); return i; }
    if (cnt >= MX) return -1;
    node[cnt] = n; side[cnt] = s; leaf[cnt] = true; leaves++; return cnt++;
  }
  void prop(int i, int s) {
    if ((side[i] | s) == side[i]) return;
    side[i] |= s;
    if (!leaf[i]) { Lit f[KMAX]; int k = xag_fanins(node[i], f); for (int j = 0; j < k; j++) { int q = find(lnode(f[j])); if (q >= 0) prop(q, s); } }
  }
  bool expand(int i) {
    Lit f[KMAX]; int k = xag_fanins(node[i], f); if (!k) return false;
    leaf[i] = false; leaves--;
    for (int j = 0; j < k; j++) if (add(lnode(f[j]), side[i]) < 0) return false;
    return true;
  }
};
static const int KEV = 16;      // most leaves a local proof enumerates
static uint64_t evbuf[Cone::MX][1 << (KEV - 6)];
static uint64_t wrnd() { static uint64_t x = 0x9e3779b97f4a7c15ULL; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
// filter: a few random patterns instead of all
static void eval_cone(Cone &c, int k, int *order, int no, int *leafvar, bool filter = false) {
  // order: indices of cone nodes sorted by node index
  size_t w = filter ? 8 : ttwords(k);
  static const uint64_t m[6] = {0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL, 0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL};
  for (int q = 0; q < no; q++) {
    int i = order[q]; uint64_t *o = evbuf[i];
    if (c.leaf[i] && filter) { for (size_t x = 0; x < w; x++) o[x] = wrnd(); continue; }
    if (c.leaf[i]) { int v = leafvar[i]; for (size_t x = 0; x < w; x++) o[x] = v < 6 ? m[v] : ((x >> (v - 6)) & 1 ? ~0ULL : 0); continue; }
    uint32_t n = c.node[i];
    if (NK[n] == K_AND || NK[n] == K_XOR) {
      const uint64_t *a = evbuf[c.find(lnode(NA[n]))], *b = evbuf[c.find(lnode(NB[n]))];
      uint64_t ma = NA[n] & 1 ? ~0ULL : 0, mb = NB[n] & 1 ? ~0ULL : 0;
      if (NK[n] == K_AND) for (size_t x = 0; x < w; x++) o[x] = (a[x] ^ ma) & (b[x] ^ mb);
      else for (size_t x = 0; x < w; x++) o[x] = a[x] ^ b[x];
    } else {
      Lit f[KMAX]; int kk = xag_fanins(n, f); const uint64_t *fi[KMAX];
      for (int j = 0; j < kk; j++) fi[j] = evbuf[c.find(lnode(f[j]))];
      const uint64_t *tw = tts[NA[n]]->w.data();
      if (kk <= 6) { // word-parallel: select over the table, one input at a time
        for (size_t x = 0; x < w; x++) {
          uint64_t t[64]; int nn = 1 << kk; for (int i2 = 0; i2 < nn; i2++) t[i2] = 0 - (uint64_t)ttbit(tw, i2);
          for (int j = 0; j < kk; j++) { uint64_t s = fi[j][x]; nn >>= 1; for (int i2 = 0; i2 < nn; i2++) t[i2] = t[2 * i2] ^ ((t[2 * i2] ^ t[2 * i2 + 1]) & s); }
          o[x] = t[0];
        }
      } else
      for (size_t x = 0; x < w; x++) {
        uint64_t r = 0; int lim = k >= 6 || filter ? 64 : 1 << k;
        for (int b = 0; b < lim; b++) { uint32_t ix = 0; for (int j = 0; j < kk; j++) ix |= (uint32_t)((fi[j][x] >> b) & 1) << j; r |= (uint64_t)ttbit(tw, ix) << b; }
        o[x] = r;
      }
    }
    if (k < 6) o[0] &= ttmask(k);
  }
}
static unordered_set<string> shapes;
static z3::context *zc; static z3::solver *zs;
static z3::expr lut_expr(int tt, const vector<z3::expr> &in) {
  auto &p = get_isop(tt); z3::expr r = zc->bool_val(false);
  for (auto &cu : p.first) { z3::expr t = zc->bool_val(true);
    for (size_t i = 0; i < in.size(); i++) { if (cu.first >> i & 1) t = t && in[i]; if (cu.second >> i & 1) t = t && !in[i]; } r = r || t; }
  return r;
}
// discharge the lemma "node n == lit m" over the cone leaves with z3, once per shape
static bool lemma(Cone &c, uint32_t n, Lit m, const vector<int> &grp) {
  string key; key.reserve(128); int id[Cone::MX]; int nid = 0;
  for (int i = 0; i < c.cnt; i++) id[i] = -1;
  // DFS serialisation
  struct R { static void go(Cone &c, int i, int *id, int &nid, string &key, vector<int> *post) {
    if (id[i] >= 0) return;
    if (c.leaf[i]) { id[i] = nid++; key.push_back('L');
      auto g = var_group.find(c.node[i]); if (g != var_group.end()) { auto &G = groups[g->second]; key.append(to_string(G.lo)); key.push_back('-'); key.append(to_string(G.hi)); key.push_back('.'); key.append(to_string(find(G.vars.begin(), G.vars.end(), c.node[i]) - G.vars.begin())); }
      if (post) post->push_back(i); return; }
    Lit f[KMAX]; int k = xag_fanins(c.node[i], f); int q[KMAX];
    for (int j = 0; j < k; j++) { q[j] = c.find(lnode(f[j])); go(c, q[j], id, nid, key, post); }
    id[i] = nid++; key.push_back("cvAXU"[NK[c.node[i]]]);
    if (NK[c.node[i]] == K_LUT) { uint32_t t = NA[c.node[i]]; key.append((char *)&t, 4); }
    for (int j = 0; j < k; j++) { key.push_back((char)id[q[j]]); key.push_back((char)('0' + (f[j] & 1))); }
    if (post) post->push_back(i);
  } };
  vector<int> post; int in = c.find(n); R::go(c, in, id, nid, key, &post); key.push_back('=');
  int im = -1; if (lnode(m)) { im = c.find(lnode(m)); R::go(c, im, id, nid, key, &post); key.push_back((char)id[im]); }
  key.push_back((char)('0' + (m & 1)));
  for (int g : grp) { // number of distinct groups matters (two groups of equal range are distinct leaves)
    key.push_back('g'); for (int i = 0; i < c.cnt; i++) if (c.leaf[i]) { auto it = var_group.find(c.node[i]); if (it != var_group.end() && it->second == g && id[i] >= 0) key.push_back((char)id[i]); } }
  xstats.lemma_uses++;
  if (shapes.count(key)) return true;
  double t0 = now_s();
  if (!zc) { zc = new z3::context(); zs = new z3::solver(*zc, "QF_FD"); }
  vector<z3::expr> ex; vector<int> pos(c.cnt, -1);
  zs->push();
  for (int i : post) {
    z3::expr e(*zc);
    if (c.leaf[i]) { e = zc->bool_const(("x" + to_string(i)).c_str()); }
    else {
      Lit f[KMAX]; int k = xag_fanins(c.node[i], f); vector<z3::expr> fe;
      for (int j = 0; j < k; j++) { z3::expr x = ex[pos[c.find(lnode(f[j]))]]; fe.push_back(f[j] & 1 ? !x : x); }
      if (NK[c.node[i]] == K_AND) e = fe[0] && fe[1]; else if (NK[c.node[i]] == K_XOR) e = fe[0] != fe[1]; else e = lut_expr(NA[c.node[i]], fe);
    }
    pos[i] = ex.size(); ex.push_back(e);
  }
  for (int g : grp) {   // domain constraint lo <= value <= hi, as a bit comparison
    auto &G = groups[g]; z3::expr gt = zc->bool_val(false), lt = zc->bool_val(false), eqh = zc->bool_val(true), eql = zc->bool_val(true); bool all = true;
    for (int b = (int)G.vars.size() - 1; b >= 0; b--) {
      int i = c.find(G.vars[b]); z3::expr x(*zc);
      if (i >= 0 && pos[i] >= 0) x = ex[pos[i]]; else { x = zc->bool_const(("y" + to_string(g) + "_" + to_string(b)).c_str()); }
      bool hb = G.hi >> b & 1, lb = G.lo >> b & 1;
      if (!hb) gt = gt || (eqh && x); eqh = eqh && (hb ? x : !x);
      if (lb) lt = lt || (eql && !x); eql = eql && (lb ? x : !x);
    }
    (void)all; zs->add(!gt && !lt);
  }
  z3::expr rn = ex[pos[in]], rm = im >= 0 ? ex[pos[im]] : zc->bool_val(false); if (m & 1) rm = !rm;
  zs->add(rn != rm);
  z3::check_result r = zs->check(); zs->pop();
  xstats.smt_queries++; xstats.lemma_shapes++; xstats.smt_time += now_s() - t0;
  if (r == z3::sat) die("internal: z3 refutes a locally validated lemma");
  if (r != z3::unsat) return false;
  shapes.insert(key); return true;
}
static bool dbg_on = false;
static bool prove_local1(uint32_t n, Lit m, int strategy) {
  Cone c; uint32_t mn = lnode(m);
  c.add(n, 1); if (mn) c.add(mn, 2);
  c.expand(0);
  int extra = 0; static const int MAXEXTRA = 12;
  bool first = true;
  for (;;) {
    // choose a leaf to expand: not shared, latest
    int best = -1;
    for (int i = 0; i < c.cnt; i++) if (c.leaf[i] && NK[c.node[i]] != K_VAR && (mn == 0 || c.side[i] != 3) && !(c.node[i] == mn && c.side[i] == 3))
      if (best < 0 || c.node[i] > c.node[best]) best = i;
    if (strategy == 2) { // what decides which value is used first, then breadth first; compared after every step
      best = -1;
      for (int i = 0; i < c.cnt; i++) if (c.leaf[i] && NK[c.node[i]] != K_VAR && NCTL[c.node[i]]) if (best < 0 || c.node[i] > c.node[best]) best = i;
      bool ctl = best >= 0;
      for (int i = 0; i < c.cnt && best < 0; i++) if (c.leaf[i] && NK[c.node[i]] != K_VAR) best = i;
      if (best >= 0 && (ctl || c.leaves > KEV || c.cnt < 4)) { if (c.leaves > KEV + 6 || c.cnt > 90 || !c.expand(best)) return false; continue; }
    }
    if (mn == 0 && !first && best >= 0 && c.leaves <= KMAX) { /* constant candidates: evaluate at each step */ }
    bool doeval = best < 0 || (mn == 0 && c.leaves <= 8) || strategy == 2;
    if (doeval && c.leaves <= KEV) {
      first = false;
      vector<int> grp; // care sets
      for (int i = 0; i < c.cnt; i++) if (c.leaf[i] && NK[c.node[i]] == K_VAR) { auto g = var_group.find(c.node[i]); if (g != var_group.end() && find(grp.begin(), grp.end(), g->second) == grp.end()) grp.push_back(g->second); }
      int need = 0; for (int g : grp) for (uint32_t v : groups[g].vars) if (c.find(v) < 0) need++;
      bool usegrp = !grp.empty() && c.leaves + need <= KEV && c.cnt + need < Cone::MX;
      if (usegrp) for (int g : grp) for (uint32_t v : groups[g].vars) c.add(v, 3);
      if (!usegrp) grp.clear();
      int order[Cone::MX], lv[Cone::MX]; for (int i = 0; i < c.cnt; i++) order[i] = i;
      sort(order, order + c.cnt, [&](int a, int b) { return c.node[a] < c.node[b]; });
      int k = 0; for (int q = 0; q < c.cnt; q++) if (c.leaf[order[q]]) lv[order[q]] = k++;
      uint64_t *a = evbuf[c.find(n)], *b = mn ? evbuf[c.find(mn)] : nullptr; uint64_t mm = (m & 1) ? ~0ULL : 0; bool eq = true;
      if (k > 10 && !usegrp) { eval_cone(c, k, order, c.cnt, lv, true); for (int x = 0; x < 8 && eq; x++) if (a[x] ^ (b ? b[x] : 0) ^ mm) eq = false; }
      if (eq) eval_cone(c, k, order, c.cnt, lv);
      size_t w = eq ? ttwords(k) : 0; uint64_t msk = ttmask(k);
      for (size_t x = 0; x < w && eq; x++) {
        uint64_t d = (a[x] ^ (b ? b[x] : 0) ^ mm) & msk;
        if (d && usegrp) { // mask by care set
          for (int bit = 0; bit < 64; bit++) if (d >> bit & 1) { uint32_t mt = x * 64 + bit; bool ok = true;
            for (int g : grp) { uint32_t val = 0; for (size_t j = 0; j < groups[g].vars.size(); j++) val |= ((mt >> lv[c.find(groups[g].vars[j])]) & 1) << j; if (val < groups[g].lo || val > groups[g].hi) ok = false; }
            if (!ok) d &= ~(1ULL << bit); }
        }
        if (d) eq = false;
      }
      if (eq) return lemma(c, n, m, grp);
      if (best < 0) { // all shared: expand the latest shared leaf
        if (dbg_on) { fprintf(stderr, "  noteq leaves:"); for (int i = 0; i < c.cnt; i++) if (c.leaf[i]) fprintf(stderr, " %u%s", c.node[i], NK[c.node[i]] == K_VAR ? "v" : ""); fprintf(stderr, "\n"); }
        if (++extra > MAXEXTRA) return false;
        if (strategy == 1) { for (int i = 0; i < c.cnt; i++) if (c.leaf[i] && NK[c.node[i]] != K_VAR) if (best < 0 || c.node[i] > c.node[best]) best = i; }
        else { // reconvergence-driven: the leaf whose fanins are already present or shared with another leaf
          int bs = 1 << 30;
          for (int i = 0; i < c.cnt; i++) if (c.leaf[i] && NK[c.node[i]] != K_VAR) {
            Lit f[KMAX]; int k = xag_fanins(c.node[i], f), sc_ = -10;
            for (int j = 0; j < k; j++) { uint32_t fn = lnode(f[j]); if (c.find(fn) >= 0) continue; sc_ += 10; bool sh = false;
              for (int q = 0; q < c.cnt && !sh; q++) if (q != i && c.leaf[q] && NK[c.node[q]] != K_VAR) { Lit g[KMAX]; int kk = xag_fanins(c.node[q], g); for (int z = 0; z < kk; z++) if (lnode(g[z]) == fn) { sh = true; break; } }
              if (sh) sc_ -= 6; }
            if (sc_ < bs || (sc_ == bs && c.node[i] > c.node[best])) { bs = sc_; best = i; } } }
        if (best < 0) return false;
      }
    } else if (best < 0) { if (dbg_on) fprintf(stderr, "  no eval: %d leaves\n", c.leaves); return false; }
    if (!c.expand(best)) { if (dbg_on) fprintf(stderr, "  expand failed\n"); return false; }
    if (dbg_on && (c.leaves > KMAX + 20 || c.cnt > Cone::MX - 16)) fprintf(stderr, "  too big %d %d\n", c.leaves, c.cnt);
    if (c.leaves > KMAX + 20 || c.cnt > Cone::MX - 16) return false;
  }
}
static void dbg_cone(uint32_t n, int depth) {
  if (depth == 0 || xag_kind(n) == K_VAR || xag_kind(n) == K_CONST) { fprintf(stderr, "%s%u", xag_kind(n) == K_VAR ? "v" : "n", n); return; }
  Lit f[KMAX]; int k = xag_fanins(n, f); fprintf(stderr, "%u:%s(", n, NK[n] == K_AND ? "&" : NK[n] == K_XOR ? "^" : "L");
  for (int i = 0; i < k; i++) { if (i) fputs(" ", stderr); if (f[i] & 1) fputs("!", stderr); dbg_cone(lnode(f[i]), depth - 1); } fputs(")", stderr);
}
static int dbg_left = getenv("SYX_DEBUG") ? atoi(getenv("SYX_DEBUG")) : 0;
static bool prove_local(uint32_t n, Lit m);
static void dbg_miss(uint32_t n, uint32_t m) { if (dbg_left <= 0) return; dbg_left--; fprintf(stderr, "MISS %u vs %u\n  ", n, m); dbg_cone(n, 4); fprintf(stderr, "\n  "); dbg_cone(m, 4); fprintf(stderr, "\n"); dbg_on = true; prove_local(n, ln(m, sig_inv(NS[n]) != sig_inv(NS[m]))); dbg_on = false; }
static bool prove_local(uint32_t n, Lit m) { return prove_local1(n, m, 0) || prove_local1(n, m, 1) || (!groups.empty() && prove_local1(n, m, 2)); }
static const int MAXCAND = 4;
// called with the new node n fully built (signature set). Returns literal to use.
static bool sweep(uint32_t n, Lit &res) {
  Sig &s = NS[n]; bool z = true, o = true;
  for (int i = 0; i < W; i++) { if (s.w[i]) z = false; if (~s.w[i]) o = false; }
  if (z || o) { Lit cst = z ? LF : LT; if (prove_local(n, cst)) { res = cst; return true; } return false; }
  size_t i = sig_hash(s) & (sccap - 1); int tried = 0;
  while (sc[i]) {
    uint32_t m = sc[i];
    bool inv = sig_inv(s) != sig_inv(NS[m]);
    if (sig_eq(s, NS[m], inv)) { if (prove_local(n, ln(m, inv))) { res = ln(m, inv); return true; } if (dbg_left) dbg_miss(n, m); if (++tried >= MAXCAND) break; }
    i = (i + 1) & (sccap - 1);
  }
  if (tried < MAXCAND) sc_put(n);
  return false;
}
Lit mk_and(Lit a, Lit b) {
  if (a > b) swap(a, b);
  if (a == LF) return LF; if (a == LT) return b; if (a == b) return a; if (a == lneg(b)) return LF;
  xstats.gates++;
  SE *e = st_find(a, b); if (e->a | e->b) { xstats.strash_hits++; return e->r; }
  // absorption
  if (NK[lnode(b)] == K_AND) { Lit x = NA[lnode(b)], y = NB[lnode(b)];
    if (!(b & 1)) { if (x == a || y == a) return b; if (x == lneg(a) || y == lneg(a)) return LF; }
    else { if (x == lneg(a) || y == lneg(a)) return a; if (x == a) return mk_and(a, lneg(y)); if (y == a) return mk_and(a, lneg(x)); } }
  if (NK[lnode(a)] == K_AND) { Lit x = NA[lnode(a)], y = NB[lnode(a)];
    if (!(a & 1)) { if (x == b || y == b) return a; if (x == lneg(b) || y == lneg(b)) return LF; }
    else { if (x == lneg(b) || y == lneg(b)) return b; if (x == b) return mk_and(b, lneg(y)); if (y == b) return mk_and(b, lneg(x)); } }
  uint32_t n = new_node(K_AND, a, b);
  uint64_t ma = a & 1 ? ~0ULL : 0, mb = b & 1 ? ~0ULL : 0;
  for (int i = 0; i < W; i++) NS[n].w[i] = (NS[lnode(a)].w[i] ^ ma) & (NS[lnode(b)].w[i] ^ mb);
  Lit r;
  if (xag_sweep && sweep(n, r)) { NN--; xstats.merges++; st_put(a, b, r); return r; }
  st_put(a, b, ln(n)); return ln(n);
}
Lit mk_xor(Lit a, Lit b) {
  bool inv = (a ^ b) & 1; a &= ~1u; b &= ~1u;
  if (a < b) swap(a, b);            // a > b
  if (a == b) return inv; if (b == LF) return a ^ inv;
  xstats.gates++;
  SE *e = st_find(a, b); if (e->a | e->b) { xstats.strash_hits++; return e->r ^ inv; }
  if (NK[lnode(a)] == K_XOR) { Lit x = NA[lnode(a)], y = NB[lnode(a)]; if (x == b) return y ^ inv; if (y == b) return x ^ inv;
    if (NK[lnode(b)] == K_XOR) { Lit u = NA[lnode(b)], v = NB[lnode(b)]; if (x == u) return mk_xor(y, v) ^ inv; if (x == v) return mk_xor(y, u) ^ inv; if (y == u) return mk_xor(x, v) ^ inv; if (y == v) return mk_xor(x, u) ^ inv; } }
  if (NK[lnode(b)] == K_XOR) { Lit x = NA[lnode(b)], y = NB[lnode(b)]; if (x == a) return y ^ inv; if (y == a) return x ^ inv; }
  uint32_t n = new_node(K_XOR, a, b);
  for (int i = 0; i < W; i++) NS[n].w[i] = NS[lnode(a)].w[i] ^ NS[lnode(b)].w[i];
  Lit r;
  if (xag_sweep && sweep(n, r)) { NN--; xstats.merges++; st_put(a, b, r); return r ^ inv; }
  st_put(a, b, ln(n)); return ln(n) ^ inv;
}
Lit mk_mux(Lit c, Lit t, Lit f) {
  if (t == f) return t; if (c == LT) return t; if (c == LF) return f;
  if (t == LT) return mk_or(c, f); if (t == LF) return mk_and(lneg(c), f);
  if (f == LF) return mk_and(c, t); if (f == LT) return mk_or(lneg(c), t);
  if (t == lneg(f)) return mk_xor(c, f);
  if (xag_andor_mux) return mk_or(mk_and(c, t), mk_and(lneg(c), f));
  return mk_xor(f, mk_and(c, mk_xor(t, f)));
}
static Tr make_tr(int tt, int k, uint64_t code, int nin) {
  // inputs actions -> function over nin positive inputs
  const TT &t = *tts[tt]; vector<uint64_t> w(ttwords(nin), 0);
  for (uint32_t m = 0; m < (1u << nin); m++) {
    uint32_t ix = 0;
    for (int i = 0; i < k; i++) { int a = (code >> (5 * i)) & 31; bool v = a == 0 ? 0 : a == 1 ? 1 : ((m >> ((a - 2) >> 1)) & 1) ^ ((a - 2) & 1); ix |= (uint32_t)v << i; }
    if (ttbit(t.w.data(), ix)) w[m >> 6] |= 1ULL << (m & 63);
  }
  Tr r; r.inv = w[0] & 1; if (r.inv) for (auto &x : w) x = ~x; if (nin < 6) w[0] &= ttmask(nin);
  int id = tt_intern(nin, w.data()); uint32_t sup = tts[id]->support;
  vector<int> keep; for (int i = 0; i < nin; i++) if (sup >> i & 1) keep.push_back(i);
  for (int i : keep) r.idx.push_back(i);
  int kk = keep.size();
  if (kk == 0) { r.kind = 0; return r; }
  vector<uint64_t> v(ttwords(kk), 0);
  for (uint32_t m = 0; m < (1u << kk); m++) { uint32_t ix = 0; for (int i = 0; i < kk; i++) ix |= ((m >> i) & 1) << keep[i]; if (ttbit(w.data(), ix)) v[m >> 6] |= 1ULL << (m & 63); }
  bool aff = true; for (uint32_t m = 0; m < (1u << kk) && aff; m++) if (ttbit(v.data(), m) != (__builtin_popcount(m) & 1)) aff = false;
  r.tt = tt_intern(kk, v.data());
  r.kind = aff ? 1 : kk == 2 ? 2 : 3;
  return r;
}
static Lit lut_node(int tt, int k, const Lit *in) {
  xstats.gates++;
  uint64_t h = lut_hash(tt, k, in); LE *e = lt_find(h, tt, k, in); if (e->h) { xstats.strash_hits++; return e->r; }
  uint32_t off = pool.size(); pool.push_back(k); for (int i = 0; i < k; i++) pool.push_back(in[i]);
  uint32_t n = new_node(K_LUT, tt, off); NCTL[n] = 1; for (int j = 0; j < k; j++) NCTL[n] &= NCTL[lnode(in[j])];
  static uint16_t idx[64 * W]; static Lit last[KMAX]; static int lastk = -1;
  if (lastk != k || memcmp(last, in, k * sizeof(Lit))) {
    memset(idx, 0, sizeof idx);
    for (int i = 0; i < k; i++) for (int w = 0; w < W; w++) { uint64_t x = NS[lnode(in[i])].w[w]; uint16_t *p = idx + 64 * w; for (int b = 0; b < 64; b++) p[b] |= ((x >> b) & 1) << i; }
    lastk = k; memcpy(last, in, k * sizeof(Lit));
  }
  const uint64_t *tw = tts[tt]->w.data();
  for (int w = 0; w < W; w++) { uint64_t r = 0; const uint16_t *p = idx + 64 * w; for (int b = 0; b < 64; b++) r |= ((tw[p[b] >> 6] >> (p[b] & 63)) & 1) << b; NS[n].w[w] = r; }
  Lit r; if (xag_sweep && sweep(n, r)) { NN--; xstats.merges++; lt_put(h, tt, off, r); return r; }
  lt_put(h, tt, off, ln(n)); return ln(n);
}
Lit mk_lut(int tt, int k, const Lit *in0) {
  // sort distinct input nodes
  Lit nodes[KMAX]; int nn = 0;
  for (int i = 0; i < k; i++) if (!lconst(in0[i])) { Lit p = in0[i] & ~1u; int j = 0; while (j < nn && nodes[j] != p) j++; if (j == nn) nodes[nn++] = p; }
  sort(nodes, nodes + nn);
  uint64_t code = 0;
  for (int i = 0; i < k; i++) { uint64_t a; if (lconst(in0[i])) a = in0[i]; else { Lit p = in0[i] & ~1u; int j = 0; while (nodes[j] != p) j++; a = 2 + 2 * j + (in0[i] & 1); } code |= a << (5 * i); }
  uint64_t key = h2(code, (uint64_t)tt << 8 | k);
  auto &v = trcache[key]; Tr *tr = nullptr;
  for (auto &x : v) if (x.first == tt) { tr = &x.second; break; }
  if (!tr) { v.emplace_back(tt, make_tr(tt, k, code, nn)); tr = &v.back().second; }
  Lit r;
  if (tr->kind == 0) r = LF;
  else if (tr->kind == 1) { r = LF; for (int i : tr->idx) r = mk_xor(r, nodes[i]); }
  else if (tr->kind == 2) { // two-input AND-like with f(0,0)=0: tables 0010(2),0100(4),1000(8),1110(14)
    Lit a = nodes[tr->idx[0]], b = nodes[tr->idx[1]]; uint64_t w = tts[tr->tt]->w[0] & 15;
    if (w == 8) r = mk_and(a, b); else if (w == 2) r = mk_and(a, lneg(b)); else if (w == 4) r = mk_and(lneg(a), b); else r = mk_or(a, b);
  } else { Lit in[KMAX]; int kk = tr->idx.size(); for (int i = 0; i < kk; i++) in[i] = nodes[tr->idx[i]]; r = lut_node(tr->tt, kk, in); }
  return r ^ (tr->inv ? 1 : 0);
}
// ---- cuts for symbolic addresses
bool local_cut(const vector<Lit> &lits, vector<uint32_t> &leaves, int maxleaves, int extra) {
  // start with the literals' nodes as leaves; "extra" expansions of the latest expandable leaf
  vector<uint32_t> L; for (Lit l : lits) if (!lconst(l)) L.push_back(lnode(l));
  sort(L.begin(), L.end()); L.erase(unique(L.begin(), L.end()), L.end());
  for (int s = 0; s < extra; s++) {
    int i = (int)L.size() - 1; while (i >= 0 && (NK[L[i]] == K_VAR || NK[L[i]] == K_LUT)) i--;
    if (i < 0) return false;
    Lit f[KMAX]; int k = xag_fanins(L[i], f); L.erase(L.begin() + i);
    for (int j = 0; j < k; j++) L.push_back(lnode(f[j]));
    sort(L.begin(), L.end()); L.erase(unique(L.begin(), L.end()), L.end());
    if (L.size() > 40) return false;
  }
  leaves = L; return (int)L.size() <= maxleaves;
}
void local_eval(const vector<Lit> &lits, const vector<uint32_t> &leaves, vector<vector<uint64_t>> &out) {
  int k = leaves.size(); size_t w = ttwords(k); unordered_map<uint32_t, vector<uint64_t>> mm;
  for (int i = 0; i < k; i++) { TV t = tv_var(max(k, 6), i); t.resize(w); mm[leaves[i]] = t; }
  mm[0] = vector<uint64_t>(w, 0);
  struct R { static void go(uint32_t n, size_t w, int k, unordered_map<uint32_t, vector<uint64_t>> &mm) {
    if (mm.count(n)) return; Lit f[KMAX]; int kk = xag_fanins(n, f); if (!kk) die("local_eval: leaf not covered");
    for (int j = 0; j < kk; j++) go(lnode(f[j]), w, k, mm);
    vector<uint64_t> r(w, 0);
    if (NK[n] == K_LUT) { for (uint32_t m = 0; m < (1u << k); m++) { uint32_t ix = 0; for (int j = 0; j < kk; j++) ix |= (uint32_t)ttbit(mm[lnode(f[j])].data(), m) << j; if (ttbit(tts[NA[n]]->w.data(), ix)) r[m >> 6] |= 1ULL << (m & 63); } }
    else { auto &a = mm[lnode(f[0])], &b = mm[lnode(f[1])]; uint64_t ma = f[0] & 1 ? ~0ULL : 0, mb = f[1] & 1 ? ~0ULL : 0; for (size_t x = 0; x < w; x++) r[x] = NK[n] == K_AND ? (a[x] ^ ma) & (b[x] ^ mb) : a[x] ^ b[x] ^ ma ^ mb; }
    mm[n] = r; } };
  out.clear();
  for (Lit l : lits) { R::go(lnode(l), w, k, mm); auto t = mm[lnode(l)]; if (l & 1) for (auto &x : t) x = ~x; out.push_back(t); }
}
// ---- SAT
struct SatCtx { Minisat::Solver s; unordered_map<uint32_t, Minisat::Var> m; unordered_set<int> grp; };
static void sat_group(SatCtx &S, int g) {
  if (!S.grp.insert(g).second) return;
  auto &G = groups[g]; int nb = G.vars.size();
  for (int b = 0; b < nb; b++) if (!S.m.count(G.vars[b])) S.m[G.vars[b]] = S.s.newVar();
  // value <= hi : for each 0 bit of hi: not (all higher 1-bits of hi set and this bit set)
  for (int b = 0; b < nb; b++) if (!(G.hi >> b & 1)) { Minisat::vec<Minisat::Lit> c; c.push(~Minisat::mkLit(S.m[G.vars[b]])); for (int j = b + 1; j < nb; j++) if (G.hi >> j & 1) c.push(~Minisat::mkLit(S.m[G.vars[j]])); S.s.addClause(c); }
  for (int b = 0; b < nb; b++) if (G.lo >> b & 1) { Minisat::vec<Minisat::Lit> c; c.push(Minisat::mkLit(S.m[G.vars[b]])); for (int j = b + 1; j < nb; j++) if (!(G.lo >> j & 1)) c.push(Minisat::mkLit(S.m[G.vars[j]])); S.s.addClause(c); }
}
static void sat_encode(SatCtx &S, uint32_t root) {
  using namespace Minisat; vector<uint32_t> stk{root};
  while (!stk.empty()) {
    uint32_t n = stk.back();
    if (S.m.count(n) && (NK[n] != K_VAR)) { stk.pop_back(); continue; }
    if (NK[n] == K_VAR) { stk.pop_back(); if (!S.m.count(n)) S.m[n] = S.s.newVar(); auto g = var_group.find(n); if (g != var_group.end()) sat_group(S, g->second); continue; }
    if (NK[n] == K_CONST) { stk.pop_back(); Minisat::Var v = S.s.newVar(); S.m[n] = v; S.s.addClause(~mkLit(v)); continue; }
    ::Lit f[KMAX]; int k = xag_fanins(n, f); bool ready = true;
    for (int j = 0; j < k; j++) if (!S.m.count(lnode(f[j]))) { stk.push_back(lnode(f[j])); ready = false; }
    if (!ready) continue;
    stk.pop_back(); Minisat::Var v = S.s.newVar(); S.m[n] = v; Minisat::Lit o = mkLit(v); Minisat::Lit in[KMAX];
    for (int j = 0; j < k; j++) in[j] = mkLit(S.m[lnode(f[j])], f[j] & 1);
    if (NK[n] == K_AND) { S.s.addClause(~o, in[0]); S.s.addClause(~o, in[1]); S.s.addClause(o, ~in[0], ~in[1]); }
    else if (NK[n] == K_XOR) { S.s.addClause(~o, in[0], in[1]); S.s.addClause(~o, ~in[0], ~in[1]); S.s.addClause(o, ~in[0], in[1]); S.s.addClause(o, in[0], ~in[1]); }
    else { auto &p = get_isop(NA[n]);
      for (int q = 0; q < 2; q++) for (auto &cu : q ? p.second : p.first) { Minisat::vec<Minisat::Lit> c; c.push(q ? ~o : o); for (int j = 0; j < k; j++) { if (cu.first >> j & 1) c.push(~in[j]); if (cu.second >> j & 1) c.push(in[j]); } S.s.addClause(c); } }
  }
}
static unique_ptr<SatCtx> gs; 
SatRes sat_query(Lit l, int64_t conflicts, Model *m) {
  if (l == LF) return R_UNSAT;
  if (l == LT) { if (m) m->v.clear(); return R_SAT; }
  double t0 = now_s(); xstats.sat_queries++;
  if (!gs || gs->s.nVars() > 3000000) gs = make_unique<SatCtx>();
  sat_encode(*gs, lnode(l));
  Minisat::vec<Minisat::Lit> as; as.push(Minisat::mkLit(gs->m[lnode(l)], l & 1));
  if (conflicts >= 0) gs->s.setConfBudget(conflicts); else gs->s.budgetOff();
  Minisat::lbool r = gs->s.solveLimited(as);
  xstats.sat_time += now_s() - t0;
  if (r == Minisat::lbool((uint8_t)0)) { // l_True
    xstats.sat_sat++;
    if (m) { m->v.clear(); for (auto &p : gs->m) if (NK[p.first] == K_VAR) m->v[p.first] = gs->s.modelValue(p.second) == Minisat::lbool((uint8_t)0); }
    return R_SAT;
  }
  if (r == Minisat::lbool((uint8_t)1)) { xstats.sat_unsat++; return R_UNSAT; }
  xstats.sat_unknown++; return R_UNKNOWN;
}
bool model_value(const Model &m, uint32_t var) {
  auto i = m.v.find(var); if (i != m.v.end()) return i->second;
  auto g = var_group.find(var);
  if (g != var_group.end()) { // domain-consistent completion: pattern 0, unless part of the group is assigned
    return NS[var].w[0] & 1; }
  return NS[var].w[0] & 1;
}
void model_from_pattern(int p, Model &m) { m.v.clear(); for (uint32_t n = 1; n < NN; n++) if (NK[n] == K_VAR) m.v[n] = (NS[n].w[p >> 6] >> (p & 63)) & 1; }
static void cone_of(const vector<Lit> &ls, vector<uint32_t> &out) {
  unordered_set<uint32_t> seen; vector<uint32_t> stk; for (Lit l : ls) stk.push_back(lnode(l));
  while (!stk.empty()) { uint32_t n = stk.back(); stk.pop_back(); if (!seen.insert(n).second) continue; Lit f[KMAX]; int k = xag_fanins(n, f); for (int j = 0; j < k; j++) if (!seen.count(lnode(f[j]))) stk.push_back(lnode(f[j])); }
  out.assign(seen.begin(), seen.end()); sort(out.begin(), out.end());
}
static void sim_cone(const vector<uint32_t> &cone, unordered_map<uint32_t, uint64_t> &v) {
  v[0] = 0;
  for (uint32_t n : cone) {
    if (NK[n] == K_VAR || NK[n] == K_CONST) continue;
    Lit f[KMAX]; int k = xag_fanins(n, f); uint64_t in[KMAX]; for (int j = 0; j < k; j++) in[j] = v[lnode(f[j])] ^ (f[j] & 1 ? ~0ULL : 0);
    if (NK[n] == K_AND) v[n] = in[0] & in[1]; else if (NK[n] == K_XOR) v[n] = in[0] ^ in[1];
    else { uint64_t r = 0; const uint64_t *tw = tts[NA[n]]->w.data(); for (int b = 0; b < 64; b++) { uint32_t ix = 0; for (int j = 0; j < k; j++) ix |= (uint32_t)((in[j] >> b) & 1) << j; r |= (uint64_t)ttbit(tw, ix) << b; } v[n] = r; }
  }
}
bool eval_under_model(Lit l, const Model &m) {
  vector<uint32_t> cone; cone_of({l}, cone); unordered_map<uint32_t, uint64_t> v;
  for (uint32_t n : cone) if (NK[n] == K_VAR) v[n] = model_value(m, n) ? ~0ULL : 0;
  sim_cone(cone, v); return (v[lnode(l)] & 1) ^ (l & 1);
}
static void rnd_fill(const vector<uint32_t> &cone, const Model &m, unordered_map<uint32_t, uint64_t> &v) {
  unordered_set<int> gd;
  for (uint32_t n : cone) if (NK[n] == K_VAR) {
    auto i = m.v.find(n); if (i != m.v.end()) { v[n] = i->second ? ~0ULL : 0; continue; }
    auto g = var_group.find(n); if (g == var_group.end()) { v[n] = rnd(); continue; }
    if (!gd.insert(g->second).second) continue;
    auto &G = groups[g->second]; uint64_t ws[32] = {0};
    for (int b = 0; b < 64; b++) { uint32_t val = G.lo + rnd() % ((uint64_t)G.hi - G.lo + 1); for (size_t j = 0; j < G.vars.size(); j++) ws[j] |= (uint64_t)((val >> j) & 1) << b; }
    for (size_t j = 0; j < G.vars.size(); j++) v[G.vars[j]] = ws[j];
  }
}
static bool try_patterns(Lit l, const vector<uint32_t> &cone, const Model &base, Model *out) {
  unordered_map<uint32_t, uint64_t> v; rnd_fill(cone, base, v); sim_cone(cone, v);
  uint64_t r = v[lnode(l)] ^ (l & 1 ? ~0ULL : 0); if (!r) return false;
  int b = __builtin_ctzll(r); if (out) { *out = base; for (uint32_t n : cone) if (NK[n] == K_VAR) out->v[n] = (v[n] >> b) & 1; }
  return true;
}
SatRes decide(Lit l, Model *m, double budget) {
  if (l == LF) return R_UNSAT;
  int p; if (sig_nonzero(l, &p)) { if (m) model_from_pattern(p, *m); return R_SAT; }
  double t0 = now_s();
  SatRes r = sat_query(l, 3000, m); if (r != R_UNKNOWN) return r;
  vector<uint32_t> cone; cone_of({l}, cone);
  for (int i = 0; i < 8; i++) if (try_patterns(l, cone, Model(), m)) return R_SAT;
  // toggle nodes whose signature is constant
  int cnt = 0;
  for (uint32_t n : cone) {
    if (NK[n] == K_VAR || n == 0) continue; bool z = true, o = true;
    for (int i = 0; i < W; i++) { if (NS[n].w[i]) z = false; if (~NS[n].w[i]) o = false; }
    if (!z && !o) continue;
    if (now_s() - t0 > budget * 0.6 || ++cnt > 3000) break;
    Model q; SatRes s = sat_query(ln(n, o), 300, &q);
    if (s == R_SAT) { // keep only the variables in n's cone fixed
      vector<uint32_t> c2; cone_of({ln(n)}, c2); Model b; for (uint32_t x : c2) if (NK[x] == K_VAR) b.v[x] = model_value(q, x);
      for (uint32_t x : c2) if (NK[x] == K_VAR) { auto g = var_group.find(x); if (g != var_group.end()) for (uint32_t y : groups[g->second].vars) b.v[y] = model_value(q, y); }
      for (int i = 0; i < 4; i++) if (try_patterns(l, cone, b, m)) return R_SAT;
    }
  }
  int64_t c = 20000;
  while (now_s() - t0 < budget) { r = sat_query(l, c, m); if (r != R_UNKNOWN) return r; c *= 2; }
  return R_UNKNOWN;
}
// ---- taint
static unordered_map<uint32_t, Lit> tmemo; static int tmemo_tag = -1;
Lit taint_lit(Lit l, int tag) {
  if (tmemo_tag != tag) { tmemo.clear(); tmemo_tag = tag; tmemo[0] = LF; }
  vector<uint32_t> stk{lnode(l)};
  while (!stk.empty()) {
    uint32_t n = stk.back(); if (tmemo.count(n)) { stk.pop_back(); continue; }
    if (NK[n] == K_VAR) { tmemo[n] = var_tag(n) == tag ? LT : LF; stk.pop_back(); continue; }
    Lit f[KMAX]; int k = xag_fanins(n, f); bool rdy = true; for (int j = 0; j < k; j++) if (!tmemo.count(lnode(f[j]))) { stk.push_back(lnode(f[j])); rdy = false; }
    if (!rdy) continue; stk.pop_back();
    Lit r = LF;
    if (NK[n] == K_AND) { Lit ta = tmemo[lnode(f[0])], tb = tmemo[lnode(f[1])]; // tainted unless an untainted input is 0
      if (ta == LF && tb == LF) r = LF; else { Lit ba = mk_and(lneg(ta), lneg(f[0])), bb = mk_and(lneg(tb), lneg(f[1])); r = mk_and(mk_or(ta, tb), mk_and(lneg(ba), lneg(bb))); } }
    else for (int j = 0; j < k; j++) r = mk_or(r, tmemo[lnode(f[j])]);
    tmemo[n] = r;
  }
  return tmemo[lnode(l)];
}
bool cone_has_tag(Lit l, int tag, uint32_t *which) {
  vector<uint32_t> c; cone_of({l}, c); for (uint32_t n : c) if (NK[n] == K_VAR && var_tag(n) == tag) { if (which) *which = n; return true; } return false;
}
// the same function with the variables tagged `tag` replaced by fresh ones
static unordered_map<uint32_t, Lit> cmemo; static unordered_map<uint32_t, uint32_t> ccopy;
uint32_t taint_copy_of(uint32_t var) { auto i = ccopy.find(var); return i == ccopy.end() ? 0 : i->second; }
Lit copy_tagged(Lit l, int tag) {
  if (cmemo.empty()) cmemo[0] = LF;
  vector<uint32_t> stk{lnode(l)};
  while (!stk.empty()) {
    uint32_t n = stk.back(); if (cmemo.count(n)) { stk.pop_back(); continue; }
    if (NK[n] == K_VAR) { if (var_tag(n) == tag) { Lit v = mk_var(0); cmemo[n] = v; ccopy[n] = lnode(v); } else cmemo[n] = n << 1; stk.pop_back(); continue; }
    Lit f[KMAX]; int k = xag_fanins(n, f); bool rdy = true; for (int j = 0; j < k; j++) if (!cmemo.count(lnode(f[j]))) { stk.push_back(lnode(f[j])); rdy = false; }
    if (!rdy) continue; stk.pop_back();
    bool same = true; Lit g[KMAX]; for (int j = 0; j < k; j++) { g[j] = cmemo[lnode(f[j])] ^ (f[j] & 1); if (g[j] != f[j]) same = false; }
    cmemo[n] = same ? n << 1 : NK[n] == K_AND ? mk_and(g[0], g[1]) : NK[n] == K_XOR ? mk_xor(g[0], g[1]) : mk_lut(NA[n], k, g);
  }
  return cmemo[lnode(l)] ^ (l & 1);
}

// ---- case split over ranges
vector<int> range_groups(Lit l) {
  vector<uint32_t> c; cone_of({l}, c); vector<int> r;
  for (uint32_t n : c) if (NK[n] == K_VAR) { auto g = var_group.find(n); if (g != var_group.end() && std::find(r.begin(), r.end(), (int)g->second) == r.end()) r.push_back(g->second); }
  std::sort(r.begin(), r.end()); return r;
}
bool only_ranges(const vector<Lit> &ls) { for (Lit l : ls) if (!NCTL[lnode(l)]) return false; return !ls.empty(); }
const vector<uint32_t> &range_vars(int g) { return groups[g].vars; }
void range_bounds(int g, uint32_t &lo, uint32_t &hi) { lo = groups[g].lo; hi = groups[g].hi; }
Lit cofactor(Lit l, const vector<int> &gs, const vector<uint32_t> &vals, unordered_map<uint32_t, Lit> &memo) {
  if (memo.empty()) { memo[0] = LF; for (size_t i = 0; i < gs.size(); i++) for (size_t b = 0; b < groups[gs[i]].vars.size(); b++) memo[groups[gs[i]].vars[b]] = (vals[i] >> b) & 1; }
  vector<uint32_t> stk{lnode(l)};
  while (!stk.empty()) {
    uint32_t n = stk.back(); if (memo.count(n)) { stk.pop_back(); continue; }
    if (NK[n] == K_VAR) { memo[n] = n << 1; stk.pop_back(); continue; }
    Lit f[KMAX]; int k = xag_fanins(n, f); bool rdy = true; for (int j = 0; j < k; j++) if (!memo.count(lnode(f[j]))) { stk.push_back(lnode(f[j])); rdy = false; }
    if (!rdy) continue; stk.pop_back();
    bool same = true; Lit g[KMAX]; for (int j = 0; j < k; j++) { g[j] = memo[lnode(f[j])] ^ (f[j] & 1); if (g[j] != f[j]) same = false; }
    memo[n] = same ? n << 1 : NK[n] == K_AND ? mk_and(g[0], g[1]) : NK[n] == K_XOR ? mk_xor(g[0], g[1]) : mk_lut(NA[n], k, g);
  }
  return memo[lnode(l)] ^ (l & 1);
}
void range_model(const vector<int> &gs, const vector<uint32_t> &vals, Model &m) { for (size_t i = 0; i < gs.size(); i++) for (size_t b = 0; b < groups[gs[i]].vars.size(); b++) m.v[groups[gs[i]].vars[b]] = (vals[i] >> b) & 1; }
