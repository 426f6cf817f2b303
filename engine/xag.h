// Boolean graph (XOR/AND/LUT), simulation signatures, solver-backed sweeping.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <array>
#include <unordered_map>

typedef uint32_t Lit;               // node << 1 | complement
static const Lit LF = 0, LT = 1, LUNINIT = 0xffffffffu;
static inline Lit lneg(Lit a) { return a ^ 1; }
static inline uint32_t lnode(Lit a) { return a >> 1; }
static inline bool lconst(Lit a) { return a < 2; }

enum Kind : uint8_t { K_CONST, K_VAR, K_AND, K_XOR, K_LUT };
static const int W = 4;             // 64*W simulation patterns
static const int KMAX = 12;         // max LUT inputs / local proof leaves

struct XagStats {
  uint64_t gates = 0, strash_hits = 0, merges = 0, lemma_uses = 0, lemma_shapes = 0;
  uint64_t smt_queries = 0, sat_queries = 0, sat_unsat = 0, sat_sat = 0, sat_unknown = 0;
  double smt_time = 0, sat_time = 0;
};
extern XagStats xstats;
extern bool xag_andor_mux;          // AND/OR muxes (taint mode) instead of XOR muxes
extern bool xag_sweep;              // merge proven-equal nodes

void xag_init(uint64_t seed);
uint32_t xag_nodes();
Lit mk_var(int tag = 0);            // fresh variable
// fresh group of nbits variables with value in [lo,hi]
std::vector<Lit> mk_range(uint32_t lo, uint32_t hi);
Lit mk_and(Lit a, Lit b);
static inline Lit mk_or(Lit a, Lit b) { return lneg(mk_and(lneg(a), lneg(b))); }
Lit mk_xor(Lit a, Lit b);
Lit mk_mux(Lit c, Lit t, Lit f);
int tt_intern(int k, const uint64_t *w);        // returns truth-table id
Lit mk_lut(int tt, int k, const Lit *in);

Kind xag_kind(uint32_t n);
int xag_fanins(uint32_t n, Lit *out);           // returns count
const uint64_t *xag_sig(uint32_t n);
bool sig_nonzero(Lit l, int *pat = nullptr);    // some pattern makes l true
bool lit_under_pattern(Lit l, int p);
int var_tag(uint32_t n);
// local function extraction: find <=KMAX leaves covering all lits; returns false if impossible
bool local_cut(const std::vector<Lit> &lits, std::vector<uint32_t> &leaves, int maxleaves, int extra);
void local_eval(const std::vector<Lit> &lits, const std::vector<uint32_t> &leaves,
                std::vector<std::vector<uint64_t>> &tts);

enum SatRes { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
// decide satisfiability of l (variable domains included). Model: values for all variables.
struct Model { std::unordered_map<uint32_t, bool> v; };
SatRes sat_query(Lit l, int64_t conflicts, Model *m);
bool model_value(const Model &m, uint32_t var);
bool eval_under_model(Lit l, const Model &m);
void model_from_pattern(int p, Model &m);
// harder search: toggle rarely-active nodes, then full SAT
SatRes decide(Lit l, Model *m, double budget_s);
// taint: is l's value possibly dependent on variables with tag==t? returns literal that is true when dependent
Lit taint_lit(Lit l, int tag);
Lit copy_tagged(Lit l, int tag);
uint32_t taint_copy_of(uint32_t var);        // the copy's variable, 0 when none
// case split over the ranges (mk_range groups) a literal depends on
std::vector<int> range_groups(Lit l);        // groups in the cone, ascending
bool only_ranges(const std::vector<Lit> &ls); // depend on ranges alone
const std::vector<uint32_t> &range_vars(int g);
void range_bounds(int g, uint32_t &lo, uint32_t &hi);
Lit cofactor(Lit l, const std::vector<int> &gs, const std::vector<uint32_t> &vals, std::unordered_map<uint32_t, Lit> &memo);
void range_model(const std::vector<int> &gs, const std::vector<uint32_t> &vals, Model &m);
bool cone_has_tag(Lit l, int tag, uint32_t *which);
double now_s();
