// Symbolic executor for LLVM IR over the boolean graph in xag.
#include "xag.h"
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <cstring>
#include <cstdio>
#include <csignal>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
using std::string; using std::vector; using std::array; using std::map; using std::set;

struct Unsupported { string msg; };
[[noreturn]] static void unsup(const string &m) { throw Unsupported{m}; }

// ------------------------------------------------------------------ values
struct Val {
  uint32_t n = 0; bool cc = true; uint64_t c = 0; vector<Lit> b;
};
static inline uint64_t msk(uint32_t n) { return n >= 64 ? ~0ULL : ((1ULL << n) - 1); }
static inline Val vc(uint32_t n, uint64_t c) { Val v; v.n = n; if (n <= 64) { v.c = c & msk(n); } else { v.cc = false; v.b.assign(n, LF); for (int i = 0; i < 64; i++) v.b[i] = (c >> i) & 1; } return v; }
static inline Lit vbit(const Val &v, uint32_t i) { return v.cc ? (Lit)((v.c >> i) & 1) : v.b[i]; }
static Val vb(vector<Lit> &&b) {
  Val v; v.n = b.size();
  if (v.n <= 64) { uint64_t c = 0; bool all = true; for (uint32_t i = 0; i < v.n; i++) { if (b[i] > 1) { all = false; break; } c |= (uint64_t)b[i] << i; } if (all) { v.c = c; return v; } }
  v.cc = false; v.b = std::move(b); return v;
}
static vector<Lit> vbits(const Val &v) { if (!v.cc) return v.b; vector<Lit> r(v.n); for (uint32_t i = 0; i < v.n; i++) r[i] = (v.c >> i) & 1; return r; }
static Val vmux(Lit c, const Val &a, const Val &b) {
  if (c == LT) return a; if (c == LF) return b;
  if (!a.n) return b; if (!b.n) return a;
  if (a.cc && b.cc && a.c == b.c) return a;
  vector<Lit> r(a.n); for (uint32_t i = 0; i < a.n; i++) r[i] = mk_mux(c, vbit(a, i), vbit(b, i)); return vb(std::move(r));
}
static Lit full_add(Lit a, Lit b, Lit c, Lit &co) {
  Lit x = mk_xor(a, b); co = mk_or(mk_and(a, b), mk_and(x, c)); return mk_xor(x, c);
}
static void badd(const Lit *a, const Lit *b, Lit cin, Lit *o, int n, Lit *cout = nullptr, Lit *cprev = nullptr) {
  Lit c = cin; for (int i = 0; i < n; i++) { if (i == n - 1 && cprev) *cprev = c; o[i] = full_add(a[i], b[i], c, c); } if (cout) *cout = c;
}
static Lit b_ult(const Lit *a, const Lit *b, int n) { // a<b : no carry of a + ~b + 1
  Lit c = LT; for (int i = 0; i < n; i++) { Lit nb = lneg(b[i]); c = mk_or(mk_and(a[i], nb), mk_and(mk_xor(a[i], nb), c)); } return lneg(c);
}
static Lit b_eq(const Lit *a, const Lit *b, int n) { Lit r = LT; for (int i = 0; i < n; i++) { Lit x = mk_xor(a[i], b[i]); if (x == LT) return LF; r = mk_and(r, lneg(x)); } return r; }
static Lit b_any(const Lit *a, int n) { Lit r = LF; for (int i = 0; i < n; i++) r = mk_or(r, a[i]); return r; }
static void bmul(const Lit *a, const Lit *b, Lit *o, int n) {
  vector<Lit> acc(n, LF), t(n); const Lit *x = a, *y = b; // shift by constant multiplier bits when possible
  int ca = 0, cb = 0; for (int i = 0; i < n; i++) { ca += lconst(a[i]); cb += lconst(b[i]); } if (ca > cb) { x = b; y = a; }
  for (int i = 0; i < n; i++) if (y[i] != LF) { for (int j = 0; j < n; j++) t[j] = j < i ? LF : mk_and(x[j - i], y[i]); vector<Lit> s(n); badd(acc.data(), t.data(), LF, s.data(), n); acc = s; }
  for (int i = 0; i < n; i++) o[i] = acc[i];
}
static void bdiv(const Lit *a, const Lit *b, Lit *q, Lit *r, int n) {
  vector<Lit> rem(n + 1, LF), bb(b, b + n); bb.push_back(LF);
  for (int i = n - 1; i >= 0; i--) {
    for (int j = n; j > 0; j--) rem[j] = rem[j - 1]; rem[0] = a[i];
    Lit lt = b_ult(rem.data(), bb.data(), n + 1); vector<Lit> nb(n + 1), d(n + 1); for (int j = 0; j <= n; j++) nb[j] = lneg(bb[j]);
    badd(rem.data(), nb.data(), LT, d.data(), n + 1); for (int j = 0; j <= n; j++) rem[j] = mk_mux(lt, rem[j], d[j]); q[i] = lneg(lt);
  }
  for (int i = 0; i < n; i++) r[i] = rem[i];
}

// ------------------------------------------------------------------ memory
enum OKind { O_GRO, O_GRW, O_HEAP, O_STACK, O_USER, O_FUNC, O_TLS };
static const char *oknames[] = {"const-global", "global", "heap", "stack", "user", "function", "thread-local"};
struct Obj {
  uint64_t base = 0; uint32_t cap = 0; uint32_t align = 1; OKind kind; Lit alive = LT; Lit apc = LT; bool ro = false; string name;
  vector<Lit> bits; vector<Lit> inb; // inb[k]: byte k is inside (empty: all)
  string allocfn; bool escaped = false;
  Type *dty = nullptr; // declared type (locals and globals)
  vector<uint16_t> ty; // aliasing check: type each byte was last written through (0: any)
};
static vector<Obj> objs;
static vector<int> pagemap; static const int PSH = 12; static const uint64_t ATOP = 1ull << 31;
static uint64_t next_addr = 0x10000;
static int uninit_mode = 0; // 0 zero/adaptive, 1 tagged fresh variables, 2 fresh untagged
static Lit pc = LT;
static bool no_asserts = false; // only events are judged
static bool in_lib = false; static Lit mmx_dirty = LF; static string mmx_where; // MMX registers in use (x87 unusable until EMMS)
static uint64_t n_splits = 0, n_instr = 0, n_forks = 0, n_loads = 0, n_symaddr = 0, n_calls = 0;
static set<string> lib_functions;
static const DataLayout *DL; static bool BE; static int PB; // pointer bits
static Module *M; static LLVMContext ctx;

static int new_obj(OKind k, uint32_t cap, uint32_t align, const string &name, int mis = -1) {
  Obj o; o.kind = k; o.cap = cap; o.align = align ? align : 1; o.name = name;
  uint64_t unit = 1 << PSH; uint64_t b = (next_addr + unit - 1) & ~(unit - 1);
  uint64_t al2 = std::max<uint64_t>(2 * o.align, unit); b = (b + al2 - 1) & ~(al2 - 1);
  if (k == O_GRO || k == O_FUNC) { uint64_t p2 = unit; while (p2 < cap && p2 < (1u << 20)) p2 <<= 1; b = (b + p2 - 1) & ~(p2 - 1); }
  else if (mis >= 0) b += mis; else b += o.align; // exactly aligned: base = align mod 2*align
  o.base = b; next_addr = b + cap + 2 * unit; if (next_addr >= ATOP) unsup("address space exhausted");
  o.bits.assign((size_t)cap * 8, LUNINIT); o.apc = pc;
  int id = objs.size();
  for (uint64_t p = (b >> PSH); p <= ((b + cap) >> PSH); p++) pagemap[p] = id;
  objs.push_back(std::move(o)); return id;
}
static int find_obj(uint64_t a) { // object whose page holds a (or just past it)
  if (a >= ATOP) return -1; return pagemap[a >> PSH];
}
struct MLog { int obj; uint32_t off; array<Lit, 8> old; };
static vector<MLog> mlog; static int logdepth = 0;
static inline void mem_set(int o, uint32_t off, const Lit *v) {
  Obj &ob = objs[o]; Lit *d = &ob.bits[(size_t)off * 8];
  if (logdepth) { MLog l; l.obj = o; l.off = off; memcpy(l.old.data(), d, 32); mlog.push_back(l); }
  memcpy(d, v, 32); if (!ob.ty.empty()) ob.ty[off] = 0;
}
static void set_alive(int o, Lit a) { if (logdepth) { MLog l; l.obj = o; l.off = 0xffffffffu; l.old[0] = objs[o].alive; mlog.push_back(l); } objs[o].alive = a; }
static inline Lit rd(Lit *p) { if (*p == LUNINIT) *p = uninit_mode == 0 ? LF : mk_var(uninit_mode == 1 ? 1 : 0); return *p; }

// ------------------------------------------------------------------ events
struct Event { string kind, where, detail; Lit cond = LF; uint64_t count = 0; };
static map<string, Event> events;
static const Instruction *cur_inst = nullptr;
static string where_of(const Instruction *I) {
  if (!I) return "?"; string s = I->getFunction() ? I->getFunction()->getName().str() : "?";
  if (auto &d = I->getDebugLoc()) { s += string(":") + d->getFilename().str() + ":" + std::to_string(d.getLine()); }
  return s;
}
static void event(const char *kind, Lit cond, const string &detail) {
  if (!in_lib) { Lit c = mk_and(pc, cond); if (c != LF && string(kind) != "misaligned") { fprintf(stderr, "harness event %s at %s: %s\n", kind, where_of(cur_inst).c_str(), detail.c_str()); Model m; if (decide(c, &m, 20) != R_UNSAT) unsup(string("event in harness code: ") + kind + " " + where_of(cur_inst) + " " + detail); } return; }
  Lit c = mk_and(pc, cond); if (c == LF) return;
  string w = where_of(cur_inst); Event &e = events[string(kind) + "@" + w]; e.kind = kind; e.where = w; if (e.count++ == 0) e.detail = detail; e.cond = mk_or(e.cond, c);
}
struct Assert { string tag; uint64_t bits = 0, structural = 0; vector<Lit> bad; vector<string> info; bool reached = false; };
static map<string, Assert> asserts;
static map<string, Lit> reaches;
struct Input { string name; vector<Lit> bits; bool isrange; bool heap = false; };
static vector<Input> inputs;
static vector<int64_t> params;
static int64_t alloc_fail = 0; static int64_t alloc_count = 0;
static Function *on_abort = nullptr; static bool in_abort = false;
static std::map<string, uint64_t> counters;

// ------------------------------------------------------------------ function info
// effective types: a byte last written through one scalar type may not be read through another (character types,
// may_alias types and union members have no type here). Writes inside forks, by copies and by the harness count as untyped.
static vector<string> tynames(1); static map<const void *, int> tyids; static bool alias_on = false;
static uint16_t tbaa_id(const Instruction &I) {
  auto *t = I.getMetadata(LLVMContext::MD_tbaa); if (!alias_on || !t || t->getNumOperands() < 3) return 0;
  auto *n = dyn_cast<MDNode>(t->getOperand(1)); if (!n || !n->getNumOperands()) return 0; auto *nm = dyn_cast<MDString>(n->getOperand(0));
  if (!nm || nm->getString() == "omnipotent char") return 0;
  // enumerations and the like are distinct nodes; equal names from different files are the same type
  for (size_t i = 1; i < tynames.size(); i++) if (tynames[i] == nm->getString()) return i;
  tynames.push_back(nm->getString().str()); return tynames.size() - 1;
}
struct Op { unsigned opc; const Instruction *I; int dst; vector<int> ops; uint32_t n, eb, ne; vector<std::pair<int, int64_t>> gep; int64_t gepc; int s0 = -1, s1 = -1; uint32_t align = 1; int cal = 0; Function *cf = nullptr; uint32_t seb = 0; uint16_t tid = 0; };
struct BBI { vector<Op> ops; vector<Op> phis; int ipdom = -1; vector<uint64_t> livein; vector<vector<int>> phiin; vector<int> preds; bool libfn; };
struct FInfo { Function *F; vector<BBI> bbs; map<const BasicBlock *, int> bbid; int nregs = 0; vector<int> args; bool forked = false; };
static map<const Function *, FInfo *> finfos;
static vector<Val> consts; static std::unordered_map<const Value *, int> constid;
static map<const GlobalVariable *, int> gobj; static map<const Function *, int> fobj; static map<int, Function *> objfn;

static void tyinfo(Type *T, uint32_t &n, uint32_t &eb, uint32_t &ne) {
  if (auto *V = dyn_cast<FixedVectorType>(T)) { uint32_t a, b, c; tyinfo(V->getElementType(), a, b, c); eb = a; ne = V->getNumElements(); n = eb * ne; return; }
  ne = 1;
  if (T->isPointerTy()) n = PB; else if (T->isIntegerTy()) n = T->getIntegerBitWidth(); else if (T->isX86_MMXTy()) n = 64; else if (T->isVoidTy()) n = 0;
  else if (auto *S = dyn_cast<StructType>(T)) { n = 0; for (auto *e : S->elements()) { uint32_t a, b, c; tyinfo(e, a, b, c); n += a; } }
  else if (auto *A = dyn_cast<ArrayType>(T)) { uint32_t a, b, c; tyinfo(A->getElementType(), a, b, c); n = a * A->getNumElements(); }
  else if (T->isFloatTy()) n = 32; else if (T->isDoubleTy()) n = 64;
  else unsup("type"); 
  eb = n;
}
static Val const_val(const Constant *C);
static uint64_t gep_off(const GEPOperator *G) { APInt off(PB, 0); if (!G->accumulateConstantOffset(*DL, off)) unsup("const gep"); return off.getZExtValue(); }
static int global_obj(const GlobalVariable *G);
static int func_obj(const Function *F) { auto i = fobj.find(F); if (i != fobj.end()) return i->second; Lit s = pc; pc = LT; int o = new_obj(O_FUNC, 16, 16, F->getName().str()); pc = s; fobj[F] = o; objfn[o] = const_cast<Function *>(F); return o; }
static Val const_val(const Constant *C) {
  uint32_t n, eb, ne; tyinfo(C->getType(), n, eb, ne);
  if (auto *I = dyn_cast<ConstantInt>(C)) { if (n <= 64) return vc(n, I->getZExtValue()); vector<Lit> b(n); for (uint32_t i = 0; i < n; i++) b[i] = I->getValue()[i]; return vb(std::move(b)); }
  if (isa<ConstantPointerNull>(C) || isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return vc(n, 0);
  if (auto *G = dyn_cast<GlobalVariable>(C)) return vc(n, objs[global_obj(G)].base);
  if (auto *F = dyn_cast<Function>(C)) return vc(n, objs[func_obj(F)].base);
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { vector<Lit> b; for (unsigned i = 0; i < D->getNumElements(); i++) { Val e = const_val(D->getElementAsConstant(i)); for (uint32_t j = 0; j < e.n; j++) b.push_back(vbit(e, j)); } return vb(std::move(b)); }
  if (isa<ConstantVector>(C) || isa<ConstantArray>(C) || isa<ConstantStruct>(C)) { vector<Lit> b; for (unsigned i = 0; i < C->getNumOperands(); i++) { Val e = const_val(cast<Constant>(C->getOperand(i))); for (uint32_t j = 0; j < e.n; j++) b.push_back(vbit(e, j)); } return vb(std::move(b)); }
  if (auto *E = dyn_cast<ConstantExpr>(C)) {
    if (auto *G = dyn_cast<GEPOperator>(E)) { Val b = const_val(cast<Constant>(G->getPointerOperand())); return vc(n, b.c + gep_off(G)); }
    if (E->isCast()) { Val a = const_val(E->getOperand(0)); if (a.n == n) return a; return vc(n, a.c); }
    Val a = const_val(E->getOperand(0)), b = const_val(E->getOperand(1));
    switch (E->getOpcode()) { case Instruction::Add: return vc(n, a.c + b.c); case Instruction::Sub: return vc(n, a.c - b.c); default: break; }
  }
  if (auto *A = dyn_cast<GlobalAlias>(C)) return const_val(A->getAliasee());
  string s; raw_string_ostream os(s); C->print(os); unsup("constant " + s);
}
static void mem_init(int o, uint64_t off, const Constant *C) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C)) { uint64_t sz = DL->getTypeAllocSize(T); for (uint64_t i = 0; i < sz * 8; i++) objs[o].bits[off * 8 + i] = LF; return; }
  if (isa<UndefValue>(C)) { uint64_t sz = DL->getTypeAllocSize(T); for (uint64_t i = 0; i < sz * 8; i++) objs[o].bits[off * 8 + i] = LF; return; }
  if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) mem_init(o, off + L->getElementOffset(i), C->getAggregateElement(i)); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(A->getElementType()); for (uint64_t i = 0; i < A->getNumElements(); i++) mem_init(o, off + i * es, C->getAggregateElement(i)); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { uint64_t es = DL->getTypeAllocSize(V->getElementType()); for (uint64_t i = 0; i < V->getNumElements(); i++) mem_init(o, off + i * es, C->getAggregateElement(i)); return; }
  Val v = const_val(C); uint32_t nb = (v.n + 7) / 8;
  for (uint32_t k = 0; k < nb; k++) { uint32_t d = BE ? nb - 1 - k : k; for (int j = 0; j < 8; j++) objs[o].bits[(off + d) * 8 + j] = k * 8 + j < v.n ? vbit(v, k * 8 + j) : LF; }
}
static int global_obj(const GlobalVariable *G) {
  auto i = gobj.find(G); if (i != gobj.end()) return i->second;
  uint32_t sz = DL->getTypeAllocSize(G->getValueType()); uint32_t al = G->getAlign() ? G->getAlign()->value() : DL->getABITypeAlign(G->getValueType()).value();
  Lit s = pc; pc = LT; int o = new_obj(G->isConstant() ? O_GRO : G->isThreadLocal() ? O_TLS : O_GRW, sz, al, G->getName().str()); pc = s; gobj[G] = o; objs[o].dty = G->getValueType();
  if (G->hasInitializer()) mem_init(o, 0, G->getInitializer());
  return o;
}

static FInfo *get_finfo(Function *F) {
  auto it = finfos.find(F); if (it != finfos.end()) return it->second;
  auto *fi = new FInfo; fi->F = F; finfos[F] = fi;
  std::unordered_map<const Value *, int> reg;
  for (auto &A : F->args()) { reg[&A] = fi->nregs; fi->args.push_back(fi->nregs++); }
  int id = 0; for (auto &B : *F) { fi->bbid[&B] = id++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = fi->nregs++; }
  fi->bbs.resize(id);
  auto opnd = [&](const Value *V) -> int {
    auto r = reg.find(V); if (r != reg.end()) return r->second;
    auto c = constid.find(V); if (c != constid.end()) return ~c->second;
    auto *C = dyn_cast<Constant>(V); if (!C) unsup("operand"); consts.push_back(const_val(C)); constid[V] = consts.size() - 1; return ~(int)(consts.size() - 1);
  };
  PostDominatorTree PDT(*F);
  for (auto &B : *F) {
    BBI &bi = fi->bbs[fi->bbid[&B]];
    auto *nd = PDT.getNode(&B); if (nd && nd->getIDom() && nd->getIDom()->getBlock()) bi.ipdom = fi->bbid[nd->getIDom()->getBlock()];
    for (auto *P : predecessors(&B)) { int p = fi->bbid[P]; if (std::find(bi.preds.begin(), bi.preds.end(), p) == bi.preds.end()) bi.preds.push_back(p); }
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Op op; op.opc = I.getOpcode(); op.I = &I; op.dst = I.getType()->isVoidTy() ? -1 : reg[&I]; op.gepc = 0;
      if (isa<AllocaInst>(I)) { op.n = PB; op.eb = PB; op.ne = 1; } else tyinfo(I.getType(), op.n, op.eb, op.ne);
      if (auto *P = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { op.ops.push_back(opnd(P->getIncomingValue(i))); op.ops.push_back(fi->bbid[P->getIncomingBlock(i)]); } bi.phis.push_back(op); continue; }
      if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { op.ops.push_back(opnd(br->getCondition())); op.s0 = fi->bbid[br->getSuccessor(0)]; op.s1 = fi->bbid[br->getSuccessor(1)]; } else op.s0 = fi->bbid[br->getSuccessor(0)]; }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        op.ops.push_back(opnd(G->getPointerOperand())); if (I.getType()->isVectorTy()) unsup("vector gep");
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          Value *ix = gi.getOperand();
          if (auto *S = gi.getStructTypeOrNull()) op.gepc += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t sz = gi.getSequentialElementStride(*DL); if (auto *ci = dyn_cast<ConstantInt>(ix)) op.gepc += ci->getSExtValue() * sz; else op.gep.push_back({opnd(ix), sz}); }
        }
      } else if (auto *cb = dyn_cast<CallInst>(&I)) {
        if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); if (!ia->getAsmString().empty()) unsup("inline asm: " + ia->getAsmString()); op.opc = Instruction::Fence; if (op.dst >= 0) unsup("asm result"); bi.ops.push_back(op); continue; }
        op.cf = cb->getCalledFunction(); for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { op.ops.push_back(0); continue; } op.ops.push_back(opnd(a)); }
        if (!op.cf) { op.ops.push_back(opnd(cb->getCalledOperand())); }
      } else if (isa<SwitchInst>(I)) unsup("switch (run lower-switch)");
      else for (auto &u : I.operands()) { if (isa<BasicBlock>(u)) continue; op.ops.push_back(opnd(u)); }
      if (isa<LoadInst>(&I) || isa<StoreInst>(&I)) op.tid = tbaa_id(I);
      if (auto *L = dyn_cast<LoadInst>(&I)) op.align = L->getAlign().value();
      if (auto *S = dyn_cast<StoreInst>(&I)) { op.align = S->getAlign().value(); tyinfo(S->getValueOperand()->getType(), op.n, op.eb, op.ne); }
      if (auto *K = dyn_cast<CastInst>(&I)) { uint32_t a, b; tyinfo(K->getSrcTy(), a, op.seb, b); }
      if (auto *K = dyn_cast<ICmpInst>(&I)) { uint32_t a, b; tyinfo(K->getOperand(0)->getType(), a, op.seb, b); op.cal = K->getPredicate(); }
      bi.ops.push_back(op);
    }
  }
  // liveness
  size_t w = (fi->nregs + 63) / 64; for (auto &b : fi->bbs) b.livein.assign(w, 0);
  bool ch = true;
  while (ch) { ch = false;
    for (int b = id - 1; b >= 0; b--) {
      BBI &bi = fi->bbs[b]; vector<uint64_t> live(w, 0);
      auto succ = [&](int s) { if (s < 0) return; for (size_t i = 0; i < w; i++) live[i] |= fi->bbs[s].livein[i];
        for (auto &p : fi->bbs[s].phis) { live[p.dst >> 6] &= ~(1ULL << (p.dst & 63)); }
        for (auto &p : fi->bbs[s].phis) for (size_t i = 0; i < p.ops.size(); i += 2) if (p.ops[i + 1] == b && p.ops[i] >= 0) live[p.ops[i] >> 6] |= 1ULL << (p.ops[i] & 63); };
      Op &t = bi.ops.back(); succ(t.s0); succ(t.s1);
      for (int q = bi.ops.size() - 1; q >= 0; q--) { Op &o = bi.ops[q]; if (o.dst >= 0) live[o.dst >> 6] &= ~(1ULL << (o.dst & 63)); 
        for (int x : o.ops) if (x >= 0) live[x >> 6] |= 1ULL << (x & 63); for (auto &g : o.gep) if (g.first >= 0) live[g.first >> 6] |= 1ULL << (g.first & 63); }
      for (auto &p : bi.phis) live[p.dst >> 6] |= 1ULL << (p.dst & 63); // phi results are set on entry
      if (live != bi.livein) { bi.livein = live; ch = true; }
    } }
  return fi;
}

// ------------------------------------------------------------------ memory access
struct AddrCase { uint64_t addr; Lit g; };
static Lit inb_lit(Obj &o, uint32_t off) { if (off >= o.cap) return LF; if (o.inb.empty()) return LT; return o.inb[off]; }
// check an access of nb bytes at concrete address under guard g; returns object id or -1
static int check_access(uint64_t a, uint32_t nb, uint32_t align, bool wr, Lit g) {
  int o = a < 4096 ? -1 : find_obj(a);
  if (a < 4096) { event("null-deref", g, string(wr ? "write" : "read") + " through null pointer"); return -1; }
  if (o < 0 || a < objs[o].base || a + nb > objs[o].base + objs[o].cap) {
    string d = string(wr ? "write" : "read") + " of " + std::to_string(nb) + " bytes";
    if (o >= 0) d += " at offset " + std::to_string((int64_t)(a - objs[o].base)) + " of " + oknames[objs[o].kind] + " object " + objs[o].name + " (size " + std::to_string(objs[o].cap) + ")"; else d += " outside any object";
    event(wr ? "oob-write" : "oob-read", g, d); return -1;
  }
  Obj &ob = objs[o];
  if (ob.alive != LT) event("use-after-free", mk_and(g, lneg(ob.alive)), string("access to dead object ") + ob.name);
  if (ob.kind == O_FUNC) { event(wr ? "oob-write" : "oob-read", g, "access to code"); return -1; }
  if (!ob.inb.empty() && in_lib) { Lit ok = inb_lit(ob, a - ob.base + nb - 1); if (ok != LT) event(wr ? "oob-write" : "oob-read", mk_and(g, lneg(ok)), string(wr ? "write" : "read") + " of " + std::to_string(nb) + " bytes at offset " + std::to_string(a - ob.base) + " beyond the length of " + ob.name); }
  if (align > 1) { bool mis = ob.kind == O_GRO ? (align > ob.align && align <= 64 ? true : (a - ob.base) % align != 0) : a % align != 0;
    if (mis) event("misaligned", g, std::to_string(align) + "-byte aligned access at offset " + std::to_string(a - ob.base) + " of " + ob.name); }
  if (wr && in_lib) {
    if (ob.kind == O_GRO) { event("const-write", g, "write to constant " + ob.name); return -1; }
    if (ob.kind == O_GRW) event("global-write", g, "write to static object " + ob.name);
    if (ob.ro) event("readonly-write", g, "write to an input the caller passed as const: " + ob.name);
  }
  if (wr && !in_lib && ob.kind == O_GRO) return -1;
  return o;
}
static bool addr_cases(const Val &p, vector<AddrCase> &out, uint32_t nb, vector<uint32_t> *leavesOut = nullptr, vector<uint64_t> *byleaf = nullptr) {
  n_symaddr++;
  vector<Lit> ls; vector<int> pos; uint64_t base = 0;
  for (uint32_t i = 0; i < p.n; i++) { Lit l = p.b[i]; if (lconst(l)) base |= (uint64_t)l << i; else { ls.push_back(l); pos.push_back(i); } }
  vector<uint32_t> best; int bestbad = -1; vector<uint64_t> bestA;
  for (int ex = 0; ex <= 64; ex++) {
    vector<uint32_t> L; if (!local_cut(ls, L, KMAX, ex)) { if (L.empty()) break; continue; }
    vector<vector<uint64_t>> t; local_eval(ls, L, t);
    vector<uint64_t> A(1u << L.size()); int bad = 0;
    for (uint32_t m = 0; m < A.size(); m++) { uint64_t a = base; for (size_t i = 0; i < ls.size(); i++) if ((t[i][m >> 6] >> (m & 63)) & 1) a |= 1ULL << pos[i]; A[m] = a;
      int o = find_obj(a); if (o < 0 || a < objs[o].base || a + nb > objs[o].base + objs[o].cap) bad++; }
    if (bestbad < 0 || (bad && bad * (1u << best.size()) < (uint64_t)bestbad * A.size()) || (!bad && bestbad)) { best = L; bestbad = bad; bestA = A; }
    if (!bad) break;
  }
  if (bestbad && only_ranges(ls)) { // an address that depends on symbolic lengths and counts alone: their values give the cases
    vector<int> gs; for (Lit l : ls) for (int g : range_groups(l)) if (std::find(gs.begin(), gs.end(), g) == gs.end()) gs.push_back(g);
    vector<uint32_t> L; vector<uint32_t> gpos; for (int g : gs) { gpos.push_back(L.size()); for (uint32_t v : range_vars(g)) L.push_back(v); }
    if (L.size() <= (size_t)KMAX) {
      vector<uint64_t> A(1u << L.size()); uint64_t dflt = 0; bool have = false; vector<char> val(A.size(), 0); vector<uint32_t> vals(gs.size());
      for (uint32_t m = 0; m < A.size(); m++) {
        bool ok = true; for (size_t q = 0; q < gs.size(); q++) { uint32_t lo, hi; range_bounds(gs[q], lo, hi); vals[q] = (m >> gpos[q]) & ((1u << range_vars(gs[q]).size()) - 1); if (vals[q] < lo || vals[q] > hi) ok = false; }
        if (!ok) continue;
        std::unordered_map<uint32_t, Lit> memo; uint64_t a = base; for (size_t i = 0; i < ls.size(); i++) { Lit l = cofactor(ls[i], gs, vals, memo); if (l == LT) a |= 1ULL << pos[i]; else if (l != LF) unsup("symbolic address too complex"); }
        // values on which this access is not executed do not count
        Lit g = cofactor(pc, gs, vals, memo); if (g == LF) continue;
        A[m] = a; val[m] = 1; if (!have) { dflt = a; have = true; } }
      if (have) { for (uint32_t m = 0; m < A.size(); m++) if (!val[m]) A[m] = dflt; best = L; bestA = A; bestbad = 0; }
    }
  }
  if (bestbad < 0) unsup("symbolic address too complex");
  if (leavesOut) { *leavesOut = best; *byleaf = bestA; return true; }
  map<uint64_t, vector<uint64_t>> tt; size_t w = best.size() <= 6 ? 1 : 1u << (best.size() - 6);
  for (uint32_t m = 0; m < bestA.size(); m++) { auto &v = tt[bestA[m]]; v.resize(w); v[m >> 6] |= 1ULL << (m & 63); }
  vector<Lit> in; for (auto l : best) in.push_back(l << 1);
  for (auto &kv : tt) { Lit g = mk_lut(tt_intern(best.size(), kv.second.data()), best.size(), in.data()); if (mk_and(g, pc) == LF) continue; out.push_back({kv.first, g}); }
  return true;
}
static void load_bytes(uint64_t a, uint32_t nb, uint32_t align, Lit g, Lit *out) {
  int o = check_access(a, nb, align, false, g);
  if (o < 0) { // partially or fully out of range: arbitrary contents for the part outside
    for (uint32_t k = 0; k < nb; k++) { int q = find_obj(a + k); bool ok = q >= 0 && a + k >= objs[q].base && a + k < objs[q].base + objs[q].cap;
      for (int j = 0; j < 8; j++) out[k * 8 + j] = ok ? rd(&objs[q].bits[(a + k - objs[q].base) * 8 + j]) : uninit_mode == 0 ? LF : mk_var(uninit_mode == 1 ? 1 : 0); }
    return;
  }
  Lit *s = &objs[o].bits[(a - objs[o].base) * 8]; for (uint32_t i = 0; i < nb * 8; i++) out[i] = rd(s + i);
}
static Val from_bytes(const vector<Lit> &m, uint32_t n, uint32_t eb, uint32_t ne) {
  vector<Lit> r(n); uint32_t ebytes = (eb + 7) / 8;
  for (uint32_t e = 0; e < ne; e++) for (uint32_t i = 0; i < eb; i++) { uint32_t by = i / 8; r[e * eb + i] = m[(e * ebytes + (BE ? ebytes - 1 - by : by)) * 8 + (i & 7)]; }
  return vb(std::move(r));
}
struct TabKey { uint64_t base; uint64_t sm; uint32_t nb; bool operator<(const TabKey &o) const { return std::tie(base, sm, nb) < std::tie(o.base, o.sm, o.nb); } };
static map<TabKey, vector<int>> tabcache;
static Val do_load(const Val &p, uint32_t n, uint32_t eb, uint32_t ne, uint32_t align) {
  n_loads++;
  uint32_t nb = ((eb + 7) / 8) * ne;
  if (p.cc) {
    uint64_t a = p.c;
    if (nb <= 8 && ne == 1) { // concrete fast path
      Lit t[64]; load_bytes(a, nb, align, LT, t); uint64_t c = 0; bool all = true;
      for (uint32_t i = 0; i < nb * 8 && all; i++) { if (t[i] > 1) all = false; uint32_t by = i / 8; c |= (uint64_t)(t[i] & 1) << ((BE ? nb - 1 - by : by) * 8 + (i & 7)); }
      if (all) return vc(n, c);
      vector<Lit> m(t, t + nb * 8); return from_bytes(m, n, eb, ne);
    }
    vector<Lit> m(nb * 8); load_bytes(a, nb, align, LT, m.data()); return from_bytes(m, n, eb, ne);
  }
  // symbolic address: fast path for constant tables indexed by whole address bits
  uint64_t base = 0, sm = 0; vector<Lit> ls; bool dup = false;
  for (uint32_t i = 0; i < p.n; i++) { Lit l = p.b[i]; if (lconst(l)) base |= (uint64_t)l << i; else { sm |= 1ULL << i; for (Lit x : ls) if (lnode(x) == lnode(l)) dup = true; ls.push_back(l); } }
  TabKey key{base, sm, nb};
  if (!dup && ls.size() <= KMAX) {
    auto it = tabcache.find(key);
    if (it == tabcache.end()) {
      int o = find_obj(base); bool ok = o >= 0 && objs[o].kind == O_GRO; uint32_t N = 1u << ls.size(); vector<uint64_t> A(N);
      for (uint32_t m = 0; m < N && ok; m++) { uint64_t a = base; int j = 0; for (uint32_t i = 0; i < p.n; i++) if (sm >> i & 1) a |= (uint64_t)((m >> j++) & 1) << i; A[m] = a; if (find_obj(a) != o || a < objs[o].base || a + nb > objs[o].base + objs[o].cap) ok = false; if (ok && align > 1 && ((a - objs[o].base) % align || align > objs[o].align)) ok = false; }
      if (ok) { vector<vector<uint64_t>> t(nb * 8, vector<uint64_t>(N <= 64 ? 1 : N / 64, 0));
        for (uint32_t m = 0; m < N; m++) { Lit *s = &objs[o].bits[(A[m] - objs[o].base) * 8]; for (uint32_t i = 0; i < nb * 8; i++) { if (s[i] > 1) { ok = false; break; } t[i][m >> 6] |= (uint64_t)s[i] << (m & 63); } }
        if (ok) { vector<int> ids; for (auto &x : t) ids.push_back(tt_intern(ls.size(), x.data())); it = tabcache.emplace(key, ids).first; } }
    }
    if (it != tabcache.end()) { vector<Lit> m(nb * 8); for (uint32_t i = 0; i < nb * 8; i++) m[i] = mk_lut(it->second[i], ls.size(), ls.data()); return from_bytes(m, n, eb, ne); }
  }
  vector<uint32_t> leaves; vector<uint64_t> A; vector<AddrCase> dummy; addr_cases(p, dummy, nb, &leaves, &A);
  // group assignments by address; read each
  map<uint64_t, vector<Lit>> content; vector<Lit> in; for (auto l : leaves) in.push_back(l << 1); bool allc = true;
  map<uint64_t, vector<uint64_t>> tt; size_t w = leaves.size() <= 6 ? 1 : 1u << (leaves.size() - 6);
  for (uint32_t m = 0; m < A.size(); m++) { auto &v = tt[A[m]]; v.resize(w); v[m >> 6] |= 1ULL << (m & 63); }
  for (auto &kv : tt) {
    int o = find_obj(kv.first); bool inside = o >= 0 && kv.first >= objs[o].base && kv.first + nb <= objs[o].base + objs[o].cap && objs[o].alive == LT && objs[o].inb.empty() && (align == 1 || (objs[o].kind == O_GRO ? (kv.first - objs[o].base) % align == 0 && align <= objs[o].align : kv.first % align == 0));
    Lit g = LT; if (!inside) { g = mk_lut(tt_intern(leaves.size(), kv.second.data()), leaves.size(), in.data()); Lit c = mk_and(pc, g); if (c != LF && !sig_nonzero(c) && sat_query(c, 2000, nullptr) == R_UNSAT) c = LF; if (c == LF) { continue; } }
    vector<Lit> m(nb * 8); load_bytes(kv.first, nb, align, g, m.data()); for (Lit l : m) if (l > 1) allc = false; content[kv.first] = m;
  }
  if (content.empty()) unsup("no feasible address");
  for (auto a : A) if (!content.count(a)) content[a] = content.begin()->second; // infeasible: anything
  vector<Lit> r(nb * 8);
  for (uint32_t i = 0; i < nb * 8; i++) {
    if (allc) { vector<uint64_t> t(w, 0); for (uint32_t m = 0; m < A.size(); m++) t[m >> 6] |= (uint64_t)content[A[m]][i] << (m & 63); r[i] = mk_lut(tt_intern(leaves.size(), t.data()), leaves.size(), in.data()); }
    else { vector<Lit> cur(A.size()); for (uint32_t m = 0; m < A.size(); m++) cur[m] = content[A[m]][i]; for (size_t v = 0; v < leaves.size(); v++) { vector<Lit> nx(cur.size() / 2); for (size_t m = 0; m < nx.size(); m++) nx[m] = mk_mux(in[v], cur[2 * m + 1], cur[2 * m]); cur = nx; } r[i] = cur[0]; }
  }
  return from_bytes(r, n, eb, ne);
}
static void store_bytes(uint64_t a, const vector<Lit> &m, uint32_t align, Lit g) {
  uint32_t nb = m.size() / 8; int o = check_access(a, nb, align, true, g); if (o < 0) return;
  uint32_t off = a - objs[o].base;
  for (uint32_t k = 0; k < nb; k++) { if (g == LT) mem_set(o, off + k, &m[k * 8]); else { Lit t[8]; for (int j = 0; j < 8; j++) t[j] = mk_mux(g, m[k * 8 + j], rd(&objs[o].bits[(off + k) * 8 + j])); mem_set(o, off + k, t); } }
}
static vector<Lit> to_bytes(const Val &v, uint32_t n, uint32_t eb, uint32_t ne) {
  uint32_t ebytes = (eb + 7) / 8; vector<Lit> m(ebytes * ne * 8, LF);
  for (uint32_t e = 0; e < ne; e++) for (uint32_t i = 0; i < eb; i++) { uint32_t by = i / 8; m[(e * ebytes + (BE ? ebytes - 1 - by : by)) * 8 + (i & 7)] = vbit(v, e * eb + i); }
  return m;
}
static void do_store(const Val &p, const Val &v, uint32_t n, uint32_t eb, uint32_t ne, uint32_t align) {
  vector<Lit> m = to_bytes(v, n, eb, ne);
  if (p.cc) { store_bytes(p.c, m, align, LT); return; }
  vector<AddrCase> cs; addr_cases(p, cs, m.size() / 8); for (auto &c : cs) store_bytes(c.addr, m, align, c.g);
}
// the scalar or vector type an object is declared with at an offset (null: none, or characters)
static Type *decl_at(Type *T, uint64_t off) {
  for (;;) {
    uint64_t sz = DL->getTypeAllocSize(T); if (!sz) return nullptr; off %= sz;
    if (auto *A = dyn_cast<ArrayType>(T)) { T = A->getElementType(); continue; }
    if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); unsigned i = L->getElementContainingOffset(off); off -= L->getElementOffset(i); T = S->getElementType(i); if (off >= DL->getTypeAllocSize(T)) return nullptr; continue; }
    return T->isIntegerTy(8) || T->isIntegerTy(1) ? nullptr : T;
  }
}
static string decl_clash(Obj &o, uint64_t off, const Op &op) { // access through an integer type wider than a character
  if (!o.dty || op.ne != 1) return ""; Type *T = decl_at(o.dty, off); if (!T) return "";
  if (T->isVectorTy() || T->isX86_MMXTy()) return "vector";
  if (T->isIntegerTy() && T->getIntegerBitWidth() != op.eb) return std::to_string(T->getIntegerBitWidth()) + "-bit integer";
  return "";
}
static void alias_load(const Val &p, const Op &op) {
  if (!p.cc) return; uint32_t nb = (op.eb + 7) / 8 * op.ne; int o = find_obj(p.c); if (o < 0 || p.c < objs[o].base || p.c + nb > objs[o].base + objs[o].cap) return;
  string d = decl_clash(objs[o], p.c - objs[o].base, op); if (!d.empty()) { event("alias", LT, "reads as " + tynames[op.tid] + " an object declared as " + d + " (" + objs[o].name + ")"); return; }
  if (objs[o].ty.empty()) return;
  for (uint32_t k = 0; k < nb; k++) { int t = objs[o].ty[p.c - objs[o].base + k]; if (t && t != op.tid) { event("alias", LT, "reads as " + tynames[op.tid] + " what was written as " + tynames[t] + " (" + objs[o].name + ")"); return; } }
}
static void alias_store(const Val &p, const Op &op) {
  if (!p.cc) return; uint32_t nb = (op.eb + 7) / 8 * op.ne; int o = find_obj(p.c); if (o < 0 || p.c < objs[o].base || p.c + nb > objs[o].base + objs[o].cap) return;
  string d = decl_clash(objs[o], p.c - objs[o].base, op); if (!d.empty()) { event("alias", LT, "writes as " + tynames[op.tid] + " an object declared as " + d + " (" + objs[o].name + ")"); return; }
  if (logdepth) return;
  if (objs[o].ty.empty()) objs[o].ty.assign(objs[o].cap, 0); for (uint32_t k = 0; k < nb; k++) objs[o].ty[p.c - objs[o].base + k] = op.tid;
}
static uint64_t conc(const Val &v, const char *what) { if (!v.cc) unsup(string("symbolic ") + what); return v.c; }

// memcpy / memset with possibly symbolic length
static void do_memcpy(const Val &d, const Val &s, const Val &len, bool move) {
  vector<AddrCase> ds, ss;
  if (d.cc) ds.push_back({d.c, LT}); else addr_cases(d, ds, 1);
  if (s.cc) ss.push_back({s.c, LT}); else addr_cases(s, ss, 1);
  for (auto &dc : ds) for (auto &sc : ss) {
    Lit g0 = mk_and(dc.g, sc.g); if (mk_and(g0, pc) == LF) continue;
    if (len.cc) {
      uint64_t n = len.c; if (!n) continue;
      if (n > (1u << 24)) { event("oob-write", g0, "copy of " + std::to_string(n) + " bytes"); continue; }
      if (!move && dc.addr != sc.addr && dc.addr < sc.addr + n && sc.addr < dc.addr + n) event("overlap", g0, "memcpy between overlapping regions");
      if (g0 == LT) { vector<Lit> m(n * 8); load_bytes(sc.addr, n, 1, LT, m.data()); int o = find_obj(dc.addr);
        // preserve uninitialised markers cheaply: load_bytes materialises them, which is fine
        if (o >= 0 && dc.addr >= objs[o].base && dc.addr + n <= objs[o].base + objs[o].cap) store_bytes(dc.addr, m, 1, LT);
        else { check_access(dc.addr, n, 1, true, LT); for (uint64_t k = 0; k < n; k++) { int q = find_obj(dc.addr + k); if (q >= 0 && dc.addr + k >= objs[q].base && dc.addr + k < objs[q].base + objs[q].cap) mem_set(q, dc.addr + k - objs[q].base, &m[k * 8]); } } }
      else { vector<Lit> m(n * 8); load_bytes(sc.addr, n, 1, g0, m.data()); store_bytes(dc.addr, m, 1, g0); }
      continue;
    }
    // symbolic length: find the capacity on both sides
    int od = find_obj(dc.addr), os = find_obj(sc.addr); uint64_t capd = od >= 0 && dc.addr >= objs[od].base && dc.addr <= objs[od].base + objs[od].cap ? objs[od].base + objs[od].cap - dc.addr : 0;
    uint64_t caps = os >= 0 && sc.addr >= objs[os].base && sc.addr <= objs[os].base + objs[os].cap ? objs[os].base + objs[os].cap - sc.addr : 0;
    // largest possible length: top symbolic bit
    uint64_t maxl = 0; for (uint32_t i = 0; i < len.n; i++) if (len.b[i] != LF) maxl |= 1ULL << i;
    uint64_t lim = std::min<uint64_t>(maxl, 1 << 16); vector<Lit> gk; 
    vector<Lit> lb = len.b; if (od == os && dc.addr != sc.addr && !move) unsup("symbolic-length copy inside one object");
    for (uint64_t k = 0; k < lim; k++) { // guard k < len
      vector<Lit> kb(len.n); for (uint32_t i = 0; i < len.n; i++) kb[i] = (k >> i) & 1;
      Lit g = mk_and(g0, b_ult(kb.data(), lb.data(), len.n)); if (g == LF || mk_and(g, pc) == LF) break;
      if (k >= std::max<uint64_t>(capd, 1) + 64 && k >= caps + 64) { Lit c = mk_and(g, pc); if (!sig_nonzero(c) && sat_query(c, 2000, nullptr) == R_UNSAT) break; }
      gk.push_back(g); }
    vector<vector<Lit>> buf(gk.size(), vector<Lit>(8));
    bool d_oob = false, s_oob = false;
    for (size_t k = 0; k < gk.size(); k++) { if (k >= caps) { if (!s_oob) { check_access(sc.addr + k, 1, 1, false, gk[k]); s_oob = true; } for (auto &x : buf[k]) x = LF; } else { check_access(sc.addr + k, 1, 1, false, gk[k]); Lit *b = &objs[os].bits[(sc.addr - objs[os].base + k) * 8]; for (int j = 0; j < 8; j++) buf[k][j] = rd(b + j); } }
    for (size_t k = 0; k < gk.size(); k++) { if (k >= capd) { if (!d_oob) { check_access(dc.addr + k, 1, 1, true, gk[k]); d_oob = true; } continue; }
      int o = check_access(dc.addr + k, 1, 1, true, gk[k]); if (o < 0) continue; Lit *b = &objs[o].bits[(dc.addr - objs[o].base + k) * 8]; Lit t[8];
      for (int j = 0; j < 8; j++) t[j] = (b[j] == LUNINIT && uninit_mode == 0) ? buf[k][j] : mk_mux(gk[k], buf[k][j], rd(b + j)); mem_set(o, dc.addr - objs[o].base + k, t); }
  }
}
static void do_memset(const Val &d, const Val &v, const Val &len) {
  uint64_t a = conc(d, "memset address"); Lit t[8]; for (int j = 0; j < 8; j++) t[j] = vbit(v, j);
  if (len.cc) { uint64_t n = len.c; if (!n) return; if (n > (1u << 24)) { event("oob-write", LT, "memset of " + std::to_string(n) + " bytes"); return; }
    int o = check_access(a, n, 1, true, LT); for (uint64_t k = 0; k < n; k++) { int q = o >= 0 ? o : find_obj(a + k); if (q >= 0 && a + k >= objs[q].base && a + k < objs[q].base + objs[q].cap) mem_set(q, a + k - objs[q].base, t); } return; }
  int o = find_obj(a); uint64_t cap = o >= 0 ? objs[o].base + objs[o].cap - a : 0;
  for (uint64_t k = 0; k <= cap; k++) { vector<Lit> kb(len.n); for (uint32_t i = 0; i < len.n; i++) kb[i] = (k >> i) & 1; Lit g = b_ult(kb.data(), len.b.data(), len.n); if (g == LF) break; vector<Lit> m(t, t + 8); store_bytes(a + k, m, 1, g); }
}

// ------------------------------------------------------------------ executor
struct RLog { int reg; Val old; };
struct Frame { vector<uint32_t> seen; FInfo *fi; vector<Val> regs; int prev = -1; vector<RLog> rlog; int fork = 0; vector<int> allocas; Val ret; };
enum St { LIVE, DEAD };
static int depth = 0; static double deadline = 0; static uint64_t max_visits = 0; static int calldepth = 0;
static bool call_fn(Function *F, vector<Val> &args, Val &ret);
static inline void setreg(Frame &f, int r, Val &&v) { if (f.fork) { f.rlog.push_back({r, std::move(f.regs[r])}); } f.regs[r] = std::move(v); }
static inline const Val &opv(Frame &f, int i) { if (i >= 0) { if (!f.regs[i].n) unsup("undefined register in " + f.fi->F->getName().str()); return f.regs[i]; } return consts[~i]; }

static Val binop(unsigned opc, const Val &a, const Val &b, uint32_t eb, uint32_t ne, const Instruction *I) {
  uint32_t n = eb * ne;
  bool nsw = false, nuw = false; if (auto *O = dyn_cast_or_null<OverflowingBinaryOperator>(I)) { nsw = O->hasNoSignedWrap(); nuw = O->hasNoUnsignedWrap(); } (void)nuw;
  if (a.cc && b.cc && ne == 1) {
    uint64_t x = a.c, y = b.c; auto sx = [&](uint64_t v) { return eb == 64 ? (int64_t)v : (int64_t)(v << (64 - eb)) >> (64 - eb); };
    auto ovf = [&](__int128 r) { __int128 lim = (__int128)1 << (eb - 1); if (r >= lim || r < -lim) event("signed-overflow", LT, "signed arithmetic overflow"); };
    switch (opc) {
    case Instruction::Add: if (nsw) ovf((__int128)sx(x) + sx(y)); return vc(n, x + y);
    case Instruction::Sub: if (nsw) ovf((__int128)sx(x) - sx(y)); return vc(n, x - y);
    case Instruction::Mul: if (nsw) ovf((__int128)sx(x) * sx(y)); return vc(n, x * y);
    case Instruction::And: return vc(n, x & y); case Instruction::Or: return vc(n, x | y); case Instruction::Xor: return vc(n, x ^ y);
    case Instruction::Shl: if (y >= eb) { event("shift-range", LT, "shift amount out of range"); return vc(n, 0); } if (nsw) ovf((__int128)sx(x) << y); return vc(n, x << y);
    case Instruction::LShr: if (y >= eb) { event("shift-range", LT, "shift amount out of range"); return vc(n, 0); } return vc(n, x >> y);
    case Instruction::AShr: if (y >= eb) { event("shift-range", LT, "shift amount out of range"); return vc(n, 0); } return vc(n, (uint64_t)(sx(x) >> y));
    case Instruction::UDiv: if (!y) { event("div-zero", LT, "division by zero"); return vc(n, 0); } return vc(n, x / y);
    case Instruction::URem: if (!y) { event("div-zero", LT, "division by zero"); return vc(n, 0); } return vc(n, x % y);
    case Instruction::SDiv: case Instruction::SRem: if (!y) { event("div-zero", LT, "division by zero"); return vc(n, 0); } if (sx(y) == -1) { if (opc == Instruction::SRem) return vc(n, 0); ovf(-(__int128)sx(x)); return vc(n, -x); } return vc(n, opc == Instruction::SDiv ? (uint64_t)(sx(x) / sx(y)) : (uint64_t)(sx(x) % sx(y)));
    }
    unsup("binop");
  }
  vector<Lit> A = vbits(a), B = vbits(b), R(n);
  for (uint32_t e = 0; e < ne; e++) {
    Lit *x = &A[e * eb], *y = &B[e * eb], *r = &R[e * eb];
    switch (opc) {
    case Instruction::And: for (uint32_t i = 0; i < eb; i++) r[i] = mk_and(x[i], y[i]); break;
    case Instruction::Or: for (uint32_t i = 0; i < eb; i++) r[i] = mk_or(x[i], y[i]); break;
    case Instruction::Xor: for (uint32_t i = 0; i < eb; i++) r[i] = mk_xor(x[i], y[i]); break;
    case Instruction::Add: case Instruction::Sub: {
      vector<Lit> yy(y, y + eb); if (opc == Instruction::Sub) for (auto &l : yy) l = lneg(l);
      Lit co, cp; badd(x, yy.data(), opc == Instruction::Sub ? LT : LF, r, eb, &co, &cp);
      if (nsw && in_lib) event("signed-overflow", mk_xor(co, cp), "signed arithmetic overflow"); break; }
    case Instruction::Mul: {
      bmul(x, y, r, eb);
      if (nsw && in_lib) { vector<Lit> xx(2 * eb), yy(2 * eb), rr(2 * eb); for (uint32_t i = 0; i < 2 * eb; i++) { xx[i] = i < eb ? x[i] : x[eb - 1]; yy[i] = i < eb ? y[i] : y[eb - 1]; } bmul(xx.data(), yy.data(), rr.data(), 2 * eb); Lit bad = LF; for (uint32_t i = eb; i < 2 * eb; i++) bad = mk_or(bad, mk_xor(rr[i], rr[eb - 1])); event("signed-overflow", bad, "signed multiplication overflow"); }
      break; }
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      bool cst = true; uint64_t s = 0; for (uint32_t i = 0; i < eb; i++) { if (!lconst(y[i])) cst = false; else if (i < 64) s |= (uint64_t)y[i] << i; }
      if (cst) { if (s >= eb) { event("shift-range", LT, "shift amount out of range"); for (uint32_t i = 0; i < eb; i++) r[i] = LF; break; }
        for (uint32_t i = 0; i < eb; i++) { if (opc == Instruction::Shl) r[i] = i >= s ? x[i - s] : LF; else r[i] = i + s < eb ? x[i + s] : opc == Instruction::AShr ? x[eb - 1] : LF; }
        if (nsw && opc == Instruction::Shl && in_lib) { Lit bad = LF; for (uint32_t i = eb - s; i < eb; i++) bad = mk_or(bad, mk_xor(x[i], r[eb - 1])); event("signed-overflow", bad, "signed left shift overflow"); }
        break; }
      vector<Lit> cur(x, x + eb); Lit over = LF; uint32_t lg = 0; while ((1u << lg) < eb) lg++;
      for (uint32_t j = 0; j < lg; j++) { uint32_t sh = 1u << j; vector<Lit> nx(eb); for (uint32_t i = 0; i < eb; i++) { Lit m; if (opc == Instruction::Shl) m = i >= sh ? cur[i - sh] : LF; else m = i + sh < eb ? cur[i + sh] : opc == Instruction::AShr ? cur[eb - 1] : LF; nx[i] = mk_mux(y[j], m, cur[i]); } cur = nx; }
      for (uint32_t j = lg; j < eb; j++) over = mk_or(over, y[j]); event("shift-range", over, "shift amount out of range");
      for (uint32_t i = 0; i < eb; i++) r[i] = cur[i]; break; }
    case Instruction::UDiv: case Instruction::URem: { event("div-zero", lneg(b_any(y, eb)), "division by zero"); vector<Lit> q(eb), m(eb);
      int p2 = -1; bool cst = true; uint64_t s = 0; for (uint32_t i = 0; i < eb; i++) { if (!lconst(y[i])) cst = false; else if (y[i] == LT) { s++; p2 = i; } }
      if (cst && s == 1) { for (uint32_t i = 0; i < eb; i++) { q[i] = i + p2 < eb ? x[i + p2] : LF; m[i] = (int)i < p2 ? x[i] : LF; } } else bdiv(x, y, q.data(), m.data(), eb);
      for (uint32_t i = 0; i < eb; i++) r[i] = opc == Instruction::UDiv ? q[i] : m[i]; break; }
    case Instruction::SDiv: case Instruction::SRem: { event("div-zero", lneg(b_any(y, eb)), "division by zero");
      vector<Lit> ax(eb), ay(eb), q(eb), m(eb), z(eb, LF); auto neg = [&](const Lit *s, Lit sg, vector<Lit> &o) { vector<Lit> t(eb); for (uint32_t i = 0; i < eb; i++) t[i] = mk_xor(s[i], sg); badd(t.data(), z.data(), sg, o.data(), eb); };
      neg(x, x[eb - 1], ax); neg(y, y[eb - 1], ay); bdiv(ax.data(), ay.data(), q.data(), m.data(), eb); vector<Lit> o(eb);
      if (opc == Instruction::SDiv) neg(q.data(), mk_xor(x[eb - 1], y[eb - 1]), o); else neg(m.data(), x[eb - 1], o); for (uint32_t i = 0; i < eb; i++) r[i] = o[i]; break; }
    default: unsup(string("binop ") + Instruction::getOpcodeName(opc));
    }
  }
  return vb(std::move(R));
}
static Lit icmp1(unsigned pred, const Lit *x, const Lit *y, uint32_t n) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return b_eq(x, y, n); case CmpInst::ICMP_NE: return lneg(b_eq(x, y, n));
  case CmpInst::ICMP_ULT: return b_ult(x, y, n); case CmpInst::ICMP_UGE: return lneg(b_ult(x, y, n)); case CmpInst::ICMP_UGT: return b_ult(y, x, n); case CmpInst::ICMP_ULE: return lneg(b_ult(y, x, n));
  default: { vector<Lit> a(x, x + n), b(y, y + n); a[n - 1] = lneg(a[n - 1]); b[n - 1] = lneg(b[n - 1]);
    switch (pred) { case CmpInst::ICMP_SLT: return b_ult(a.data(), b.data(), n); case CmpInst::ICMP_SGE: return lneg(b_ult(a.data(), b.data(), n)); case CmpInst::ICMP_SGT: return b_ult(b.data(), a.data(), n); case CmpInst::ICMP_SLE: return lneg(b_ult(b.data(), a.data(), n)); } } }
  unsup("icmp");
}
static Val sub_elem(const Val &v, uint32_t off, uint32_t n) { if (v.cc) return vc(n, v.c >> off); vector<Lit> r(v.b.begin() + off, v.b.begin() + off + n); return vb(std::move(r)); }

static int heap_alloc(uint64_t sz, uint64_t al, const string &fn) { int o = new_obj(O_HEAP, sz, al, "heap#" + std::to_string(alloc_count)); objs[o].allocfn = fn;
  // what malloc returns is arbitrary: in taint mode every bit is a tagged variable, reported with a counterexample
  if (uninit_mode == 1) { Input in; in.isrange = false; in.heap = true; in.name = "heap"; for (auto &l : objs[o].bits) { l = mk_var(1); in.bits.push_back(l); } inputs.push_back(in); }
  return o; }
static bool alloc_should_fail() { alloc_count++; return alloc_fail && alloc_count == alloc_fail; }
static string cstr(const Val &p) { string s; uint64_t a = conc(p, "string"); int o = find_obj(a); if (o < 0) return ""; for (uint64_t k = a - objs[o].base; k < objs[o].cap; k++) { int c = 0; for (int j = 0; j < 8; j++) { Lit l = objs[o].bits[k * 8 + j]; c |= (l & 1) << j; } if (!c) break; s.push_back(c); } return s; }
static Lit *raw(uint64_t a) { int o = find_obj(a); if (o < 0 || a < objs[o].base || a >= objs[o].base + objs[o].cap) unsup("harness raw access out of range"); return &objs[o].bits[(a - objs[o].base) * 8]; }
static void add_bad(const string &tag, Lit bad, const string &info) { Assert &A = asserts[tag]; A.tag = tag; A.bits++; Lit c = mk_and(pc, bad); if (c == LF) { A.structural++; return; } A.bad.push_back(c); A.info.push_back(info); }

static St do_abort(const string &why) {
  if (in_abort) return DEAD;
  if (on_abort) { in_abort = true; bool sl = in_lib; in_lib = false; vector<Val> a; Val r; call_fn(on_abort, a, r); in_lib = sl; in_abort = false; }
  event("abort", LT, why); return DEAD;
}
static void do_free(const Val &p) {
  vector<AddrCase> cs; if (p.cc) cs.push_back({p.c, LT}); else addr_cases(p, cs, 1);
  for (auto &c : cs) { if (c.addr == 0) continue; int o = find_obj(c.addr);
    if (o < 0 || objs[o].base != c.addr || objs[o].kind != O_HEAP) { event("bad-free", c.g, "free of a pointer that is not the start of a heap block"); continue; }
    event("double-free", mk_and(c.g, lneg(objs[o].alive)), "block freed twice");
    set_alive(o, mk_and(objs[o].alive, lneg(mk_and(pc, c.g)))); }
}
static bool is_pow2(uint64_t x) { return x && !(x & (x - 1)); }
// external functions. returns false if unknown
static bool external(const string &nm, vector<Val> &a, const Op &op, Val &ret, St &st) {
  auto P = [&](uint64_t v) { return vc(PB, v); }; st = LIVE;
  if (nm == "malloc") { if (alloc_should_fail()) { ret = P(0); return true; } ret = P(objs[heap_alloc(conc(a[0], "malloc size"), PB == 64 ? 16 : 8, nm)].base); return true; }
  if (nm == "calloc") { if (alloc_should_fail()) { ret = P(0); return true; } uint64_t s = conc(a[0], "size") * conc(a[1], "size"); int o = heap_alloc(s, PB == 64 ? 16 : 8, nm); for (auto &l : objs[o].bits) l = LF; ret = P(objs[o].base); return true; }
  if (nm == "realloc") { if (alloc_should_fail()) { ret = P(0); return true; } uint64_t s = conc(a[1], "size"); int o = heap_alloc(s, PB == 64 ? 16 : 8, nm); if (conc(a[0], "ptr")) { int q = find_obj(a[0].c); if (q >= 0) for (size_t i = 0; i < std::min(objs[q].bits.size(), objs[o].bits.size()); i++) objs[o].bits[i] = objs[q].bits[i]; do_free(a[0]); } ret = P(objs[o].base); return true; }
  if (nm == "posix_memalign") { uint64_t al = conc(a[1], "alignment"), sz = conc(a[2], "size"); bool fail = alloc_should_fail(); if (!is_pow2(al) || al % (PB / 8)) { ret = vc(32, 22); return true; } if (fail) { ret = vc(32, 12); return true; } int o = heap_alloc(sz, al, nm); do_store(a[0], P(objs[o].base), PB, PB, 1, PB / 8); ret = vc(32, 0); return true; }
  if (nm == "aligned_alloc" || nm == "memalign") { uint64_t al = conc(a[0], "alignment"), sz = conc(a[1], "size"); if (alloc_should_fail() || !is_pow2(al)) { ret = P(0); return true; } ret = P(objs[heap_alloc(sz, al, nm)].base); return true; }
  if (nm == "free") { do_free(a[0]); return true; }
  if (nm == "memcpy" || nm == "__memcpy_chk") { do_memcpy(a[0], a[1], a[2], false); ret = a[0]; return true; }
  if (nm == "memmove") { do_memcpy(a[0], a[1], a[2], true); ret = a[0]; return true; }
  if (nm == "memset") { do_memset(a[0], a[1], a[2]); ret = a[0]; return true; }
  if (nm == "bzero" || nm == "explicit_bzero") { do_memset(a[0], vc(8, 0), a[1]); return true; }
  if (nm == "memcmp" || nm == "bcmp") { uint64_t n = conc(a[2], "memcmp length"); vector<Lit> x(n * 8), y(n * 8); if (n) { load_bytes(conc(a[0], "ptr"), n, 1, LT, x.data()); load_bytes(conc(a[1], "ptr"), n, 1, LT, y.data()); }
    Lit lt = LF, ne = LF; for (uint64_t k = 0; k < n; k++) { Lit e = b_eq(&x[k * 8], &y[k * 8], 8), l = b_ult(&x[k * 8], &y[k * 8], 8); lt = mk_mux(ne, lt, l); ne = mk_or(ne, lneg(e)); }
    vector<Lit> r(32, mk_and(ne, lt)); r[0] = ne; ret = vb(std::move(r)); return true; }
  if (nm == "strlen") { ret = vc(PB, cstr(a[0]).size()); return true; }
  if (nm == "__assert_fail" || nm == "__assert") { st = do_abort("assertion failed: " + cstr(a[0])); return true; }
  { // what the process shares with its environment
    static const char *io[] = {"printf", "puts", "putchar", "fprintf", "vprintf", "vfprintf", "fputs", "fflush", "fwrite", "fputc", "putc", "perror", "dprintf", "write", "read", "open", "close", "fopen", "fclose", "fread", "fgets", "getc", "fgetc",
      "getenv", "secure_getenv", "setenv", "putenv", "unsetenv", "time", "clock", "gettimeofday", "clock_gettime", "rand", "random", "srand", "srandom", "rand_r", "signal", "sigaction", "raise", "kill", "system", "sleep", "usleep", "nanosleep",
      "sched_yield", "getpid", "setlocale", "atexit", "syslog", "openlog", "fork", "pthread_create", "fesetround", "feenableexcept", "fesetenv", "exit", "_exit", "_Exit", "quick_exit"};
    if (in_lib) for (const char *n : io) if (nm == n) { event("io", LT, "call to " + nm); if (nm.find("exit") == string::npos) { ret = vc(op.n ? op.n : 32, 0); if (nm == "time" && a.size() && (!a[0].cc || a[0].c)) unsup("time with an argument"); return true; } } }
  if (nm == "__errno_location") { static int o = -1; if (o < 0) { o = new_obj(O_USER, 4, 4, "errno"); for (auto &l : objs[o].bits) l = LF; } ret = P(objs[o].base); return true; }
  if (nm == "abort" || nm == "_exit" || nm == "exit") { st = do_abort(nm); return true; }
  if (nm == "printf" || nm == "puts" || nm == "putchar" || nm == "fprintf" || nm == "fputs" || nm == "fflush" || nm == "fwrite" || nm == "fputc") { ret = vc(op.n ? op.n : 32, 0); return true; }
  // ---- harness interface
  if (nm == "sy_param") { uint64_t i = conc(a[0], "param"); ret = vc(32, i < params.size() ? params[i] : 0); return true; }
  if (nm == "sy_alloc") { uint64_t cap = conc(a[0], "cap"), mis = conc(a[1], "mis"); int o = new_obj(O_USER, cap, 1, a.size() > 2 ? cstr(a[2]) : "buf", mis & 63); ret = P(objs[o].base); return true; }
  if (nm == "sy_bytes") { uint64_t p = conc(a[0], "ptr"), n = conc(a[1], "n"); Input in; in.isrange = false; in.name = cstr(a[2]); int tag = in.name[0] == '!' ? 2 : 0; for (uint64_t k = 0; k < n; k++) { Lit t[8]; for (int j = 0; j < 8; j++) { t[j] = mk_var(tag); in.bits.push_back(t[j]); } Lit *r = raw(p + k); if (logdepth) unsup("sy_bytes inside a fork"); memcpy(r, t, 32); } inputs.push_back(in); return true; }
  if (nm == "sy_range") { uint32_t lo = conc(a[0], "lo"), hi = conc(a[1], "hi"); Input in; in.isrange = true; in.name = cstr(a[2]); if (lo == hi) { ret = vc(32, lo); for (int i = 0; i < 32; i++) in.bits.push_back((lo >> i) & 1); inputs.push_back(in); return true; } vector<Lit> b = mk_range(lo, hi); b.resize(32, LF); in.bits = b; inputs.push_back(in); ret = vb(std::move(b)); return true; }
  if (nm == "sy_limit") { uint64_t p = conc(a[0], "ptr"); int o = find_obj(p); Obj &ob = objs[o]; ob.inb.resize(ob.cap); vector<Lit> lb = vbits(a[1]); for (uint32_t k = 0; k < ob.cap; k++) { vector<Lit> kb(32); for (int i = 0; i < 32; i++) kb[i] = (k >> i) & 1; ob.inb[k] = b_ult(kb.data(), lb.data(), 32); } return true; }
  if (nm == "sy_protect") { objs[find_obj(conc(a[0], "ptr"))].ro = conc(a[1], "flag"); return true; }
  if (nm == "sy_lib") { if (in_lib) { event("fpu-state", mmx_dirty, "MMX state left behind, used first at " + mmx_where); mmx_dirty = LF; mmx_where.clear(); } in_lib = conc(a[0], "flag"); return true; }
  if (nm == "sy_fail_alloc") { alloc_fail = (int64_t)conc(a[0], "k"); alloc_count = 0; return true; }
  if (nm == "sy_heap_live") { uint64_t n = 0; for (auto &o : objs) if (o.kind == O_HEAP) { if (o.alive == LT) n++; else if (o.alive != LF) unsup("symbolic heap liveness"); } ret = vc(32, n); return true; }
  if (nm == "sy_checking") { ret = vc(32, !no_asserts); return true; }
  if (no_asserts && (nm == "sy_assert" || nm == "sy_assert_eq")) return true;
  if (nm == "sy_assert") { Assert &A = asserts[cstr(a[1])]; A.tag = cstr(a[1]); A.reached = true; add_bad(cstr(a[1]), lneg(vbit(a[0], 0)), ""); return true; }
  if (nm == "sy_assert_eq") { uint64_t p = conc(a[0], "p"), q = conc(a[1], "q"), n = conc(a[2], "n"); string tag = cstr(a[3]); int64_t idx = a.size() > 4 ? (int64_t)conc(a[4], "i") : 0; Assert &A = asserts[tag]; A.tag = tag; A.reached = true;
    for (uint64_t k = 0; k < n; k++) for (int j = 0; j < 8; j++) { Lit x = rd(raw(p + k) + j), y = rd(raw(q + k) + j); if (x == y) { A.bits++; A.structural++; continue; } add_bad(tag, mk_xor(x, y), "item " + std::to_string(idx) + " byte " + std::to_string(k) + " bit " + std::to_string(j)); } return true; }
  if (nm == "sy_assert_untainted") { uint64_t p = conc(a[0], "p"), n = conc(a[1], "n"); int tag = conc(a[2], "tag"); string t = cstr(a[3]); Assert &A = asserts[t]; A.tag = t; A.reached = true;
    for (uint64_t k = 0; k < n; k++) for (int j = 0; j < 8; j++) { Lit x = rd(raw(p + k) + j); if (!cone_has_tag(x, tag, nullptr)) { A.bits++; A.structural++; continue; } Lit tl = taint_lit(x, tag); add_bad(t, tl == LF ? LF : mk_xor(x, copy_tagged(x, tag)), "byte " + std::to_string(k) + " bit " + std::to_string(j)); } return true; }
  if (nm == "sy_reach") { string t = cstr(a[0]); if (!reaches.count(t)) reaches[t] = LF; reaches[t] = mk_or(reaches[t], pc); return true; }
  if (nm == "sy_on_abort") { uint64_t p = conc(a[0], "fn"); on_abort = p ? objfn[find_obj(p)] : nullptr; return true; }
  if (nm == "sy_addr_mod") { ret = vc(32, conc(a[0], "ptr") % conc(a[1], "m")); return true; }
  if (nm == "sy_objsize") { int o = find_obj(conc(a[0], "ptr")); ret = vc(32, o < 0 ? 0 : objs[o].cap); return true; }
  if (nm == "sy_seed_heap") { // fill a heap object with fresh symbolic contents
    uint64_t p = conc(a[0], "ptr"); int o = find_obj(p); Input in; in.isrange = false; in.name = "heap"; for (auto &l : objs[o].bits) { l = mk_var(0); in.bits.push_back(l); } inputs.push_back(in); return true; }
  return false;
}
static bool intrinsic(const string &nm, vector<Val> &a, const Op &op, Val &ret, St &st) {
  st = LIVE; auto sw = [&](const char *p) { return nm.compare(0, strlen(p), p) == 0; };
  if (sw("llvm.memcpy")) { do_memcpy(a[0], a[1], a[2], false); return true; }
  if (sw("llvm.memmove")) { do_memcpy(a[0], a[1], a[2], true); return true; }
  if (sw("llvm.memset")) { do_memset(a[0], a[1], a[2]); return true; }
  if (sw("llvm.dbg") || sw("llvm.lifetime") || sw("llvm.assume") || sw("llvm.prefetch") || sw("llvm.stackrestore") || sw("llvm.donothing") || sw("llvm.experimental.noalias")) return true;
  if (sw("llvm.stacksave")) { ret = vc(PB, 0); return true; }
  if (sw("llvm.expect") || sw("llvm.threadlocal.address")) { ret = a[0]; return true; }
  if (sw("llvm.is.constant")) { ret = vc(1, 0); return true; }
  if (sw("llvm.abs") && op.ne == 1) { vector<Lit> x = vbits(a[0]), y(op.eb), z(op.eb, LF); for (auto &l : x) l = lneg(l); badd(z.data(), x.data(), LT, y.data(), op.eb); vector<Lit> r; Lit s = vbit(a[0], op.eb - 1); for (uint32_t i = 0; i < op.eb; i++) r.push_back(mk_mux(s, y[i], lneg(x[i]))); ret = vb(std::move(r)); return true; }
  if ((sw("llvm.ctlz") || sw("llvm.cttz")) && op.ne == 1) { bool lead = nm[7] == 'l'; vector<Lit> r(op.eb, LF); for (int k = 0; k < 8 && (1u << k) <= op.eb; k++) r[k] = op.eb >> k & 1 ? LT : LF;
    for (uint32_t q = 0; q < op.eb; q++) { uint32_t i = lead ? q : op.eb - 1 - q, cnt = lead ? op.eb - 1 - i : i; Lit b = vbit(a[0], i); for (uint32_t k = 0; k < op.eb; k++) r[k] = mk_mux(b, k < 32 && cnt >> k & 1 ? LT : LF, r[k]); } ret = vb(std::move(r)); return true; }
  if ((sw("llvm.usub.sat") || sw("llvm.uadd.sat")) && op.ne == 1) { bool sub = nm[6] == 's'; vector<Lit> x = vbits(a[0]), y = vbits(a[1]); x.push_back(LF); y.push_back(LF); Val v = binop(sub ? Instruction::Sub : Instruction::Add, vb(std::move(x)), vb(std::move(y)), op.eb + 1, 1, nullptr);
    Lit o = vbit(v, op.eb); vector<Lit> r; for (uint32_t i = 0; i < op.eb; i++) r.push_back(sub ? mk_and(vbit(v, i), lneg(o)) : mk_or(vbit(v, i), o)); ret = vb(std::move(r)); return true; }
  if (sw("llvm.ubsantrap") && in_lib) { // a check compiled in by -fsanitize (arithmetic build variant)
    uint64_t k = conc(a[0], "trap kind"); const char *kind = k == 20 ? "shift-range" : k == 3 ? "div-zero" : "signed-overflow";
    event(kind, LT, k == 20 ? "shift amount out of range, or signed left shift whose result does not fit" : "undefined arithmetic"); st = DEAD; return true; }
  if (sw("llvm.trap") || sw("llvm.ubsantrap")) { st = do_abort("trap"); return true; }
  if (sw("llvm.objectsize")) { ret = vc(op.n, ~0ULL); return true; }
  if (sw("llvm.bswap")) { vector<Lit> r(op.n); for (uint32_t e = 0; e < op.ne; e++) for (uint32_t i = 0; i < op.eb; i++) r[e * op.eb + i] = vbit(a[0], e * op.eb + (op.eb / 8 - 1 - i / 8) * 8 + (i & 7)); ret = vb(std::move(r)); return true; }
  if (sw("llvm.bitreverse")) { vector<Lit> r(op.n); for (uint32_t e = 0; e < op.ne; e++) for (uint32_t i = 0; i < op.eb; i++) r[e * op.eb + i] = vbit(a[0], e * op.eb + op.eb - 1 - i); ret = vb(std::move(r)); return true; }
  if (sw("llvm.fshl") || sw("llvm.fshr")) { bool l = sw("llvm.fshl"); vector<Lit> r(op.n); for (uint32_t e = 0; e < op.ne; e++) { Val s = sub_elem(a[2], e * op.eb, op.eb); if (!s.cc) unsup("symbolic funnel shift"); uint32_t k = s.c % op.eb; vector<Lit> cat; for (uint32_t i = 0; i < op.eb; i++) cat.push_back(vbit(a[1], e * op.eb + i)); for (uint32_t i = 0; i < op.eb; i++) cat.push_back(vbit(a[0], e * op.eb + i)); uint32_t st0 = l ? op.eb - k : k; for (uint32_t i = 0; i < op.eb; i++) r[e * op.eb + i] = cat[st0 + i]; } ret = vb(std::move(r)); return true; }
  if (sw("llvm.umin") || sw("llvm.umax") || sw("llvm.smin") || sw("llvm.smax")) { vector<Lit> r, x = vbits(a[0]), y = vbits(a[1]); bool sg = nm[5] == 's', mx = nm[7] == 'a'; for (uint32_t e = 0; e < op.ne; e++) { Lit lt = icmp1(sg ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, &x[e * op.eb], &y[e * op.eb], op.eb); for (uint32_t i = 0; i < op.eb; i++) r.push_back(mk_mux(lt, mx ? y[e * op.eb + i] : x[e * op.eb + i], mx ? x[e * op.eb + i] : y[e * op.eb + i])); } ret = vb(std::move(r)); return true; }
  if (sw("llvm.ctpop") ) { vector<Lit> acc(op.eb, LF); if (op.ne != 1) unsup("vector ctpop"); for (uint32_t i = 0; i < op.eb; i++) { vector<Lit> t(op.eb, LF), s(op.eb); t[0] = vbit(a[0], i); badd(acc.data(), t.data(), LF, s.data(), op.eb); acc = s; } ret = vb(std::move(acc)); return true; }
  if (sw("llvm.sadd.with.overflow") || sw("llvm.ssub.with.overflow") || sw("llvm.smul.with.overflow")) {
    uint32_t n = a[0].n; vector<Lit> x = vbits(a[0]), y = vbits(a[1]); Lit xs = x[n - 1], ys = y[n - 1]; x.resize(2 * n, xs); y.resize(2 * n, ys);
    Val v = binop(nm[6] == 'a' ? Instruction::Add : nm[6] == 's' ? Instruction::Sub : Instruction::Mul, vb(std::move(x)), vb(std::move(y)), 2 * n, 1, nullptr); vector<Lit> o; Lit of = LF;
    for (uint32_t i = 0; i < 2 * n; i++) { if (i < n) o.push_back(vbit(v, i)); else of = mk_or(of, mk_xor(vbit(v, i), vbit(v, n - 1))); } o.push_back(of); ret = vb(std::move(o)); return true; }
  for (const char *ov : {"llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.umul.with.overflow"}) if (sw(ov)) { uint32_t n = a[0].n; vector<Lit> x = vbits(a[0]), y = vbits(a[1]); x.resize(2 * n, LF); y.resize(2 * n, LF); vector<Lit> r(2 * n); Val v = binop(ov[5] == 'm' - 0 ? Instruction::Mul : nm[6] == 'a' ? Instruction::Add : nm[6] == 's' ? Instruction::Sub : Instruction::Mul, vb(std::move(x)), vb(std::move(y)), 2 * n, 1, nullptr); vector<Lit> o; Lit of = LF; for (uint32_t i = 0; i < 2 * n; i++) { if (i < n) o.push_back(vbit(v, i)); else of = mk_or(of, vbit(v, i)); } o.push_back(of); ret = vb(std::move(o)); return true; }
  // ---- SIMD
  if (sw("llvm.x86.mmx.")) { if (nm == "llvm.x86.mmx.emms" || nm == "llvm.x86.mmx.femms") { mmx_dirty = mk_and(mmx_dirty, lneg(pc)); return true; } if (in_lib) { mmx_dirty = mk_or(mmx_dirty, pc); if (mmx_where.empty()) mmx_where = where_of(cur_inst); } }
  auto lw = [&](unsigned o, uint32_t eb) { uint32_t n = a[0].n; ret = binop(o, a[0], a[1], eb, n / eb, nullptr); };
  if (nm == "llvm.x86.mmx.pand") { lw(Instruction::And, 64); return true; } if (nm == "llvm.x86.mmx.por") { lw(Instruction::Or, 64); return true; } if (nm == "llvm.x86.mmx.pxor") { lw(Instruction::Xor, 64); return true; }
  if (nm == "llvm.x86.mmx.pandn") { vector<Lit> r; for (uint32_t i = 0; i < 64; i++) r.push_back(mk_and(lneg(vbit(a[0], i)), vbit(a[1], i))); ret = vb(std::move(r)); return true; }
  if (sw("llvm.x86.mmx.padd")) { lw(Instruction::Add, nm.back() == 'b' ? 8 : nm.back() == 'w' ? 16 : nm.back() == 'd' ? 32 : 64); return true; }
  { // immediate shifts
    size_t p; bool L = (p = nm.find(".pslli.")) != string::npos, R = !L && (p = nm.find(".psrli.")) != string::npos, A = !L && !R && (p = nm.find(".psrai.")) != string::npos;
    if ((L || R || A) && sw("llvm.x86.")) { char c = nm[p + 7]; uint32_t eb = c == 'w' ? 16 : c == 'd' ? 32 : 64; uint64_t s = conc(a[1], "shift"); uint32_t n = op.n; vector<Lit> r(n);
      for (uint32_t e = 0; e < n / eb; e++) for (uint32_t i = 0; i < eb; i++) { Lit v; if (L) v = i >= s ? vbit(a[0], e * eb + i - s) : LF; else v = i + s < eb ? vbit(a[0], e * eb + i + s) : A ? vbit(a[0], e * eb + eb - 1) : LF; r[e * eb + i] = v; }
      ret = vb(std::move(r)); return true; } }
  if (nm == "llvm.x86.ssse3.pshuf.b.128" || nm == "llvm.x86.avx2.pshuf.b") { uint32_t nb = op.n / 8; vector<Lit> r(op.n); for (uint32_t i = 0; i < nb; i++) { Val ix = sub_elem(a[1], i * 8, 8); uint32_t lane = i & ~15u;
      if (ix.cc) { for (int j = 0; j < 8; j++) r[i * 8 + j] = ix.c & 0x80 ? LF : vbit(a[0], (lane + (ix.c & 15)) * 8 + j); }
      else { for (int j = 0; j < 8; j++) { vector<Lit> cur; for (int q = 0; q < 16; q++) cur.push_back(vbit(a[0], (lane + q) * 8 + j)); for (int v = 0; v < 4; v++) { vector<Lit> nx; for (size_t q = 0; q < cur.size(); q += 2) nx.push_back(mk_mux(vbit(ix, v), cur[q + 1], cur[q])); cur = nx; } r[i * 8 + j] = mk_and(lneg(vbit(ix, 7)), cur[0]); } } }
    ret = vb(std::move(r)); return true; }
  if (sw("llvm.x86.avx2.gather.d.d")) { // (src, base, index, mask, scale)
    uint32_t ne = op.n / 32; vector<Lit> r; uint64_t base = conc(a[1], "gather base"), sc = conc(a[4], "scale");
    for (uint32_t e = 0; e < ne; e++) { Lit mk = vbit(a[3], e * 32 + 31); if (mk == LF) { for (int j = 0; j < 32; j++) r.push_back(vbit(a[0], e * 32 + j)); continue; }
      Val ix = sub_elem(a[2], e * 32, 32); Val ix64; { vector<Lit> b = vbits(ix); Lit s = b[31]; b.resize(PB, s); ix64 = vb(std::move(b)); }
      Val ad = binop(Instruction::Add, vc(PB, base), binop(Instruction::Mul, ix64, vc(PB, sc), PB, 1, nullptr), PB, 1, nullptr); Val v = do_load(ad, 32, 32, 1, 1);
      for (int j = 0; j < 32; j++) r.push_back(mk == LT ? vbit(v, j) : mk_mux(mk, vbit(v, j), vbit(a[0], e * 32 + j))); }
    ret = vb(std::move(r)); return true; }
  if (sw("llvm.aarch64.neon.ld2.") || sw("llvm.arm.neon.vld2.")) { Val v = do_load(a[0], op.n, 8, op.n / 8, 1); uint32_t half = op.n / 2; auto *ST = cast<StructType>(op.I->getType()); uint32_t n2, eb, ne; tyinfo(ST->getElementType(0), n2, eb, ne); vector<Lit> r(op.n); for (uint32_t e = 0; e < ne; e++) for (uint32_t i = 0; i < eb; i++) { r[e * eb + i] = vbit(v, (2 * e) * eb + i); r[half + e * eb + i] = vbit(v, (2 * e + 1) * eb + i); } ret = vb(std::move(r)); return true; }
  if (sw("llvm.aarch64.neon.st2.")) { uint32_t half = a[0].n; uint32_t eb = 8; if (nm.find("i16") != string::npos) eb = 16; if (nm.find("i32") != string::npos) eb = 32; vector<Lit> r(half * 2); for (uint32_t e = 0; e < half / eb; e++) for (uint32_t i = 0; i < eb; i++) { r[2 * e * eb + i] = vbit(a[0], e * eb + i); r[(2 * e + 1) * eb + i] = vbit(a[1], e * eb + i); } Val v = vb(std::move(r)); do_store(a[2], v, half * 2, eb, half * 2 / eb, 1); return true; }
  if (sw("llvm.aarch64.neon.tbl1.") || sw("llvm.aarch64.neon.tbl2.") || sw("llvm.aarch64.neon.tbl4.") || sw("llvm.aarch64.neon.tbl3.")) { vector<Lit> tab; for (size_t t = 0; t + 1 < a.size(); t++) { auto b = vbits(a[t]); tab.insert(tab.end(), b.begin(), b.end()); } const Val &ix = a.back(); uint32_t nt = tab.size() / 8; vector<Lit> r; for (uint32_t e = 0; e < op.n / 8; e++) { Val x = sub_elem(ix, e * 8, 8); if (!x.cc) unsup("symbolic tbl index"); for (int j = 0; j < 8; j++) r.push_back(x.c < nt ? tab[x.c * 8 + j] : LF); } ret = vb(std::move(r)); return true; }
  return false;
}
static void merge_fork(Frame &f, Lit c, size_t mm, size_t rm, vector<std::pair<uint64_t, array<Lit, 8>>> &tw, map<int, Val> &tr, const vector<uint64_t> *live);

static void phis_at(Frame &f, int bb) {
  BBI &bi = f.fi->bbs[bb]; if (bi.phis.empty()) return;
  vector<Val> vals; for (auto &p : bi.phis) { int v = INT_MIN; for (size_t i = 0; i < p.ops.size(); i += 2) if (p.ops[i + 1] == f.prev) v = p.ops[i]; if (v == INT_MIN) unsup("phi without incoming"); if (v >= 0 && !f.regs[v].n) vals.push_back(vc(p.n, 0)); else vals.push_back(opv(f, v)); }
  for (size_t i = 0; i < bi.phis.size(); i++) setreg(f, bi.phis[i].dst, std::move(vals[i]));
}
static St run(Frame &f, int bb, int stop, bool skipphi);

static St fork(Frame &f, Lit c, int bT, int bF, int from, int stop) {
  Lit t = mk_and(pc, c), e = mk_and(pc, lneg(c));
  auto feas = [&](Lit x) { if (x == LF) return false; if (sig_nonzero(x)) return true; return sat_query(x, 20000, nullptr) != R_UNSAT; };
  bool ft = feas(t), fe = feas(e);
  if (!ft && !fe) { return DEAD; }
  Lit pc0 = pc;
  if (!fe) { f.prev = from; St s = run(f, bT, stop, false); return s; }
  if (!ft) { f.prev = from; St s = run(f, bF, stop, false); return s; }
  n_forks++; if (++depth > 3000) unsup("fork depth");
  const vector<uint64_t> *live = stop >= 0 ? &f.fi->bbs[stop].livein : nullptr;
  size_t mm = mlog.size(), rm = f.rlog.size(); logdepth++; f.fork++;
  Val ret0 = f.ret;
  auto collect = [&](vector<std::pair<uint64_t, array<Lit, 8>>> &w, map<int, Val> &r) {
    std::unordered_set<uint64_t> seen;
    for (size_t i = mm; i < mlog.size(); i++) { uint64_t k = (uint64_t)mlog[i].obj << 32 | mlog[i].off; if (!seen.insert(k).second) continue; array<Lit, 8> v; if (mlog[i].off == 0xffffffffu) v[0] = objs[mlog[i].obj].alive; else memcpy(v.data(), &objs[mlog[i].obj].bits[(size_t)mlog[i].off * 8], 32); w.push_back({k, v}); }
    for (size_t i = rm; i < f.rlog.size(); i++) { int q = f.rlog[i].reg; if (!r.count(q)) { if (!live || !((*live)[q >> 6] >> (q & 63) & 1)) continue; r[q] = f.regs[q]; } }
  };
  auto rollback = [&]() {
    for (size_t i = mlog.size(); i > mm; i--) { auto &l = mlog[i - 1]; if (l.off == 0xffffffffu) objs[l.obj].alive = l.old[0]; else memcpy(&objs[l.obj].bits[(size_t)l.off * 8], l.old.data(), 32); }
    mlog.resize(mm);
    while (f.rlog.size() > rm) { f.regs[f.rlog.back().reg] = std::move(f.rlog.back().old); f.rlog.pop_back(); }
  };
  vector<std::pair<uint64_t, array<Lit, 8>>> tw; map<int, Val> tr; size_t na = f.allocas.size(); (void)na;
  pc = t; f.prev = from; St sT = run(f, bT, stop, false); Lit pT = pc; Val retT = f.ret; int prevT = f.prev;
  if (sT == LIVE) collect(tw, tr);
  rollback(); f.ret = ret0;
  pc = e; f.prev = from; St sF = run(f, bF, stop, false); Lit pF = pc; Val retF = f.ret;
  St res = LIVE;
  if (sT == DEAD && sF == DEAD) { res = DEAD; logdepth--; f.fork--; depth--; if (!logdepth) mlog.clear(); if (!f.fork) f.rlog.clear(); pc = pc0; return res; }
  if (sT == DEAD) { pc = pF; } // keep the current (F) state
  else {
    if (sF == DEAD) { rollback(); }
    std::unordered_set<uint64_t> tk; Lit mc = sF == DEAD ? LT : c;
    for (auto &w : tw) { tk.insert(w.first); int o = w.first >> 32; uint32_t off = (uint32_t)w.first;
      if (off == 0xffffffffu) { set_alive(o, mk_mux(mc, w.second[0], objs[o].alive)); continue; }
      Lit *cur = &objs[o].bits[(size_t)off * 8]; Lit v[8]; bool same = true;
      for (int j = 0; j < 8; j++) { Lit x = w.second[j], y = cur[j]; if (x == LUNINIT && y == LUNINIT) v[j] = LUNINIT; else { if (x == LUNINIT) x = uninit_mode == 0 ? y : mk_var(uninit_mode == 1 ? 1 : 0); if (y == LUNINIT) y = uninit_mode == 0 ? x : mk_var(uninit_mode == 1 ? 1 : 0); v[j] = mk_mux(mc, x, y); } if (v[j] != cur[j]) same = false; }
      if (!same) mem_set(o, off, v); }
    if (sF != DEAD) { // F-only writes
      std::unordered_map<uint64_t, size_t> first; size_t end = mlog.size();
      for (size_t i = mm; i < end; i++) { uint64_t k = (uint64_t)mlog[i].obj << 32 | mlog[i].off; if (!tk.count(k) && !first.count(k)) first[k] = i; }
      for (auto &kv : first) { int o = kv.first >> 32; uint32_t off = (uint32_t)kv.first; array<Lit, 8> old = mlog[kv.second].old;
        if (off == 0xffffffffu) { objs[o].alive = mk_mux(c, old[0], objs[o].alive); continue; }
        Lit *cur = &objs[o].bits[(size_t)off * 8]; for (int j = 0; j < 8; j++) { Lit x = old[j], y = cur[j]; if (x == y) continue; if (x == LUNINIT) x = uninit_mode == 0 ? y : mk_var(uninit_mode == 1 ? 1 : 0); if (y == LUNINIT) y = uninit_mode == 0 ? x : mk_var(uninit_mode == 1 ? 1 : 0); cur[j] = mk_mux(c, x, y); } }
      // registers
      map<int, Val> oldr; size_t rend = f.rlog.size(); for (size_t i = rm; i < rend; i++) { int q = f.rlog[i].reg; if (!oldr.count(q)) oldr[q] = f.rlog[i].old; }
      if (live) {
        for (auto &kv : oldr) if (!tr.count(kv.first) && ((*live)[kv.first >> 6] >> (kv.first & 63) & 1)) { Val v = vmux(c, kv.second, f.regs[kv.first]); f.regs[kv.first] = v; }
        for (auto &kv : tr) { Val v = vmux(c, kv.second, f.regs[kv.first]); setreg(f, kv.first, std::move(v)); }
      } else if (retT.n || retF.n) f.ret = vmux(c, retT, retF);
      pc = (pT == t && pF == e) ? pc0 : mk_or(pT, pF);
    } else { for (auto &kv : tr) { Val v = kv.second; setreg(f, kv.first, std::move(v)); } f.ret = retT; pc = pT; f.prev = prevT; }
  }
  logdepth--; f.fork--; depth--; if (!logdepth) mlog.clear(); if (!f.fork) f.rlog.clear();
  return LIVE;
}
static double t_start;
static St run(Frame &f, int bb, int stop, bool skipphi) {
  for (;;) {
    if (!skipphi) phis_at(f, bb);
    if (bb == stop) return LIVE;
    skipphi = false;
    BBI &bi = f.fi->bbs[bb]; int nextbb = -1;
    if (max_visits && in_lib) { if (f.seen.empty()) f.seen.resize(f.fi->bbs.size());
      if (++f.seen[bb] > max_visits) { cur_inst = bi.ops.back().I; event("no-return", LT, "a loop runs more than " + std::to_string(max_visits) + " times"); return DEAD; } }
    for (auto &op : bi.ops) {
      if ((++n_instr & 0xffff) == 0 && deadline && now_s() > deadline) unsup("time limit");
      cur_inst = op.I;
      switch (op.opc) {
      case Instruction::Ret: if (!op.ops.empty()) f.ret = opv(f, op.ops[0]); f.prev = bb; return LIVE;
      case Instruction::Br: {
        if (op.ops.empty()) { nextbb = op.s0; break; }
        const Val &c = opv(f, op.ops[0]); Lit l = vbit(c, 0);
        if (lconst(l)) { nextbb = l ? op.s0 : op.s1; break; }
        int ip = bi.ipdom; St s = fork(f, l, op.s0, op.s1, bb, ip); if (s == DEAD) return DEAD;
        if (ip < 0) return LIVE;           // both sides ran to the function's end
        if (ip == stop) return LIVE;       // phis of the stop block have been evaluated in the sides
        bb = ip; skipphi = true; goto next; }
      case Instruction::Unreachable: return DEAD;
      case Instruction::Alloca: { auto *A = cast<AllocaInst>(op.I); uint64_t sz = DL->getTypeAllocSize(A->getAllocatedType()); if (A->isArrayAllocation()) sz *= conc(opv(f, op.ops[0]), "alloca size"); int o = new_obj(O_STACK, sz, A->getAlign().value(), A->getName().str() + "@" + f.fi->F->getName().str()); objs[o].dty = A->getAllocatedType(); f.allocas.push_back(o); setreg(f, op.dst, vc(PB, objs[o].base)); break; }
      case Instruction::Load: { if (op.tid && in_lib) alias_load(opv(f, op.ops[0]), op); Val v = do_load(opv(f, op.ops[0]), op.n, op.eb, op.ne, op.align); setreg(f, op.dst, std::move(v)); break; }
      case Instruction::Store: do_store(opv(f, op.ops[1]), opv(f, op.ops[0]), op.n, op.eb, op.ne, op.align); if (op.tid && in_lib) alias_store(opv(f, op.ops[1]), op); break;
      case Instruction::GetElementPtr: {
        Val r = opv(f, op.ops[0]); if (op.gepc) r = binop(Instruction::Add, r, vc(PB, op.gepc), PB, 1, nullptr);
        for (auto &g : op.gep) { Val ix = opv(f, g.first); if ((int)ix.n < PB) { if (ix.cc) { int64_t s = (int64_t)(ix.c << (64 - ix.n)) >> (64 - ix.n); ix = vc(PB, (uint64_t)s); } else { Lit s = ix.b.back(); ix.b.resize(PB, s); ix.n = PB; } } else if ((int)ix.n > PB) ix = sub_elem(ix, 0, PB);
          if (g.second != 1) ix = binop(Instruction::Mul, ix, vc(PB, g.second), PB, 1, nullptr); r = binop(Instruction::Add, r, ix, PB, 1, nullptr); }
        setreg(f, op.dst, std::move(r)); break; }
      case Instruction::ICmp: { const Val &a = opv(f, op.ops[0]), &b = opv(f, op.ops[1]);
        if (a.cc && b.cc && op.ne == 1) { uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)(x << (64 - a.n)) >> (64 - a.n), sy = (int64_t)(y << (64 - b.n)) >> (64 - b.n); bool r = false;
          switch (op.cal) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; default: r = sx >= sy; }
          setreg(f, op.dst, vc(1, r)); break; }
        vector<Lit> x = vbits(a), y = vbits(b), r; for (uint32_t e = 0; e < op.ne; e++) r.push_back(icmp1(op.cal, &x[e * op.seb], &y[e * op.seb], op.seb)); setreg(f, op.dst, vb(std::move(r))); break; }
      case Instruction::Select: { const Val &c = opv(f, op.ops[0]); const Val &a = opv(f, op.ops[1]), &b = opv(f, op.ops[2]); if (c.n == 1) { Val v = vmux(vbit(c, 0), a, b); setreg(f, op.dst, std::move(v)); } else { vector<Lit> r; for (uint32_t e = 0; e < op.ne; e++) for (uint32_t i = 0; i < op.eb; i++) r.push_back(mk_mux(vbit(c, e), vbit(a, e * op.eb + i), vbit(b, e * op.eb + i))); setreg(f, op.dst, vb(std::move(r))); } break; }
      case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: { const Val &a = opv(f, op.ops[0]);
        if (a.cc && op.ne == 1 && op.n <= 64) { uint64_t c = a.c; if (op.opc == Instruction::SExt) c = (uint64_t)((int64_t)(c << (64 - a.n)) >> (64 - a.n)); setreg(f, op.dst, vc(op.n, c)); break; }
        vector<Lit> r(op.n, LF); for (uint32_t e = 0; e < op.ne; e++) for (uint32_t i = 0; i < op.eb; i++) r[e * op.eb + i] = i < op.seb ? vbit(a, e * op.seb + i) : op.opc == Instruction::SExt ? vbit(a, e * op.seb + op.seb - 1) : LF; setreg(f, op.dst, vb(std::move(r))); break; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { Val v = opv(f, op.ops[0]);
        if (BE && op.opc == Instruction::BitCast && op.seb != op.eb) { vector<Lit> m = to_bytes(v, v.n, op.seb, v.n / op.seb); v = from_bytes(m, op.n, op.eb, op.ne); } setreg(f, op.dst, std::move(v)); break; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: { const Val &a = opv(f, op.ops[0]); if (a.cc) setreg(f, op.dst, vc(op.n, a.c)); else { vector<Lit> b = a.b; b.resize(op.n, LF); setreg(f, op.dst, vb(std::move(b))); } break; }
      case Instruction::InsertElement: { const Val &v = opv(f, op.ops[0]), &e = opv(f, op.ops[1]); uint64_t ix = conc(opv(f, op.ops[2]), "insert index"); vector<Lit> b = vbits(v); for (uint32_t i = 0; i < op.eb; i++) b[ix * op.eb + i] = vbit(e, i); setreg(f, op.dst, vb(std::move(b))); break; }
      case Instruction::ExtractElement: { Val v = sub_elem(opv(f, op.ops[0]), conc(opv(f, op.ops[1]), "extract index") * op.n, op.n); setreg(f, op.dst, std::move(v)); break; }
      case Instruction::ShuffleVector: { auto *S = cast<ShuffleVectorInst>(op.I); const Val &a = opv(f, op.ops[0]), &b = opv(f, op.ops[1]); int na2 = cast<FixedVectorType>(S->getOperand(0)->getType())->getNumElements(); vector<Lit> r(op.n); auto mask = S->getShuffleMask();
        for (uint32_t e = 0; e < op.ne; e++) { int m = mask[e]; for (uint32_t i = 0; i < op.eb; i++) r[e * op.eb + i] = m < 0 ? LF : m < na2 ? vbit(a, m * op.eb + i) : vbit(b, (m - na2) * op.eb + i); } setreg(f, op.dst, vb(std::move(r))); break; }
      case Instruction::ExtractValue: { auto *E = cast<ExtractValueInst>(op.I); Type *T = E->getAggregateOperand()->getType(); uint32_t off = 0; for (unsigned ix : E->indices()) { for (unsigned q = 0; q < ix; q++) { Type *S = isa<StructType>(T) ? cast<StructType>(T)->getElementType(q) : cast<ArrayType>(T)->getElementType(); uint32_t n, eb, ne; tyinfo(S, n, eb, ne); off += n; } T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType(); } Val v = sub_elem(opv(f, op.ops[0]), off, op.n); setreg(f, op.dst, std::move(v)); break; }
      case Instruction::InsertValue: { auto *E = cast<InsertValueInst>(op.I); Type *T = E->getAggregateOperand()->getType(); uint32_t off = 0; for (unsigned ix : E->indices()) { for (unsigned q = 0; q < ix; q++) { Type *S = isa<StructType>(T) ? cast<StructType>(T)->getElementType(q) : cast<ArrayType>(T)->getElementType(); uint32_t n, eb, ne; tyinfo(S, n, eb, ne); off += n; } T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType(); } vector<Lit> b = vbits(opv(f, op.ops[0])); const Val &e = opv(f, op.ops[1]); for (uint32_t i = 0; i < e.n; i++) b[off + i] = vbit(e, i); setreg(f, op.dst, vb(std::move(b))); break; }
      case Instruction::Fence: break;
      case Instruction::Call: {
        vector<Val> args; Function *cf = op.cf; size_t na2 = op.ops.size() - (cf ? 0 : 1);
        if (!cf) { const Val &p = opv(f, op.ops.back()); uint64_t a = conc(p, "function pointer"); int o = find_obj(a); if (o < 0 || !objfn.count(o)) unsup("indirect call"); cf = objfn[o]; }
        auto *CB = cast<CallBase>(op.I); for (size_t i = 0; i < na2; i++) { if (CB->getArgOperand(i)->getType()->isMetadataTy()) args.push_back(vc(1, 0)); else args.push_back(opv(f, op.ops[i])); }
        Val ret; St st = LIVE; string nm = cf->getName().str(); bool ok;
        if (cf->isIntrinsic()) ok = intrinsic(nm, args, op, ret, st);
        else if (!cf->isDeclaration()) { ok = true; if (!call_fn(cf, args, ret)) return DEAD; }
        else ok = external(nm, args, op, ret, st);
        if (!ok) unsup("call to unmodelled function " + nm);
        cur_inst = op.I;
        if (st == DEAD) return DEAD;
        if (op.dst >= 0) { if (!ret.n) ret = vc(op.n, 0); setreg(f, op.dst, std::move(ret)); }
        break; }
      default: {
        if (op.I->isBinaryOp()) { Val v = binop(op.opc, opv(f, op.ops[0]), opv(f, op.ops[1]), op.eb, op.ne, op.I); setreg(f, op.dst, std::move(v)); break; }
        unsup(string("instruction ") + op.I->getOpcodeName()); }
      }
    }
    if (nextbb < 0) unsup("fell off block");
    f.prev = bb; bb = nextbb;
  next:;
  }
}
static bool call_fn(Function *F, vector<Val> &args, Val &ret) {
  n_calls++; if (in_lib) lib_functions.insert(F->getName().str());
  if (++calldepth > 400) { if (!max_visits || !in_lib) unsup("call depth"); event("no-return", LT, "calls nested more than 400 deep"); calldepth--; return false; }
  Frame f; f.fi = get_finfo(F); f.regs.resize(f.fi->nregs); 
  for (size_t i = 0; i < f.fi->args.size(); i++) f.regs[f.fi->args[i]] = i < args.size() ? args[i] : Val();
  St s = run(f, 0, -1, false); calldepth--;
  for (int o : f.allocas) { if (logdepth) { /* keep storage: outer rollback may touch it */ objs[o].alive = LF; } else { objs[o].alive = LF; vector<Lit>().swap(objs[o].bits); objs[o].bits.assign(0, LF); } }
  if (s == DEAD) return false; ret = f.ret; return true;
}

// ------------------------------------------------------------------ driver
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static string model_json(const Model &m) {
  string s = "["; bool first = true;
  auto hex = [&](const Input &in, bool alt) { string h; for (size_t k = 0; k < in.bits.size() / 8; k++) { int v = 0; for (int j = 0; j < 8; j++) { Lit l = in.bits[k * 8 + j]; uint32_t n = lnode(l); if (alt) if (uint32_t c = taint_copy_of(n)) n = c; bool b = lconst(l) ? l : model_value(m, n) ^ (l & 1); v |= b << j; } char t[4]; snprintf(t, 4, "%02x", v); h += t; } return h; };
  for (auto &in : inputs) { if (!first) s += ","; first = false; s += "{\"name\":\"" + jesc(in.name) + "\",\"kind\":\"" + (in.heap ? "heap" : in.isrange ? "range" : "bytes") + "\",\"hex\":\"" + hex(in, false) + "\"";
    if (in.heap) s += ",\"alt\":\"" + hex(in, true) + "\""; s += "}"; }
  return s + "]";
}
// concrete evaluation: with --model, inputs are constants and everything folds
int main(int argc, char **argv) {
  string file, entry, out; uint64_t seed = 1; double budget = 120, tlim = 0; 
  for (int i = 1; i < argc; i++) { string a = argv[i];
    if (a == "-o") out = argv[++i]; else if (a == "--seed") seed = strtoull(argv[++i], 0, 0); else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--time") tlim = atof(argv[++i]);
    else if (a == "--uninit") { string m = argv[++i]; uninit_mode = m == "zero" ? 0 : m == "taint" ? 1 : 2; if (uninit_mode == 1) xag_andor_mux = true; }
    else if (a == "--andor") xag_andor_mux = true; else if (a == "--nosweep") xag_sweep = false; else if (a == "--noasserts") no_asserts = true; else if (a == "--alias") alias_on = true; else if (a == "--visits") max_visits = strtoull(argv[++i], 0, 0);
    else if (a == "--params") { string p = argv[++i]; size_t s = 0; while (s <= p.size()) { size_t e = p.find(',', s); if (e == string::npos) e = p.size(); if (e > s) params.push_back(strtoll(p.substr(s, e - s).c_str(), 0, 0)); s = e + 1; } }
    else if (file.empty()) file = a; else entry = a; }
  { struct rlimit rl; rl.rlim_cur = rl.rlim_max = RLIM_INFINITY; setrlimit(RLIMIT_STACK, &rl); if (!getenv("SYX_STACK")) { setenv("SYX_STACK", "1", 1); execv("/proc/self/exe", argv); } }
  t_start = now_s(); if (tlim) deadline = t_start + tlim;
  SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("symx", errs()); return 3; }
  M = mod.get(); DL = &M->getDataLayout(); BE = DL->isBigEndian(); PB = DL->getPointerSizeInBits();
  pagemap.assign(ATOP >> PSH, -1); xag_init(seed); objs.reserve(1 << 16);
  string status = "ok", msg; double t_exec = 0, t_dec = 0; string J;
  auto add = [&](const string &s) { J += s; };
  try {
    Function *F = M->getFunction(entry); if (!F) unsup("no entry " + entry);
    vector<Val> a; Val r; bool live = false;
    // what was found before an unsupported construct stopped the execution still counts
    try { live = call_fn(F, a, r); } catch (Unsupported &u) { status = "unsupported"; msg = u.msg + " at " + where_of(cur_inst); }
    // an input on the path where execution stopped: the driver runs it concretely
    if (status != "ok") { Model m; SatRes q = pc == LT ? R_UNKNOWN : decide(pc, &m, 20); if (q == R_SAT) add("\"stuck_model\":" + model_json(m) + ","); }
    t_exec = now_s() - t_start;
    double t1 = now_s(); double dl = t1 + budget; int nv = 0, nu = 0;
    add("\"entry_returned\":" + string(live ? "true" : "false") + ",\"asserts\":["); bool first = true;
    for (auto &kv : asserts) { Assert &A = kv.second; string st = "proved"; string ex; uint64_t sp = 0; Model m; int w = -1;
      for (size_t i = 0; i < A.bad.size() && w < 0; i++) { int p; if (sig_nonzero(A.bad[i], &p)) { model_from_pattern(p, m); w = i; } }
      if (w < 0) { // bits that depend on symbolic lengths or counts: split on their values first
        map<vector<int>, vector<size_t>> by; for (size_t i = 0; i < A.bad.size(); i++) { vector<int> g = range_groups(A.bad[i]); if (!g.empty()) by[g].push_back(i); }
        for (auto &kv : by) { const vector<int> &gs = kv.first; double prod = 1; for (int g : gs) { uint32_t lo, hi; range_bounds(g, lo, hi); prod *= (double)hi - lo + 1; } if (prod > 4096 || w >= 0) continue;
          vector<uint32_t> vals(gs.size()); for (size_t q = 0; q < gs.size(); q++) { uint32_t hi; range_bounds(gs[q], vals[q], hi); }
          vector<char> open(kv.second.size(), 0); bool more = true;
          while (more && w < 0 && dl - now_s() > 0) {
            std::unordered_map<uint32_t, Lit> memo; n_splits++;
            for (size_t q = 0; q < kv.second.size() && w < 0; q++) { Lit l = cofactor(A.bad[kv.second[q]], gs, vals, memo); double rem = dl - now_s(); if (l == LF || open[q]) continue; SatRes r = rem <= 0 ? R_UNKNOWN : decide(l, &m, std::min(rem, budget / 4));
              if (r == R_SAT) { range_model(gs, vals, m); w = kv.second[q]; } else if (r == R_UNKNOWN) { open[q] = 1; if (getenv("SYX_DEBUG")) fprintf(stderr, "open %s at %u\n", A.info[kv.second[q]].c_str(), vals[0]); } }
            more = false; for (size_t q = 0; q < gs.size(); q++) { uint32_t lo, hi; range_bounds(gs[q], lo, hi); if (vals[q] < hi) { vals[q]++; more = true; break; } vals[q] = lo; }
          }
          if (!more && w < 0) for (size_t q = 0; q < kv.second.size(); q++) if (!open[q]) { A.bad[kv.second[q]] = LF; }
        }
      }
      if (w < 0) for (size_t i = 0; i < A.bad.size(); i++) { double rem = dl - now_s(); SatRes q = rem <= 0 ? R_UNKNOWN : decide(A.bad[i], &m, std::min(rem, budget / 2)); if (q == R_UNSAT) sp++; else if (q == R_SAT) { w = i; break; } else { st = "unknown"; if (rem <= 0) break; } }
      if (w >= 0) { st = "violated"; nv++; ex = ",\"info\":\"" + jesc(A.info[w]) + "\",\"model\":" + model_json(m); } else if (st == "unknown") nu++;
      if (!first) add(","); first = false;
      add("{\"tag\":\"" + jesc(A.tag) + "\",\"bits\":" + std::to_string(A.bits) + ",\"reached\":" + (A.reached ? "true" : "false") + ",\"closed_by_sweeping\":" + std::to_string(A.structural) + ",\"closed_by_query\":" + std::to_string(sp) + ",\"open\":" + std::to_string(A.bad.size() - sp) + ",\"status\":\"" + st + "\"" + ex + "}"); }
    add("],\"events\":["); first = true;
    for (auto &kv : events) { Event &e = kv.second; Model m; double rem = dl - now_s(); SatRes q = e.cond == LT ? R_SAT : decide(e.cond, &m, std::max(5.0, std::min(rem, budget / 2)));
      string st = q == R_SAT ? "violated" : q == R_UNSAT ? "proved" : "unknown"; if (!first) add(","); first = false;
      add("{\"kind\":\"" + e.kind + "\",\"where\":\"" + jesc(e.where) + "\",\"detail\":\"" + jesc(e.detail) + "\",\"count\":" + std::to_string(e.count) + ",\"status\":\"" + st + "\"" + (q == R_SAT ? ",\"model\":" + model_json(m) : "") + "}"); }
    add("],\"reach\":{"); first = true;
    for (auto &kv : reaches) { if (!first) add(","); first = false; Model m; SatRes q = kv.second == LF ? R_UNSAT : decide(kv.second, &m, 20); add("\"" + jesc(kv.first) + "\":\"" + (q == R_SAT ? "reachable" : q == R_UNSAT ? "unreachable" : "unknown") + "\""); }
    add("}"); t_dec = now_s() - t1;
  } catch (Unsupported &u) { status = "unsupported"; msg = u.msg + " at " + where_of(cur_inst); J = "\"asserts\":[],\"events\":[],\"reach\":{}"; }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  string fl; for (auto &x : lib_functions) { if (!fl.empty()) fl += ","; fl += "\"" + jesc(x) + "\""; }
  uint64_t symbits = 0; for (auto &in : inputs) for (Lit l : in.bits) if (!lconst(l)) symbits++;
  char buf[2048]; snprintf(buf, sizeof buf, "\"stats\":{\"instructions\":%llu,\"forks\":%llu,\"case_splits\":%llu,\"symbolic_addresses\":%llu,\"calls\":%llu,\"symbolic_input_bits\":%llu,\"nodes\":%u,\"gates\":%llu,\"merges\":%llu,\"lemma_uses\":%llu,\"smt_queries\":%llu,\"smt_time\":%.3f,\"sat_queries\":%llu,\"sat_unsat\":%llu,\"sat_sat\":%llu,\"sat_unknown\":%llu,\"sat_time\":%.3f,\"exec_time\":%.2f,\"decide_time\":%.2f,\"maxrss_mb\":%ld}",
    (unsigned long long)n_instr, (unsigned long long)n_forks, (unsigned long long)n_splits, (unsigned long long)n_symaddr, (unsigned long long)n_calls, (unsigned long long)symbits, xag_nodes(), (unsigned long long)xstats.gates, (unsigned long long)xstats.merges, (unsigned long long)xstats.lemma_uses, (unsigned long long)xstats.smt_queries, xstats.smt_time, (unsigned long long)xstats.sat_queries, (unsigned long long)xstats.sat_unsat, (unsigned long long)xstats.sat_sat, (unsigned long long)xstats.sat_unknown, xstats.sat_time, t_exec, t_dec, ru.ru_maxrss / 1024);
  string full = "{\"status\":\"" + status + "\",\"message\":\"" + jesc(msg) + "\"," + J + ",\"functions\":[" + fl + "]," + buf + "}\n";
  if (out.empty()) fputs(full.c_str(), stdout); else { FILE *fp = fopen(out.c_str(), "w"); fputs(full.c_str(), fp); fclose(fp); }
  fflush(stdout); _exit(status == "ok" ? 0 : 2);
}
