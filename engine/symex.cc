// Symbolic executor for LLVM bitcode.  Usage:
//   symex MODULE.bc --entry=FN --cfg=N --tier=quick|thorough --time=SEC --mem=MB --out=DIR
// Explores every path of FN; inputs introduced with vp_symbolic() are SMT
// variables, feasibility of branches and truth of assertions are decided by Z3.
#include "expr.h"
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <atomic>
#include <thread>
#include <sstream>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
using namespace llvm;

static double now() {
  static auto t0 = std::chrono::steady_clock::now();
  return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}
[[noreturn]] static void die(const std::string& s) { fprintf(stderr, "ENGINE-ERROR: %s\n", s.c_str()); fflush(stderr); _exit(3); }

// ------------------------------------------------------------------ values
struct Val { u64 c = 0; E e = nullptr; };
static inline Val vc(u64 c) { Val v; v.c = c; return v; }
static inline Val ve(E e) { Val v; if (e->isConst() && e->w <= 64) v.c = e->lo; else v.e = e; return v; }
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

// ------------------------------------------------------------------ options / stats
static std::string optSkip;   // a void function whose calls are left out (its result is not looked at)
static std::string optEntry = "harness", optOut = ".", optTier = "quick";
static int optCfg = 0, optMaxErr = 3, optTrace = 0, optWitness = 12;
static double optTime = 120, optMem = 3000;
static u64 optSteps = 60000000; static unsigned optQTimeout = 10000;
struct Stats {
  u64 paths = 0, okPaths = 0, assumeKilled = 0, instrs = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, ordq = 0, liaq = 0, ordx = 0, cacheHits = 0, asserts = 0, assertsSym = 0,
      stepLimit = 0, unsupported = 0, fatalOk = 0, trivialBranches = 0, symBranches = 0, concretized = 0, pruned = 0;
  double solverTime = 0;
} S;
static std::map<std::string, u64> gReach, gMustReach;
static std::set<std::string> gUnsupported;
static std::set<const Function*> gExecuted;

// ------------------------------------------------------------------ memory
static const u64 OBASE = 0x100000;  // offset of an object's first byte within its 4 GB region
struct Obj {
  int refs = 1;
  u32 size = 0;
  bool freed = false, ro = false, heap = false, stack = false, isFn = false;
  uint8_t* data = nullptr;
  E* sym = nullptr;
  uint8_t* un = nullptr;   // per byte: uninitialised
  ~Obj() { free(data); free(sym); free(un); }
};
static Obj* newObj(u32 size, bool uninit) {
  Obj* o = new Obj;
  o->size = size;
  o->data = (uint8_t*)calloc(size ? size : 1, 1);
  if (uninit && size) { o->un = (uint8_t*)malloc(size); memset(o->un, 1, size); }
  return o;
}
static Obj* cloneObj(const Obj* s) {
  Obj* o = new Obj;
  o->size = s->size; o->freed = s->freed; o->ro = s->ro; o->heap = s->heap; o->stack = s->stack; o->isFn = s->isFn;
  o->data = (uint8_t*)malloc(s->size ? s->size : 1);
  memcpy(o->data, s->data, s->size);
  if (s->sym) { o->sym = (E*)malloc(sizeof(E) * s->size); memcpy(o->sym, s->sym, sizeof(E) * s->size); }
  if (s->un) { o->un = (uint8_t*)malloc(s->size); memcpy(o->un, s->un, s->size); }
  return o;
}
static void unref(Obj* o) { if (o && --o->refs == 0) delete o; }
struct Node { int refs = 1; int level; void* c[64]; };
static Node* newNode(int level) { Node* n = new Node; n->level = level; memset(n->c, 0, sizeof n->c); return n; }
static void unrefNode(Node* n) {
  if (!n || --n->refs) return;
  for (void* p : n->c) if (p) { if (n->level == 0) unref((Obj*)p); else unrefNode((Node*)p); }
  delete n;
}
static Node* cloneNode(Node* n) {
  Node* r = new Node; r->level = n->level;
  memcpy(r->c, n->c, sizeof n->c);
  for (void* p : r->c) if (p) { if (n->level == 0) ((Obj*)p)->refs++; else ((Node*)p)->refs++; }
  return r;
}
static const int LEVELS = 4;
static Obj gFreedStack, gFreedHeap;  // tombstones

struct Mem {
  Node* root = nullptr;
  u32 next = 1;
  Obj* get(u64 id) const {
    if (id >= next) return nullptr;
    Node* n = root;
    for (int l = LEVELS - 1; l > 0; l--) { n = (Node*)n->c[(id >> (6 * l)) & 63]; if (!n) return nullptr; }
    return (Obj*)n->c[id & 63];
  }
  Obj** slotW(u64 id) {
    if (root->refs > 1) { Node* c = cloneNode(root); root->refs--; root = c; }
    Node* n = root;
    for (int l = LEVELS - 1; l > 0; l--) {
      void*& p = n->c[(id >> (6 * l)) & 63];
      if (!p) p = newNode(l - 1);
      else if (((Node*)p)->refs > 1) { Node* c = cloneNode((Node*)p); ((Node*)p)->refs--; p = c; }
      n = (Node*)p;
    }
    return (Obj**)&n->c[id & 63];
  }
  Obj* getW(u64 id) {
    Obj** s = slotW(id);
    if ((*s)->refs > 1) { Obj* c = cloneObj(*s); (*s)->refs--; *s = c; }
    return *s;
  }
  u64 add(Obj* o) {
    u64 id = next++;
    if (id >= (1u << (6 * LEVELS))) die("object ids exhausted");
    *slotW(id) = o;
    return (id << 32) | OBASE;
  }
  void kill(u64 id, bool heap) {
    Obj** s = slotW(id);
    unref(*s);
    Obj* t = heap ? &gFreedHeap : &gFreedStack;
    t->refs++; t->freed = true;
    *s = t;
  }
};

// ------------------------------------------------------------------ decoded program
enum Op : uint8_t { O_BIN, O_FBIN, O_ICMP, O_FCMP, O_CASTZ, O_CASTS, O_TRUNC, O_COPY, O_FCAST, O_FNEG, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR,
  O_SWITCH, O_RET, O_CALL, O_SELECT, O_INSERTV, O_EXTELT, O_INSELT, O_SHUF, O_UNREACH, O_RMW, O_CMPXCHG, O_NOP, O_UNSUP };
struct FnInfo;
struct Copy { int dst, src, n; };
struct Edge { int pc; std::vector<Copy> copies; };
struct SwCase { u64 v; int edge; };
struct SlotT { u32 off; u16 w; };  // memory layout of one slot
struct GepTerm { int idx; unsigned w; s64 scale; };
struct Arg { int idx; int n; u32 byval; };
struct DInst {
  Op op; uint8_t sub = 0; u16 w = 0, w2 = 0;
  int dst = -1, a = 0, b = 0, c = 0, n = 1;
  int e0 = 0, e1 = 0;
  s64 imm = 0;
  std::vector<SwCase> sw;
  std::vector<SlotT> lay;
  std::vector<GepTerm> terms;
  std::vector<Arg> args;
  Function* callee = nullptr;
  FnInfo* cf = nullptr;
  int builtin = -1;
  const Instruction* I = nullptr;
};
struct FnInfo {
  Function* F; bool decoded = false;
  int nslots = 0; std::vector<std::pair<int, int>> argSlots;
  std::vector<DInst> code; std::vector<Edge> edges;
  bool isVarArg = false;
};
static std::vector<Val> gC;  // constant pool
static Module* gM; static const DataLayout* gDL;
static std::unordered_map<const Function*, FnInfo*> gFns;
static std::unordered_map<const GlobalValue*, u64> gGAddr;
static std::unordered_map<u64, Function*> gFnById;

struct Frame {
  int refs = 1; FnInfo* f; int pc = 0; int retDst = -1; int retN = 0;
  std::vector<Val> r; std::vector<u32> allocas; u64 va = 0;
};
struct Input { E e; unsigned nbytes; };
struct ObsRec { const char* tag; E e; };
struct State {
  std::vector<Frame*> st; Mem mem;
  std::vector<E> pc; ModelP model;
  std::vector<std::pair<E, E>> eqs; std::unordered_map<E, E> memo; bool memoOk = false; u64 eqBloom = 0;
  std::vector<Input> inputs; std::vector<ObsRec> obs; std::set<std::string> reach;
  u64 steps = 0; u64 stepLimit = 0; bool stepLimitErr = false; int expectFatal = 0; bool usedUninit = false; u32 nvars = 0; u32 nuninit = 0; u32 depth = 0;
  Frame& top() { return *st.back(); }
};
static E uninitVar(State& s) {  // the k-th uninitialised byte read on a path is the same variable on every path
  static std::vector<u32> ids;
  u32 k = s.nuninit++;
  if (k >= ids.size()) ids.push_back(newVar("uninit", 8));
  return mkVar(ids[k]);
}
static std::vector<State*> gWork;
static bool gStop = false, gTimeout = false;
static double gDeadline = 1e18;
static u64 gErrors = 0;

static State* cloneState(State& s) {
  State* n = new State;
  n->st = s.st;
  for (Frame* f : n->st) f->refs++;
  // keep top frames unique
  Frame* t = new Frame(*s.st.back()); t->refs = 1; s.st.back()->refs--; n->st.back() = t;
  n->mem = s.mem; n->mem.root->refs++;
  n->pc = s.pc; n->model = s.model; n->eqs = s.eqs; n->eqBloom = s.eqBloom;
  n->inputs = s.inputs; n->obs = s.obs; n->reach = s.reach;
  n->steps = s.steps; n->stepLimit = s.stepLimit; n->stepLimitErr = s.stepLimitErr; n->expectFatal = s.expectFatal; n->usedUninit = s.usedUninit; n->nvars = s.nvars; n->nuninit = s.nuninit; n->depth = s.depth + 1;
  return n;
}
static void freeFrame(Frame* f) { if (--f->refs == 0) delete f; }
static void freeState(State* s) {
  for (Frame* f : s->st) freeFrame(f);
  unrefNode(s->mem.root);
  delete s;
}

// ------------------------------------------------------------------ solver
static E simp(State& s, E e) {
  if (s.eqs.empty() || e->isConst()) return e;
  if (!(e->vars->bloom & s.eqBloom)) return e;
  if (!s.memoOk) { s.memo.clear(); for (auto& p : s.eqs) s.memo[p.first] = p.second; s.memoOk = true; }
  return substExpr(e, s.memo);
}
static void addEq(State& s, E e, E c) {
  // only record substitutions that make progress; simplest useful forms
  if (e->isConst()) return;
  s.eqs.push_back({e, c}); s.eqBloom |= e->vars->bloom; s.memoOk = false;
}
static void addConstraint(State& s, E c) {
  if (c->isConst()) return;
  if (c->k == K_AND && c->w == 1) { addConstraint(s, c->kid[0]); addConstraint(s, c->kid[1]); return; }
  for (E x : s.pc) if (x == c) return;
  s.pc.push_back(c);
  if (c->k == K_EQ && c->kid[1]->isConst()) addEq(s, c->kid[0], c->kid[1]);
  else if (c->k == K_NOT) addEq(s, c->kid[0], mkFalse());
  else addEq(s, c, mkTrue());
}
struct CacheEnt { int res; std::vector<std::pair<u32, u64>> asg; };
struct VecHash { size_t operator()(const std::vector<u32>& v) const { u64 h = v.size(); for (u32 x : v) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 32; } return h; } };
static std::unordered_map<std::vector<u32>, CacheEnt, VecHash> gCache;
static Z3_solver gInc = nullptr; static std::unordered_map<u32, Z3_ast> gLit; static u64 gIncN = 0; static unsigned gIncTimeout = 2000;
static void setTimeoutP(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(gZ); Z3_params_inc_ref(gZ, p);
  Z3_params_set_uint(gZ, p, Z3_mk_string_symbol(gZ, "timeout"), ms);
  Z3_solver_set_params(gZ, s, p); Z3_params_dec_ref(gZ, p);
}
static int optSelFork = 1;
static int optSolver = 1, optOrd = 1, optLia = 2; static ModelP ordBase;
static std::atomic<int> gInZ3{0}; static std::atomic<double> gZ3Start{0};

// --- order constraints -------------------------------------------------------
// Path conditions that only compare values (x < y, x <= c, x == y and boolean
// combinations) form integer difference logic.  This decides them exactly by
// case splitting plus negative-cycle detection; anything else goes to Z3.
namespace ord {
static std::vector<E> nodes; static std::unordered_map<E, int> idx;
static std::vector<E> const* orig; static ModelP base; static ModelP sol; static int budget;
static const s128 NEG = -((s128)1 << 100);
static const int MAXN = 40;
static int node(E e, s128& off) {
  off = 0;
  for (;;) {
    if (e->k == K_ZEXT) { e = e->kid[0]; continue; }
    if (e->k == K_ADD && e->w <= 64 && e->kid[1]->isConst()) {
      E x = e->kid[0]; u64 c = e->kid[1]->lo, top = maskw(e->w);
      if (c <= top / 2 && x->rmax <= top - c) { off += c; e = x; continue; }
      u64 nc = (0 - c) & top;
      if (c > top / 2 && x->rmin >= nc) { off -= nc; e = x; continue; }
    }
    break;
  }
  if (e->isConst()) { if (e->w > 64 && e->hi) return -1; off += (s128)e->lo; return 0; }
  if (e->w > 64) return -1;
  auto it = idx.find(e); if (it != idx.end()) return it->second;
  int n = nodes.size(); nodes.push_back(e); idx[e] = n; return n;
}
// D[a*n+b]: greatest known lower bound of val(b) - val(a)
struct St { std::vector<s128> D; std::vector<std::pair<E, bool>> pend; std::vector<E> opq; int n; };
static bool isAtom(E a) { return (a->k == K_ULT || a->k == K_ULE || a->k == K_EQ) && a->kid[0]->w != 1 && a->kid[0]->w <= 64 && !a->fp; }
static const std::vector<E>& atomsOf(E e);
static bool pureAtom(E a) { return isAtom(a) && atomsOf(a->kid[0]).empty() && atomsOf(a->kid[1]).empty(); }
static bool add(St& st, int a, int b, s128 w) {   // val(b) >= val(a) + w; false on conflict
  int n = st.n; auto* D = st.D.data();
  if (D[b * n + a] > NEG && D[b * n + a] + w > 0) return false;
  if (w <= D[a * n + b]) return true;
  for (int i = 0; i < n; i++) {
    s128 l = D[i * n + a]; if (l <= NEG) continue;
    for (int j = 0; j < n; j++) { s128 r = D[b * n + j]; if (r <= NEG) continue; if (l + w + r > D[i * n + j]) D[i * n + j] = l + w + r; }
  }
  return true;
}
// Order atoms anywhere below e (also inside if-then-else conditions).
static std::unordered_map<E, std::vector<E>*> atomMemo;
static const std::vector<E>& atomsOf(E e) {
  static std::vector<E> none;
  if (e->isConst() || e->k == K_VAR) return none;
  auto it = atomMemo.find(e); if (it != atomMemo.end()) return *it->second;
  auto* r = new std::vector<E>;
  atomMemo[e] = r;
  std::set<E> seen;
  auto take = [&](E a) { if (seen.insert(a).second && r->size() < 64) r->push_back(a); };
  for (unsigned i = 0; i < e->nk; i++) for (E a : atomsOf(e->kid[i])) take(a);
  if (e->w == 1 && isAtom(e)) {
    bool ok = true;   // comparisons over if-then-else values are not atoms of their own
    for (unsigned i = 0; i < 2; i++) { E x = e->kid[i]; while (x->k == K_ZEXT) x = x->kid[0]; if (x->w > 64 || !atomsOf(x).empty()) ok = false; }
    if (ok) take(e);
  }
  return *r;
}
static void collect(E e) { for (E a : atomsOf(e)) { s128 o; node(a->kid[0], o); node(a->kid[1], o); } }
// 1 entailed, 0 refuted, -1 open
static int value(const St& st, E e) {
  if (e->isConst()) return (int)e->lo;
  if (e->w == 1 && e->k == K_NOT) { int v = value(st, e->kid[0]); return v < 0 ? -1 : !v; }
  if (e->w == 1 && (e->k == K_AND || e->k == K_OR)) {
    int u = value(st, e->kid[0]), v = value(st, e->kid[1]), dom = e->k == K_OR;
    if (u == dom || v == dom) return dom;
    return u < 0 || v < 0 ? -1 : !dom;
  }
  if (!pureAtom(e)) return -1;
  s128 ox, oy; int x = node(e->kid[0], ox), y = node(e->kid[1], oy);
  if (x < 0 || y < 0 || x >= st.n || y >= st.n) return -1;
  s128 lo = st.D[x * st.n + y], hi = st.D[y * st.n + x];   // y - x >= lo, x - y >= hi
  bool hl = lo > NEG, hh = hi > NEG; lo += oy - ox; hi += ox - oy;  // (y+oy) - (x+ox) >= lo
  if (e->k == K_ULT) return hl && lo >= 1 ? 1 : hh && hi >= 0 ? 0 : -1;
  if (e->k == K_ULE) return hl && lo >= 0 ? 1 : hh && hi >= 1 ? 0 : -1;
  return hl && hh && lo >= 0 && hi >= 0 ? 1 : (hl && lo >= 1) || (hh && hi >= 1) ? 0 : -1;
}
static void grow(St& st) {
  int n = nodes.size(), o = st.n; std::vector<s128> D(n * n, NEG);
  for (int i = 0; i < o; i++) for (int j = 0; j < o; j++) D[i * n + j] = st.D[i * o + j];
  st.D.swap(D); st.n = n;
  for (int i = o; i < n; i++) { st.D[i * n + i] = 0; for (int j = 0; j < i; j++) { st.D[j * n + i] = (j ? st.D[j * n] : 0) + (s128)nodes[i]->rmin; st.D[i * n + j] = (j ? st.D[j] : 0) - (s128)nodes[i]->rmax; } }
}
static bool push(E e, bool pos, St& st);
static bool atom(E a, bool pos, St& st) {
  s128 ox, oy; int x = node(a->kid[0], ox), y = node(a->kid[1], oy);
  if (x < 0 || y < 0) { st.opq.push_back(pos ? a : mkNot(a)); return true; }
  if ((int)nodes.size() > MAXN) { st.opq.push_back(pos ? a : mkNot(a)); return true; }
  if (std::max(x, y) >= st.n) grow(st);
  auto ge = [&](int p, s128 po, int q, s128 qo, s128 d) { return add(st, q, p, qo - po + d); };  // p+po >= q+qo+d
  if (a->k == K_ULT) return pos ? ge(y, oy, x, ox, 1) : ge(x, ox, y, oy, 0);
  if (a->k == K_ULE) return pos ? ge(y, oy, x, ox, 0) : ge(x, ox, y, oy, 1);
  if (pos) return ge(y, oy, x, ox, 0) && ge(x, ox, y, oy, 0);
  st.pend.push_back({a, false}); return true;
}
static bool push(E e, bool pos, St& st) {
  while (e->k == K_NOT && e->w == 1) { e = e->kid[0]; pos = !pos; }
  if (e->isConst()) return (bool)e->lo == pos;
  if (e->w == 1 && ((e->k == K_AND && pos) || (e->k == K_OR && !pos))) return push(e->kid[0], pos, st) && push(e->kid[1], pos, st);
  if (e->w == 1 && (e->k == K_AND || e->k == K_OR)) { st.pend.push_back({e, pos}); return true; }
  if (pureAtom(e)) return atom(e, pos, st);
  st.opq.push_back(pos ? e : mkNot(e)); return true;   // decided by substituting the order atoms it depends on
}
static int solve(St st) {
  if (--budget < 0) return -1;
  int n = st.n;
  for (bool ch = true; ch;) {   // unit propagation over the pending disjunctions
    ch = false;
    for (size_t i = 0; i < st.pend.size(); i++) {
      E e = st.pend[i].first; bool pos = st.pend[i].second;
      int v = value(st, e);
      if (v >= 0) { if ((bool)v != pos) return 0; st.pend.erase(st.pend.begin() + i); i--; continue; }
      if (e->k == K_EQ) {  // x != y with one side of the order already excluded
        s128 ox, oy; int x = node(e->kid[0], ox), y = node(e->kid[1], oy);
        s128 lo = st.D[x * st.n + y], hi = st.D[y * st.n + x];
        bool l0 = lo > NEG && lo + oy - ox >= 0, h0 = hi > NEG && hi + ox - oy >= 0;
        if (l0) { if (!add(st, x, y, ox - oy + 1)) return 0; } else if (h0) { if (!add(st, y, x, oy - ox + 1)) return 0; } else continue;
        st.pend.erase(st.pend.begin() + i); i--; ch = true; continue;
      }
      int a = value(st, e->kid[0]), b = value(st, e->kid[1]);
      E rest = a >= 0 && (bool)a != pos ? e->kid[1] : b >= 0 && (bool)b != pos ? e->kid[0] : nullptr;
      if (rest) { st.pend.erase(st.pend.begin() + i); i--; if (!push(rest, pos, st)) return 0; ch = true; }
    }
  }
  ModelP m = newModel(base.get());
  std::vector<s128> d(n, 0);
  n = st.n; d.assign(n, 0);
  for (int i = 1; i < n; i++) { d[i] = st.D[i]; if (nodes[i]->k == K_VAR) { if (nodes[i]->aux >= m->v.size()) m->v.resize(nodes[i]->aux + 1, 0); m->v[nodes[i]->aux] = (u64)d[i]; } }
  bool all = true;
  for (E c : *orig) if (!evalExpr(c, *m)) { all = false; break; }
  if (all) { sol = m; return 1; }
  for (size_t i = 0; i < st.pend.size(); i++) {
    E e = st.pend[i].first; bool pos = st.pend[i].second;
    bool v;
    if (e->k == K_EQ) { s128 ox, oy; int x = node(e->kid[0], ox), y = node(e->kid[1], oy); v = (d[x] + ox == d[y] + oy) == pos; }
    else v = (bool)evalExpr(e, *m) == pos;
    if (v) continue;
    St l = st; l.pend.erase(l.pend.begin() + i);
    St r = l;
    bool lok, rok;
    if (e->k == K_EQ) {
      s128 ox, oy; int x = node(e->kid[0], ox), y = node(e->kid[1], oy);
      lok = add(l, x, y, ox - oy + 1); rok = add(r, y, x, oy - ox + 1);
    } else {
      E a = e->kid[0], b = e->kid[1];
      lok = push(a, pos, l); rok = push(a, !pos, r) && push(b, pos, r);
    }
    int a = lok ? solve(std::move(l)) : 0; if (a == 1) return 1;
    int b = rok ? solve(std::move(r)) : 0; if (b == 1) return 1;
    return a == 0 && b == 0 ? 0 : -1;
  }
  for (size_t i = 0; i < st.opq.size(); i++) {
    E c = st.opq[i];
    if (evalExpr(c, *m)) continue;
    std::unordered_map<E, E> memo; E open = nullptr;
    for (E a : atomsOf(c)) { int v = value(st, a); if (v >= 0) memo[a] = mkConst(v, 1); }
    E c2 = memo.empty() ? c : substExpr(c, memo);
    if (c2->isConst()) { if (!c2->lo) return 0; continue; }
    if (c2 != c) { St l = st; l.opq.erase(l.opq.begin() + i); return push(c2, true, l) ? solve(std::move(l)) : 0; }
    for (E a : atomsOf(c)) if (value(st, a) < 0) {
      s128 ox, oy; int x = node(a->kid[0], ox), y = node(a->kid[1], oy);
      if (x < 0 || y < 0 || (int)nodes.size() > MAXN) continue;
      open = a; break;
    }
    if (!open) return -1;
    St l = st, r = st;
    bool lok = push(open, true, l), rok = push(open, false, r);
    int a = lok ? solve(std::move(l)) : 0; if (a == 1) return 1;
    int b = rok ? solve(std::move(r)) : 0; if (b == 1) return 1;
    return a == 0 && b == 0 ? 0 : -1;
  }
  return -1;
}
static int decide(const std::vector<E>& cs, const ModelP& b) {
  nodes.clear(); idx.clear(); nodes.push_back(nullptr); orig = &cs; base = b; sol = nullptr; budget = 3000;
  for (E c : cs) collect(c);
  int n = nodes.size();
  if (n < 2 || n > MAXN) return -1;
  St st; st.n = n; st.D.assign(n * n, NEG);
  for (int i = 0; i < n; i++) st.D[i * n + i] = 0;
  for (int i = 1; i < n; i++) { st.D[i] = nodes[i]->rmin; st.D[i * n] = -(s128)nodes[i]->rmax; }
  for (int i = 1; i < n; i++) for (int j = 1; j < n; j++) if (i != j) st.D[i * n + j] = st.D[i * n] + st.D[j];
  for (E c : cs) if (!push(c, true, st)) return 0;
  return solve(std::move(st));
}
}  // namespace ord

// --- integer form ------------------------------------------------------------
// Sums and constant multiples of bounded values, compared: handed to Z3 as
// integer arithmetic (exact: wrap-around is either excluded by the value ranges
// or spelled out as a case).  Anything else stays in the bit-vector theory.
namespace lia {
// An integer congruent to the bit vector's value modulo 2^width, and its bounds.
struct T { Z3_ast a; s128 lo, hi; };
static std::unordered_map<E, T> memo;   // a == nullptr: no integer form
static std::unordered_map<u32, Z3_ast> vars; static std::unordered_map<E, Z3_ast> bmemo;
static bool arith(E e, std::unordered_map<E, bool>& seen) {
  if (e->isConst() || e->k == K_VAR) return false;
  auto it = seen.find(e); if (it != seen.end()) return it->second;
  bool r = (e->w > 1 && (e->k == K_MUL || e->k == K_UDIV || e->k == K_UREM || ((e->k == K_ADD || e->k == K_SUB) && !e->kid[0]->isConst() && !e->kid[1]->isConst())));
  for (unsigned i = 0; !r && i < e->nk; i++) r = arith(e->kid[i], seen);
  return seen[e] = r;
}
static const s128 kBig = (s128)1 << 122;
static Z3_ast num(s128 x) { bool n = x < 0; u128 v = n ? -(u128)x : (u128)x; char b[48]; int i = 47; b[i] = 0; do { b[--i] = '0' + (int)(v % 10); v /= 10; } while (v); if (n) b[--i] = '-'; return Z3_mk_numeral(gZ, b + i, Z3_mk_int_sort(gZ)); }
static Z3_ast boolOf(E e);
static T none() { return T{nullptr, 0, 0}; }
static Z3_ast add2(Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_add(gZ, 2, v); }
static Z3_ast sub2(Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_sub(gZ, 2, v); }
static Z3_ast mul2(Z3_ast x, Z3_ast y) { Z3_ast v[2] = {x, y}; return Z3_mk_mul(gZ, 2, v); }
static s128 fdiv(s128 a, s128 m) { s128 q = a / m; return q * m > a ? q - 1 : q; }
static T shift(const T& t, s128 d) { return d ? T{sub2(t.a, num(d)), t.lo - d, t.hi - d} : t; }
// the representative in [base, base + M), if t's bounds span at most two such windows
static T canon(const T& t, s128 base, s128 M) {
  if (!t.a) return t;
  s128 k = fdiv(t.lo - base, M), k2 = fdiv(t.hi - base, M);
  if (k == k2) return shift(t, k * M);
  if (k2 != k + 1) return none();
  s128 cut = base + k2 * M;   // values at or above it belong to the second window
  return T{Z3_mk_ite(gZ, Z3_mk_ge(gZ, t.a, num(cut)), shift(t, k2 * M).a, shift(t, k * M).a), base, base + M - 1};
}
static T term(E e);
static T uns(E e) { T t = canon(term(e), 0, (s128)1 << e->w); if (t.a && e->w <= 64) { t.lo = std::max(t.lo, (s128)e->rmin); t.hi = std::min(t.hi, (s128)e->rmax); } return t; }
static T sgn(E e) { s128 M = (s128)1 << e->w; return canon(term(e), -(M / 2), M); }
static T fit(T t) { return t.a && t.lo > -kBig && t.hi < kBig ? t : none(); }
static bool mulb(s128 a, s128 c, s128* r) { return !__builtin_mul_overflow(a, c, r) && *r > -kBig && *r < kBig; }
static T scale(const T& x, s128 c) {
  s128 a, b; if (!x.a || !mulb(x.lo, c, &a) || !mulb(x.hi, c, &b)) return none();
  return T{mul2(x.a, num(c)), std::min(a, b), std::max(a, b)};
}
static T term0(E e) {
  if (e->fp || e->w > 120) return none();
  s128 M = (s128)1 << e->w;
  if (e->isConst()) { s128 v = (s128)e->cval(); if (e->w > 1 && v >= M / 2) v -= M; return T{num(v), v, v}; }
  if (e->w == 1) {
    Z3_ast b = boolOf(e); if (!b) return none();
    return T{Z3_mk_ite(gZ, b, num(1), num(0)), 0, 1};
  }
  switch (e->k) {
    case K_VAR: {
      Z3_ast& v = vars[e->aux];
      if (!v) { char n[32]; snprintf(n, sizeof n, "i%u", e->aux); v = Z3_mk_const(gZ, Z3_mk_string_symbol(gZ, n), Z3_mk_int_sort(gZ)); }
      return T{v, 0, M - 1};
    }
    case K_ZEXT: return uns(e->kid[0]);
    case K_SEXT: return sgn(e->kid[0]);
    case K_CONCAT: {
      T h = scale(term(e->kid[0]), (s128)1 << e->kid[1]->w), l = uns(e->kid[1]); if (!h.a || !l.a) return none();
      return fit(T{e->kid[1]->isConst() && !e->kid[1]->cval() ? h.a : add2(h.a, l.a), h.lo + l.lo, h.hi + l.hi});
    }
    case K_EXTRACT: {
      if (!e->aux) return term(e->kid[0]);
      T t = uns(e->kid[0]); if (!t.a) return none();
      s128 k = (s128)1 << e->aux;
      return T{Z3_mk_div(gZ, t.a, num(k)), t.lo / k, t.hi / k};
    }
    case K_ITE: {
      Z3_ast c = boolOf(e->kid[0]); if (!c) return none();
      T x = term(e->kid[1]), y = term(e->kid[2]); if (!x.a || !y.a) return none();
      return T{Z3_mk_ite(gZ, c, x.a, y.a), std::min(x.lo, y.lo), std::max(x.hi, y.hi)};
    }
    case K_ADD: case K_SUB: {
      T x = term(e->kid[0]), y = term(e->kid[1]); if (!x.a || !y.a) return none();
      return fit(e->k == K_ADD ? T{add2(x.a, y.a), x.lo + y.lo, x.hi + y.hi} : T{sub2(x.a, y.a), x.lo - y.hi, x.hi - y.lo});
    }
    case K_MUL: case K_SHL: {
      E a = e->kid[0], b = e->kid[1]; if (e->k == K_MUL && a->isConst()) std::swap(a, b);
      if (!b->isConst()) return none();
      if (e->k == K_SHL) return b->cval() < e->w ? scale(term(a), (s128)1 << (unsigned)b->cval()) : none();
      return scale(term(a), term(b).lo);
    }
    case K_UDIV: case K_LSHR: {
      if (!e->kid[1]->isConst()) return none();
      T x = uns(e->kid[0]); s128 d = (s128)e->kid[1]->cval(); if (!x.a) return none();
      if (e->k == K_LSHR) { if (d >= e->w) return none(); d = (s128)1 << (unsigned)d; }
      if (d <= 0) return none();
      return T{Z3_mk_div(gZ, x.a, num(d)), x.lo / d, x.hi / d};
    }
    case K_UREM: {
      if (!e->kid[1]->isConst()) return none();
      T x = uns(e->kid[0]); s128 d = (s128)e->kid[1]->cval(); if (!x.a || d <= 0) return none();
      return T{Z3_mk_mod(gZ, x.a, num(d)), 0, d - 1};
    }
    default: return none();
  }
}
static T term(E e) {
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  T t = term0(e);
  if (t.a && e->w <= 64 && !e->isConst()) {   // tighten by the known range, if the bounds lie in one window
    s128 M = (s128)1 << e->w, k = fdiv(t.lo, M);
    if (fdiv(t.hi, M) == k) { t.lo = std::max(t.lo, (s128)e->rmin + k * M); t.hi = std::min(t.hi, (s128)e->rmax + k * M); }
  }
  memo[e] = t; return t;
}
static Z3_ast boolOf0(E e) {
  if (e->isConst()) return e->lo ? Z3_mk_true(gZ) : Z3_mk_false(gZ);
  if (e->fp) return nullptr;
  switch (e->k) {
    case K_NOT: { Z3_ast a = boolOf(e->kid[0]); return a ? Z3_mk_not(gZ, a) : nullptr; }
    case K_AND: case K_OR: case K_XOR: {
      Z3_ast v[2] = {boolOf(e->kid[0]), boolOf(e->kid[1])}; if (!v[0] || !v[1]) return nullptr;
      return e->k == K_AND ? Z3_mk_and(gZ, 2, v) : e->k == K_OR ? Z3_mk_or(gZ, 2, v) : Z3_mk_xor(gZ, v[0], v[1]);
    }
    case K_ITE: { Z3_ast c = boolOf(e->kid[0]), a = boolOf(e->kid[1]), b = boolOf(e->kid[2]); return c && a && b ? Z3_mk_ite(gZ, c, a, b) : nullptr; }
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: {
      if (e->k == K_EQ && e->kid[0]->w == 1) { Z3_ast a = boolOf(e->kid[0]), b = boolOf(e->kid[1]); return a && b ? Z3_mk_iff(gZ, a, b) : nullptr; }
      if (e->k == K_EQ) {
        T x = term(e->kid[0]), y = term(e->kid[1]); if (!x.a || !y.a || e->kid[0]->w > 120) return nullptr;
        s128 M = (s128)1 << e->kid[0]->w, lo = x.lo - y.hi, hi = x.hi - y.lo, k = -fdiv(-lo, M);   // multiples of M between lo and hi
        if (k * M > hi) return Z3_mk_false(gZ);
        if (hi / M - k > 3) return nullptr;
        Z3_ast v[8]; unsigned n = 0; for (; k * M <= hi; k++) v[n++] = Z3_mk_eq(gZ, x.a, k ? add2(y.a, num(k * M)) : y.a);
        return n == 1 ? v[0] : Z3_mk_or(gZ, n, v);
      }
      bool sg = e->k == K_SLT || e->k == K_SLE; if (e->kid[0]->w > 120) return nullptr;
      T x = sg ? sgn(e->kid[0]) : uns(e->kid[0]), y = sg ? sgn(e->kid[1]) : uns(e->kid[1]); if (!x.a || !y.a) return nullptr;
      return e->k == K_ULT || e->k == K_SLT ? Z3_mk_lt(gZ, x.a, y.a) : Z3_mk_le(gZ, x.a, y.a);
    }
    default: return nullptr;
  }
}
static Z3_ast boolOf(E e) {
  auto it = bmemo.find(e); if (it != bmemo.end()) return it->second;
  return bmemo[e] = boolOf0(e);
}
static int decide(const std::vector<E>& cs, const std::set<u32>& vs, const ModelP& base, ModelP* out) {
  static std::unordered_map<E, bool> seen;
  bool any = false; for (E c : cs) any |= arith(c, seen);
  if (!any) return -1;
  std::vector<Z3_ast> as;
  for (E c : cs) { Z3_ast a = boolOf(c); if (!a) { if (optTrace > 2) fprintf(stderr, "LIA-FAIL %s\n", exprStr(c, 9).c_str()); return -1; } as.push_back(a); }
  Z3_solver s = Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, "QF_LIA")); Z3_solver_inc_ref(gZ, s); setTimeoutP(s, optLia * 1000);
  for (u32 v : vs) { Z3_ast x = term(mkVar(v)).a; Z3_solver_assert(gZ, s, Z3_mk_ge(gZ, x, num(0))); Z3_solver_assert(gZ, s, Z3_mk_le(gZ, x, num(maskw(gVars[v].w)))); }
  for (Z3_ast a : as) Z3_solver_assert(gZ, s, a);
  gZ3Start = now(); gInZ3 = 3; Z3_lbool r = Z3_solver_check(gZ, s); gInZ3 = 0;
  int res = r == Z3_L_FALSE ? 0 : -1;
  if (r == Z3_L_TRUE) {
    Z3_model zm = Z3_solver_get_model(gZ, s); Z3_model_inc_ref(gZ, zm);
    ModelP m = newModel(base.get()); bool ok = true;
    for (u32 v : vs) {
      Z3_ast o = nullptr; u64 val = 0;
      if (Z3_model_eval(gZ, zm, vars[v], true, &o)) ok &= Z3_get_numeral_uint64(gZ, o, &val);
      if (v >= m->v.size()) m->v.resize(v + 1, 0);
      m->v[v] = val;
    }
    Z3_model_dec_ref(gZ, zm);
    for (E c : cs) ok = ok && evalExpr(c, *m);
    if (ok) { *out = m; res = 1; } else if (optTrace) fprintf(stderr, "LIA model rejected\n");
  }
  Z3_solver_dec_ref(gZ, s);
  return res;
}
}  // namespace lia

// 1 sat, 0 unsat, -1 unknown
static int z3Check(const std::vector<E>& cs, std::vector<std::pair<u32, u64>>& asg) {
  double t0 = now();
  if (t0 > gDeadline + 5) return -1;
  S.queries++;
  bool fp = false;
  std::set<u32> vars;
  for (E c : cs) { fp |= c->fp; for (u32 v : c->vars->v) vars.insert(v); }
  if (!fp && optOrd) {
    int o = ord::decide(cs, ordBase);
    if (o < 0 && optTrace > 2) { fprintf(stderr, "ORD-FAIL budget %d nodes %zu\n", ord::budget, ord::nodes.size()); for (E c : cs) fprintf(stderr, "    %s\n", exprStr(c, 9).c_str()); }
    if (o >= 0) {
      if (o == 1) { for (u32 v : vars) asg.push_back({v, ord::sol->get(v)}); S.sat++; } else S.unsat++;
      ord::sol = nullptr; S.ordq++;
      S.solverTime += now() - t0;
      static bool busy = false; static double xt = 0;
      if (!busy && (optOrd == 2 || (S.ordq % 64 == 0 && xt < 0.05 * now() + 0.3))) {  // sampled: the same query put to Z3
        busy = true; int keep = optOrd; optOrd = 0; double x0 = now(); Stats sv = S; std::vector<std::pair<u32, u64>> a2;
        int z = z3Check(cs, a2);
        optOrd = keep; busy = false; S = sv; xt += now() - x0;
        if (z >= 0) { if (z != o) die("order procedure disagrees with Z3"); S.ordx++; }
      }
      return o;
    }
  }
  if (!fp && optLia) {
    ModelP lm; int o = lia::decide(cs, vars, ordBase, &lm);
    if (o >= 0) {
      if (o == 1) { for (u32 v : vars) asg.push_back({v, lm->get(v)}); S.sat++; } else S.unsat++;
      S.liaq++; S.solverTime += now() - t0;
      static bool busy = false; static double xt = 0;
      auto hard = [](E c) { std::vector<E> st{c}; int n = 0; while (!st.empty() && ++n < 200) { E x = st.back(); st.pop_back(); if (x->k == K_EQ && x->kid[0]->w > 1 && !x->kid[0]->isConst() && !x->kid[1]->isConst()) return true; if (x->w == 1) for (unsigned i = 0; i < x->nk; i++) st.push_back(x->kid[i]); } return n >= 200; };   // equations between sums take bit vectors too long
      if (!busy && o == 0 && (optLia == 9 || (S.liaq % 64 == 0 && xt < 0.03 * now() + 0.3 && std::none_of(cs.begin(), cs.end(), hard)))) {  // sampled: the bit-vector form of the same query
        busy = true; int keep = optLia, ko = optOrd; optLia = optOrd = 0; double x0 = now(); Stats sv = S; std::vector<std::pair<u32, u64>> a2; unsigned qt = optQTimeout; optQTimeout = 1000;
        int z = z3Check(cs, a2);
        optQTimeout = qt; optLia = keep; optOrd = ko; busy = false; S = sv; xt += now() - x0;
        if (z >= 0) { if (z != o) die("integer form disagrees with the bit-vector form"); S.ordx++; }
      }
      if (optTrace > 1) fprintf(stderr, "lia %zu -> %d %.3fs\n", cs.size(), o, now() - t0);
      return o;
    }
  }
  Z3_lbool r = Z3_L_UNDEF; Z3_model m = nullptr; Z3_solver used = nullptr;
  if (!fp && optSolver == 1) {
    if (!gInc || gIncN > 3000) {
      if (gInc) Z3_solver_dec_ref(gZ, gInc);
      gInc = Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, "QF_BV")); Z3_solver_inc_ref(gZ, gInc);
      setTimeoutP(gInc, gIncTimeout); gLit.clear(); gIncN = 0;
    }
    std::vector<Z3_ast> as;
    for (E c : cs) {
      Z3_ast& l = gLit[c->id];
      if (!l) {
        char n[32]; snprintf(n, sizeof n, "p%u", c->id);
        l = Z3_mk_const(gZ, Z3_mk_string_symbol(gZ, n), Z3_mk_bool_sort(gZ));
        Z3_solver_assert(gZ, gInc, Z3_mk_implies(gZ, l, zBool(c)));
        gIncN++;
      }
      as.push_back(l);
    }
    gZ3Start = now(); gInZ3 = 1; r = Z3_solver_check_assumptions(gZ, gInc, as.size(), as.data()); gInZ3 = 0;
    used = gInc;
    if (r == Z3_L_UNDEF) { Z3_solver_dec_ref(gZ, gInc); gInc = nullptr; used = nullptr; }
  }
  Z3_solver one = nullptr;
  if (r == Z3_L_UNDEF) {
    one = fp ? Z3_mk_solver(gZ) : Z3_mk_solver_for_logic(gZ, Z3_mk_string_symbol(gZ, "QF_BV"));
    Z3_solver_inc_ref(gZ, one); setTimeoutP(one, optQTimeout);
    for (E c : cs) Z3_solver_assert(gZ, one, zBool(c));
    gZ3Start = now(); gInZ3 = 2; r = Z3_solver_check(gZ, one); used = one; gInZ3 = 0;
  }
  int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (res == 1) {
    m = Z3_solver_get_model(gZ, used); Z3_model_inc_ref(gZ, m);
    for (u32 v : vars) {
      Z3_ast o = nullptr; u64 val = 0;
      if (Z3_model_eval(gZ, m, zBV(mkVar(v)), true, &o)) Z3_get_numeral_uint64(gZ, o, &val);
      asg.push_back({v, val});
    }
    Z3_model_dec_ref(gZ, m);
  }
  if (one) Z3_solver_dec_ref(gZ, one);
  if (res == 1) S.sat++; else if (res == 0) S.unsat++; else S.unknown++;
  S.solverTime += now() - t0;
  if (optTrace > 1) { fprintf(stderr, "query %zu constraints -> %d %.3fs\n", cs.size(), res, now() - t0); if (now() - t0 > 2) for (E c : cs) fprintf(stderr, "    slow: %s\n", exprStr(c, 9).c_str()); }
  return res;
}
// Is (path constraints && cond) satisfiable?  On SAT *out is a full model.
static int checkSat(State& s, E cond, ModelP* out) {
  if (cond->isConst()) { if (!cond->lo) return 0; if (out) *out = s.model; return 1; }
  // independence slice
  static std::vector<char> inset; inset.assign(gVars.size(), 0);
  for (u32 v : cond->vars->v) inset[v] = 1;
  std::vector<char> used(s.pc.size(), 0);
  std::vector<E> cs{cond};
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) {
      bool hit = false;
      for (u32 v : s.pc[i]->vars->v) if (inset[v]) { hit = true; break; }
      if (hit) { used[i] = 1; ch = true; cs.push_back(s.pc[i]); for (u32 v : s.pc[i]->vars->v) inset[v] = 1; }
    }
  }
  std::vector<u32> key; for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = gCache.find(key);
  if (it == gCache.end()) {
    CacheEnt ce; ordBase = s.model; ce.res = z3Check(cs, ce.asg); ordBase = nullptr;
    it = gCache.emplace(std::move(key), std::move(ce)).first;
  } else S.cacheHits++;
  if (it->second.res == 1 && out) {
    ModelP m = newModel(s.model.get());
    for (auto& p : it->second.asg) { if (p.first >= m->v.size()) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; }
    // sanity: the model must satisfy the condition
    if (!evalExpr(cond, *m)) {
      if (cond->fp) return -1;  // NaN payload mismatch and similar
      die("model does not satisfy query: " + exprStr(cond));
    }
    *out = m;
  }
  return it->second.res;
}

// ------------------------------------------------------------------ paths ends
struct PathEnd {};  // thrown to stop the current state
static void writeJsonStr(FILE* f, const std::string& s) {
  fputc('"', f);
  for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
  fputc('"', f);
}
static std::string shortFn(const Function* F) { std::string d = demangle(F->getName().str()); if (d.size() > 140) d = d.substr(0, 137) + "..."; return d; }
static std::string locOf(const Instruction* I) {
  if (!I) return "?";
  const DebugLoc& d = I->getDebugLoc();
  if (!d) return "?";
  std::string f = d->getFilename().str();
  return f + ":" + std::to_string(d->getLine());
}
static std::string backtrace(State& s) {
  std::string r; int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 14; i--, n++) {
    Frame* f = s.st[i];
    int pc = std::max(0, std::min<int>(f->pc - (i == (int)s.st.size() - 1 ? 0 : 1), f->f->code.size() - 1));
    r += shortFn(f->f->F) + " at " + locOf(f->f->code[pc].I) + "\n";
  }
  return r;
}
static std::vector<uint8_t> inputBytes(State& s, const Model& m) {
  std::vector<uint8_t> b;
  for (auto& in : s.inputs) { u64 v = (u64)evalExpr(in.e, m); for (unsigned i = 0; i < in.nbytes; i++) b.push_back(v >> (8 * i)); }
  return b;
}
static FILE* gWit; static u64 gWitN = 0; static FILE* gErrF;
static std::set<std::string> gErrSeen;
static void dumpBytes(const std::string& path, const std::vector<uint8_t>& b) {
  FILE* f = fopen(path.c_str(), "wb"); if (f) { if (!b.empty()) fwrite(b.data(), 1, b.size(), f); fclose(f); }
}
static bool uninitDep(State& s, E extra) {
  auto has = [](E e) { for (u32 v : e->vars->v) if (gVars[v].name == "uninit") return true; return false; };
  for (E c : s.pc) if (has(c)) return true;
  return extra && has(extra);
}
static void reportError(State& s, const std::string& kind, const std::string& msg, ModelP m, E extra = nullptr) {
  std::string bt = backtrace(s);
  std::string key = kind + "|" + msg + "|" + bt.substr(0, bt.find('\n'));
  if (!gErrSeen.insert(key).second) return;
  std::string path = optOut + "/cex_" + std::to_string(gErrors) + ".bin";
  auto b = inputBytes(s, *m);
  dumpBytes(path, b);
  std::string ins;
  for (auto& in : s.inputs) { ins += " "; if (in.e->k == K_VAR) ins += gVars[in.e->aux].name; ins += "=" + std::to_string((u64)evalExpr(in.e, *m)); if (ins.size() > 1500) break; }
  fprintf(gErrF, "{\"kind\":"); writeJsonStr(gErrF, kind); fprintf(gErrF, ",\"msg\":"); writeJsonStr(gErrF, msg);
  fprintf(gErrF, ",\"file\":"); writeJsonStr(gErrF, path); fprintf(gErrF, ",\"uninit\":%d,\"inputs\":", (int)uninitDep(s, extra)); writeJsonStr(gErrF, ins);
  fprintf(gErrF, ",\"bt\":"); writeJsonStr(gErrF, bt); fprintf(gErrF, "}\n"); fflush(gErrF);
  fprintf(stderr, "CEX %s: %s\n  inputs:%s\n%s", kind.c_str(), msg.c_str(), ins.c_str(), bt.c_str());
  if (++gErrors >= (u64)optMaxErr) gStop = true;
}
static void witness(State& s, const char* end) {
  // sparse sample of completed paths, re-run natively by the driver
  u64 n = S.paths;
  if (gWitN >= (u64)optWitness * 8) return;
  if (gWitN >= (u64)optWitness / 3 && (n & (n - 1)) != 0 && n % 997 != 0) return;
  if (uninitDep(s, nullptr)) return;
  std::string path = optOut + "/wit_" + std::to_string(gWitN++) + ".bin";
  dumpBytes(path, inputBytes(s, *s.model));
  fprintf(gWit, "{\"file\":"); writeJsonStr(gWit, path); fprintf(gWit, ",\"end\":\"%s\",\"obs\":[", end);
  bool first = true;
  for (auto& o : s.obs) { fprintf(gWit, "%s[\"%s\",%llu]", first ? "" : ",", o.tag, (unsigned long long)(u64)evalExpr(o.e, *s.model)); first = false; }
  fprintf(gWit, "]}\n");
}
static void endPath(State& s, const char* how) {
  S.paths++;
  if (!strcmp(how, "ok") || !strcmp(how, "fatal-ok") || !strcmp(how, "stop")) { S.okPaths++; for (auto& r : s.reach) gReach[r]++; witness(s, how); }
  throw PathEnd();
}
static void errorEnd(State& s, const std::string& kind, const std::string& msg) {
  S.paths++;
  reportError(s, kind, msg, s.model);
  throw PathEnd();
}
static void unsupported(State& s, const std::string& msg) {
  S.paths++; S.unsupported++;
  if (gUnsupported.insert(msg).second) fprintf(stderr, "UNSUPPORTED: %s\n%s", msg.c_str(), backtrace(s).c_str());
  throw PathEnd();
}

// decide a symbolic condition: returns the side taken by this state; forks the other side when feasible.
// 'onOther' prepares the forked state (already has the constraint added).
template <class F> static bool branch(State& s, E c, F onOther) {
  c = simp(s, c);
  if (c->isConst()) return c->lo;
  S.symBranches++;
  E nc = mkNot(c);
  for (E x : s.pc) { if (x == c) return true; if (x == nc) return false; }
  bool side = evalExpr(c, *s.model) != 0;
  E mine = side ? c : nc, other = side ? nc : c;
  ModelP m;
  int r = checkSat(s, other, &m);
  if (r == 1) {
    State* n = cloneState(s);
    n->model = m;
    addConstraint(*n, other);
    onOther(*n, !side);
    gWork.push_back(n);
    S.forks++;
  } else if (r == -1) { S.pruned++; }
  if (r != 0) addConstraint(s, mine);
  return side;
}
// Fix a symbolic value to a concrete one; other values re-execute the current instruction.
static u64 concretize(State& s, const Val& v, unsigned w) {
  if (!v.e) return v.c;
  E e = simp(s, v.e);
  if (e->isConst()) return e->lo;
  u64 val = (u64)evalExpr(e, *s.model);
  E c = mkEq(e, mkConst(val, e->w));
  S.concretized++;
  branch(s, c, [](State&, bool) {});
  return val;
}

// ------------------------------------------------------------------ memory access
static Val readSlot(State& s, Obj* o, u64 off, unsigned w, u64 id) {
  unsigned n = (w + 7) / 8;
  bool fast = true;
  if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { fast = false; break; }
  if (fast && o->un) for (unsigned i = 0; i < n; i++) if (o->un[off + i]) { fast = false; break; }
  if (fast) {
    if (w <= 64) { u64 v = 0; memcpy(&v, o->data + off, n); return vc(v & maskw(w)); }
    u128 v = 0; memcpy(&v, o->data + off, n); return ve(mkConst(v, w));
  }
  if (o->un) {
    bool need = false;
    for (unsigned i = 0; i < n; i++) if (o->un[off + i]) need = true;
    if (need) {
      o = s.mem.getW(id);
      if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
      for (unsigned i = 0; i < n; i++) if (o->un[off + i]) {
        o->un[off + i] = 0;
        o->sym[off + i] = uninitVar(s);
        s.usedUninit = true;
      }
    }
  }
  E acc = nullptr;
  for (int i = n - 1; i >= 0; i--) {
    E b = (o->sym && o->sym[off + i]) ? o->sym[off + i] : mkConst(o->data[off + i], 8);
    acc = acc ? mkConcat(acc, b) : b;
  }
  if (w < n * 8) acc = mkExtract(acc, 0, w);
  return ve(acc);
}
static void writeSlot(Obj* o, u64 off, const Val& v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (o->un) memset(o->un + off, 0, n);
  if (!v.e || v.e->isConst()) {
    if (v.e) { u128 x = v.e->cval(); memcpy(o->data + off, &x, n); }
    else memcpy(o->data + off, &v.c, n);
    if (o->sym) memset(o->sym + off, 0, n * sizeof(E));
    return;
  }
  if (!o->sym) o->sym = (E*)calloc(o->size, sizeof(E));
  E e = v.e->w < n * 8 ? mkZExt(v.e, n * 8) : v.e;
  for (unsigned i = 0; i < n; i++) {
    E b = mkExtract(e, 8 * i, 8);
    if (b->isConst()) { o->data[off + i] = b->lo; o->sym[off + i] = nullptr; }
    else o->sym[off + i] = b;
  }
}
struct Ref { u64 id; u64 off; E symOff; Obj* o; };
static std::string memErr(u64 addr, Obj* o, u64 n, bool write) {
  char b[200]; const char* rw = write ? "write" : "read";
  if (!o) snprintf(b, sizeof b, "invalid %s of %llu bytes at 0x%llx%s", rw, (unsigned long long)n, (unsigned long long)addr, addr < 0x10000 ? " (null)" : "");
  else if (o->freed) snprintf(b, sizeof b, "%s of %llu bytes after free", rw, (unsigned long long)n);
  else if (o->isFn) snprintf(b, sizeof b, "%s of code", rw);
  else snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at offset %lld of a %u-byte %s object", rw, (unsigned long long)n, (long long)((s64)(addr & 0xffffffff) - (s64)OBASE), o->size, o->stack ? "stack" : o->heap ? "heap" : "global");
  return b;
}
static Ref resolve(State& s, const Val& p, u64 n, bool write, bool allowSym) {
  Ref r; r.symOff = nullptr;
  u64 addr;
  E e = nullptr;
  if (p.e) { e = simp(s, p.e); if (e->isConst()) { addr = e->lo; e = nullptr; } else addr = (u64)evalExpr(e, *s.model); }
  else addr = p.c;
  r.id = addr >> 32; r.off = (addr & 0xffffffff) - OBASE;
  r.o = s.mem.get(r.id);
  bool bad = !r.o || r.o->freed || r.o->isFn || r.off > r.o->size || n > r.o->size - r.off;
  if (!bad && write && r.o->ro) { if (e) concretize(s, ve(e), 64); errorEnd(s, "memory", "write to read-only object"); }
  if (bad) {
    if (e) concretize(s, ve(e), 64);  // fork the good addresses away
    errorEnd(s, "memory", memErr(addr, r.o, n, write));
  }
  if (e) {
    u64 base = addr - r.off;
    E off = mkBin(K_SUB, e, mkConst(base, 64));
    E inb = mkBin(K_ULE, off, mkConst(r.o->size - n, 64));
    bool side = branch(s, inb, [](State&, bool) {});
    if (!side) die("resolve: model outside object");
    off = simp(s, off);
    if (off->isConst()) { r.off = off->lo; return r; }
    if (allowSym) {
      unsigned tz = trailingZeros(off); u64 step = tz >= 20 ? (1u << 20) : (1ull << tz);
      u64 lo = off->rmin, hi = std::min<u64>(off->rmax, r.o->size - n);
      lo = (lo + step - 1) / step * step;
      u64 cnt = hi >= lo ? (hi - lo) / step + 1 : 0;
      if (cnt <= (write ? 24 : 96)) { r.symOff = off; return r; }
    }
    r.off = concretize(s, ve(off), 64);
  }
  return r;
}
static Val loadAt(State& s, const Ref& r, u64 delta, unsigned w, u64 n) {
  if (!r.symOff) return readSlot(s, s.mem.get(r.id), r.off + delta, w, r.id);
  Obj* o = s.mem.get(r.id);
  unsigned tz = trailingZeros(r.symOff); u64 step = tz >= 20 ? (1u << 20) : (1ull << tz);
  u64 lo = (r.symOff->rmin + step - 1) / step * step, hi = std::min<u64>(r.symOff->rmax, o->size - n);
  E acc = nullptr;
  for (u64 k = lo; k <= hi; k += step) {
    E x = toE(readSlot(s, s.mem.get(r.id), k + delta, w, r.id), w);
    acc = acc ? mkIte(mkEq(r.symOff, mkConst(k, 64)), x, acc) : x;
  }
  return ve(acc);
}
static void storeAt(State& s, const Ref& r, u64 delta, const Val& v, unsigned w, u64 n) {
  Obj* o = s.mem.getW(r.id);
  if (!r.symOff) { writeSlot(o, r.off + delta, v, w); return; }
  unsigned tz = trailingZeros(r.symOff); u64 step = tz >= 20 ? (1u << 20) : (1ull << tz);
  u64 lo = (r.symOff->rmin + step - 1) / step * step, hi = std::min<u64>(r.symOff->rmax, o->size - n);
  E nv = toE(v, w);
  for (u64 k = lo; k <= hi; k += step) {
    E old = toE(readSlot(s, o, k + delta, w, r.id), w);
    o = s.mem.getW(r.id);
    writeSlot(o, k + delta, ve(mkIte(mkEq(r.symOff, mkConst(k, 64)), nv, old)), w);
  }
}
static void copyBytes(State& s, const Val& d, const Val& sr, u64 n) {
  if (!n) return;
  Ref b = resolve(s, sr, n, false, false);
  Ref a = resolve(s, d, n, true, false);
  Obj* src = s.mem.get(b.id);
  Obj* dst = s.mem.getW(a.id);
  src = s.mem.get(b.id);
  if (src == dst) {  // memmove within one object
    memmove(dst->data + a.off, src->data + b.off, n);
    if (dst->sym) memmove(dst->sym + a.off, dst->sym + b.off, n * sizeof(E));
    if (dst->un) memmove(dst->un + a.off, dst->un + b.off, n);
    return;
  }
  memcpy(dst->data + a.off, src->data + b.off, n);
  if (src->sym) {
    bool any = false; for (u64 i = 0; i < n; i++) if (src->sym[b.off + i]) { any = true; break; }
    if (any && !dst->sym) dst->sym = (E*)calloc(dst->size, sizeof(E));
    if (dst->sym) memcpy(dst->sym + a.off, src->sym + b.off, n * sizeof(E));
  } else if (dst->sym) memset(dst->sym + a.off, 0, n * sizeof(E));
  if (src->un) {
    bool any = false; for (u64 i = 0; i < n; i++) if (src->un[b.off + i]) { any = true; break; }
    if (any && !dst->un) dst->un = (uint8_t*)calloc(dst->size, 1);
    if (dst->un) memcpy(dst->un + a.off, src->un + b.off, n);
  } else if (dst->un) memset(dst->un + a.off, 0, n);
}
static std::string cstr(State& s, u64 addr) {
  std::string r; u64 id = addr >> 32, off = (addr & 0xffffffff) - OBASE;
  Obj* o = s.mem.get(id);
  while (o && off < o->size && r.size() < 400) {
    uint8_t c;
    if (o->sym && o->sym[off]) c = (uint8_t)evalExpr(o->sym[off], *s.model); else c = o->data[off];
    if (!c) break;
    r += (char)c; off++;
  }
  return r;
}

// ------------------------------------------------------------------ types & constants
static int nslots(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* st = dyn_cast<StructType>(t)) { int n = 0; for (Type* e : st->elements()) n += nslots(e); return n; }
  if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nslots(at->getElementType());
  if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
  return 1;
}
static unsigned scalarW(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isHalfTy()) return 16;
  return 0;
}
static void layout(Type* t, u32 off, std::vector<SlotT>& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = gDL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) layout(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    u32 es = gDL->getTypeAllocSize(at->getElementType());
    for (u64 i = 0; i < at->getNumElements(); i++) layout(at->getElementType(), off + i * es, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    unsigned w = scalarW(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({off + i * ((w + 7) / 8), (u16)w});
  } else out.push_back({off, (u16)scalarW(t)});
}
static u64 globalAddr(const GlobalValue* g);
static void constSlots(const Constant* c, std::vector<Val>& out);
static u64 constInt(const Constant* c) { std::vector<Val> v; constSlots(c, v); if (v.size() != 1) die("constInt"); return v[0].e ? v[0].e->lo : v[0].c; }
static void constSlots(const Constant* c, std::vector<Val>& out) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) out.push_back(vc(ci->getZExtValue()));
    else if (w <= 128) { const uint64_t* d = ci->getValue().getRawData(); out.push_back(ve(mkConst(((u128)d[1] << 64) | d[0], w))); }
    else die("constant wider than 128 bits");
    return;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() <= 64) out.push_back(vc(b.getZExtValue()));
    else out.push_back(ve(mkConst(((u128)b.getRawData()[1] << 64) | b.getRawData()[0], b.getBitWidth())));
    return;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(vc(0)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
    std::vector<SlotT> l; layout(t, 0, l);
    for (auto& x : l) out.push_back(x.w <= 64 ? vc(0) : ve(mkConst(0, x.w)));
    return;
  }
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < ds->getNumElements(); i++) constSlots(ds->getElementAsConstant(i), out); return; }
  if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constSlots(cast<Constant>(c->getOperand(i)), out); return; }
  if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(vc(globalAddr(g))); return; }
  if (auto* x = dyn_cast<ConstantExpr>(c)) {
    switch (x->getOpcode()) {
      case Instruction::GetElementPtr: {
        u64 base = constInt(x->getOperand(0));
        APInt off(64, 0);
        if (!cast<GEPOperator>(x)->accumulateConstantOffset(*gDL, off)) die("constant GEP");
        out.push_back(vc(base + off.getZExtValue())); return;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
        u64 v = constInt(x->getOperand(0)); unsigned w = scalarW(t); out.push_back(vc(v & maskw(w))); return; }
      case Instruction::Trunc: out.push_back(vc(constInt(x->getOperand(0)) & maskw(scalarW(t)))); return;
      case Instruction::Add: out.push_back(vc((constInt(x->getOperand(0)) + constInt(x->getOperand(1))) & maskw(scalarW(t)))); return;
      case Instruction::Sub: out.push_back(vc((constInt(x->getOperand(0)) - constInt(x->getOperand(1))) & maskw(scalarW(t)))); return;
      case Instruction::ICmp: {
        auto p = (CmpInst::Predicate)x->getPredicate(); u64 a = constInt(x->getOperand(0)), b = constInt(x->getOperand(1));
        bool r = p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : p == CmpInst::ICMP_UGT ? a > b : false;
        out.push_back(vc(r)); return; }
      default: break;
    }
    std::string str; raw_string_ostream os(str); x->print(os); die("constant expr " + os.str());
  }
  if (auto* d = dyn_cast<DSOLocalEquivalent>(c)) { out.push_back(vc(globalAddr(d->getGlobalValue()))); return; }
  std::string str; raw_string_ostream os(str); c->print(os); die("constant " + os.str());
}
static Mem gInitMem;
static u64 globalAddr(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) return constInt(a->getAliasee());
  auto it = gGAddr.find(g);
  if (it != gGAddr.end()) return it->second;
  die("global without address: " + g->getName().str());
}
static void initGlobals() {
  gInitMem.root = newNode(LEVELS - 1);
  gInitMem.next = 16;
  for (Function& f : *gM) {
    Obj* o = newObj(1, false); o->isFn = true; o->ro = true;
    u64 a = gInitMem.add(o); gGAddr[&f] = a; gFnById[a >> 32] = &f;
  }
  for (GlobalVariable& g : gM->globals()) {
    u64 sz = g.getValueType()->isSized() ? gDL->getTypeAllocSize(g.getValueType()).getFixedValue() : 8;
    if (g.isDeclaration()) sz = std::max<u64>(sz, 256);
    gGAddr[&g] = gInitMem.add(newObj(sz, false));
  }
  for (GlobalVariable& g : gM->globals()) if (g.hasInitializer()) {
    Obj* o = gInitMem.getW(gGAddr[&g] >> 32);
    const Constant* c = g.getInitializer();
    if (g.getName().starts_with("llvm.")) continue;
    if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); memcpy(o->data, r.data(), r.size()); }
    else if (!isa<ConstantAggregateZero>(c)) {
      std::vector<Val> v; constSlots(c, v); std::vector<SlotT> l; layout(c->getType(), 0, l);
      if (v.size() != l.size()) die("initialiser slots");
      for (size_t i = 0; i < v.size(); i++) writeSlot(o, l[i].off, v[i], l[i].w);
    }
    if (g.isConstant()) o->ro = true;
  }
}

// ------------------------------------------------------------------ builtins
typedef void (*BFn)(State&, const DInst&, std::vector<Val>&);
static std::vector<BFn> gB; static std::vector<std::string> gBName; static std::unordered_map<std::string, int> gBIdx;
static void defB(const char* n, BFn f) { gBIdx[n] = gB.size(); gB.push_back(f); gBName.push_back(n); }
static inline void setR(State& s, const DInst& I, const Val& v) { if (I.dst >= 0) s.top().r[I.dst] = v; }
static u64 allocate(State& s, u64 n, bool uninit) {
  if (n > (1u << 28)) { errorEnd(s, "alloc", "allocation of " + std::to_string(n) + " bytes"); }
  Obj* o = newObj(n, uninit); o->heap = true;
  return s.mem.add(o);
}
static void doFree(State& s, u64 a) {
  if (!a) return;
  Obj* o = s.mem.get(a >> 32);
  if (!o || !o->heap || (a & 0xffffffff) != OBASE) errorEnd(s, "memory", o && o->freed ? "double free" : "free of a non-heap pointer");
  s.mem.kill(a >> 32, true);
}
static void b_malloc(State& s, const DInst& I, std::vector<Val>& a) { u64 n = concretize(s, a[0], 64); setR(s, I, vc(allocate(s, n, true))); }
static void b_alignednew(State& s, const DInst& I, std::vector<Val>& a) { u64 n = concretize(s, a[0], 64); setR(s, I, vc(allocate(s, n, true))); }
static void b_alignedalloc(State& s, const DInst& I, std::vector<Val>& a) { u64 n = concretize(s, a[1], 64); setR(s, I, vc(allocate(s, n, true))); }
static void b_calloc(State& s, const DInst& I, std::vector<Val>& a) { u64 n = concretize(s, a[0], 64), m = concretize(s, a[1], 64); setR(s, I, vc(allocate(s, n * m, false))); }
static void b_free(State& s, const DInst& I, std::vector<Val>& a) { u64 p = concretize(s, a[0], 64); doFree(s, p); }
static void b_realloc(State& s, const DInst& I, std::vector<Val>& a) {
  u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
  u64 q = allocate(s, n, true);
  if (p) { Obj* o = s.mem.get(p >> 32); if (!o || o->freed || !o->heap || (p & 0xffffffff) != OBASE) errorEnd(s, "memory", "realloc of invalid pointer"); copyBytes(s, vc(q), vc(p), std::min<u64>(n, o->size)); doFree(s, p); }
  setR(s, I, vc(q));
}
static void b_memcpy(State& s, const DInst& I, std::vector<Val>& a) { u64 n = concretize(s, a[2], 64); copyBytes(s, a[0], a[1], n); setR(s, I, a[0]); }
static void b_memset(State& s, const DInst& I, std::vector<Val>& a) {
  u64 n = concretize(s, a[2], 64);
  if (n) {
    Ref r = resolve(s, a[0], n, true, false);
    Obj* o = s.mem.getW(r.id);
    if (!a[1].e) { memset(o->data + r.off, (int)a[1].c, n); if (o->sym) memset(o->sym + r.off, 0, n * sizeof(E)); if (o->un) memset(o->un + r.off, 0, n); }
    else { E b = mkExtract(a[1].e, 0, 8); for (u64 i = 0; i < n; i++) writeSlot(o, r.off + i, ve(b), 8); }
  }
  setR(s, I, a[0]);
}
static void cmpImpl(State& s, const DInst& I, std::vector<Val>& a, bool eqOnly) {
  u64 n = concretize(s, a[2], 64);
  if (!n) { setR(s, I, vc(0)); return; }
  Ref x = resolve(s, a[0], n, false, false), y = resolve(s, a[1], n, false, false);
  E res = nullptr; E eq = mkTrue();
  // leading concrete difference decides
  std::vector<std::pair<E, E>> bs;
  for (u64 i = 0; i < n; i++) {
    Val p = readSlot(s, s.mem.get(x.id), x.off + i, 8, x.id), q = readSlot(s, s.mem.get(y.id), y.off + i, 8, y.id);
    E pe = toE(p, 8), qe = toE(q, 8);
    if (pe == qe) continue;
    bs.push_back({pe, qe});
    if (mkEq(pe, qe)->isConst()) break;
  }
  if (eqOnly) {
    for (auto& b : bs) eq = mkBin(K_AND, eq, mkEq(b.first, b.second));
    setR(s, I, ve(mkZExt(mkNot(eq), 32))); return;
  }
  res = mkConst(0, 32);
  for (int i = (int)bs.size() - 1; i >= 0; i--)
    res = mkIte(mkEq(bs[i].first, bs[i].second), res, mkIte(mkBin(K_ULT, bs[i].first, bs[i].second), mkConst((u128)-1, 32), mkConst(1, 32)));
  setR(s, I, ve(res));
}
static void b_memcmp(State& s, const DInst& I, std::vector<Val>& a) { cmpImpl(s, I, a, false); }
static void b_bcmp(State& s, const DInst& I, std::vector<Val>& a) { cmpImpl(s, I, a, true); }
static void b_nop(State& s, const DInst& I, std::vector<Val>& a) { for (int i = 0; i < I.n && I.dst >= 0; i++) s.top().r[I.dst + i] = vc(0); }
static void symbolic(State& s, std::vector<Val>& a, bool whole) {
  u64 n = concretize(s, a[1], 64); u64 p = concretize(s, a[0], 64);
  std::string name = cstr(s, a[2].c);
  Ref r = resolve(s, vc(p), n, true, false);
  Obj* o = s.mem.getW(r.id);
  // variables are position based: the k-th variable of a path with the same name and width is shared between paths
  static std::map<std::tuple<u32, std::string, unsigned>, u32> ids;
  auto mk = [&](unsigned w) { auto key = std::make_tuple(s.nvars++, name, w); auto it = ids.find(key); if (it == ids.end()) it = ids.emplace(key, newVar(name, w)).first; return mkVar(it->second); };
  if (n == 1 || n == 2 || n == 4 || n == 8 || (whole && n < 8)) { E v = mk(n * 8); s.inputs.push_back({v, (unsigned)n}); writeSlot(o, r.off, ve(v), n * 8); }
  else for (u64 i = 0; i < n; i++) { E v = mk(8); s.inputs.push_back({v, 1}); writeSlot(o, r.off + i, ve(v), 8); }
}
static void b_symbolic(State& s, const DInst& I, std::vector<Val>& a) { symbolic(s, a, false); }
static void b_num(State& s, const DInst& I, std::vector<Val>& a) { symbolic(s, a, true); }
static void b_assume(State& s, const DInst& I, std::vector<Val>& a) {
  if (!a[0].e) { if (!(a[0].c & 0xffffffff)) { S.assumeKilled++; throw PathEnd(); } return; }
  E c = simp(s, mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))));
  if (c->isConst()) { if (!c->lo) { S.assumeKilled++; throw PathEnd(); } return; }
  if (!evalExpr(c, *s.model)) {
    ModelP m; int r = checkSat(s, c, &m);
    if (r == -1) { S.pruned++; throw PathEnd(); }
    if (r == 0) { S.assumeKilled++; throw PathEnd(); }
    s.model = m;
  }
  addConstraint(s, c);
}
static void b_assert(State& s, const DInst& I, std::vector<Val>& a) {
  S.asserts++;
  std::string msg = cstr(s, a[1].c);
  if (!a[0].e) { if (!(a[0].c & 0xffffffff)) errorEnd(s, "assert", msg); return; }
  E c = simp(s, mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))));
  if (c->isConst()) { if (!c->lo) errorEnd(s, "assert", msg); return; }
  S.assertsSym++;
  E nc = mkNot(c);
  bool holds = evalExpr(c, *s.model) != 0;
  ModelP m;
  int r = holds ? checkSat(s, nc, &m) : 1;
  if (!holds) m = s.model;
  if (r == 0) return;
  if (r == -1) { S.pruned++; addConstraint(s, c); return; }
  reportError(s, "assert", msg, m, nc);
  if (!holds) { ModelP m2; if (checkSat(s, c, &m2) != 1) { S.paths++; throw PathEnd(); } s.model = m2; }
  addConstraint(s, c);
}
static std::unordered_map<std::string, const char*> gTags;
static const char* tagOf(const std::string& t) { auto it = gTags.find(t); if (it == gTags.end()) it = gTags.emplace(t, strdup(t.c_str())).first; return it->second; }
static void b_observe(State& s, const DInst& I, std::vector<Val>& a) { s.obs.push_back({tagOf(cstr(s, a[0].c)), toE(a[1], 64)}); }
static void b_reach(State& s, const DInst& I, std::vector<Val>& a) { s.reach.insert(cstr(s, a[0].c)); }
static void b_mustreach(State& s, const DInst& I, std::vector<Val>& a) { gMustReach[cstr(s, a[0].c)]++; }
static void b_tier(State& s, const DInst& I, std::vector<Val>& a) { setR(s, I, vc(optTier == "thorough")); }
static void b_cfg(State& s, const DInst& I, std::vector<Val>& a) { setR(s, I, vc(optCfg)); }
static void b_engine(State& s, const DInst& I, std::vector<Val>& a) { setR(s, I, vc(1)); }
static void b_conc(State& s, const DInst& I, std::vector<Val>& a) { setR(s, I, vc(concretize(s, a[0], 64))); }
static void b_expectfatal(State& s, const DInst& I, std::vector<Val>& a) { s.expectFatal = (int)a[0].c; }
static void b_steplimit(State& s, const DInst& I, std::vector<Val>& a) { s.stepLimit = s.steps + a[0].c; s.stepLimitErr = a[1].c; if (!a[0].c) s.stepLimit = 0; }
static void b_fatal(State& s, const DInst& I, std::vector<Val>& a) {
  if (s.expectFatal) { S.fatalOk++; endPath(s, "fatal-ok"); }
  errorEnd(s, "fatal", a.empty() ? "abort" : cstr(s, a[0].c));
}
static void b_abort(State& s, const DInst& I, std::vector<Val>& a) {
  if (s.expectFatal) { S.fatalOk++; endPath(s, "fatal-ok"); }
  errorEnd(s, "fatal", "abort/exit called: " + I.callee->getName().str());
}
static void b_throw(State& s, const DInst& I, std::vector<Val>& a) {
  errorEnd(s, "throw", I.callee->getName().str() + (a.empty() ? "" : ": " + cstr(s, a[0].c)));
}
static void b_stop(State& s, const DInst& I, std::vector<Val>& a) { endPath(s, "stop"); }
static void b_trap(State& s, const DInst& I, std::vector<Val>& a) { errorEnd(s, "trap", "llvm.trap"); }
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
template <double (*F)(double)> static void b_math1(State& s, const DInst& I, std::vector<Val>& a) { u64 v = concretize(s, a[0], 64); setR(s, I, vc(fromD(F(asD(v))))); }
template <double (*F)(double, double)> static void b_math2(State& s, const DInst& I, std::vector<Val>& a) { u64 v = concretize(s, a[0], 64), w = concretize(s, a[1], 64); setR(s, I, vc(fromD(F(asD(v), asD(w))))); }
static void b_lround(State& s, const DInst& I, std::vector<Val>& a) { u64 v = concretize(s, a[0], 64); setR(s, I, vc((u64)lround(asD(v)))); }
static void b_dbgprint(State& s, const DInst& I, std::vector<Val>& a) {
  std::string t = cstr(s, a[0].c);
  fprintf(stderr, "DBG %s = %s\n", t.c_str(), a[1].e ? (exprStr(a[1].e) + " ~ " + std::to_string((u64)evalExpr(a[1].e, *s.model))).c_str() : std::to_string(a[1].c).c_str());
}
static void b_issym(State& s, const DInst& I, std::vector<Val>& a) { setR(s, I, vc(a[0].e && !simp(s, a[0].e)->isConst())); }
static void initBuiltins() {
  for (const char* n : {"malloc", "_Znwm", "_Znam", "valloc"}) defB(n, b_malloc);
  for (const char* n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}) defB(n, b_alignednew);
  defB("aligned_alloc", b_alignedalloc);
  defB("calloc", b_calloc); defB("realloc", b_realloc);
  for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}) defB(n, b_free);
  defB("memcpy", b_memcpy); defB("memmove", b_memcpy); defB("memset", b_memset); defB("memcmp", b_memcmp); defB("bcmp", b_bcmp);
  defB("vp_symbolic", b_symbolic); defB("vp_num", b_num); defB("vp_assume", b_assume); defB("vp_assert", b_assert); defB("vp_observe", b_observe);
  defB("vp_reach", b_reach); defB("vp_must_reach", b_mustreach); defB("vp_tier", b_tier); defB("vp_cfg", b_cfg); defB("vp_is_engine", b_engine);
  defB("vp_concretize", b_conc); defB("vp_expect_fatal", b_expectfatal); defB("vp_step_limit", b_steplimit); defB("vp_fatal", b_fatal); defB("vp_stop", b_stop); defB("vp_dbg", b_dbgprint); defB("vp_is_symbolic", b_issym);
  for (const char* n : {"abort", "exit", "_exit", "_Exit", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual", "quick_exit"}) defB(n, b_abort);
  defB("llvm.trap", b_trap); defB("llvm.ubsantrap", b_trap);
  for (const char* n : {"__cxa_atexit", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_trylock", "fflush", "atexit", "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_unlock"}) defB(n, b_nop);
  defB("sqrt", b_math1<std::sqrt>); defB("log", b_math1<std::log>); defB("log2", b_math1<std::log2>); defB("log10", b_math1<std::log10>); defB("exp", b_math1<std::exp>); defB("exp2", b_math1<std::exp2>);
  defB("floor", b_math1<std::floor>); defB("ceil", b_math1<std::ceil>); defB("round", b_math1<std::round>); defB("trunc", b_math1<std::trunc>); defB("rint", b_math1<std::rint>);
  defB("pow", b_math2<std::pow>); defB("fmod", b_math2<std::fmod>); defB("lround", b_lround); defB("llround", b_lround);
}

// ------------------------------------------------------------------ decode
struct Decoder {
  FnInfo* fi; std::unordered_map<const Value*, int> slot;
  std::unordered_map<const BasicBlock*, int> bbPc;
  std::unordered_map<const Constant*, int> cslot;
  int opnd(const Value* v) {
    auto it = slot.find(v);
    if (it != slot.end()) return it->second;
    if (auto* c = dyn_cast<Constant>(v)) {
      static std::unordered_map<const Constant*, int> cmap;
      auto j = cmap.find(c);
      if (j != cmap.end()) return j->second;
      std::vector<Val> vs; constSlots(c, vs);
      int b = gC.size();
      for (auto& x : vs) gC.push_back(x);
      if (vs.empty()) gC.push_back(vc(0));
      return cmap[c] = ~b;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) { return ~0; }
    die("operand");
  }
  int edge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.pc = bbPc[to];
    for (const PHINode& p : to->phis()) {
      int n = nslots(p.getType());
      e.copies.push_back({slot[&p], opnd(p.getIncomingValueForBlock(from)), n});
    }
    fi->edges.push_back(e);
    return fi->edges.size() - 1;
  }
  void run() {
    Function& F = *fi->F;
    if (gC.empty()) gC.push_back(vc(0));
    fi->isVarArg = F.isVarArg();
    int n = 0;
    for (Argument& a : F.args()) { slot[&a] = n; int k = nslots(a.getType()); fi->argSlots.push_back({n, k}); n += k; }
    int pc = 0;
    for (BasicBlock& B : F) {
      bbPc[&B] = pc;
      for (Instruction& I : B) { int k = nslots(I.getType()); if (k) { slot[&I] = n; n += k; } if (!isa<PHINode>(I)) pc++; }
    }
    fi->nslots = n;
    for (BasicBlock& B : F) for (Instruction& I : B) if (!isa<PHINode>(I)) { fi->code.push_back(one(I)); }
    fi->decoded = true;
  }
  DInst one(Instruction& I) {
    DInst d; d.I = &I; d.op = O_UNSUP;
    Type* T = I.getType();
    d.dst = nslots(T) ? slot[&I] : -1;
    d.n = nslots(T);
    Type* sc = T->getScalarType();
    d.w = scalarW(sc);
    if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
      d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1));
      d.op = O_BIN;
      switch (bo->getOpcode()) {
        case Instruction::Add: d.sub = K_ADD; break; case Instruction::Sub: d.sub = K_SUB; break; case Instruction::Mul: d.sub = K_MUL; break;
        case Instruction::UDiv: d.sub = K_UDIV; break; case Instruction::SDiv: d.sub = K_SDIV; break; case Instruction::URem: d.sub = K_UREM; break; case Instruction::SRem: d.sub = K_SREM; break;
        case Instruction::And: d.sub = K_AND; break; case Instruction::Or: d.sub = K_OR; break; case Instruction::Xor: d.sub = K_XOR; break;
        case Instruction::Shl: d.sub = K_SHL; break; case Instruction::LShr: d.sub = K_LSHR; break; case Instruction::AShr: d.sub = K_ASHR; break;
        case Instruction::FAdd: d.op = O_FBIN; d.sub = K_FADD; break; case Instruction::FSub: d.op = O_FBIN; d.sub = K_FSUB; break;
        case Instruction::FMul: d.op = O_FBIN; d.sub = K_FMUL; break; case Instruction::FDiv: d.op = O_FBIN; d.sub = K_FDIV; break;
        default: d.op = O_UNSUP;
      }
      if (d.w > 128 || (d.op == O_FBIN && d.w != 64 && d.w != 32)) d.op = O_UNSUP;
      return d;
    }
    if (auto* ci = dyn_cast<CmpInst>(&I)) {
      d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1));
      d.w2 = scalarW(I.getOperand(0)->getType()->getScalarType());
      d.sub = ci->getPredicate(); d.op = isa<ICmpInst>(I) ? O_ICMP : O_FCMP;
      return d;
    }
    if (auto* ca = dyn_cast<CastInst>(&I)) {
      d.a = opnd(I.getOperand(0)); Type* ST = I.getOperand(0)->getType();
      d.w2 = scalarW(ST->getScalarType());
      switch (ca->getOpcode()) {
        case Instruction::ZExt: d.op = O_CASTZ; break; case Instruction::SExt: d.op = O_CASTS; break; case Instruction::Trunc: d.op = O_TRUNC; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: d.op = d.w == d.w2 ? O_COPY : d.w < d.w2 ? O_TRUNC : O_CASTZ; break;
        case Instruction::BitCast: d.op = (d.n == nslots(ST) && d.w == d.w2) ? O_COPY : O_UNSUP;
          if (d.op == O_UNSUP && d.n * d.w == nslots(ST) * d.w2 && d.n * d.w <= 128) { d.op = O_FCAST; d.sub = 255; d.imm = nslots(ST); }
          break;
        case Instruction::SIToFP: d.op = O_FCAST; d.sub = K_SITOFP; break; case Instruction::UIToFP: d.op = O_FCAST; d.sub = K_UITOFP; break;
        case Instruction::FPToSI: d.op = O_FCAST; d.sub = K_FPTOSI; break; case Instruction::FPToUI: d.op = O_FCAST; d.sub = K_FPTOUI; break;
        case Instruction::FPExt: d.op = O_FCAST; d.sub = K_FPEXT; break; case Instruction::FPTrunc: d.op = O_FCAST; d.sub = K_FPTRUNC; break;
        default: break;
      }
      if (d.op == O_FCAST && (d.w > 64 || d.w2 > 64) && d.sub != 255) d.op = O_UNSUP;
      return d;
    }
    switch (I.getOpcode()) {
      case Instruction::FNeg: d.op = O_FNEG; d.a = opnd(I.getOperand(0)); return d;
      case Instruction::Freeze: d.op = O_COPY; d.a = opnd(I.getOperand(0)); return d;
      case Instruction::Load: d.op = O_LOAD; d.a = opnd(I.getOperand(0)); layout(T, 0, d.lay); d.imm = gDL->getTypeStoreSize(T).getFixedValue(); return d;
      case Instruction::Store: d.op = O_STORE; d.a = opnd(I.getOperand(1)); d.b = opnd(I.getOperand(0)); layout(I.getOperand(0)->getType(), 0, d.lay); d.imm = gDL->getTypeStoreSize(I.getOperand(0)->getType()).getFixedValue(); return d;
      case Instruction::GetElementPtr: {
        d.op = O_GEP; d.a = opnd(I.getOperand(0));
        if (T->isVectorTy()) { d.op = O_UNSUP; return d; }
        for (auto it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it) {
          Value* ix = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { d.imm += gDL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          s64 sz = gDL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
          if (auto* c = dyn_cast<ConstantInt>(ix)) d.imm += sz * c->getSExtValue();
          else d.terms.push_back({opnd(ix), scalarW(ix->getType()), sz});
        }
        return d;
      }
      case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(&I); d.op = O_ALLOCA; d.imm = gDL->getTypeAllocSize(ai->getAllocatedType()).getFixedValue();
        d.a = opnd(ai->getArraySize()); d.w2 = scalarW(ai->getArraySize()->getType()); return d;
      }
      case Instruction::Br: {
        auto* br = cast<BranchInst>(&I);
        if (br->isConditional()) { d.op = O_CBR; d.a = opnd(br->getCondition()); d.e0 = edge(I.getParent(), br->getSuccessor(0)); d.e1 = edge(I.getParent(), br->getSuccessor(1)); }
        else { d.op = O_BR; d.e0 = edge(I.getParent(), br->getSuccessor(0)); }
        return d;
      }
      case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(&I); d.op = O_SWITCH; d.a = opnd(sw->getCondition()); d.w2 = scalarW(sw->getCondition()->getType());
        std::map<const BasicBlock*, int> em;
        auto ge = [&](const BasicBlock* b) { auto it = em.find(b); if (it != em.end()) return it->second; return em[b] = edge(I.getParent(), b); };
        d.e0 = ge(sw->getDefaultDest());
        for (auto& c : sw->cases()) d.sw.push_back({c.getCaseValue()->getZExtValue(), ge(c.getCaseSuccessor())});
        return d;
      }
      case Instruction::Ret: d.op = O_RET; if (I.getNumOperands()) { d.a = opnd(I.getOperand(0)); d.n = nslots(I.getOperand(0)->getType()); } else d.n = 0; return d;
      case Instruction::Unreachable: d.op = O_UNREACH; return d;
      case Instruction::Select: {
        d.op = O_SELECT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2));
        d.e0 = I.getOperand(0)->getType()->isVectorTy();
        if (!d.e0) {  // address selection forks: keeps container walks free of if-then-else pointers
          bool addr = I.getType()->isPointerTy();
          if (!addr && I.getType()->isIntegerTy(64) && !I.use_empty()) { addr = true; for (auto* u : I.users()) if (!isa<GetElementPtrInst>(u)) addr = false; }
          d.e1 = addr && optSelFork;
        }
        std::vector<SlotT> l; layout(T, 0, l); d.lay = l; return d;
      }
      case Instruction::ExtractValue: {
        auto* ev = cast<ExtractValueInst>(&I); d.op = O_COPY; int off = aggOff(ev->getAggregateOperand()->getType(), ev->getIndices());
        int b = opnd(ev->getAggregateOperand()); d.a = b >= 0 ? b + off : ~(~b + off); return d;
      }
      case Instruction::InsertValue: {
        auto* iv = cast<InsertValueInst>(&I); d.op = O_INSERTV; d.a = opnd(iv->getAggregateOperand()); d.b = opnd(iv->getInsertedValueOperand());
        d.imm = aggOff(T, iv->getIndices()); d.c = nslots(iv->getInsertedValueOperand()->getType()); return d;
      }
      case Instruction::ExtractElement: { d.op = O_EXTELT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); return d; }
      case Instruction::InsertElement: { d.op = O_INSELT; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); return d; }
      case Instruction::ShuffleVector: {
        d.op = O_SHUF; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = nslots(I.getOperand(0)->getType());
        for (int m : cast<ShuffleVectorInst>(&I)->getShuffleMask()) d.sw.push_back({(u64)m, 0}); return d;
      }
      case Instruction::AtomicRMW: {
        auto* a = cast<AtomicRMWInst>(&I); d.op = O_RMW; d.a = opnd(a->getPointerOperand()); d.b = opnd(a->getValOperand());
        switch (a->getOperation()) { case AtomicRMWInst::Add: d.sub = K_ADD; break; case AtomicRMWInst::Sub: d.sub = K_SUB; break; case AtomicRMWInst::And: d.sub = K_AND; break; case AtomicRMWInst::Or: d.sub = K_OR; break; case AtomicRMWInst::Xor: d.sub = K_XOR; break; case AtomicRMWInst::Xchg: d.sub = 255; break; default: d.op = O_UNSUP; }
        return d;
      }
      case Instruction::AtomicCmpXchg: { d.op = O_CMPXCHG; d.a = opnd(I.getOperand(0)); d.b = opnd(I.getOperand(1)); d.c = opnd(I.getOperand(2)); d.w = scalarW(I.getOperand(1)->getType()); return d; }
      case Instruction::Fence: d.op = O_NOP; return d;
      case Instruction::Call: {
        auto* cb = cast<CallBase>(&I); d.op = O_CALL;
        if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) {
          if (ia->getAsmString().empty() && !d.n) d.op = O_NOP;
          return d;
        }
        d.callee = cb->getCalledFunction();
        if (!d.callee) if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand())) d.callee = dyn_cast<Function>(al->getAliaseeObject());
        if (d.callee) {
          StringRef nm = d.callee->getName();
          if (nm.starts_with("llvm.dbg") || nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant.end") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.stackrestore") || nm.starts_with("llvm.donothing") || nm.starts_with("llvm.sideeffect")) { d.op = O_NOP; return d; }
          if (!optSkip.empty() && nm == optSkip) { d.op = O_NOP; return d; }
          auto it = gBIdx.find(nm.str());
          if (it != gBIdx.end()) d.builtin = it->second;
          else if (d.callee->isDeclaration() && (nm.starts_with("_ZSt") && nm.contains("__throw_"))) d.builtin = gBIdx["__vp_throw"];
        } else d.a = opnd(cb->getCalledOperand());
        for (unsigned i = 0; i < cb->arg_size(); i++) {
          Value* v = cb->getArgOperand(i);
          Arg a; a.n = isa<MetadataAsValue>(v) ? 0 : nslots(v->getType()); a.idx = a.n ? opnd(v) : 0; a.byval = 0;
          if (cb->isByValArgument(i)) a.byval = gDL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue();
          d.args.push_back(a);
        }
        return d;
      }
      default: return d;
    }
  }
  int aggOff(Type* t, ArrayRef<unsigned> idx) {
    int off = 0;
    for (unsigned i : idx) {
      if (auto* st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) off += nslots(st->getElementType(j)); t = st->getElementType(i); }
      else { auto* at = cast<ArrayType>(t); off += i * nslots(at->getElementType()); t = at->getElementType(); }
    }
    return off;
  }
};
static FnInfo* fnInfo(Function* F) {
  FnInfo*& f = gFns[F];
  if (!f) { f = new FnInfo; f->F = F; }
  if (!f->decoded && !F->isDeclaration()) { Decoder d; d.fi = f; d.run(); }
  return f;
}

// ------------------------------------------------------------------ arithmetic on Val
static Val binop(State& s, Kind k, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c, m = maskw(w);
    switch (k) {
      case K_ADD: return vc((x + y) & m); case K_SUB: return vc((x - y) & m); case K_MUL: return vc((x * y) & m);
      case K_AND: return vc(x & y); case K_OR: return vc(x | y); case K_XOR: return vc(x ^ y);
      case K_SHL: return vc(y >= w ? 0 : (x << y) & m); case K_LSHR: return vc(y >= w ? 0 : x >> y);
      case K_ASHR: return vc((u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m);
      case K_UDIV: if (!y) errorEnd(s, "arith", "division by zero"); return vc(x / y);
      case K_UREM: if (!y) errorEnd(s, "arith", "division by zero"); return vc(x % y);
      default: break;
    }
    if (!y) errorEnd(s, "arith", "division by zero");
    return vc((u64)foldBin(k, x, y, w));
  }
  E x = toE(a, w), y = toE(b, w);
  if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
    E z = mkEq(y, mkConst(0, w));
    if (!z->isConst() ? branch(s, z, [](State&, bool) {}) : z->lo) errorEnd(s, "arith", "division by zero");
  }
  return ve(mkBin(k, x, y));
}
static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.c, y = b.c; s64 sa = sx(x, w), sb = sx(y, w);
    switch (p) {
      case CmpInst::ICMP_EQ: return vc(x == y); case CmpInst::ICMP_NE: return vc(x != y);
      case CmpInst::ICMP_ULT: return vc(x < y); case CmpInst::ICMP_ULE: return vc(x <= y); case CmpInst::ICMP_UGT: return vc(x > y); case CmpInst::ICMP_UGE: return vc(x >= y);
      case CmpInst::ICMP_SLT: return vc(sa < sb); case CmpInst::ICMP_SLE: return vc(sa <= sb); case CmpInst::ICMP_SGT: return vc(sa > sb); case CmpInst::ICMP_SGE: return vc(sa >= sb);
    }
  }
  E x = toE(a, w), y = toE(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return ve(mkEq(x, y)); case CmpInst::ICMP_NE: return ve(mkNot(mkEq(x, y)));
    case CmpInst::ICMP_ULT: return ve(mkBin(K_ULT, x, y)); case CmpInst::ICMP_ULE: return ve(mkBin(K_ULE, x, y));
    case CmpInst::ICMP_UGT: return ve(mkBin(K_ULT, y, x)); case CmpInst::ICMP_UGE: return ve(mkBin(K_ULE, y, x));
    case CmpInst::ICMP_SLT: return ve(mkBin(K_SLT, x, y)); case CmpInst::ICMP_SLE: return ve(mkBin(K_SLE, x, y));
    case CmpInst::ICMP_SGT: return ve(mkBin(K_SLT, y, x)); case CmpInst::ICMP_SGE: return ve(mkBin(K_SLE, y, x));
  }
  die("icmp");
}
static Val fcmp(unsigned p, const Val& a, const Val& b, unsigned w) {
  E x = toE(a, w), y = toE(b, w);
  auto nan = [&] { return mkBin(K_OR, mkFUn(K_FISNAN, x, 1), mkFUn(K_FISNAN, y, 1)); };
  auto eq = [&] { return mkFBin(K_FOEQ, x, y); };
  auto lt = [&](bool sw) { return sw ? mkFBin(K_FOLT, y, x) : mkFBin(K_FOLT, x, y); };
  auto le = [&](bool sw) { return sw ? mkFBin(K_FOLE, y, x) : mkFBin(K_FOLE, x, y); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return vc(0); case CmpInst::FCMP_TRUE: return vc(1);
    case CmpInst::FCMP_OEQ: return ve(eq()); case CmpInst::FCMP_OGT: return ve(lt(true)); case CmpInst::FCMP_OGE: return ve(le(true));
    case CmpInst::FCMP_OLT: return ve(lt(false)); case CmpInst::FCMP_OLE: return ve(le(false));
    case CmpInst::FCMP_ONE: return ve(mkBin(K_AND, mkNot(eq()), mkNot(nan()))); case CmpInst::FCMP_ORD: return ve(mkNot(nan())); case CmpInst::FCMP_UNO: return ve(nan());
    case CmpInst::FCMP_UEQ: return ve(mkBin(K_OR, eq(), nan()));
    case CmpInst::FCMP_UGT: return ve(mkNot(le(false))); case CmpInst::FCMP_UGE: return ve(mkNot(lt(false)));
    case CmpInst::FCMP_ULT: return ve(mkNot(le(true))); case CmpInst::FCMP_ULE: return ve(mkNot(lt(true)));
    case CmpInst::FCMP_UNE: return ve(mkNot(eq()));
  }
  die("fcmp");
}
static inline const Val& get(Frame& f, int idx, int i = 0) { return idx >= 0 ? f.r[idx + i] : gC[~idx + i]; }
static void takeEdge(State& s, int e) {
  Frame& f = s.top();
  const Edge& ed = f.f->edges[e];
  if (ed.copies.size() == 1) {
    const Copy& c = ed.copies[0];
    if (c.n == 1) f.r[c.dst] = get(f, c.src); else { Val tmp[16]; std::vector<Val> t; for (int i = 0; i < c.n; i++) t.push_back(get(f, c.src, i)); for (int i = 0; i < c.n; i++) f.r[c.dst + i] = t[i]; }
  } else if (!ed.copies.empty()) {
    static std::vector<Val> t; t.clear();
    for (auto& c : ed.copies) for (int i = 0; i < c.n; i++) t.push_back(get(f, c.src, i));
    int k = 0;
    for (auto& c : ed.copies) for (int i = 0; i < c.n; i++) f.r[c.dst + i] = t[k++];
  }
  f.pc = ed.pc;
}
static void pushFrame(State& s, FnInfo* fi, std::vector<Val>& args, const DInst* I) {
  Frame* f = new Frame; f->f = fi; f->r.resize(fi->nslots);
  f->retDst = I ? I->dst : -1; f->retN = I ? I->n : 0;
  gExecuted.insert(fi->F);
  size_t k = 0;
  for (auto& as : fi->argSlots) for (int i = 0; i < as.second; i++) { if (k >= args.size()) die("too few args calling " + fi->F->getName().str()); f->r[as.first + i] = args[k++]; }
  if (fi->isVarArg) {
    u64 n = args.size() - k;
    Obj* o = newObj(n * 8 + 8, false); o->stack = true;
    for (u64 i = 0; i < n; i++) writeSlot(o, i * 8, args[k + i], args[k + i].e ? args[k + i].e->w : 64);
    f->va = s.mem.add(o); f->allocas.push_back(f->va >> 32);
  }
  if (s.st.size() > 600) { delete f; errorEnd(s, "recursion", "call depth exceeds 600"); }
  s.st.push_back(f);
}
static bool intrinsic(State& s, const DInst& I, std::vector<Val>& a) {
  auto id = I.callee->getIntrinsicID();
  if (id == Intrinsic::not_intrinsic) return false;
  unsigned w = I.w; Frame& f = s.top();
  auto lanes = [&](auto fn) { int n = I.n; std::vector<Val> r; for (int i = 0; i < n; i++) r.push_back(fn(i)); for (int i = 0; i < n; i++) f.r[I.dst + i] = r[i]; };
  int n = I.n;
  switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { DInst J = I; J.dst = -1; b_memcpy(s, J, a); return true; }
    case Intrinsic::memset: { DInst J = I; J.dst = -1; b_memset(s, J, a); return true; }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy:
      f.r[I.dst] = a[0]; return true;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
      lanes([&](int i) {
        unsigned p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        Val c = icmp(p, a[i], a[n + i], w);
        if (!c.e) return c.c ? a[i] : a[n + i];
        return ve(mkIte(c.e, toE(a[i], w), toE(a[n + i], w)));
      }); return true;
    case Intrinsic::abs: lanes([&](int i) { if (!a[i].e) return vc((u64)std::llabs(sx(a[i].c, w)) & maskw(w)); return ve(mkIte(mkBin(K_SLT, a[i].e, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), a[i].e), a[i].e)); }); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww = scalarW(cast<StructType>(I.I->getType())->getElementType(0));
      if (ww > 64) unsupported(s, "overflow intrinsic wider than 64");
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Kind k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K_ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? K_SUB : K_MUL;
      E x = toE(a[0], ww), y = toE(a[1], ww); unsigned W = k == K_MUL ? 2 * ww : ww + 1;
      E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
      E r = mkBin(k, x, y), R = mkBin(k, X, Y);
      E o = mkNot(mkEq(R, sg ? mkSExt(r, W) : mkZExt(r, W)));
      if (!sg && k == K_ADD) o = mkBin(K_ULT, r, x);
      if (!sg && k == K_SUB) o = mkBin(K_ULT, x, y);
      f.r[I.dst] = ve(r); f.r[I.dst + 1] = ve(o); return true;
    }
    case Intrinsic::uadd_sat: lanes([&](int i) { E x = toE(a[i], w), y = toE(a[n + i], w), r = mkBin(K_ADD, x, y); return ve(mkIte(mkBin(K_ULT, r, x), mkConst(~(u128)0, w), r)); }); return true;
    case Intrinsic::usub_sat: lanes([&](int i) { E x = toE(a[i], w), y = toE(a[n + i], w); return ve(mkIte(mkBin(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y))); }); return true;
    case Intrinsic::ctpop: lanes([&](int i) { if (!a[i].e) return vc(__builtin_popcountll(a[i].c)); E r = mkConst(0, w); for (unsigned b = 0; b < w; b++) r = mkBin(K_ADD, r, mkZExt(mkExtract(a[i].e, b, 1), w)); return ve(r); }); return true;
    case Intrinsic::ctlz: lanes([&](int i) { if (!a[i].e) return vc(a[i].c ? __builtin_clzll(a[i].c) - (64 - w) : w); E r = mkConst(w, w); for (unsigned b = 0; b < w; b++) r = mkIte(mkEq(mkExtract(a[i].e, b, 1), mkConst(1, 1)), mkConst(w - 1 - b, w), r); return ve(r); }); return true;
    case Intrinsic::cttz: lanes([&](int i) { if (!a[i].e) return vc(a[i].c ? __builtin_ctzll(a[i].c) : w); E r = mkConst(w, w); for (int b = w - 1; b >= 0; b--) r = mkIte(mkEq(mkExtract(a[i].e, b, 1), mkConst(1, 1)), mkConst(b, w), r); return ve(r); }); return true;
    case Intrinsic::bswap: lanes([&](int i) { E x = toE(a[i], w); E r = nullptr; for (unsigned b = 0; b < w / 8; b++) { E y = mkExtract(x, 8 * b, 8); r = r ? mkConcat(r, y) : y; } return ve(r); }); return true;
    case Intrinsic::bitreverse: lanes([&](int i) { E x = toE(a[i], w); E r = nullptr; for (unsigned b = 0; b < w; b++) { E y = mkExtract(x, b, 1); r = r ? mkConcat(r, y) : y; } return ve(r); }); return true;
    case Intrinsic::fshl: case Intrinsic::fshr: lanes([&](int i) {
        u64 sh = concretize(s, a[2 * n + i], w) % w;
        E x = toE(a[i], w), y = toE(a[n + i], w);
        if (w > 64) { E r = id == Intrinsic::fshl ? (sh ? mkBin(K_OR, mkBin(K_SHL, x, mkConst(sh, w)), mkBin(K_LSHR, y, mkConst(w - sh, w))) : x) : (sh ? mkBin(K_OR, mkBin(K_SHL, x, mkConst(w - sh, w)), mkBin(K_LSHR, y, mkConst(sh, w))) : y); return ve(r); }
        E c = mkConcat(x, y);
        return ve(id == Intrinsic::fshl ? mkExtract(c, w - sh, w) : mkExtract(c, sh, w)); }); return true;
    case Intrinsic::fabs: lanes([&](int i) { return ve(mkFUn(K_FABS, toE(a[i], w), w)); }); return true;
    case Intrinsic::sqrt: lanes([&](int i) { return ve(mkFUn(K_FSQRT, toE(a[i], w), w)); }); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: lanes([&](int i) { return ve(mkFUn(K_FRTI, toE(a[i], w), w, 0)); }); return true;
    case Intrinsic::trunc: lanes([&](int i) { return ve(mkFUn(K_FRTI, toE(a[i], w), w, 1)); }); return true;
    case Intrinsic::floor: lanes([&](int i) { return ve(mkFUn(K_FRTI, toE(a[i], w), w, 2)); }); return true;
    case Intrinsic::ceil: lanes([&](int i) { return ve(mkFUn(K_FRTI, toE(a[i], w), w, 3)); }); return true;
    case Intrinsic::round: lanes([&](int i) { return ve(mkFUn(K_FRTI, toE(a[i], w), w, 4)); }); return true;
    case Intrinsic::fmuladd: case Intrinsic::fma: lanes([&](int i) { return ve(mkFBin(K_FADD, mkFBin(K_FMUL, toE(a[i], w), toE(a[n + i], w)), toE(a[2 * n + i], w))); }); return true;
    case Intrinsic::maxnum: lanes([&](int i) { E x = toE(a[i], w), y = toE(a[n + i], w); return ve(mkIte(mkBin(K_OR, mkFUn(K_FISNAN, x, 1), mkFBin(K_FOLT, x, y)), y, x)); }); return true;
    case Intrinsic::minnum: lanes([&](int i) { E x = toE(a[i], w), y = toE(a[n + i], w); return ve(mkIte(mkBin(K_OR, mkFUn(K_FISNAN, x, 1), mkFBin(K_FOLT, y, x)), y, x)); }); return true;
    case Intrinsic::exp2: b_math1<std::exp2>(s, I, a); return true;
    case Intrinsic::exp: b_math1<std::exp>(s, I, a); return true;
    case Intrinsic::log: b_math1<std::log>(s, I, a); return true;
    case Intrinsic::log2: b_math1<std::log2>(s, I, a); return true;
    case Intrinsic::pow: b_math2<std::pow>(s, I, a); return true;
    case Intrinsic::objectsize: f.r[I.dst] = vc(maskw(w)); return true;
    case Intrinsic::is_constant: f.r[I.dst] = vc(0); return true;
    case Intrinsic::stacksave: f.r[I.dst] = vc(0); return true;
    case Intrinsic::threadlocal_address: f.r[I.dst] = a[0]; return true;
    case Intrinsic::invariant_start: f.r[I.dst] = vc(0); return true;
    case Intrinsic::vastart: {
      Ref r = resolve(s, a[0], 24, true, false); Obj* o = s.mem.getW(r.id);
      writeSlot(o, r.off, vc(48), 32); writeSlot(o, r.off + 4, vc(304), 32); writeSlot(o, r.off + 8, vc(f.va), 64); writeSlot(o, r.off + 16, vc(f.va), 64); return true;
    }
    case Intrinsic::vaend: return true;
    case Intrinsic::vacopy: copyBytes(s, a[0], a[1], 24); return true;
    case Intrinsic::load_relative: {
      Val p = binop(s, K_ADD, a[0], a[1], 64); Ref r = resolve(s, p, 4, false, true); Val v = loadAt(s, r, 0, 32, 4);
      f.r[I.dst] = binop(s, K_ADD, a[0], ve(mkSExt(toE(v, 32), 64)), 64); return true;
    }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
      Kind k = id == Intrinsic::vector_reduce_add ? K_ADD : id == Intrinsic::vector_reduce_or ? K_OR : id == Intrinsic::vector_reduce_and ? K_AND : K_XOR;
      Val r = a[0]; for (size_t i = 1; i < a.size(); i++) r = binop(s, k, r, a[i], w); f.r[I.dst] = r; return true;
    }
    default: break;
  }
  unsupported(s, "intrinsic " + I.callee->getName().str());
  return true;
}
static void doCall(State& s, const DInst& I) {
  Frame& f = s.top();
  Function* F = I.callee;
  if (!F) {
    Val p = get(f, I.a);
    u64 a = concretize(s, p, 64);
    auto it = gFnById.find(a >> 32);
    if (it == gFnById.end() || (a & 0xffffffff) != OBASE) errorEnd(s, "memory", "call through invalid function pointer");
    F = it->second;
  }
  static std::vector<Val> a; a.clear();
  for (auto& g : I.args) for (int i = 0; i < g.n; i++) a.push_back(get(f, g.idx, i));
  int bi = I.builtin;
  const DInst* J = &I; DInst tmp;
  if (!I.callee) {
    auto it = gBIdx.find(F->getName().str());
    if (it != gBIdx.end()) { bi = it->second; tmp = I; tmp.callee = F; J = &tmp; }
  }
  if (bi >= 0) { std::vector<Val> b(a); gB[bi](s, *J, b); s.top().pc++; return; }
  if (F->isDeclaration()) {
    if (F->isIntrinsic()) { std::vector<Val> b(a); tmp = I; tmp.callee = F; intrinsic(s, tmp, b); s.top().pc++; return; }
    unsupported(s, "external function " + F->getName().str());
  }
  FnInfo* fi = fnInfo(F);
  std::vector<u32> bv;
  if (true) {
    size_t k = 0;
    for (auto& g : I.args) { if (g.byval) { Obj* o = newObj(g.byval, true); o->stack = true; u64 na = s.mem.add(o); copyBytes(s, vc(na), a[k], g.byval); a[k] = vc(na); bv.push_back(na >> 32); } k += g.n; }
  }
  f.pc++;
  pushFrame(s, fi, a, &I);
  for (u32 x : bv) s.top().allocas.push_back(x);
}
static void step(State& s);
static void runState(State* sp) {
  State& s = *sp;
  try {
    while (!gStop) step(s);
    freeState(sp);
  } catch (PathEnd&) { freeState(sp); }
}
static long rssMB() { FILE* f = fopen("/proc/self/statm", "r"); long a = 0, b = 0; if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); } return b / 256; }
static void step(State& s) {
  // run a burst of instructions
  for (int it = 0; it < 4096; it++) {
    Frame& f = s.top();
    const DInst& I = f.f->code[f.pc];
    S.instrs++; s.steps++;
    switch (I.op) {
      case O_BIN: {
        Kind k = (Kind)I.sub;
        if (I.n == 1) { Val v = binop(s, k, get(f, I.a), get(f, I.b), I.w); f.r[I.dst] = v; }
        else { std::vector<Val> r; for (int i = 0; i < I.n; i++) r.push_back(binop(s, k, get(f, I.a, i), get(f, I.b, i), I.w)); for (int i = 0; i < I.n; i++) f.r[I.dst + i] = r[i]; }
        f.pc++; break;
      }
      case O_FBIN: for (int i = 0; i < I.n; i++) f.r[I.dst + i] = ve(mkFBin((Kind)I.sub, toE(get(f, I.a, i), I.w), toE(get(f, I.b, i), I.w))); f.pc++; break;
      case O_FNEG: for (int i = 0; i < I.n; i++) f.r[I.dst + i] = ve(mkFUn(K_FNEG, toE(get(f, I.a, i), I.w), I.w)); f.pc++; break;
      case O_ICMP: for (int i = 0; i < I.n; i++) f.r[I.dst + i] = icmp(I.sub, get(f, I.a, i), get(f, I.b, i), I.w2); f.pc++; break;
      case O_FCMP: for (int i = 0; i < I.n; i++) f.r[I.dst + i] = fcmp(I.sub, get(f, I.a, i), get(f, I.b, i), I.w2); f.pc++; break;
      case O_CASTZ: for (int i = 0; i < I.n; i++) { const Val& a = get(f, I.a, i); f.r[I.dst + i] = (!a.e && I.w <= 64) ? a : ve(mkZExt(toE(a, I.w2), I.w)); } f.pc++; break;
      case O_CASTS: for (int i = 0; i < I.n; i++) { const Val& a = get(f, I.a, i); f.r[I.dst + i] = (!a.e && I.w <= 64) ? vc((u64)sx(a.c, I.w2) & maskw(I.w)) : ve(mkSExt(toE(a, I.w2), I.w)); } f.pc++; break;
      case O_TRUNC: for (int i = 0; i < I.n; i++) { const Val& a = get(f, I.a, i); f.r[I.dst + i] = !a.e ? vc(a.c & maskw(I.w)) : ve(mkExtract(a.e, 0, I.w)); } f.pc++; break;
      case O_COPY: if (I.n == 1) { Val v = get(f, I.a); f.r[I.dst] = v; } else for (int i = 0; i < I.n; i++) { Val v = get(f, I.a, i); f.r[I.dst + i] = v; } f.pc++; break;
      case O_FCAST:
        if (I.sub == 255) {  // bitcast between vector shapes
          E acc = nullptr; for (int i = (int)I.imm - 1; i >= 0; i--) { E x = toE(get(f, I.a, i), I.w2); acc = acc ? mkConcat(acc, x) : x; }
          for (int i = 0; i < I.n; i++) f.r[I.dst + i] = ve(mkExtract(acc, i * I.w, I.w));
        } else for (int i = 0; i < I.n; i++) f.r[I.dst + i] = ve(mkFUn((Kind)I.sub, toE(get(f, I.a, i), I.w2), I.w));
        f.pc++; break;
      case O_LOAD: {
        Ref r = resolve(s, get(f, I.a), I.imm, false, true);
        if (I.n == 1) { Val v = loadAt(s, r, 0, I.lay[0].w, I.imm); s.top().r[I.dst] = v; }
        else for (int i = 0; i < I.n; i++) { Val v = loadAt(s, r, I.lay[i].off, I.lay[i].w, I.imm); s.top().r[I.dst + i] = v; }
        f.pc++; break;
      }
      case O_STORE: {
        Ref r = resolve(s, get(f, I.a), I.imm, true, true);
        for (size_t i = 0; i < I.lay.size(); i++) storeAt(s, r, I.lay[i].off, get(f, I.b, i), I.lay[i].w, I.imm);
        f.pc++; break;
      }
      case O_GEP: {
        Val b = get(f, I.a);
        if (!b.e) {
          u64 x = b.c + I.imm; E sym = nullptr;
          for (auto& t : I.terms) {
            const Val& v = get(f, t.idx);
            if (!v.e) x += (u64)sx(v.c, t.w) * t.scale;
            else { E y = mkBin(K_MUL, mkSExt(v.e, 64), mkConst((u128)(s128)t.scale, 64)); sym = sym ? mkBin(K_ADD, sym, y) : y; }
          }
          f.r[I.dst] = sym ? ve(mkBin(K_ADD, sym, mkConst(x, 64))) : vc(x);
        } else {
          E x = mkBin(K_ADD, b.e, mkConst((u128)(s128)I.imm, 64));
          for (auto& t : I.terms) { const Val& v = get(f, t.idx); x = mkBin(K_ADD, x, mkBin(K_MUL, mkSExt(toE(v, t.w), 64), mkConst((u128)(s128)t.scale, 64))); }
          f.r[I.dst] = ve(x);
        }
        f.pc++; break;
      }
      case O_ALLOCA: {
        u64 n = concretize(s, get(f, I.a), I.w2);
        Obj* o = newObj(n * I.imm, true); o->stack = true;
        u64 a = s.mem.add(o); f.allocas.push_back(a >> 32); f.r[I.dst] = vc(a); f.pc++; break;
      }
      case O_BR: takeEdge(s, I.e0); break;
      case O_CBR: {
        const Val& c = get(f, I.a);
        if (!c.e) takeEdge(s, c.c & 1 ? I.e0 : I.e1);
        else { const DInst& J = I; bool side = branch(s, c.e, [&](State& o, bool sd) { takeEdge(o, sd ? J.e0 : J.e1); }); takeEdge(s, side ? J.e0 : J.e1); }
        break;
      }
      case O_SWITCH: {
        const Val& v = get(f, I.a);
        E e = v.e ? simp(s, v.e) : nullptr;
        if (!e || e->isConst()) {
          u64 x = e ? e->lo : v.c; int ed = I.e0;
          for (auto& c : I.sw) if (c.v == x) { ed = c.edge; break; }
          takeEdge(s, ed); break;
        }
        S.symBranches++;
        std::map<int, E> g; E any = mkFalse();
        std::vector<int> order;
        for (auto& c : I.sw) { E q = mkEq(e, mkConst(c.v, I.w2)); auto itg = g.find(c.edge); if (itg == g.end()) { g[c.edge] = q; order.push_back(c.edge); } else itg->second = mkBin(K_OR, itg->second, q); any = mkBin(K_OR, any, q); }
        E def = mkNot(any);
        { auto itg = g.find(I.e0); if (itg == g.end()) { g[I.e0] = def; order.push_back(I.e0); } else itg->second = mkBin(K_OR, itg->second, def); }
        int mine = -1;
        for (int ed : order) if (g[ed]->isConst() ? g[ed]->lo : (u64)evalExpr(g[ed], *s.model)) { mine = ed; break; }
        bool forked = false;
        for (int ed : order) if (ed != mine) {
          ModelP m; int r = checkSat(s, g[ed], &m);
          if (r == 1) { State* n = cloneState(s); n->model = m; addConstraint(*n, g[ed]); takeEdge(*n, ed); gWork.push_back(n); S.forks++; forked = true; }
          else if (r == -1) { S.pruned++; forked = true; }
        }
        if (forked) addConstraint(s, g[mine]);
        takeEdge(s, mine); break;
      }
      case O_RET: {
        std::vector<Val> r; Val one; int n = I.n;
        if (n == 1) one = get(f, I.a); else for (int i = 0; i < n; i++) r.push_back(get(f, I.a, i));
        for (u32 id : f.allocas) s.mem.kill(id, false);
        int dst = f.retDst;
        Frame* old = &f; s.st.pop_back(); freeFrame(old);
        Frame*& c = s.st.back();
        if (c->refs > 1) { Frame* nf = new Frame(*c); nf->refs = 1; c->refs--; c = nf; }
        if (dst >= 0) { if (n == 1) c->r[dst] = one; else for (int i = 0; i < n; i++) c->r[dst + i] = r[i]; }
        break;
      }
      case O_CALL: doCall(s, I); break;
      case O_SELECT: {
        if (!I.e0) {
          Val c = get(f, I.a);
          if (c.e) c = ve(simp(s, c.e));
          if (c.e && I.e1) c = vc(concretize(s, c, 1));
          for (int i = 0; i < I.n; i++) {
            Val r;
            if (!c.e) r = c.c & 1 ? get(f, I.b, i) : get(f, I.c, i);
            else r = ve(mkIte(c.e, toE(get(f, I.b, i), I.lay[i].w), toE(get(f, I.c, i), I.lay[i].w)));
            f.r[I.dst + i] = r;
          }
        } else for (int i = 0; i < I.n; i++) { E c = toE(get(f, I.a, i), 1); f.r[I.dst + i] = ve(mkIte(c, toE(get(f, I.b, i), I.lay[i].w), toE(get(f, I.c, i), I.lay[i].w))); }
        f.pc++; break;
      }
      case O_INSERTV: {
        for (int i = 0; i < I.n; i++) { Val v = (i >= I.imm && i < I.imm + I.c) ? get(f, I.b, i - I.imm) : get(f, I.a, i); f.r[I.dst + i] = v; }
        f.pc++; break;
      }
      case O_EXTELT: { u64 ix = concretize(s, get(f, I.b), 64); Val v = get(f, I.a, (int)ix); f.r[I.dst] = v; f.pc++; break; }
      case O_INSELT: { u64 ix = concretize(s, get(f, I.c), 64); std::vector<Val> r; for (int i = 0; i < I.n; i++) r.push_back(get(f, I.a, i)); r[ix] = get(f, I.b); for (int i = 0; i < I.n; i++) f.r[I.dst + i] = r[i]; f.pc++; break; }
      case O_SHUF: { std::vector<Val> r; for (auto& m : I.sw) { int k = (int)m.v; r.push_back(k < 0 ? vc(0) : k < I.c ? get(f, I.a, k) : get(f, I.b, k - I.c)); } for (size_t i = 0; i < r.size(); i++) f.r[I.dst + i] = r[i]; f.pc++; break; }
      case O_UNREACH: errorEnd(s, "unreachable", "reached unreachable code");
      case O_RMW: { Ref r = resolve(s, get(f, I.a), (I.w + 7) / 8, true, false); Val o = loadAt(s, r, 0, I.w, (I.w + 7) / 8); Val nv = I.sub == 255 ? get(f, I.b) : binop(s, (Kind)I.sub, o, get(f, I.b), I.w); storeAt(s, r, 0, nv, I.w, (I.w + 7) / 8); f.r[I.dst] = o; f.pc++; break; }
      case O_CMPXCHG: {
        unsigned nb = (I.w + 7) / 8; Ref r = resolve(s, get(f, I.a), nb, true, false); Val o = loadAt(s, r, 0, I.w, nb);
        Val c = icmp(CmpInst::ICMP_EQ, o, get(f, I.b), I.w); Val nv = !c.e ? (c.c ? get(f, I.c) : o) : ve(mkIte(c.e, toE(get(f, I.c), I.w), toE(o, I.w)));
        storeAt(s, r, 0, nv, I.w, nb); f.r[I.dst] = o; f.r[I.dst + 1] = c; f.pc++; break;
      }
      case O_NOP: f.pc++; break;
      case O_UNSUP: { std::string str; raw_string_ostream os(str); I.I->print(os); unsupported(s, "instruction " + os.str()); }
    }
  }
  if (s.stepLimit && s.steps > s.stepLimit) { if (s.stepLimitErr) errorEnd(s, "hang", "step limit exceeded"); S.stepLimit++; S.paths++; throw PathEnd(); }
  if (s.steps > optSteps) { S.stepLimit++; S.paths++; throw PathEnd(); }
  if (now() > gDeadline) { gStop = true; gTimeout = true; }
  static int memTick = 0;
  if ((++memTick & 1023) == 0 && rssMB() > optMem) { gStop = true; gTimeout = true; fprintf(stderr, "memory limit\n"); }
}
// The root frame: a synthetic function "vp.root" that calls ctors, then the entry, then vp_stop-like end.
static FnInfo* gRoot;
static void b_done(State& s, const DInst& I, std::vector<Val>& a) { endPath(s, "ok"); }
static FnInfo* makeRoot(Function* entry) {
  FnInfo* r = new FnInfo; r->decoded = true; r->F = entry; r->nslots = 0;
  auto addCall = [&](Function* f) { DInst d; d.op = O_CALL; d.callee = f; d.dst = -1; d.n = 0; d.I = nullptr; r->code.push_back(d); };
  if (GlobalVariable* g = gM->getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<unsigned, Function*>> v;
    if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
      for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1))) v.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : v) addCall(p.second);
  }
  addCall(entry);
  DInst d; d.op = O_CALL; d.callee = entry; d.builtin = gBIdx["__vp_done"]; d.dst = -1; d.n = 0; r->code.push_back(d);
  return r;
}
static void jlist(FILE* f, const char* k, const std::vector<std::string>& v) { fprintf(f, ",\"%s\":[", k); for (size_t i = 0; i < v.size(); i++) { if (i) fputc(',', f); writeJsonStr(f, v[i]); } fputc(']', f); }

static void writeStats(bool complete) {
  FILE* o = fopen((optOut + "/stats.json").c_str(), "w");
  fprintf(o, "{\"complete\":%s,\"paths\":%llu,\"ok_paths\":%llu,\"assume_killed\":%llu,\"instructions\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"integer_queries\":%llu,\"order_queries\":%llu,\"order_crosschecked\":%llu,\"cache_hits\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"symbolic_branches\":%llu,\"concretized\":%llu,\"pruned_unknown\":%llu,\"step_limit_paths\":%llu,\"unsupported_paths\":%llu,\"fatal_ok\":%llu,\"unexplored_states\":%zu,\"errors\":%llu,\"vars\":%zu",
    complete ? "true" : "false", (unsigned long long)S.paths, (unsigned long long)S.okPaths, (unsigned long long)S.assumeKilled, (unsigned long long)S.instrs, (unsigned long long)S.forks, (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown, (unsigned long long)S.liaq, (unsigned long long)S.ordq, (unsigned long long)S.ordx, (unsigned long long)S.cacheHits, S.solverTime, now(), (unsigned long long)S.asserts, (unsigned long long)S.assertsSym, (unsigned long long)S.symBranches, (unsigned long long)S.concretized, (unsigned long long)S.pruned, (unsigned long long)S.stepLimit, (unsigned long long)S.unsupported, (unsigned long long)S.fatalOk, gWork.size(), (unsigned long long)gErrors, gVars.size());
  auto jmap = [&](const char* k, const std::map<std::string, u64>& m) { fprintf(o, ",\"%s\":{", k); bool first = true; for (auto& p : m) { if (!first) fputc(',', o); first = false; writeJsonStr(o, p.first); fprintf(o, ":%llu", (unsigned long long)p.second); } fputc('}', o); };
  jmap("reach", gReach); jmap("must_reach", gMustReach);
  jlist(o, "unsupported", std::vector<std::string>(gUnsupported.begin(), gUnsupported.end()));
  std::vector<std::string> fns;
  for (const Function* F : gExecuted) { if (DISubprogram* sp = F->getSubprogram()) { std::string file = sp->getFilename().str(); std::string dir = sp->getDirectory().str(); std::string full = !file.empty() && file[0] == '/' ? file : dir + "/" + file; fns.push_back(full + "|" + shortFn(F)); } }
  std::sort(fns.begin(), fns.end());
  jlist(o, "functions", fns);
  fprintf(o, "}\n"); fclose(o); fclose(gErrF); fclose(gWit);
}
// Bounds every solver call; at the deadline (plus grace) with the main thread inside Z3, ends the run as incomplete.
static void watchdog() {
  for (;;) {
    usleep(100000);
    int in = gInZ3; double st = gZ3Start, t = now();
    if (t > optTime + 40) { S.pruned++; writeStats(false); fflush(nullptr); _exit(0); }
    if (!in) continue;
    double lim = (in == 1 ? gIncTimeout : in == 3 ? optLia * 1000u : optQTimeout) / 1000.0 + 0.5;
    if (t - st > lim) Z3_interrupt(gZ);
    if (t > optTime + 12 && t - st > 5 && gInZ3) { S.pruned++; writeStats(false); fflush(nullptr); _exit(0); }
  }
}
int main(int argc, char** argv) {
  std::string mod;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
    if (auto v = val("--entry=")) optEntry = v; else if (auto v = val("--cfg=")) optCfg = atoi(v); else if (auto v = val("--tier=")) optTier = v;
    else if (auto v = val("--time=")) optTime = atof(v); else if (auto v = val("--mem=")) optMem = atof(v); else if (auto v = val("--out=")) optOut = v;
    else if (auto v = val("--skip=")) optSkip = v; else if (auto v = val("--maxerr=")) optMaxErr = atoi(v); else if (auto v = val("--trace=")) optTrace = atoi(v); else if (auto v = val("--steps=")) optSteps = strtoull(v, nullptr, 0);
    else if (auto v = val("--qtimeout=")) optQTimeout = atoi(v); else if (auto v = val("--witness=")) optWitness = atoi(v); else if (auto v = val("--solver=")) optSolver = atoi(v); else if (auto v = val("--ord=")) optOrd = atoi(v); else if (auto v = val("--lia=")) optLia = atoi(v); else if (auto v = val("--selfork=")) optSelFork = atoi(v);
    else mod = a;
  }
  gDeadline = now() + optTime;
  initZ3();
  std::thread([] { watchdog(); }).detach();
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(mod, err, ctx);
  if (!M) die("cannot parse " + mod);
  gM = M.get(); gDL = &gM->getDataLayout();
  initBuiltins(); defB("__vp_throw", b_throw); defB("__vp_done", b_done);
  initGlobals();
  Function* entry = gM->getFunction(optEntry);
  if (!entry || entry->isDeclaration()) die("no entry " + optEntry);
  gRoot = makeRoot(entry);
  gErrF = fopen((optOut + "/errors.jsonl").c_str(), "w"); gWit = fopen((optOut + "/witness.jsonl").c_str(), "w");
  if (!gErrF || !gWit) die("cannot write to " + optOut);
  State* s = new State; s->mem = gInitMem; s->model = newModel(nullptr);
  Frame* f = new Frame; f->f = gRoot; s->st.push_back(f);
  gWork.push_back(s);
  double lastRep = now();
  while (!gWork.empty() && !gStop) {
    State* x = gWork.back(); gWork.pop_back();
    runState(x);
    if (optTrace && now() - lastRep > 2) { lastRep = now(); fprintf(stderr, "[%.0fs] paths %llu work %zu instrs %lluM queries %llu solver %.1fs rss %ldMB exprs %zu\n", now(), (unsigned long long)S.paths, gWork.size(), (unsigned long long)S.instrs / 1000000, (unsigned long long)S.queries, S.solverTime, rssMB(), exprCount()); }
  }
  bool complete = gWork.empty() && !gTimeout && !S.pruned && !S.stepLimit && !S.unsupported && !(gStop && gErrors);
  writeStats(complete);
  fprintf(stderr, "done complete=%d paths=%llu instrs=%llu queries=%llu solver=%.1fs wall=%.1fs errors=%llu\n", complete, (unsigned long long)S.paths, (unsigned long long)S.instrs, (unsigned long long)S.queries, S.solverTime, now(), (unsigned long long)gErrors);
  fflush(nullptr);
  _exit(0);
}
