// Symbolic executor for LLVM-18 IR.  Paths are explored depth first; every
// feasibility and assertion query goes to Z3 (QF_BV); single-byte conditions
// are also tracked as exact byte domains so that trivially decided branches
// need no query.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <map>
#include <set>
#include <unordered_set>
#include <memory>
#include <chrono>
#include <random>
#include <sstream>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>
#include <functional>
#include <signal.h>
#include <fcntl.h>
#include <sys/prctl.h>

using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ options
static std::map<std::string, long> g_params;
static double g_maxTime = 600; static u64 g_maxSteps = 2000000000ull; static u64 g_maxPaths = ~0ull;
static unsigned g_maxViol = 1, g_nwit = 40; static bool g_paranoid = false; static unsigned g_seed = 1;
static u64 g_maxMem = 6ull << 30; static double g_deadline = 0;
static bool g_progress = false;

// -------------------------------------------------------------------- stats
struct Stats { u64 paths = 0, killed = 0, forks = 0, instrs = 0, qSat = 0, qUnsat = 0, domDec = 0, modelDec = 0, assertSym = 0, assertDom = 0, assertConc = 0, symLoads = 0, symStores = 0, concretised = 0, memErrQ = 0, retried = 0; double solver = 0; } st;
static std::map<std::string, u64> g_covers;
static std::set<std::string> g_fnames;

struct EngineError { std::string msg; };
[[noreturn]] static void die(const std::string& m) { throw EngineError{m}; }
struct Incomplete { std::string msg; };

// ------------------------------------------------------------------- memory
enum : uint8_t { OK_GLOBAL, OK_CONST, OK_STACK, OK_HEAP, OK_EXC, OK_FUNC, OK_FREED };
struct Obj { u32 ref, size; uint8_t kind, allocKind; uint8_t* data; const Expr** sym; };
static Obj* newObj(u32 size, uint8_t kind) {
  Obj* o = (Obj*)malloc(sizeof(Obj)); o->ref = 1; o->size = size; o->kind = kind; o->allocKind = 0; o->data = (uint8_t*)malloc(size ? size : 1); o->sym = nullptr; return o; }
static void unref(Obj* o) { if (o && --o->ref == 0) { free(o->data); free(o->sym); free(o); } }
static Obj* cloneObj(Obj* o) { Obj* n = newObj(o->size, o->kind); n->allocKind = o->allocKind; memcpy(n->data, o->data, o->size);
  if (o->sym) { n->sym = (const Expr**)malloc(o->size * sizeof(Expr*)); memcpy(n->sym, o->sym, o->size * sizeof(Expr*)); } return n; }
static const int PG = 256;
struct Page { u32 ref; Obj* o[PG]; };

struct Memory {
  std::vector<Page*> pages; u32 n = 1;
  Memory() {}
  Memory(const Memory& m) : pages(m.pages), n(m.n) { for (auto p : pages) ++p->ref; }
  ~Memory() { clear(); }
  Memory& operator=(const Memory&) = delete;
  void clear() { for (auto p : pages) if (--p->ref == 0) { for (auto o : p->o) unref(o); delete p; } pages.clear(); }
  Page* wpage(u32 i) { Page*& p = pages[i]; if (p->ref > 1) { Page* q = new Page(*p); q->ref = 1; for (auto o : q->o) if (o) ++o->ref; --p->ref; p = q; } return p; }
  u32 add(Obj* o) { u32 id = n++; while (id / PG >= pages.size()) { Page* p = new Page(); p->ref = 1; memset(p->o, 0, sizeof p->o); pages.push_back(p); } wpage(id / PG)->o[id % PG] = o; return id; }
  Obj* get(u32 id) const { return id / PG < pages.size() ? pages[id / PG]->o[id % PG] : nullptr; }
  Obj* w(u32 id) { Page* p = wpage(id / PG); Obj*& o = p->o[id % PG]; if (o->ref > 1) { Obj* c = cloneObj(o); --o->ref; o = c; } return o; }
  void set(u32 id, Obj* o) { Page* p = wpage(id / PG); unref(p->o[id % PG]); p->o[id % PG] = o; }
};
static Obj *g_freedHeap, *g_freedStack;

// ------------------------------------------------------------ decoded program
enum Op : uint8_t { I_BIN, I_CAST_TRUNC, I_CAST_ZEXT, I_CAST_SEXT, I_MOV, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_UNREACH, I_LPAD, I_RESUME, I_EXTRACTV, I_INSERTV, I_FBIN, I_FCMP, I_FCAST, I_SHUFFLE, I_XELT, I_IELT };
struct Fn; struct Inst;
struct Edge { int target; std::vector<std::pair<int, int>> moves; };
struct Inst {
  Op op; uint8_t w = 0, sub = 0, flag = 0; int dst = -1; u32 n = 1; // n: lanes / slots
  std::vector<int> ops; std::vector<u64> k; std::vector<Edge> edges; std::vector<uint8_t> ws;
  Fn* callee = nullptr; const Instruction* src = nullptr; int nd = 0;
};
struct Fn {
  Function* f; std::string name; u32 id; bool decoded = false; int nargs = 0, nslots = 0; std::vector<V> consts; std::vector<Inst> code;
  int intrin = -1; bool varargs = false;
};
struct Frame { u32 ref = 1; Fn* fn; int pc; std::vector<V> r; std::vector<u32> allocas; std::vector<V> va; };
struct Exc { u64 obj; u64 ti; u64 dtor; int handlers; bool rethrown; };

struct Obs { u32 tag; V v; };
struct State {
  Memory mem; std::vector<Frame*> stack; std::vector<V> pc; Model model; ByteSet dom[MAXV]; std::vector<V> rel; /* constraints over several bytes, simplified under dom */ int nvars = 0;
  std::vector<Exc> excs; std::vector<u64> caught; int uncaught = 0; std::vector<Obs> obs; u64 steps = 0; u32 depth = 0; u64 heapLive = 0;
  State() { memset(&model, 0, sizeof model); for (auto& d : dom) d = ByteSet::full(); }
  State(const State& s) : mem(s.mem), stack(s.stack), pc(s.pc), model(s.model), rel(s.rel), nvars(s.nvars), excs(s.excs), caught(s.caught), uncaught(s.uncaught), obs(s.obs), steps(s.steps), depth(s.depth), heapLive(s.heapLive)
  { memcpy((void*)dom, s.dom, sizeof dom); for (auto f : stack) ++f->ref; }
  ~State() { for (auto f : stack) if (--f->ref == 0) delete f; }
  Frame* top() { Frame*& f = stack.back(); if (f->ref > 1) { Frame* g = new Frame(*f); g->ref = 1; --f->ref; f = g; } return f; }
};

// ------------------------------------------------------------------- solver
struct Solver {
  z3::context ctx; z3::solver s; std::unordered_map<const Expr*, z3::expr> memo; std::vector<z3::expr> vars;
  static z3::solver mk(z3::context& c) { return (z3::tactic(c, "simplify") & z3::tactic(c, "bit-blast") & z3::tactic(c, "sat")).mk_solver(); }
  Solver() : s(mk(ctx)) { z3::params p(ctx); p.set("timeout", 4000u); s.set(p); for (int i = 0; i < MAXV; ++i) vars.push_back(ctx.bv_const(("v" + std::to_string(i)).c_str(), 8)); }
  z3::expr k(u64 c, unsigned w) { return w == 1 ? ctx.bool_val(c != 0) : ctx.bv_val((uint64_t)c, w); }
  z3::expr tr(V v, unsigned w) { return v.e ? tr(v.e) : k(v.c, w); }
  z3::expr setExpr(const ByteSet& b, unsigned var) {
    bool neg = b.count() > 128; ByteSet s2 = neg ? ~b : b; z3::expr_vector ors(ctx);
    for (int i = 0; i < 256;) { if (!s2.has(i)) { ++i; continue; } int j = i; while (j < 255 && s2.has(j + 1)) ++j;
      z3::expr v = vars[var];
      if (i == j) ors.push_back(v == ctx.bv_val(i, 8)); else if (i == 0) ors.push_back(z3::ule(v, ctx.bv_val(j, 8))); else if (j == 255) ors.push_back(z3::uge(v, ctx.bv_val(i, 8)));
      else ors.push_back(z3::uge(v, ctx.bv_val(i, 8)) && z3::ule(v, ctx.bv_val(j, 8)));
      i = j + 1; }
    z3::expr r = ors.size() == 0 ? ctx.bool_val(false) : ors.size() == 1 ? ors[0] : z3::mk_or(ors);
    return neg ? !r : r;
  }
  z3::expr bv1(z3::expr b) { return z3::ite(b, ctx.bv_val(1, 1), ctx.bv_val(0, 1)); }
  z3::expr asBV(V v, unsigned w) { z3::expr e = tr(v, w); return w == 1 ? bv1(e) : e; }
  z3::expr fromBV(z3::expr e, unsigned w) { return w == 1 ? e == ctx.bv_val(1, 1) : e; }
  z3::expr tr(const Expr* e) { auto it = memo.find(e); if (it != memo.end()) return it->second; z3::expr r = tr0(e); memo.emplace(e, r); return r; }
  z3::expr tr0(const Expr* e) {
    unsigned w = e->w;
    switch (e->k) {
    case K_LUT: {
      if (w == 1) return setExpr(lutBits(e), e->var);
      for (unsigned sh = 1; w >= 9 && sh < w; ++sh) { bool ok = true; for (int i = 0; i < 256 && ok; ++i) ok = lutGet(e, i) == (((u64)i << sh) & maskw(w)); if (ok) return z3::shl(z3::zext(vars[e->var], w - 8), ctx.bv_val(sh, w)); if (lutGet(e, 1) & 1) break; }
      // piecewise v + k or constant: the commonest offset covers most entries
      std::map<u64, int> off; std::map<u64, int> val; for (int i = 0; i < 256; ++i) { ++off[(lutGet(e, i) - i) & maskw(w)]; ++val[lutGet(e, i)]; }
      u64 k0 = 0; int bo = 0, bv = 0; for (auto& o : off) if (o.second > bo) { bo = o.second; k0 = o.first; } for (auto& o : val) bv = std::max(bv, o.second);
      if (w >= 8 && bo > bv && bo > 8) { z3::expr v = w > 8 ? z3::zext(vars[e->var], w - 8) : vars[e->var]; z3::expr r = k0 ? v + ctx.bv_val((uint64_t)k0, w) : v;
        std::map<u64, ByteSet> rest; for (int i = 0; i < 256; ++i) if (lutGet(e, i) != ((k0 + i) & maskw(w))) { auto p = rest.emplace(lutGet(e, i), ByteSet::none()); p.first->second.add(i); }
        if (rest.size() < 64 || (int)val.size() > 64) { for (auto& g : rest) r = z3::ite(setExpr(g.second, e->var), ctx.bv_val((uint64_t)g.first, w), r); return r; } }
      std::map<u64, ByteSet> groups; for (int i = 0; i < 256; ++i) { auto p = groups.emplace(lutGet(e, i), ByteSet::none()); p.first->second.add(i); }
      u64 def = groups.begin()->first; int best = 0; for (auto& g : groups) if (g.second.count() > best) { best = g.second.count(); def = g.first; }
      z3::expr r = ctx.bv_val((uint64_t)def, w);
      for (auto& g : groups) if (g.first != def) r = z3::ite(setExpr(g.second, e->var), ctx.bv_val((uint64_t)g.first, w), r);
      return r; }
    case K_ITE: return z3::ite(tr(e->a, 1), tr(e->b, w), tr(e->c, w));
    case K_CONCAT: { unsigned hw = e->c.c; return z3::concat(asBV(e->a, hw), asBV(e->b, w - hw)); }
    case K_EXTRACT: return fromBV(tr(e->a, e->a.e->w).extract(e->b.c + w - 1, e->b.c), w);
    case K_ZEXT: return z3::zext(asBV(e->a, e->a.e->w), w - e->a.e->w);
    case K_SEXT: return z3::sext(asBV(e->a, e->a.e->w), w - e->a.e->w);
    default: {
      unsigned cw = e->a.e ? e->a.e->w : e->b.e->w;
      if (cw == 1) { z3::expr a = tr(e->a, 1), b = tr(e->b, 1);
        switch (e->k) { case K_AND: case K_MUL: return a && b; case K_OR: return a || b; case K_XOR: case K_ADD: case K_SUB: return a != b; case K_EQ: return a == b;
          case K_ULT: return !a && b; case K_ULE: return !a || b; case K_SLT: return a && !b; case K_SLE: return a || !b; default: die("bool op"); } }
      z3::expr a = tr(e->a, cw), b = tr(e->b, cw);
      switch (e->k) {
      case K_ADD: return a + b; case K_SUB: return a - b; case K_MUL: return a * b; case K_UDIV: return z3::udiv(a, b); case K_SDIV: return a / b;
      case K_UREM: return z3::urem(a, b); case K_SREM: return z3::srem(a, b); case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
      case K_SHL: return z3::shl(a, b); case K_LSHR: return z3::lshr(a, b); case K_ASHR: return z3::ashr(a, b); case K_EQ: return a == b;
      case K_ULT: return z3::ult(a, b); case K_ULE: return z3::ule(a, b); case K_SLT: return a < b; case K_SLE: return a <= b; default: die("op"); } }
    }
  }
  // is pc && cond satisfiable?
  bool check(const std::vector<V>& pc, V cond, Model* m) {
    double t0 = now(); s.reset();
    for (auto& x : pc) s.add(tr(x, 1));
    s.add(tr(cond, 1));
    if (getenv("SYMX_DUMPQ")) { FILE* f = fopen(getenv("SYMX_DUMPQ"), "a"); fputs(";;;;\n", f); fputs(s.to_smt2().c_str(), f); fclose(f); }
    double t1 = now(); z3::check_result r = s.check();
    if (getenv("SYMX_SLOWQ") && now() - t1 > atof(getenv("SYMX_SLOWQ"))) { static int n = 0; FILE* f = fopen(("/tmp/slow" + std::to_string(n++ % 20) + ".smt2").c_str(), "w"); fprintf(f, "; %g\n", now() - t1); fputs(s.to_smt2().c_str(), f); fclose(f); }
    z3::solver* cur = &s; z3::solver s2(ctx, "QF_BV");
    if (r == z3::unknown) { // the tactic chain occasionally stalls on easy queries; the general solver decides them
      z3::params p(ctx); p.set("timeout", 120000u); s2.set(p); for (auto& x : pc) s2.add(tr(x, 1)); s2.add(tr(cond, 1)); r = s2.check(); cur = &s2; ++st.retried; }
    if (r == z3::unknown) { st.solver += now() - t0; throw Incomplete{"solver returned unknown"}; }
    if (r == z3::sat && m) { z3::model zm = cur->get_model(); for (unsigned j = 0; j < zm.num_consts(); ++j) { z3::func_decl d = zm.get_const_decl(j); std::string nm = d.name().str(); if (nm[0] == 'v') { int idx = atoi(nm.c_str() + 1); z3::expr v = zm.get_const_interp(d); uint64_t x; if (v.is_numeral_u64(x)) m->b[idx] = (uint8_t)x; } } }
    st.solver += now() - t0; (r == z3::sat ? st.qSat : st.qUnsat)++; return r == z3::sat;
  }
};
static Solver* g_solver;

// --------------------------------------------------------------- violations
static std::string g_out; static const char* volatile g_partial = nullptr; static void savePartial();
struct Violation { std::string kind, msg, where; std::vector<uint8_t> bytes; std::vector<std::pair<u32, u64>> obs; };
static std::vector<Violation> g_viol;
struct Witness { std::vector<uint8_t> bytes; std::vector<std::pair<u32, u64>> obs; };
static std::vector<Witness> g_wit;
struct PathEnd {}; // thrown to end the current path

static std::string where(State& s) {
  std::string r; int n = 0;
  for (int i = (int)s.stack.size() - 1; i >= 0 && n < 12; --i, ++n) {
    Frame* f = s.stack[i]; std::string nm = demangle(f->fn->name); if (nm.size() > 100) nm = nm.substr(0, 100) + "..";
    r += (n ? " < " : "") + nm;
    if (f->pc < (int)f->fn->code.size() && f->fn->code[f->pc].src) if (auto& dl = f->fn->code[f->pc].src->getDebugLoc()) { auto* sc = dyn_cast<DIScope>(dl.getScope()); r += "@" + (sc ? sc->getFilename().str() : std::string()) + ":" + std::to_string(dl.getLine()); }
  }
  return r;
}
static void report(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  Violation v; v.kind = kind; v.msg = msg; v.where = where(s); for (int i = 0; i < s.nvars; ++i) v.bytes.push_back(m.b[i]);
  for (auto& o : s.obs) v.obs.push_back({o.tag, evalV(o.v, m)});
  g_viol.push_back(v); savePartial();
  if (g_viol.size() >= g_maxViol) throw Incomplete{"violation limit"};
}
static void fail(State& s, const std::string& kind, const std::string& msg) { report(s, kind, msg, s.model); throw PathEnd{}; }

// ------------------------------------------------------------- constraints
static void pcAdd(State& s, V c) {
  if (!c.e) return;
  if (c.e->k == K_AND && c.e->w == 1) { pcAdd(s, c.e->a); pcAdd(s, c.e->b); return; }
  for (auto& x : s.pc) if (x == c) return;
  s.pc.push_back(c);
}
// Unit propagation over byte domains: restricts dom by c and by the relational constraints until a
// fixpoint; false = inconsistent.  rel keeps what is not decided by the domains alone.
static bool propagate(ByteSet* dom, std::vector<V>& rel, V c) {
  std::vector<V> todo; todo.push_back(c); bool changed = false;
  for (;;) {
    while (!todo.empty()) {
      V x = todo.back(); todo.pop_back();
      if (x.e && x.e->k != K_LUT) x = domSimp(x, dom);
      if (!x.e) { if (!x.c) return false; continue; }
      if (x.e->k == K_AND && x.e->w == 1) { todo.push_back(x.e->b); todo.push_back(x.e->a); continue; }
      if (x.e->k == K_LUT) { ByteSet& d = dom[x.e->var]; ByteSet n = d & lutBits(x.e); if (n.empty()) return false; if (!(n == d)) { d = n; changed = true; } continue; }
      if (std::find(rel.begin(), rel.end(), x) == rel.end()) rel.push_back(x);
    }
    if (!changed || rel.empty()) return true;
    changed = false; std::vector<V> old; old.swap(rel); todo.assign(old.rbegin(), old.rend());
  }
}
static void addC(State& s, V c) {
  if (!c.e) return;
  pcAdd(s, c);
  if (!propagate(s.dom, s.rel, c)) die("inconsistent path condition");
}
// feasibility of pc && c; on success *m is a model
static bool feasible(State& s, V& c, Model* m) {
  if (!c.e) { if (c.c && m) *m = s.model; return c.c; }
  if (evalV(c, s.model)) { st.modelDec++; if (m) *m = s.model; return true; }
  static ByteSet dom[MAXV]; memcpy((void*)dom, s.dom, sizeof dom);
  std::vector<V> rel = s.rel;
  if (!propagate(dom, rel, c)) { st.domDec++; if (g_paranoid && g_solver->check(s.pc, c, nullptr)) die("domain/solver mismatch"); return false; }
  Model t = s.model; for (int i = 0; i < s.nvars; ++i) if (!dom[i].has(t.b[i])) t.b[i] = dom[i].first();
  bool ok = true; for (auto& x : rel) if (!evalV(x, t)) { ok = false; break; }
  if (!ok) { // the candidate fails a relational constraint: Z3 decides the residual problem
    std::vector<V> q; VarSet vs; for (auto& x : rel) { q.push_back(x); vs = vs | x.e->vars; }
    for (int i = 0; i < s.nvars; ++i) if (vs.has(i) && !(dom[i] == ByteSet::full())) { uint64_t tb[256]; for (int j = 0; j < 256; ++j) tb[j] = dom[i].has(j); V l = mkLut(1, i, tb); if (l.e) q.push_back(l); }
    if (!g_solver->check(q, C(1), &t)) { if (g_paranoid && g_solver->check(s.pc, c, nullptr)) die("residual/solver mismatch"); return false; }
  } else st.domDec++;
  if (g_paranoid) { for (auto& x : s.pc) if (!evalV(x, t)) die("model does not satisfy the path condition"); if (!evalV(c, t)) die("model does not satisfy the condition"); }
  if (m) *m = t; return true;
}
static bool feasible(State& s, V&& c, Model* m) { V v = c; return feasible(s, v, m); }
static std::vector<State*> g_work;
// constrain s to c (known feasible with model m)
static void assume(State& s, V c, const Model& m) { s.model = m; addC(s, c); }

// ------------------------------------------------------------- memory access
struct Prog;
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static std::string badAddr(State& s, u64 a, u64 n, bool w) {
  u32 id = a >> 32; u64 off = (u32)a; Obj* o = id ? s.mem.get(id) : nullptr; std::string op = w ? "write" : "read";
  if (a < 4096) return op + " through null pointer";
  if (!o) return op + " through wild pointer " + hex(a);
  if (o->kind == OK_FREED) return op + (o == g_freedStack ? " of dead stack object" : " after free");
  if (o->kind == OK_FUNC) return op + " of code";
  if (off + n > o->size) return op + " out of bounds: offset " + std::to_string((int32_t)off) + " size " + std::to_string(n) + " object size " + std::to_string(o->size) + (o->kind == OK_HEAP ? " (heap)" : o->kind == OK_STACK ? " (stack)" : " (global)");
  if (w && o->kind == OK_CONST) return "write to constant object";
  return "";
}
static bool addrOK(State& s, u64 a, u64 n, bool w) {
  u32 id = a >> 32; Obj* o = id ? s.mem.get(id) : nullptr; u64 off = (u32)a;
  return o && o->kind < OK_FUNC && off + n <= o->size && !(w && o->kind == OK_CONST);
}
static V rdBytes(Obj* o, u32 off, unsigned n) {
  if (o->sym) { bool any = false; for (unsigned i = 0; i < n; ++i) if (o->sym[off + i]) any = true;
    if (any) { auto by = [&](unsigned i) { return o->sym[off + i] ? V{0, o->sym[off + i]} : C(o->data[off + i]); };
      V r = by(0); for (unsigned i = 1; i < n; ++i) r = mkConcat(by(i), 8, r, 8 * i); return r; } }
  u64 c = 0; memcpy(&c, o->data + off, n); return C(c);
}
static void wrByte(Obj* o, u32 off, V b) {
  if (b.e) { if (!o->sym) { o->sym = (const Expr**)calloc(o->size ? o->size : 1, sizeof(Expr*)); } o->sym[off] = b.e; }
  else { if (o->sym) o->sym[off] = nullptr; o->data[off] = (uint8_t)b.c; }
}
static void wrBytes(Obj* o, u32 off, V v, unsigned n, unsigned w) {
  if (!v.e) { memcpy(o->data + off, &v.c, n); if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr*)); return; }
  v = mkZExt(v, w, 8 * n);
  for (unsigned i = 0; i < n; ++i) wrByte(o, off + i, mkExtract(v, 8 * n, 8 * i, 8));
}
static u32 g_vgen = 0; // visit stamp of the DAG walks below
static const Expr* findSplit0(const Expr* e) {
  if (e->k == K_ITE) return e;
  if (e->k == K_LUT || e->vgen == g_vgen) return nullptr;
  e->vgen = g_vgen;
  for (V x : {e->a, e->b, e->c}) if (x.e && x.e->w > 1) if (auto r = findSplit0(x.e)) return r;
  return nullptr;
}
static const Expr* findSplit(const Expr* e) { ++g_vgen; return findSplit0(e); }
static void findLuts0(const Expr* e, const Expr*& best) {
  if (e->vgen == g_vgen) return; e->vgen = g_vgen;
  if (e->k == K_LUT) { if (!best || e->ndist < best->ndist) best = e; return; }
  for (V x : {e->a, e->b, e->c}) if (x.e && x.e->w > 1) findLuts0(x.e, best);
}
static void findLuts(const Expr* e, const Expr*& best) { ++g_vgen; findLuts0(e, best); }
// symbolic conc of value: fork so that v becomes concrete in s
static u64 concretise(State& s, V v, unsigned w, const char* why);

struct SymLoad {
  State& s; V root; unsigned n; std::unordered_map<const Expr*, V> memo; u64 leaves = 0; bool addr32;
  V leaf(u64 a) {
    if (!addrOK(s, a, n, false)) {
      Model m; st.memErrQ++; if (feasible(s, mkEq(64, root, C(a)), &m)) { s.model = m; report(s, "memory", badAddr(s, a, n, false), m); }
      return C(0);
    }
    return rdBytes(s.mem.get(a >> 32), (u32)a, n);
  }
  V go(V a) {
    if (!a.e) { if (++leaves > 60000) die("symbolic load: too many leaves"); return leaf(a.c); }
    auto it = memo.find(a.e); if (it != memo.end()) return it->second;
    const Expr* e = a.e; V r;
    if (e->k == K_LUT) {
      // distinct in-domain values
      u64 t[256]; bool allc = true; std::map<u64, V> vals; u64 defc = 0; bool have = false; const ByteSet& d = s.dom[e->var];
      for (int i = 0; i < 256; ++i) if (d.has(i)) { u64 ad = lutGet(e, i); auto f = vals.find(ad); if (f == vals.end()) { if (++leaves > 60000) die("symbolic load: too many leaves"); V lv = leaf(ad); f = vals.emplace(ad, lv).first; if (lv.e) allc = false; } if (!have) { have = true; defc = f->second.c; } }
      if (allc) { for (int i = 0; i < 256; ++i) t[i] = d.has(i) ? vals[lutGet(e, i)].c : defc; r = mkLut(8 * n, e->var, t); }
      else { std::map<std::pair<u64, const Expr*>, ByteSet> g; for (int i = 0; i < 256; ++i) if (d.has(i)) { V lv = vals[lutGet(e, i)]; auto p = g.emplace(std::make_pair(lv.c, lv.e), ByteSet::none()); p.first->second.add(i); }
        bool first = true; for (auto& x : g) { V lv{x.first.first, x.first.second}; if (first) { r = lv; first = false; continue; } u64 bt[256]; for (int i = 0; i < 256; ++i) bt[i] = x.second.has(i); r = mkIte(8 * n, mkLut(1, e->var, bt), lv, r); } }
    } else if (const Expr* sp = findSplit(e)) {
      std::unordered_map<const Expr*, V> m1, m2; V x = substE(a, sp, sp->b, m1), y = substE(a, sp, sp->c, m2);
      r = mkIte(8 * n, sp->a, go(x), go(y));
    } else {
      const Expr* b = nullptr; findLuts(e, b); if (!b) die("symbolic load: no split");
      std::map<u64, ByteSet> g; for (int i = 0; i < 256; ++i) if (s.dom[b->var].has(i)) { auto p = g.emplace(lutGet(b, i), ByteSet::none()); p.first->second.add(i); }
      bool first = true;
      for (auto& x : g) { std::unordered_map<const Expr*, V> m1; V lv = go(substE(a, b, C(x.first), m1)); if (first) { r = lv; first = false; continue; } u64 bt[256]; for (int i = 0; i < 256; ++i) bt[i] = x.second.has(i); r = mkIte(8 * n, mkLut(1, b->var, bt), lv, r); }
    }
    memo[a.e] = r; return r;
  }
};
static bool g_merge = false;
static bool multiVar(const Expr* e) { int c = 0; for (auto x : e->vars.m) c += __builtin_popcountll(x); return c > 1; }
static void earliest0(const Expr* e, const Expr*& best) {
  if (e->vgen == g_vgen) return; e->vgen = g_vgen;
  if (e->k == K_LUT) { if (!best || e->var < best->var || (e->var == best->var && e->ndist > best->ndist)) best = e; return; }
  for (V x : {e->a, e->b, e->c}) if (x.e) earliest0(x.e, best);
}
static void earliest(const Expr* e, const Expr*& best) { ++g_vgen; earliest0(e, best); }
static V loadN(State& s, V a, unsigned n) {
  if (!a.e) {
    if (!addrOK(s, a.c, n, false)) fail(s, "memory", badAddr(s, a.c, n, false));
    return rdBytes(s.mem.get(a.c >> 32), (u32)a.c, n);
  }
  a = domSimp(a, s.dom);
  if (!g_merge) while (a.e && multiVar(a.e)) {
    // the address mixes several input bytes (table row chosen by earlier bytes): fork on the earliest byte's contribution
    const Expr* b = nullptr; earliest(a.e, b); if (!b || b->ndist > 64) break;
    concretise(s, V{0, b}, b->w, "load"); a = domSimp(a, s.dom);
  }
  if (!a.e) { if (!addrOK(s, a.c, n, false)) fail(s, "memory", badAddr(s, a.c, n, false)); return rdBytes(s.mem.get(a.c >> 32), (u32)a.c, n); }
  st.symLoads++; SymLoad L{s, a, n, {}, 0, false}; return L.go(a);
}
static void leafAddrs(State& s, V a, V cond, std::vector<std::pair<V, u64>>& out) {
  if (cond == C(0)) return;
  if (!a.e) { out.push_back({cond, a.c}); if (out.size() > 4096) die("symbolic store: too many leaves"); return; }
  if (a.e->k == K_LUT || !findSplit(a.e)) {
    const Expr* b = nullptr; findLuts(a.e, b); std::map<u64, ByteSet> g; for (int i = 0; i < 256; ++i) if (s.dom[b->var].has(i)) { auto p = g.emplace(lutGet(b, i), ByteSet::none()); p.first->second.add(i); }
    for (auto& x : g) { std::unordered_map<const Expr*, V> m1; u64 bt[256]; for (int i = 0; i < 256; ++i) bt[i] = x.second.has(i); leafAddrs(s, substE(a, b, C(x.first), m1), mkAnd(cond, mkLut(1, b->var, bt)), out); }
    return;
  }
  const Expr* sp = findSplit(a.e); std::unordered_map<const Expr*, V> m1, m2;
  leafAddrs(s, substE(a, sp, sp->b, m1), mkAnd(cond, sp->a), out); leafAddrs(s, substE(a, sp, sp->c, m2), mkAnd(cond, mkNot(sp->a)), out);
}
static void storeN(State& s, V a, V v, unsigned n, unsigned w) {
  if (!a.e) {
    if (!addrOK(s, a.c, n, true)) fail(s, "memory", badAddr(s, a.c, n, true));
    wrBytes(s.mem.w(a.c >> 32), (u32)a.c, v, n, w); return;
  }
  st.symStores++; std::vector<std::pair<V, u64>> L; leafAddrs(s, a, C(1), L); v = mkZExt(v, w, 8 * n);
  std::map<u64, V> by; for (auto& x : L) { auto p = by.emplace(x.second, x.first); if (!p.second) p.first->second = mkOr(p.first->second, x.first); }
  for (auto& x : by) {
    if (!addrOK(s, x.first, n, true)) { Model m; if (feasible(s, x.second, &m)) { s.model = m; report(s, "memory", badAddr(s, x.first, n, true), m); } continue; }
    Obj* o = s.mem.w(x.first >> 32); V old = rdBytes(o, (u32)x.first, n); wrBytes(o, (u32)x.first, mkIte(8 * n, x.second, v, old), n, 8 * n);
  }
}

// --------------------------------------------------------------- the program
static Module* M; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, u64> g_gaddr; static std::unordered_map<u64, Fn*> g_fnByAddr; static std::unordered_map<const Function*, Fn*> g_fns;
static Memory* g_initMem;
static std::unordered_map<u64, std::string> g_nameByAddr;

static unsigned slotsOf(Type* t) {
  if (t->isVoidTy()) return 0;
  if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += slotsOf(e); return n; }
  if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slotsOf(a->getElementType());
  if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
  return 1;
}
static unsigned widthOf(Type* t) {
  if (t->isPointerTy()) return 64; if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) die("integer wider than 64 bits"); return w; }
  if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 64; if (auto* v = dyn_cast<FixedVectorType>(t)) return widthOf(v->getElementType());
  return 64;
}
struct Lane { unsigned w; u64 off; };
static void lanesOf(Type* t, u64 off, std::vector<Lane>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) lanesOf(s->getElementType(i), off + L->getElementOffset(i), out); return; }
  if (auto* a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (unsigned i = 0; i < a->getNumElements(); ++i) lanesOf(a->getElementType(), off + i * es, out); return; }
  if (auto* v = dyn_cast<FixedVectorType>(t)) { unsigned w = widthOf(v->getElementType()); for (unsigned i = 0; i < v->getNumElements(); ++i) out.push_back({w, off + i * ((w + 7) / 8)}); return; }
  out.push_back({widthOf(t), off});
}
static Fn* fnOf(Function* f) { auto it = g_fns.find(f); if (it != g_fns.end()) return it->second; Fn* n = new Fn(); n->f = f; n->name = f->getName().str(); n->varargs = f->isVarArg(); g_fns[f] = n; return n; }
static u64 gaddr(const GlobalValue* g) {
  if (auto* a = dyn_cast<GlobalAlias>(g)) { const Constant* c = a->getAliasee(); return gaddr(cast<GlobalValue>(c->stripPointerCasts())); }
  auto it = g_gaddr.find(g); if (it != g_gaddr.end()) return it->second; die("no address for global " + g->getName().str());
}
static u64 cval(const Constant* c) {
  if (auto* i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) die("wide constant"); return i->getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto* f = dyn_cast<ConstantFP>(c)) { if (f->getType()->isFloatTy()) { float x = f->getValueAPF().convertToFloat(); u32 u; memcpy(&u, &x, 4); return u; } if (f->getType()->isDoubleTy()) { double x = f->getValueAPF().convertToDouble(); u64 u; memcpy(&u, &x, 8); return u; } return 0; }
  if (auto* g = dyn_cast<GlobalValue>(c)) return gaddr(g);
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    unsigned w = e->getType()->isPointerTy() ? 64 : e->getType()->getIntegerBitWidth();
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) die("constexpr gep"); return cval(e->getOperand(0)) + off.getSExtValue(); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return cval(e->getOperand(0)) & maskw(w);
    case Instruction::Sub: return (cval(e->getOperand(0)) - cval(e->getOperand(1))) & maskw(w);
    case Instruction::Add: return (cval(e->getOperand(0)) + cval(e->getOperand(1))) & maskw(w);
    case Instruction::Trunc: return cval(e->getOperand(0)) & maskw(w);
    default: die("constexpr " + std::string(e->getOpcodeName())); }
  }
  die("constant kind");
}
static void cslots(const Constant* c, std::vector<u64>& out) {
  Type* t = c->getType(); unsigned n = slotsOf(t);
  if (!t->isAggregateType() && !t->isVectorTy()) { out.push_back(cval(c)); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { out.insert(out.end(), n, 0); return; }
  unsigned ne = t->isStructTy() ? t->getStructNumElements() : isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
  for (unsigned i = 0; i < ne; ++i) cslots(c->getAggregateElement(i), out);
}
static void initMem(Obj* o, u64 off, const Constant* c) {
  if (isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto* s = dyn_cast<ConstantDataSequential>(c)) { StringRef d = s->getRawDataValues(); memcpy(o->data + off, d.data(), d.size()); return; }
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); ++i) initMem(o, off + L->getElementOffset(i), s->getOperand(i)); return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); ++i) initMem(o, off + i * es, a->getOperand(i)); return; }
  if (auto* a = dyn_cast<ConstantVector>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); ++i) initMem(o, off + i * es, a->getOperand(i)); return; }
  u64 v = cval(c); unsigned n = DL->getTypeStoreSize(c->getType()); if (n > 8) n = 8; memcpy(o->data + off, &v, n);
}

// ------------------------------------------------------------------- decode
struct Decoder {
  Fn* fn; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bstart; std::unordered_map<std::string, int> cpool; int ns = 0;
  int constSlot(const std::vector<u64>& v) { int base = fn->consts.size(); for (u64 x : v) fn->consts.push_back(C(x)); return ~base; }
  int opd(const Value* v) { // first slot index; negative = const pool (~idx), consecutive slots
    if (auto* c = dyn_cast<Constant>(v)) { std::vector<u64> s; cslots(c, s); return constSlot(s); }
    auto it = slot.find(v); if (it == slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return constSlot({0}); die("unknown operand in " + fn->name); } return it->second;
  }
  static int sl(int base, int i) { return base >= 0 ? base + i : ~(~base + i); }
  Edge mkEdge(const BasicBlock* from, const BasicBlock* to) {
    Edge e; e.target = -1;
    for (auto& p : to->phis()) { int n = slotsOf(p.getType()); int s = opd(p.getIncomingValueForBlock(from)); int d = slot[&p]; for (int i = 0; i < n; ++i) e.moves.push_back({d + i, sl(s, i)}); }
    return e;
  }
  void run();
};
enum Intrin { X_NONE = -1, X_NOP, X_MALLOC, X_FREE, X_CALLOC, X_REALLOC, X_NEW, X_DELETE, X_MEMCPY, X_MEMSET, X_MEMCMP, X_ASSERTFAIL, X_ABORT, X_EXALLOC, X_EXFREE, X_THROW, X_BEGINCATCH, X_ENDCATCH, X_RETHROW, X_UNCAUGHT, X_GUARDACQ, X_GUARDREL, X_PUREV, X_DYNCAST, X_SYMBYTE, X_SYMBYTES, X_ASSUME, X_SASSERT, X_CHOICE, X_CONC, X_OBS, X_COVER, X_PARAM, X_FATAL, X_ISSYM, X_HEAPLIVE, X_UMULO, X_UADDO, X_USUBO, X_SMULO, X_SADDO, X_SSUBO, X_UMAX, X_UMIN, X_SMAX, X_SMIN, X_ABS, X_CTLZ, X_CTTZ, X_CTPOP, X_BSWAP, X_FSHL, X_FSHR, X_EXPECT, X_OBJSIZE, X_TYPEID, X_ISCONST, X_STACKSAVE, X_USUBSAT, X_UADDSAT, X_TRAP, X_SYMEXISTS, X_VASTART, X_ADJPTR, X_BITREV, X_SYMAND, X_EXISTS, X_OBJBASE, X_STRLEN };
static const std::map<std::string, int>& itable() {
  static const std::map<std::string, int> t = {
    {"malloc", X_MALLOC}, {"free", X_FREE}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"_Znwm", X_NEW}, {"_Znam", X_NEW}, {"_ZnwmSt11align_val_t", X_NEW}, {"_ZnwmRKSt9nothrow_t", X_NEW}, {"_ZnamRKSt9nothrow_t", X_NEW},
    {"_ZdlPv", X_DELETE}, {"_ZdaPv", X_DELETE}, {"_ZdlPvm", X_DELETE}, {"_ZdaPvm", X_DELETE}, {"_ZdlPvRKSt9nothrow_t", X_DELETE}, {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP},
    {"__assert_fail", X_ASSERTFAIL}, {"abort", X_ABORT}, {"__cxa_allocate_exception", X_EXALLOC}, {"__cxa_free_exception", X_EXFREE}, {"__cxa_throw", X_THROW}, {"__cxa_begin_catch", X_BEGINCATCH}, {"__cxa_end_catch", X_ENDCATCH}, {"__cxa_rethrow", X_RETHROW},
    {"_ZSt18uncaught_exceptionv", X_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", X_UNCAUGHT}, {"__cxa_guard_acquire", X_GUARDACQ}, {"__cxa_guard_release", X_GUARDREL}, {"__cxa_guard_abort", X_NOP}, {"__cxa_atexit", X_NOP}, {"__cxa_pure_virtual", X_PUREV}, {"__dynamic_cast", X_DYNCAST},
    {"_ZSt21ios_base_library_initv", X_NOP}, {"sym_byte", X_SYMBYTE}, {"sym_bytes", X_SYMBYTES}, {"sym_assume", X_ASSUME}, {"sym_assert", X_SASSERT}, {"sym_choice", X_CHOICE}, {"sym_conc", X_CONC}, {"sym_observe", X_OBS}, {"sym_cover", X_COVER}, {"sym_param", X_PARAM}, {"sym_fatal", X_FATAL}, {"sym_is_symbolic", X_ISSYM}, {"sym_heap_live", X_HEAPLIVE}, {"sym_and", X_SYMAND}, {"sym_exists", X_EXISTS}, {"sym_object_base", X_OBJBASE}};
  return t;
}
static int llvmIntrin(Function* f) {
  switch (f->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::vaend: return X_NOP;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return X_MEMCPY; case Intrinsic::memset: return X_MEMSET;
  case Intrinsic::umul_with_overflow: return X_UMULO; case Intrinsic::uadd_with_overflow: return X_UADDO; case Intrinsic::usub_with_overflow: return X_USUBO; case Intrinsic::smul_with_overflow: return X_SMULO; case Intrinsic::sadd_with_overflow: return X_SADDO; case Intrinsic::ssub_with_overflow: return X_SSUBO;
  case Intrinsic::umax: return X_UMAX; case Intrinsic::umin: return X_UMIN; case Intrinsic::smax: return X_SMAX; case Intrinsic::smin: return X_SMIN; case Intrinsic::abs: return X_ABS;
  case Intrinsic::ctlz: return X_CTLZ; case Intrinsic::cttz: return X_CTTZ; case Intrinsic::ctpop: return X_CTPOP; case Intrinsic::bswap: return X_BSWAP; case Intrinsic::bitreverse: return X_BITREV; case Intrinsic::fshl: return X_FSHL; case Intrinsic::fshr: return X_FSHR;
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return X_EXPECT; case Intrinsic::objectsize: return X_OBJSIZE; case Intrinsic::eh_typeid_for: return X_TYPEID; case Intrinsic::is_constant: return X_ISCONST; case Intrinsic::stacksave: return X_STACKSAVE;
  case Intrinsic::usub_sat: return X_USUBSAT; case Intrinsic::uadd_sat: return X_UADDSAT; case Intrinsic::trap: return X_TRAP; case Intrinsic::vastart: return X_VASTART;
  default: return -2; }
}
static std::set<std::string> g_inl;
void Decoder::run() {
  Function* f = fn->f; fn->decoded = true; g_fnames.insert(demangle(fn->name));
  for (auto& a : f->args()) { slot[&a] = ns; ns += slotsOf(a.getType()); }
  fn->nargs = ns;
  for (auto& b : *f) for (auto& i : b) { unsigned n = slotsOf(i.getType()); if (n) { slot[&i] = ns; ns += n; } }
  fn->nslots = ns;
  std::vector<std::pair<int, std::pair<int, const BasicBlock*>>> fix; // inst, edge -> block
  for (auto& b : *f) {
    bstart[&b] = fn->code.size();
    for (auto& i : b) {
      if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
      if (auto& dl = i.getDebugLoc()) for (DILocation* l = dl.get(); l; l = l->getInlinedAt()) { auto* sp = l->getScope()->getSubprogram(); if (sp && sp->getFilename().contains("lexertl/")) { StringRef fnm = sp->getFilename(); g_inl.insert(fnm.substr(fnm.rfind("lexertl/")).str() + ":" + sp->getName().str()); } }
      Inst n; n.src = &i; auto it = slot.find(&i); n.dst = it == slot.end() ? -1 : it->second; n.nd = slotsOf(i.getType());
      auto edge = [&](const BasicBlock* to) { fix.push_back({(int)fn->code.size(), {(int)n.edges.size(), to}}); n.edges.push_back(mkEdge(&b, to)); };
      if (auto* x = dyn_cast<BinaryOperator>(&i)) {
        n.n = slotsOf(i.getType()); n.ops = {opd(x->getOperand(0)), opd(x->getOperand(1))};
        n.w = widthOf(i.getType());
        if (i.getType()->isFPOrFPVectorTy()) { n.op = I_FBIN; n.sub = x->getOpcode(); }
        else { n.op = I_BIN; switch (x->getOpcode()) {
          case Instruction::Add: n.sub = K_ADD; break; case Instruction::Sub: n.sub = K_SUB; break; case Instruction::Mul: n.sub = K_MUL; break; case Instruction::UDiv: n.sub = K_UDIV; break; case Instruction::SDiv: n.sub = K_SDIV; break;
          case Instruction::URem: n.sub = K_UREM; break; case Instruction::SRem: n.sub = K_SREM; break; case Instruction::And: n.sub = K_AND; break; case Instruction::Or: n.sub = K_OR; break; case Instruction::Xor: n.sub = K_XOR; break;
          case Instruction::Shl: n.sub = K_SHL; break; case Instruction::LShr: n.sub = K_LSHR; break; case Instruction::AShr: n.sub = K_ASHR; break; default: die("binop"); } }
      } else if (auto* x = dyn_cast<ICmpInst>(&i)) {
        n.op = I_BIN; n.n = slotsOf(i.getType()); n.w = widthOf(x->getOperand(0)->getType()); int a = opd(x->getOperand(0)), c = opd(x->getOperand(1)); auto p = x->getPredicate();
        bool sw = p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_UGE || p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_SGE; if (sw) std::swap(a, c); n.ops = {a, c};
        switch (p) { case ICmpInst::ICMP_EQ: n.sub = K_EQ; break; case ICmpInst::ICMP_NE: n.sub = K_EQ; n.flag = 1; break; case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_UGT: n.sub = K_ULT; break; case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_UGE: n.sub = K_ULE; break; case ICmpInst::ICMP_SLT: case ICmpInst::ICMP_SGT: n.sub = K_SLT; break; default: n.sub = K_SLE; }
      } else if (auto* x = dyn_cast<FCmpInst>(&i)) { n.op = I_FCMP; n.sub = x->getPredicate(); n.w = widthOf(x->getOperand(0)->getType()); n.ops = {opd(x->getOperand(0)), opd(x->getOperand(1))};
      } else if (auto* x = dyn_cast<CastInst>(&i)) {
        n.n = slotsOf(i.getType()); n.ops = {opd(x->getOperand(0))}; unsigned fw = widthOf(x->getSrcTy()), tw = widthOf(x->getDestTy()); n.w = tw; n.k = {fw};
        switch (x->getOpcode()) {
        case Instruction::Trunc: n.op = I_CAST_TRUNC; break; case Instruction::ZExt: n.op = I_CAST_ZEXT; break; case Instruction::SExt: n.op = I_CAST_SEXT; break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: n.op = tw < fw ? I_CAST_TRUNC : I_CAST_ZEXT; break;
        case Instruction::BitCast: if (slotsOf(x->getSrcTy()) != slotsOf(x->getDestTy())) die("vector bitcast in " + fn->name); n.op = I_MOV; break;
        default: n.op = I_FCAST; n.sub = x->getOpcode(); }
      } else if (isa<FreezeInst>(i)) { n.op = I_MOV; n.n = slotsOf(i.getType()); n.ops = {opd(i.getOperand(0))};
      } else if (auto* x = dyn_cast<SelectInst>(&i)) { n.op = I_SELECT; n.n = slotsOf(i.getType()); n.flag = x->getCondition()->getType()->isVectorTy(); n.ops = {opd(x->getCondition()), opd(x->getTrueValue()), opd(x->getFalseValue())}; std::vector<Lane> L; lanesOf(i.getType(), 0, L); for (auto& l : L) n.ws.push_back(l.w);
      } else if (auto* x = dyn_cast<LoadInst>(&i)) { n.op = I_LOAD; n.ops = {opd(x->getPointerOperand())}; std::vector<Lane> L; lanesOf(i.getType(), 0, L); for (auto& l : L) { n.ws.push_back(l.w); n.k.push_back(l.off); } n.n = L.size();
      } else if (auto* x = dyn_cast<StoreInst>(&i)) { n.op = I_STORE; n.ops = {opd(x->getPointerOperand()), opd(x->getValueOperand())}; std::vector<Lane> L; lanesOf(x->getValueOperand()->getType(), 0, L); for (auto& l : L) { n.ws.push_back(l.w); n.k.push_back(l.off); } n.n = L.size();
      } else if (auto* x = dyn_cast<GetElementPtrInst>(&i)) {
        if (x->getType()->isVectorTy()) die("vector gep");
        n.op = I_GEP; n.ops = {opd(x->getPointerOperand())}; int64_t c = 0;
        for (auto gi = gep_type_begin(x), ge = gep_type_end(x); gi != ge; ++gi) {
          if (auto* stt = gi.getStructTypeOrNull()) { c += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
          u64 sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(gi.getOperand())) { c += ci->getSExtValue() * (int64_t)sc; continue; }
          n.ops.push_back(opd(gi.getOperand())); n.k.push_back(sc); n.ws.push_back(widthOf(gi.getOperand()->getType())); }
        n.k.push_back((u64)c);
      } else if (auto* x = dyn_cast<AllocaInst>(&i)) { n.op = I_ALLOCA; n.k = {DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue()}; n.ops = {opd(x->getArraySize())};
      } else if (auto* x = dyn_cast<BranchInst>(&i)) { if (x->isConditional()) { n.op = I_CBR; n.ops = {opd(x->getCondition())}; edge(x->getSuccessor(0)); edge(x->getSuccessor(1)); } else { n.op = I_BR; edge(x->getSuccessor(0)); }
      } else if (auto* x = dyn_cast<SwitchInst>(&i)) { n.op = I_SWITCH; n.w = widthOf(x->getCondition()->getType()); n.ops = {opd(x->getCondition())}; edge(x->getDefaultDest()); std::map<const BasicBlock*, int> em; em[x->getDefaultDest()] = 0;
        for (auto& cs : x->cases()) { const BasicBlock* d = cs.getCaseSuccessor(); auto p = em.find(d); int ei; if (p == em.end()) { ei = n.edges.size(); edge(d); em[d] = ei; } else ei = p->second; n.k.push_back(cs.getCaseValue()->getZExtValue()); n.k.push_back(ei); }
      } else if (auto* x = dyn_cast<ReturnInst>(&i)) { n.op = I_RET; if (x->getReturnValue()) { n.ops = {opd(x->getReturnValue())}; n.n = slotsOf(x->getReturnValue()->getType()); } else n.n = 0;
      } else if (auto* x = dyn_cast<CallBase>(&i)) {
        n.op = I_CALL; Value* cv = x->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = const_cast<Constant*>(al->getAliasee())->stripPointerCasts();
        if (isa<InlineAsm>(cv)) { n.op = I_BR; die("inline asm in " + fn->name); }
        if (auto* cf = dyn_cast<Function>(cv)) n.callee = fnOf(cf); else n.ops.push_back(opd(x->getCalledOperand()));
        n.flag = n.callee ? 0 : 1;
        for (auto& a : x->args()) { int s = opd(a.get()); unsigned k = slotsOf(a->getType()); if (!k) k = 1; for (unsigned j = 0; j < k; ++j) n.ops.push_back(sl(s, j)); n.ws.push_back(widthOf(a->getType())); }
        n.w = i.getType()->isVoidTy() || i.getType()->isAggregateType() ? 0 : widthOf(i.getType());
        if (auto* v = dyn_cast<InvokeInst>(x)) { edge(v->getNormalDest()); edge(v->getUnwindDest()); }
      } else if (isa<UnreachableInst>(i)) { n.op = I_UNREACH;
      } else if (auto* x = dyn_cast<LandingPadInst>(&i)) { n.op = I_LPAD; n.flag = x->isCleanup(); for (unsigned c = 0; c < x->getNumClauses(); ++c) { if (x->isCatch(c)) { n.k.push_back(cval(x->getClause(c))); n.ws.push_back(0); } else { n.k.push_back(0); n.ws.push_back(1); } }
      } else if (isa<ResumeInst>(i)) { n.op = I_RESUME; n.ops = {opd(i.getOperand(0))};
      } else if (auto* x = dyn_cast<ExtractValueInst>(&i)) { n.op = I_MOV; n.n = slotsOf(i.getType()); int base = 0; Type* t = x->getAggregateOperand()->getType(); for (unsigned ix : x->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; ++q) base += slotsOf(s->getElementType(q)); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); base += ix * slotsOf(a->getElementType()); t = a->getElementType(); } } n.ops = {sl(opd(x->getAggregateOperand()), base)};
      } else if (auto* x = dyn_cast<InsertValueInst>(&i)) { n.op = I_INSERTV; n.n = slotsOf(i.getType()); int base = 0; Type* t = i.getType(); for (unsigned ix : x->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; ++q) base += slotsOf(s->getElementType(q)); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); base += ix * slotsOf(a->getElementType()); t = a->getElementType(); } } n.ops = {opd(x->getAggregateOperand()), opd(x->getInsertedValueOperand())}; n.k = {(u64)base, (u64)slotsOf(t)};
      } else if (auto* x = dyn_cast<ExtractElementInst>(&i)) { auto* ci = dyn_cast<ConstantInt>(x->getIndexOperand()); if (!ci) die("xelt"); n.op = I_MOV; n.n = 1; n.ops = {sl(opd(x->getVectorOperand()), ci->getZExtValue())};
      } else if (isa<InsertElementInst>(i)) { auto* ci = dyn_cast<ConstantInt>(i.getOperand(2)); if (!ci) die("ielt"); n.op = I_INSERTV; n.n = slotsOf(i.getType()); n.ops = {opd(i.getOperand(0)), opd(i.getOperand(1))}; n.k = {ci->getZExtValue(), 1};
      } else if (auto* x = dyn_cast<ShuffleVectorInst>(&i)) { n.op = I_SHUFFLE; n.n = slotsOf(i.getType()); int a = opd(x->getOperand(0)), bb = opd(x->getOperand(1)); int na = slotsOf(x->getOperand(0)->getType()); for (int m : x->getShuffleMask()) n.ops.push_back(m < 0 ? sl(a, 0) : m < na ? sl(a, m) : sl(bb, m - na));
      } else if (isa<FenceInst>(i)) continue;
      else if (auto* x = dyn_cast<AtomicRMWInst>(&i)) { (void)x; die("atomicrmw in " + fn->name); }
      else if (isa<UnaryOperator>(i)) { n.op = I_FCAST; n.sub = 255; n.w = widthOf(i.getType()); n.ops = {opd(i.getOperand(0))}; }
      else { std::string s; raw_string_ostream os(s); i.print(os); die("unsupported instruction " + s); }
      fn->code.push_back(std::move(n));
    }
  }
  for (auto& x : fix) fn->code[x.first].edges[x.second.first].target = bstart[x.second.second];
}
static void ensure(Fn* fn) { if (!fn->decoded) { Decoder d; d.fn = fn; d.run(); } }

// ---------------------------------------------------------------- execution
static u64 alloc(State& s, u64 size, uint8_t kind, uint8_t fill) { if (size > (1u << 30)) die("huge allocation " + std::to_string(size)); Obj* o = newObj(size, kind); memset(o->data, fill, size); u32 id = s.mem.add(o); if (kind == OK_HEAP) s.heapLive++; return (u64)id << 32; }

static void pushFrame(State& s, Fn* fn, const std::vector<V>& args) {
  ensure(fn); Frame* f = new Frame(); f->fn = fn; f->pc = 0; f->r.resize(fn->nslots); for (int i = 0; i < fn->nargs && i < (int)args.size(); ++i) f->r[i] = args[i];
  if ((int)args.size() > fn->nargs) f->va.assign(args.begin() + fn->nargs, args.end());
  s.stack.push_back(f); if (s.stack.size() > 20000) fail(s, "stack", "stack overflow (recursion depth bound)");
}
static void popFrame(State& s) { Frame* f = s.stack.back(); for (u32 id : f->allocas) { ++g_freedStack->ref; s.mem.set(id, g_freedStack); } s.stack.pop_back(); if (--f->ref == 0) delete f; }

static inline V rd(Frame* f, int o) { return o >= 0 ? f->r[o] : f->fn->consts[~o]; }
static void take(Frame* f, const Edge& e) {
  if (e.moves.size() == 1) f->r[e.moves[0].first] = rd(f, e.moves[0].second);
  else if (!e.moves.empty()) { static std::vector<V> tmp; tmp.clear(); for (auto& m : e.moves) tmp.push_back(rd(f, m.second)); for (size_t i = 0; i < tmp.size(); ++i) f->r[e.moves[i].first] = tmp[i]; }
  f->pc = e.target;
}
static u64 ld(State& s, u64 a, unsigned n = 8) { V v = loadN(s, C(a), n); if (v.e) die("symbolic internal load"); return v.c; }

static bool tiMatch(State& s, u64 thrown, u64 want) {
  if (thrown == want) return true;
  u64 vp = ld(s, thrown); auto it = g_nameByAddr.find((vp >> 32) << 32); std::string nm = it == g_nameByAddr.end() ? "" : it->second;
  if (nm == "_ZTVN10__cxxabiv120__si_class_type_infoE") return tiMatch(s, ld(s, thrown + 16), want);
  if (nm == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") { u64 cnt = ld(s, thrown + 20, 4); for (u64 i = 0; i < cnt; ++i) if (tiMatch(s, ld(s, thrown + 24 + 16 * i), want)) return true; }
  return false;
}
static void unwind(State& s, u64 exc) {
  u64 ti = 0; for (auto& e : s.excs) if (e.obj == exc) ti = e.ti;
  while (!s.stack.empty()) {
    Frame* f = s.top(); Inst& ci = f->fn->code[f->pc];
    if (ci.op == I_CALL && ci.edges.size() == 2) {
      Inst& lp = f->fn->code[ci.edges[1].target]; if (lp.op != I_LPAD) die("no landingpad");
      bool enter = false; u64 sel = 0;
      for (size_t i = 0; i < lp.k.size(); ++i) { if (lp.ws[i]) { continue; } if (lp.k[i] == 0 || tiMatch(s, ti, lp.k[i])) { enter = true; sel = lp.k[i] ? lp.k[i] >> 32 : 0x7fffffff; break; } }
      if (!enter && lp.flag) enter = true;
      if (enter) { take(f, ci.edges[1]); f->r[lp.dst] = C(exc); f->r[lp.dst + 1] = C(sel); f->pc++; return; }
    }
    if (s.stack.size() == 1) { std::string nm = "?"; u64 np = ld(s, ti + 8); for (;;) { u64 ch = ld(s, np++, 1); if (!ch) break; if (nm == "?") nm = ""; nm += (char)ch; } fail(s, "exception", "uncaught exception of type " + demangle("_ZTS" + nm)); }
    popFrame(s);
  }
}
static void doBranchFork(State& s, V cond, const std::function<void(State&, bool)>& apply) {
  if (cond.e && cond.e->k != K_LUT) { cond = domSimp(cond, s.dom); if (!cond.e) { st.domDec++; return apply(s, cond.c != 0); } }
  Model mt, mf; bool cur = evalV(cond, s.model); bool ft, ff; V nc = mkNot(cond);
  if (cur) { ft = true; mt = s.model; ff = feasible(s, nc, &mf); } else { ff = true; mf = s.model; ft = feasible(s, cond, &mt); }
  if (ft && ff) { st.forks++; State* o = new State(s); assume(*o, nc, mf); apply(*o, false); g_work.push_back(o); assume(s, cond, mt); apply(s, true); }
  else if (ft) apply(s, true); else apply(s, false);
}
// Make v concrete in s: forks the other values off (re-executing the current instruction there).
static u64 concretise(State& s, V v, unsigned w, const char*) {
  if (!v.e) return v.c;
  v = domSimp(v, s.dom); if (!v.e) { st.domDec++; return v.c; }
  st.concretised++; static bool tc = getenv("SYMX_CONC"); if (tc) fprintf(stderr, "concretise at %s\n", where(s).c_str()); u64 val = evalV(v, s.model); V c = mkEq(w, v, C(val)); Model m; V nc = mkNot(c);
  if (feasible(s, nc, &m)) { st.forks++; State* o = new State(s); assume(*o, nc, m); g_work.push_back(o); }
  addC(s, c); /* implied when the other side is infeasible: still narrows the domains, so that the caller makes progress */
  return val;
}
static void endPath(State& s) {
  st.paths++;
  // the model is checked against the path condition; for the witnesses kept, the solver supplies it
  Model m = s.model;
  for (auto c : s.pc) if (!evalV(c, m)) die("solver model does not satisfy path condition");
  static std::mt19937 rng(g_seed); Witness w; bool keep = g_wit.size() < g_nwit; size_t slot = g_wit.size(); if (!keep) { slot = rng() % st.paths; keep = slot < g_nwit; }
  if (keep && !g_solver->check(s.pc, C(1), &m)) die("path condition unsatisfiable at path end");
  if (keep) { for (int i = 0; i < s.nvars; ++i) w.bytes.push_back(m.b[i]); for (auto& o : s.obs) w.obs.push_back({o.tag, evalV(o.v, m)}); if (slot == g_wit.size()) g_wit.push_back(w); else g_wit[slot] = w; }
}
static void ckAlloc(State& s, u64 p, const char* what) {
  if (!p) return; u32 id = p >> 32; Obj* o = s.mem.get(id);
  if (!o || (u32)p || (o->kind != OK_HEAP)) fail(s, "memory", o == g_freedHeap ? std::string("double free (") + what + ")" : std::string("bad free (") + what + ") of " + hex(p));
}
static std::string cstr(State& s, u64 p) { std::string r; if (!p) return "(null)"; for (;;) { V v = loadN(s, C(p++), 1); if (v.e) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }
static void setRet(Frame* f, const Inst& in, V v) { if (in.dst >= 0) f->r[in.dst] = v; }
static void nextAfterCall(Frame* f, const Inst& in) { if (in.edges.size() == 2) take(f, in.edges[0]); else f->pc++; }

static void callIntrin(State& s, Frame* f, const Inst& in, int x, Fn* callee, const std::vector<V>& a) {
  auto cc = [&](int i, unsigned w) { return concretise(s, a[i], w, "arg"); };
  auto ret = [&](V v) { f = s.top(); setRet(f, in, v); nextAfterCall(f, in); };
  auto retv = [&]() { f = s.top(); nextAfterCall(f, in); };
  switch (x) {
  case X_NOP: if (in.dst >= 0) ret(C(0)); else retv(); return;
  case X_MALLOC: case X_NEW: { u64 n = cc(0, 64); ret(C(alloc(s, n, OK_HEAP, 0xCD))); return; }
  case X_CALLOC: { u64 n = cc(0, 64) * cc(1, 64); ret(C(alloc(s, n, OK_HEAP, 0))); return; }
  case X_REALLOC: { u64 p = cc(0, 64), n = cc(1, 64); u64 q = alloc(s, n, OK_HEAP, 0xCD); if (p) { ckAlloc(s, p, "realloc"); Obj* o = s.mem.get(p >> 32); Obj* d = s.mem.w(q >> 32); o = s.mem.get(p >> 32); for (u32 i = 0; i < o->size && i < n; ++i) wrByte(d, i, o->sym && o->sym[i] ? V{0, o->sym[i]} : C(o->data[i])); ++g_freedHeap->ref; s.mem.set(p >> 32, g_freedHeap); s.heapLive--; } ret(C(q)); return; }
  case X_FREE: case X_DELETE: { u64 p = cc(0, 64); ckAlloc(s, p, "free"); if (p) { ++g_freedHeap->ref; s.mem.set(p >> 32, g_freedHeap); s.heapLive--; } retv(); return; }
  case X_MEMCPY: {
    u64 n = cc(2, 64), d = cc(0, 64), q = cc(1, 64);
    if (n) {
      if (!addrOK(s, q, n, false)) fail(s, "memory", "memcpy: " + badAddr(s, q, n, false));
      if (!addrOK(s, d, n, true)) fail(s, "memory", "memcpy: " + badAddr(s, d, n, true));
      bool mm = callee->name.find("memmove") != std::string::npos;
      if (!mm && d != q && (d >> 32) == (q >> 32) && (d < q ? q - d : d - q) < n) fail(s, "memory", "memcpy with overlapping source and destination");
      Obj* o = s.mem.get(q >> 32); bool symb = o->sym != nullptr; if (symb) { symb = false; for (u64 i = 0; i < n; ++i) if (o->sym[(u32)q + i]) { symb = true; break; } }
      Obj* t = s.mem.w(d >> 32); o = s.mem.get(q >> 32);
      memmove(t->data + (u32)d, o->data + (u32)q, n);
      if (symb) { if (!t->sym) t->sym = (const Expr**)calloc(t->size, sizeof(Expr*)); memmove(t->sym + (u32)d, o->sym + (u32)q, n * sizeof(Expr*)); } else if (t->sym) memset(t->sym + (u32)d, 0, n * sizeof(Expr*));
    }
    if (in.dst >= 0) ret(C(d)); else retv(); return; }
  case X_MEMSET: {
    u64 n = cc(2, 64), d = cc(0, 64);
    if (n) { if (!addrOK(s, d, n, true)) fail(s, "memory", "memset: " + badAddr(s, d, n, true)); Obj* t = s.mem.w(d >> 32); V b = a[1].e ? mkExtract(a[1], a[1].e->w, 0, 8) : C(a[1].c & 255);
      if (!b.e) { memset(t->data + (u32)d, b.c, n); if (t->sym) memset(t->sym + (u32)d, 0, n * sizeof(Expr*)); } else for (u64 i = 0; i < n; ++i) wrByte(t, (u32)d + i, b); }
    if (in.dst >= 0) ret(C(d)); else retv(); return; }
  case X_MEMCMP: {
    u64 n = cc(2, 64), p = cc(0, 64), q = cc(1, 64); V r = C(0);
    if (n) { if (!addrOK(s, p, n, false)) fail(s, "memory", "memcmp: " + badAddr(s, p, n, false)); if (!addrOK(s, q, n, false)) fail(s, "memory", "memcmp: " + badAddr(s, q, n, false)); }
    Obj *o = s.mem.get(p >> 32), *t = s.mem.get(q >> 32);
    for (u64 i = n; i-- > 0;) { V u = rdBytes(o, (u32)p + i, 1), v = rdBytes(t, (u32)q + i, 1); r = mkIte(32, mkEq(8, u, v), r, mkIte(32, mkBin(K_ULT, 8, u, v), C(0xffffffff), C(1))); }
    ret(r); return; }
  case X_ASSERTFAIL: fail(s, "assert", "library assert failed: " + cstr(s, a[0].c)); return;
  case X_ABORT: case X_TRAP: fail(s, "abort", "abort/trap reached"); return;
  case X_PUREV: fail(s, "abort", "pure virtual call"); return;
  case X_FATAL: { std::string m = cstr(s, a[0].c); if (m.compare(0, 4, "std:") == 0) fail(s, "abort", m); die("runtime: " + m); }
  case X_EXALLOC: { u64 p = alloc(s, cc(0, 64), OK_EXC, 0xCD); s.excs.push_back({p, 0, 0, 0, false}); ret(C(p)); return; }
  case X_EXFREE: retv(); return;
  case X_THROW: { u64 p = cc(0, 64); for (auto& e : s.excs) if (e.obj == p) { e.ti = a[1].c; e.dtor = a[2].c; } s.uncaught++; unwind(s, p); return; }
  case X_BEGINCATCH: { u64 p = a[0].c; for (auto& e : s.excs) if (e.obj == p) e.handlers++; s.caught.push_back(p); s.uncaught--; ret(C(p)); return; }
  case X_ENDCATCH: { if (s.caught.empty()) die("end_catch"); u64 p = s.caught.back(); s.caught.pop_back(); retv();
    for (auto& e : s.excs) if (e.obj == p) { if (e.rethrown) { e.handlers--; if (e.handlers <= 0) e.rethrown = false, e.handlers = 0; } else if (--e.handlers == 0) { if (e.dtor) { Fn* d = g_fnByAddr[e.dtor]; if (!d) die("exc dtor"); // run destructor, then resume after the call
            Frame* nf = s.top(); (void)nf; std::vector<V> av = {C(p)}; pushFrame(s, d, av); s.top()->va.push_back(C(0xdead)); } } break; }
    return; }
  case X_RETHROW: { if (s.caught.empty()) fail(s, "abort", "rethrow with no active exception"); u64 p = s.caught.back(); for (auto& e : s.excs) if (e.obj == p) e.rethrown = true; s.uncaught++; unwind(s, p); return; }
  case X_UNCAUGHT: ret(C(s.uncaught > 0 ? (callee->name.find("exceptionsv") != std::string::npos ? s.uncaught : 1) : 0)); return;
  case X_GUARDACQ: { V g = loadN(s, a[0], 1); ret(C(g.c == 0)); return; }
  case X_GUARDREL: storeN(s, a[0], C(1), 1, 8); retv(); return;
  case X_DYNCAST: { u64 p = a[0].c; if (!p) { ret(C(0)); return; } u64 vt = ld(s, p); u64 ott = ld(s, vt - 16); u64 ti = ld(s, vt - 8); if (ti == a[2].c || tiMatch(s, ti, a[2].c)) ret(C(p + ott)); else ret(C(0)); return; }
  case X_SYMBYTE: { if (s.nvars >= MAXV) die("too many symbolic bytes"); ret(mkVar(s.nvars++)); return; }
  case X_SYMBYTES: { u64 p = cc(0, 64), n = cc(1, 64); if (n && !addrOK(s, p, n, true)) die("sym_bytes range"); for (u64 i = 0; i < n; ++i) { if (s.nvars >= MAXV) die("too many symbolic bytes"); storeN(s, C(p + i), mkVar(s.nvars++), 1, 8); } retv(); return; }
  case X_ASSUME: { V c = a[0].e ? mkNot(mkEq(a[0].e->w, a[0], C(0))) : C(a[0].c != 0); Model m; if (!feasible(s, c, &m)) { st.killed++; throw PathEnd{}; } assume(s, c, m); retv(); return; }
  case X_SASSERT: { if (a[1].e) cc(1, 64); V c = a[0].e ? mkNot(mkEq(a[0].e->w, a[0], C(0))) : C(a[0].c != 0); std::string msg;
    if (c.e) { V c0 = c; c = domSimp(c, s.dom);
      // decided by the byte domains alone: Z3 re-decides the unsimplified query for the first ones and then every 64th
      if (!c.e && c.c) { u64 k = ++st.assertDom; if (k <= 64 || k % 64 == 0) if (g_solver->check(s.pc, mkNot(c0), nullptr)) die("domain/solver mismatch (assert)"); } }
    if (!c.e) { if (c.c) st.assertConc++; else fail(s, "assert", cstr(s, a[1].c)); }
    else { st.assertSym++; Model m = s.model; V nc = mkNot(c);
      if (g_solver->check(s.pc, nc, &m)) { State t(s); t.model = m; report(t, "assert", cstr(s, a[1].c), m); Model m2; if (!feasible(s, c, &m2)) throw PathEnd{}; assume(s, c, m2); } }
    retv(); return; }
  case X_CHOICE: { u64 n = cc(0, 32); if (n > 256 || !n) die("choice"); if (n == 1) { ret(C(0)); return; }
    if (s.nvars >= MAXV) die("too many symbolic bytes"); unsigned v = s.nvars++; u64 t[256];
    for (u64 i = n; i-- > 1;) { State* o = new State(s); st.forks++; for (int j = 0; j < 256; ++j) t[j] = j == (int)i; V c = mkLut(1, v, t); o->model.b[v] = i; addC(*o, c); Frame* of = o->top(); setRet(of, in, C(i)); nextAfterCall(of, in); g_work.push_back(o); }
    for (int j = 0; j < 256; ++j) t[j] = j == 0; s.model.b[v] = 0; addC(s, mkLut(1, v, t)); ret(C(0)); return; }
  case X_CONC: ret(C(cc(0, 64))); return;
  case X_OBS: s.obs.push_back({(u32)cc(0, 32), a[1]}); retv(); return;
  case X_COVER: g_covers[cstr(s, a[0].e ? cc(0, 64) : a[0].c)]++; retv(); return;
  case X_PARAM: { std::string nm = cstr(s, a[0].c); auto it = g_params.find(nm); ret(C(it == g_params.end() ? a[1].c : (u64)it->second)); return; }
  case X_ISSYM: ret(C(a[0].e ? 1 : 0)); return;
  case X_HEAPLIVE: ret(C(s.heapLive)); return;
  case X_SYMAND: { V p = a[0].e ? mkNot(mkEq(a[0].e->w, a[0], C(0))) : C(a[0].c != 0), q = a[1].e ? mkNot(mkEq(a[1].e->w, a[1], C(0))) : C(a[1].c != 0); ret(mkZExt(mkAnd(p, q), 1, 32)); return; }
  case X_EXISTS: { // is there a value of the path's symbolic bytes with this property?  the verdict is recorded as an input for replay
    if (s.nvars >= MAXV) die("too many symbolic bytes"); V c = a[0].e ? mkNot(mkEq(a[0].e->w, a[0], C(0))) : C(a[0].c != 0); bool r = c.e ? g_solver->check(s.pc, c, nullptr) : c.c != 0; st.assertSym += c.e != nullptr;
    unsigned v = s.nvars++; u64 t[256]; for (int j = 0; j < 256; ++j) t[j] = j == (int)r; s.model.b[v] = r; addC(s, mkLut(1, v, t)); ret(C(r)); return; }
  case X_OBJBASE: { u64 p = cc(0, 64); ret(C((p >> 32) << 32)); return; }
  case X_UMULO: case X_UADDO: case X_USUBO: case X_SMULO: case X_SADDO: case X_SSUBO: {
    unsigned w = in.ws[0]; V r, o;
    if (x == X_UADDO) { r = mkBin(K_ADD, w, a[0], a[1]); o = mkBin(K_ULT, w, r, a[0]); }
    else if (x == X_USUBO) { r = mkBin(K_SUB, w, a[0], a[1]); o = mkBin(K_ULT, w, a[0], a[1]); }
    else { u64 p = cc(0, w), q = cc(1, w); if (x == X_UMULO) { __uint128_t t = (__uint128_t)p * q; r = C((u64)t & maskw(w)); o = C((t >> w) != 0); } else { __int128_t t = x == X_SMULO ? (__int128_t)sx(p, w) * sx(q, w) : x == X_SADDO ? (__int128_t)sx(p, w) + sx(q, w) : (__int128_t)sx(p, w) - sx(q, w); r = C((u64)t & maskw(w)); o = C((__int128_t)sx(r.c, w) != t); } }
    f = s.top(); f->r[in.dst] = r; f->r[in.dst + 1] = o; nextAfterCall(f, in); return; }
  case X_UMAX: { V c = mkBin(K_ULT, in.w, a[0], a[1]); ret(mkIte(in.w, c, a[1], a[0])); return; }
  case X_UMIN: { V c = mkBin(K_ULT, in.w, a[0], a[1]); ret(mkIte(in.w, c, a[0], a[1])); return; }
  case X_SMAX: { V c = mkBin(K_SLT, in.w, a[0], a[1]); ret(mkIte(in.w, c, a[1], a[0])); return; }
  case X_SMIN: { V c = mkBin(K_SLT, in.w, a[0], a[1]); ret(mkIte(in.w, c, a[0], a[1])); return; }
  case X_ABS: { V c = mkBin(K_SLT, in.w, a[0], C(0)); ret(mkIte(in.w, c, mkBin(K_SUB, in.w, C(0), a[0]), a[0])); return; }
  case X_USUBSAT: { V c = mkBin(K_ULT, in.w, a[0], a[1]); ret(mkIte(in.w, c, C(0), mkBin(K_SUB, in.w, a[0], a[1]))); return; }
  case X_UADDSAT: { V r = mkBin(K_ADD, in.w, a[0], a[1]); ret(mkIte(in.w, mkBin(K_ULT, in.w, r, a[0]), C(maskw(in.w)), r)); return; }
  case X_CTLZ: { V r = C(in.w); for (unsigned i = 0; i < in.w; ++i) r = mkIte(in.w, mkExtract(a[0], in.w, i, 1), C(in.w - 1 - i), r); ret(r); return; }
  case X_CTTZ: { V r = C(in.w); for (unsigned i = in.w; i-- > 0;) r = mkIte(in.w, mkExtract(a[0], in.w, i, 1), C(i), r); ret(r); return; }
  case X_CTPOP: { V r = C(0); for (unsigned i = 0; i < in.w; ++i) r = mkBin(K_ADD, in.w, r, mkZExt(mkExtract(a[0], in.w, i, 1), 1, in.w)); ret(r); return; }
  case X_BSWAP: { V r = mkExtract(a[0], in.w, in.w - 8, 8); for (unsigned i = 1; i < in.w / 8; ++i) r = mkConcat(mkExtract(a[0], in.w, in.w - 8 * (i + 1), 8), 8, r, 8 * i); ret(r); return; }
  case X_BITREV: { V r = mkExtract(a[0], in.w, 0, 1); for (unsigned i = 1; i < in.w; ++i) r = mkConcat(r, i, mkExtract(a[0], in.w, i, 1), 1); ret(r); return; }
  case X_FSHL: case X_FSHR: { u64 k = cc(2, in.w) % in.w; unsigned w = in.w; if (!k) { ret(x == X_FSHL ? a[0] : a[1]); return; } if (x == X_FSHR) k = w - k; ret(mkBin(K_OR, w, mkBin(K_SHL, w, a[0], C(k)), mkBin(K_LSHR, w, a[1], C(w - k)))); return; }
  case X_EXPECT: ret(a[0]); return;
  case X_OBJSIZE: ret(C(a[1].c ? 0 : maskw(in.w))); return;
  case X_TYPEID: ret(C(a[0].c >> 32)); return;
  case X_ISCONST: ret(C(0)); return;
  case X_STACKSAVE: ret(C(0)); return;
  default: die("call to unsupported function " + callee->name + " from " + where(s));
  }
}
static double fpd(V v, unsigned w) { if (v.e) die("symbolic float"); if (w == 32) { float f; u32 u = v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static V fpv(double d, unsigned w) { if (w == 32) { float f = d; u32 u; memcpy(&u, &f, 4); return C(u); } u64 u; memcpy(&u, &d, 8); return C(u); }

static void run(State& s, double deadline) {
  Frame* f = s.top(); u64 cnt = 0;
  for (;;) {
    if ((++cnt & 0xfff) == 0) { if ((cnt & 0xfffff) == 0) { if (now() > deadline) throw Incomplete{"time limit"}; if (g_arena.total > g_maxMem) throw Incomplete{"memory limit"}; } }
    ++st.instrs; if (++s.steps > g_maxSteps) fail(s, "steps", "step bound exceeded (non-termination)");
    f = s.stack.back(); if (f->ref > 1) f = s.top();
    Inst& in = f->fn->code[f->pc];
    switch (in.op) {
    case I_BIN:
      for (u32 i = 0; i < in.n; ++i) { V a = rd(f, Decoder::sl(in.ops[0], i)), b = rd(f, Decoder::sl(in.ops[1], i)); V r;
        Kind k = (Kind)in.sub;
        if (!a.e && !b.e) { if (k >= K_UDIV && k <= K_SREM && b.c == 0) fail(s, "arith", "division by zero"); r = C(evalBin(k, in.w, a.c, b.c)); if (in.flag) r.c ^= 1; }
        else { if (k >= K_UDIV && k <= K_SREM) { Model m; if (feasible(s, mkEq(in.w, b, C(0)), &m)) report(s, "arith", "division by zero", m); } r = mkBin(k, in.w, a, b); if (in.flag) r = mkNot(r); }
        f->r[in.dst + i] = r; }
      f->pc++; break;
    case I_CAST_TRUNC: for (u32 i = 0; i < in.n; ++i) { V a = rd(f, Decoder::sl(in.ops[0], i)); f->r[in.dst + i] = a.e ? mkExtract(a, in.k[0], 0, in.w) : C(a.c & maskw(in.w)); } f->pc++; break;
    case I_CAST_ZEXT: for (u32 i = 0; i < in.n; ++i) { V a = rd(f, Decoder::sl(in.ops[0], i)); f->r[in.dst + i] = mkZExt(a, in.k[0], in.w); } f->pc++; break;
    case I_CAST_SEXT: for (u32 i = 0; i < in.n; ++i) { V a = rd(f, Decoder::sl(in.ops[0], i)); f->r[in.dst + i] = mkSExt(a, in.k[0], in.w); } f->pc++; break;
    case I_MOV: for (u32 i = 0; i < in.n; ++i) f->r[in.dst + i] = rd(f, Decoder::sl(in.ops[0], i)); f->pc++; break;
    case I_INSERTV: for (u32 i = 0; i < in.n; ++i) f->r[in.dst + i] = i >= in.k[0] && i < in.k[0] + in.k[1] ? rd(f, Decoder::sl(in.ops[1], i - in.k[0])) : rd(f, Decoder::sl(in.ops[0], i)); f->pc++; break;
    case I_SHUFFLE: { std::vector<V> t; for (int o : in.ops) t.push_back(rd(f, o)); for (size_t i = 0; i < t.size(); ++i) f->r[in.dst + i] = t[i]; f->pc++; break; }
    case I_SELECT: { for (u32 i = 0; i < in.n; ++i) { V c = rd(f, in.flag ? Decoder::sl(in.ops[0], i) : in.ops[0]); f->r[in.dst + i] = mkIte(in.ws[i], c, rd(f, Decoder::sl(in.ops[1], i)), rd(f, Decoder::sl(in.ops[2], i))); } f->pc++; break; }
    case I_LOAD: { V a = rd(f, in.ops[0]); V tmp[16]; if (in.n > 16) die("wide load"); for (u32 i = 0; i < in.n; ++i) { unsigned w = in.ws[i], n = (w + 7) / 8; V r = loadN(s, in.k[i] ? mkBin(K_ADD, 64, a, C(in.k[i])) : a, n); if (w != 8 * n) r = mkExtract(r, 8 * n, 0, w); tmp[i] = r; } f = s.top(); for (u32 i = 0; i < in.n; ++i) f->r[in.dst + i] = tmp[i]; f->pc++; break; }
    case I_STORE: { V a = rd(f, in.ops[0]); for (u32 i = 0; i < in.n; ++i) { unsigned w = in.ws[i]; storeN(s, in.k[i] ? mkBin(K_ADD, 64, a, C(in.k[i])) : a, rd(f, Decoder::sl(in.ops[1], i)), (w + 7) / 8, w); } f->pc++; break; }
    case I_GEP: { V r = rd(f, in.ops[0]); size_t n = in.ops.size() - 1; u64 c = in.k[n];
      for (size_t i = 0; i < n; ++i) { V x = rd(f, in.ops[i + 1]); unsigned w = in.ws[i]; if (!x.e) c += (u64)sx(x.c, w) * in.k[i]; else { x = mkSExt(x, w, 64); r = mkBin(K_ADD, 64, r, mkBin(K_MUL, 64, x, C(in.k[i]))); } }
      f->r[in.dst] = r.e ? mkBin(K_ADD, 64, r, C(c)) : C(r.c + c); f->pc++; break; }
    case I_ALLOCA: { u64 n = concretise(s, rd(f, in.ops[0]), 64, "alloca"); u64 a = alloc(s, in.k[0] * n, OK_STACK, 0xAB); f = s.top(); f->allocas.push_back(a >> 32); f->r[in.dst] = C(a); f->pc++; break; }
    case I_BR: take(f, in.edges[0]); break;
    case I_CBR: { V c = rd(f, in.ops[0]); if (!c.e) { take(f, in.edges[c.c ? 0 : 1]); break; }
      const Inst* ip = &in; doBranchFork(s, c, [ip](State& t, bool b) { take(t.top(), ip->edges[b ? 0 : 1]); }); break; }
    case I_SWITCH: { V c = rd(f, in.ops[0]);
      if (!c.e) { int e = 0; for (size_t i = 0; i < in.k.size(); i += 2) if (in.k[i] == c.c) { e = in.k[i + 1]; break; } take(f, in.edges[e]); break; }
      std::vector<V> conds(in.edges.size(), C(0)); V any = C(0); for (size_t i = 0; i < in.k.size(); i += 2) { V q = mkEq(in.w, c, C(in.k[i])); any = mkOr(any, q); if (in.k[i + 1]) conds[in.k[i + 1]] = mkOr(conds[in.k[i + 1]], q); else conds[0] = mkOr(conds[0], q); }
      conds[0] = mkOr(conds[0], mkNot(any));
      std::vector<std::pair<int, Model>> fe; for (size_t i = 0; i < conds.size(); ++i) { Model m; if (feasible(s, conds[i], &m)) fe.push_back({(int)i, m}); }
      if (fe.empty()) die("switch: no feasible target");
      for (size_t i = fe.size(); i-- > 1;) { st.forks++; State* o = new State(s); assume(*o, conds[fe[i].first], fe[i].second); take(o->top(), in.edges[fe[i].first]); g_work.push_back(o); }
      if (fe.size() > 1) assume(s, conds[fe[0].first], fe[0].second); take(s.top(), in.edges[fe[0].first]); break; }
    case I_RET: {
      V tmp[16]; if (in.n > 16) die("wide ret"); for (u32 i = 0; i < in.n; ++i) tmp[i] = rd(f, Decoder::sl(in.ops[0], i));
      bool dtor = !f->va.empty() && f->va.back() == C(0xdead) && !f->fn->varargs;
      popFrame(s); if (s.stack.empty()) { return; }
      if (dtor) break;
      f = s.top(); Inst& ci = f->fn->code[f->pc]; if (ci.dst >= 0) for (int i = 0; i < ci.nd && i < (int)in.n; ++i) f->r[ci.dst + i] = tmp[i]; nextAfterCall(f, ci); break; }
    case I_CALL: {
      Fn* callee = in.callee; size_t o0 = 0;
      if (in.flag) { V p = rd(f, in.ops[0]); u64 a = concretise(s, p, 64, "call"); f = s.top(); auto it = g_fnByAddr.find(a); if (it == g_fnByAddr.end()) fail(s, "memory", "call through bad function pointer " + hex(a)); callee = it->second; o0 = 1; }
      static std::vector<V> args; args.clear(); for (size_t i = o0; i < in.ops.size(); ++i) args.push_back(rd(f, in.ops[i]));
      if (callee->intrin == -1) { callee->intrin = -2; auto it = itable().find(callee->name); if (it != itable().end()) callee->intrin = it->second; else if (callee->f->isIntrinsic()) callee->intrin = llvmIntrin(callee->f); if (callee->intrin == -2 && callee->f->isDeclaration()) die("call to undefined function " + callee->name + " (" + demangle(callee->name) + ") from " + where(s)); }
      if (callee->intrin >= 0) { std::vector<V> av(args); const Inst& ir = in; callIntrin(s, f, ir, callee->intrin, callee, av); break; }
      pushFrame(s, callee, args); break; }
    case I_UNREACH: fail(s, "unreachable", "unreachable executed");
    case I_RESUME: { u64 exc = rd(f, in.ops[0]).c; if (s.stack.size() == 1) fail(s, "exception", "uncaught exception"); popFrame(s); unwind(s, exc); break; }
    case I_LPAD: die("lpad");
    case I_FBIN: { for (u32 i = 0; i < in.n; ++i) { double a = fpd(rd(f, Decoder::sl(in.ops[0], i)), in.w), b = fpd(rd(f, Decoder::sl(in.ops[1], i)), in.w), r; switch (in.sub) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: die("fbin"); } f->r[in.dst + i] = fpv(r, in.w); } f->pc++; break; }
    case I_FCMP: { double a = fpd(rd(f, in.ops[0]), in.w), b = fpd(rd(f, in.ops[1]), in.w); bool r; switch (in.sub & 7) { case 1: r = a == b; break; case 2: r = a > b; break; case 3: r = a >= b; break; case 4: r = a < b; break; case 5: r = a <= b; break; case 6: r = a != b; break; default: die("fcmp"); } f->r[in.dst] = C(r); f->pc++; break; }
    case I_FCAST: { V a = rd(f, in.ops[0]); if (a.e) die("symbolic fcast"); unsigned fw = in.k.empty() ? in.w : in.k[0]; V r;
      switch (in.sub) { case Instruction::UIToFP: r = fpv((double)a.c, in.w); break; case Instruction::SIToFP: r = fpv((double)sx(a.c, fw), in.w); break; case Instruction::FPToUI: r = C((u64)fpd(a, fw) & maskw(in.w)); break; case Instruction::FPToSI: r = C((u64)(int64_t)fpd(a, fw) & maskw(in.w)); break; case Instruction::FPExt: case Instruction::FPTrunc: r = fpv(fpd(a, fw), in.w); break; default: r = fpv(-fpd(a, in.w), in.w); }
      f->r[in.dst] = r; f->pc++; break; }
    default: die("op"); }
  }
}

// --------------------------------------------------------------------- setup
static void setupGlobals(State& s) {
  g_freedHeap = newObj(0, OK_FREED); g_freedStack = newObj(0, OK_FREED); g_freedHeap->ref = g_freedStack->ref = 1u << 30;
  for (auto& f : *M) { if (f.isIntrinsic()) continue; Obj* o = newObj(1, OK_FUNC); u64 a = (u64)s.mem.add(o) << 32; g_gaddr[&f] = a; g_fnByAddr[a] = fnOf(&f); }
  for (auto& g : M->globals()) { u64 n = DL->getTypeAllocSize(g.getValueType()); if (g.isDeclaration() && n < 256) n = 256; Obj* o = newObj(n, OK_GLOBAL); memset(o->data, 0, n); u64 a = (u64)s.mem.add(o) << 32; g_gaddr[&g] = a; g_nameByAddr[a] = g.getName().str(); }
  for (auto& g : M->globals()) if (g.hasInitializer()) { Obj* o = s.mem.w(g_gaddr[&g] >> 32); initMem(o, 0, g.getInitializer()); if (g.isConstant()) o->kind = OK_CONST; }
}
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void jbytes(std::ostream& o, const std::vector<uint8_t>& b) { o << "["; for (size_t i = 0; i < b.size(); ++i) o << (i ? "," : "") << (int)b[i]; o << "]"; }
static void jobs(std::ostream& o, const std::vector<std::pair<u32, u64>>& b) { o << "["; for (size_t i = 0; i < b.size(); ++i) o << (i ? "," : "") << "[" << b[i].first << "," << b[i].second << "]"; o << "]"; }

static std::string g_bc; static int g_rc = 2;
static void savePartial() {
  std::ostringstream o; o << "{\"status\":\"violation\",\"reason\":\"time limit (hard)\",\"witnesses\":[],\"violations\":["; bool fst = true;
  for (auto& v : g_viol) { o << (fst ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"bytes\":"; jbytes(o, v.bytes); o << ",\"obs\":"; jobs(o, v.obs); o << "}"; fst = false; }
  o << "]}\n"; g_partial = strdup(o.str().c_str());
}
// last resort: the solver or the rewriter did not come back in time
static void onAlarm(int) {
  const char* t = g_partial ? g_partial : "{\"status\":\"incomplete\",\"reason\":\"time limit (hard)\",\"violations\":[],\"witnesses\":[]}\n";
  int fd = g_out.empty() ? 1 : open(g_out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(fd, t, strlen(t)) < 0) {} _exit(g_partial ? 1 : 2);
}
static void* mainThread(void*) {
  std::string status = "ok", reason; double t0 = now();
  try {
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(g_bc, err, ctx); if (!mod) die("cannot read " + g_bc); M = mod.get(); DL = &M->getDataLayout();
    g_solver = new Solver(); State* s0 = new State(); setupGlobals(*s0);
    std::vector<Function*> ctors; if (auto* gv = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gv->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back(f); }
    double deadline = t0 + g_maxTime; g_deadline = deadline;
    g_onBlock = [](size_t total) { if (now() > g_deadline) throw Incomplete{"time limit"}; if (total > g_maxMem) throw Incomplete{"memory limit"}; };
    g_onTick = [] { if (now() > g_deadline) throw Incomplete{"time limit"}; };
    for (auto* f : ctors) { pushFrame(*s0, fnOf(f), {}); run(*s0, deadline); }
    Function* h = M->getFunction("harness"); if (!h || h->isDeclaration()) die("no harness()");
    pushFrame(*s0, fnOf(h), {}); g_work.push_back(s0); double lastp = now();
    try {
      while (!g_work.empty()) {
        State* s = g_work.back(); g_work.pop_back(); std::unique_ptr<State> own(s);
        try { run(*s, deadline); endPath(*s); } catch (PathEnd&) {}
        if (now() > deadline) throw Incomplete{"time limit"};
        if (st.paths >= g_maxPaths && !g_work.empty()) throw Incomplete{"path limit"};
        if (g_progress && now() - lastp > 5) { lastp = now(); fprintf(stderr, "[%.0fs] paths %llu work %zu q %llu/%llu solver %.1fs instr %llu exprs %zu vars? %d\n", now() - t0, (unsigned long long)st.paths, g_work.size(), (unsigned long long)st.qSat, (unsigned long long)st.qUnsat, st.solver, (unsigned long long)st.instrs, g_exprs.size(), s->nvars); }
      }
    } catch (Incomplete& i) { status = g_viol.empty() ? "incomplete" : "violation"; reason = i.msg; }
    if (!g_viol.empty()) status = "violation";
  } catch (EngineError& e) { status = "error"; reason = e.msg; }
  catch (Incomplete& i) { status = g_viol.empty() ? "incomplete" : "violation"; reason = i.msg; }
  catch (PathEnd&) { status = g_viol.empty() ? "error" : "violation"; reason = "failure during initialisation"; }
  catch (z3::exception& e) { status = "error"; reason = std::string("z3: ") + e.msg(); }
  std::ostringstream o;
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  o << "{\"status\":\"" << status << "\",\"reason\":\"" << jesc(reason) << "\",\"paths\":" << st.paths << ",\"killed\":" << st.killed << ",\"forks\":" << st.forks << ",\"instrs\":" << st.instrs << ",\"queries_sat\":" << st.qSat << ",\"queries_unsat\":" << st.qUnsat << ",\"domain_decisions\":" << st.domDec << ",\"model_decisions\":" << st.modelDec << ",\"asserts_symbolic\":" << st.assertSym << ",\"asserts_domain\":" << st.assertDom << ",\"asserts_path\":" << st.assertConc << ",\"sym_loads\":" << st.symLoads << ",\"sym_stores\":" << st.symStores << ",\"concretised\":" << st.concretised << ",\"exprs\":" << g_exprs.size() << ",\"retried\":" << st.retried << ",\"solver_s\":" << st.solver << ",\"wall_s\":" << now() - t0 << ",\"rss_mb\":" << ru.ru_maxrss / 1024;
  o << ",\"covers\":{"; bool fst = true; for (auto& c : g_covers) { o << (fst ? "" : ",") << "\"" << jesc(c.first) << "\":" << c.second; fst = false; } o << "}";
  o << ",\"functions\":["; fst = true; for (auto& c : g_inl) { o << (fst ? "" : ",") << "\"" << jesc(c) << "\""; fst = false; } o << "],\"functions_total\":" << g_fnames.size();
  o << ",\"violations\":["; fst = true; for (auto& v : g_viol) { o << (fst ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"bytes\":"; jbytes(o, v.bytes); o << ",\"obs\":"; jobs(o, v.obs); o << "}"; fst = false; }
  o << "],\"witnesses\":["; fst = true; for (auto& w : g_wit) { o << (fst ? "" : ",") << "{\"bytes\":"; jbytes(o, w.bytes); o << ",\"obs\":"; jobs(o, w.obs); o << "}"; fst = false; }
  o << "]}\n";
  if (g_out.empty()) std::cout << o.str() << std::flush; else { std::ofstream f(g_out); f << o.str(); }
  g_rc = status == "ok" ? 0 : status == "violation" ? 1 : 2;
  fflush(nullptr); _exit(g_rc);
  return nullptr;
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "-o") g_out = val(); else if (a == "-p") { std::string p = val(); size_t e = p.find('='); g_params[p.substr(0, e)] = atol(p.c_str() + e + 1); }
    else if (a == "-t") g_maxTime = atof(val().c_str()); else if (a == "--steps") g_maxSteps = atoll(val().c_str()); else if (a == "--paths") g_maxPaths = atoll(val().c_str()); else if (a == "--viol") g_maxViol = atoi(val().c_str()); else if (a == "--wit") g_nwit = atoi(val().c_str()); else if (a == "--paranoid") g_paranoid = true; else if (a == "--seed") g_seed = atoi(val().c_str()); else if (a == "--merge") g_merge = true; else if (a == "--progress") g_progress = true; else if (a == "--mem") g_maxMem = (u64)atoi(val().c_str()) << 20; else g_bc = a; }
  prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, onAlarm); alarm((unsigned)(g_maxTime < 1e6 ? g_maxTime + 10 : 1e6));
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30); pthread_t t; pthread_create(&t, &at, mainThread, nullptr); pthread_join(t, nullptr); return g_rc;
}
