#include <malloc.h>
#include <semaphore.h>
#include <deque>
#include <pthread.h>
// symx: forking symbolic executor for rustc-produced LLVM bitcode.  Every path through the program, up to the
// stated limits, is executed; branch feasibility and every assertion are decided by Z3 over all inputs of the path.
#include "expr.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/file.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <math.h>
#include <errno.h>
#include <atomic>
#include <algorithm>
#include <set>
#include <functional>

// ------------------------------------------------------------------ shared statistics
struct Named { char name[120]; std::atomic<uint64_t> n, sym; };
struct Shared {
  std::atomic<int> live, lock; sem_t slots;
  std::atomic<uint64_t> paths, assumed_out, errors, violations, queries, qsat, qunsat, qunk, solver_us, insts, forks, maxinsts, checks_sym, checks_conc, panics, concretized, knowns, maxdepth, cheap;
  std::atomic<int> stop, timed_out;
  std::atomic<int> ncov, nchk; Named cov[256], chk[256];
  uint8_t fnhit[1 << 18];
};
static Shared *S;
struct Opt { std::string entry, out, bc, passes; double timeout = 600; uint64_t max_insts = 200000000; uint64_t rlimit = 0; int procs = 8; bool all = false, verbose = false; int max_preempt = 2; int max_errs = 5; bool trace = false, fork_reads = false; uint64_t samples = 8; std::map<std::string, uint64_t> params; std::vector<std::string> known; } opt;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t0;
static int outfd = -1;
static bool seq_child = false, is_root = true;
static std::vector<pid_t> kids;
static uint64_t insts_here = 0, insts_flushed = 0;
static int fork_depth = 0;

static void slock() { int e = 0; while (!S->lock.compare_exchange_weak(e, 1)) { e = 0; usleep(50); } }
static void sunlock() { S->lock = 0; }
static void bump(Named *tab, std::atomic<int> &n, const std::string &name, bool sym) {
  slock(); int k = n, i = 0; for (; i < k; i++) if (!strcmp(tab[i].name, name.c_str())) break;
  if (i == k && k < 256) { strncpy(tab[i].name, name.c_str(), 119); n = k + 1; }
  sunlock(); if (i < 256) { tab[i].n++; if (sym) tab[i].sym++; }
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void emit(const std::string &line) { std::string l = line + "\n"; flock(outfd, LOCK_EX); if (write(outfd, l.data(), l.size()) < 0) {} flock(outfd, LOCK_UN); }

// ------------------------------------------------------------------ memory
static const uint64_t GB = 0x10000000ull, GSZ = 6ull << 30, STK_OFF = 5ull << 30;
static uint8_t *host; static uint32_t *gran;
struct Obj { uint64_t base, size; EP *sym; uint8_t kind; };
static std::vector<Obj> objs(1);
static std::vector<uint32_t> freeobj;
static uint64_t heap_top = 0;
static std::vector<uint64_t> freelist[65];
static inline uint8_t *H(uint64_t a) { return host + (a - GB); }
[[noreturn]] static void path_error(const std::string &msg);
uint64_t mem_alloc(uint64_t size, uint64_t align, int kind, bool zero) {
  if (size > (256u << 20)) path_error("allocation too large: " + std::to_string(size));
  uint64_t rs = (size + 15) & ~15ull; if (!rs) rs = 16;
  uint64_t addr = 0;
  if (align <= 16 && rs <= 1024 && !freelist[rs / 16].empty()) { addr = freelist[rs / 16].back(); freelist[rs / 16].pop_back(); }
  else { uint64_t al = align < 16 ? 16 : align; heap_top = (heap_top + al - 1) & ~(al - 1); addr = GB + heap_top; heap_top += rs + 16; if (heap_top > STK_OFF) path_error("guest heap exhausted"); }
  uint32_t id; if (!freeobj.empty()) { id = freeobj.back(); freeobj.pop_back(); } else { id = (uint32_t)objs.size(); objs.push_back({}); }
  objs[id] = {addr, size, nullptr, (uint8_t)kind};
  for (uint64_t g = (addr - GB) >> 4, e = g + (rs >> 4); g < e; g++) gran[g] = id;
  if (zero) memset(H(addr), 0, rs); else memset(H(addr), 0xA5, rs);
  return addr;
}
void mem_init_write(uint64_t addr, const void *src, uint64_t n) { memcpy(H(addr), src, n); }
static inline uint32_t findobj(uint64_t a) { uint64_t o = a - GB; if (o >= GSZ) return 0; return gran[o >> 4]; }
static void mem_free(uint64_t a) {
  uint32_t id = findobj(a); if (!id || objs[id].base != a || objs[id].kind != 1) path_error("invalid free");
  Obj &o = objs[id]; uint64_t rs = (o.size + 15) & ~15ull; if (!rs) rs = 16;
  for (uint64_t g = (a - GB) >> 4, e = g + (rs >> 4); g < e; g++) gran[g] = 0;
  free(o.sym); o = {}; freeobj.push_back(id); if (rs <= 1024) freelist[rs / 16].push_back(a);
}
static inline Obj &access(uint64_t a, uint64_t n, const char *what) {
  uint32_t id = findobj(a); 
  if (id) { Obj &o = objs[id]; if (a + n <= o.base + o.size) return o; }
  char b[96]; snprintf(b, 96, "invalid memory %s at 0x%llx size %llu", what, (unsigned long long)a, (unsigned long long)n); path_error(b);
}
static inline void needsym(Obj &o) { if (!o.sym) o.sym = (EP *)calloc(o.size ? o.size : 1, sizeof(EP)); }

static EP psimp(EP e);
static inline V mkV(EP e) { if (e->op == E_ITE) e = psimp(e); if (e->op == E_CONST && e->w <= 64) return {(uint64_t)e->val, nullptr}; return {0, e}; }
static inline EP toE(const V &v, unsigned w) { if (v.e) return v.e; return mkC(v.c, w); }

static V mem_load(uint64_t a, unsigned bits) {
  unsigned n = (bits + 7) / 8; Obj &o = access(a, n, "read");
  if (o.sym) {
    EP *s = o.sym + (a - o.base); bool any = false; for (unsigned i = 0; i < n; i++) if (s[i]) { any = true; break; }
    if (any) {
      EP acc = s[0] ? s[0] : mkC(*H(a), 8);
      for (unsigned i = 1; i < n; i++) acc = mkConcat(s[i] ? s[i] : mkC(*H(a + i), 8), acc);
      if (bits != n * 8) acc = mkExtract(acc, 0, bits);
      return mkV(acc);
    }
  }
  if (bits <= 64) { uint64_t v = 0; memcpy(&v, H(a), n); if (bits < 64) v &= (1ull << bits) - 1; return {v, nullptr}; }
  u128 v = 0; memcpy(&v, H(a), n); return {0, mkC(v, bits)};
}
static void mem_store(uint64_t a, const V &v, unsigned bits) {
  unsigned n = (bits + 7) / 8; Obj &o = access(a, n, "write");
  if (!v.e) { memcpy(H(a), &v.c, n); if (o.sym) memset(o.sym + (a - o.base), 0, n * sizeof(EP)); return; }
  if (isC(v.e)) { memcpy(H(a), &v.e->val, n); if (o.sym) memset(o.sym + (a - o.base), 0, n * sizeof(EP)); return; }
  needsym(o); EP e = bits == n * 8 ? v.e : mkZext(v.e, n * 8); EP *s = o.sym + (a - o.base);
  for (unsigned i = 0; i < n; i++) { EP b = mkExtract(e, 8 * i, 8); if (isC(b)) { *H(a + i) = (uint8_t)b->val; s[i] = nullptr; } else s[i] = b; }
}
static void mem_copy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Obj &so = access(s, n, "read"); Obj &dd = access(d, n, "write");
  memmove(H(d), H(s), n);
  if (so.sym) { bool any = dd.sym != nullptr; if (!any) for (uint64_t i = 0; i < n; i++) if (so.sym[s - so.base + i]) { any = true; break; }
    if (any) { needsym(dd); memmove(dd.sym + (d - dd.base), so.sym + (s - so.base), n * sizeof(EP)); } }
  else if (dd.sym) memset(dd.sym + (d - dd.base), 0, n * sizeof(EP));
}
static inline EP mem_byte(uint64_t a) { Obj &o = access(a, 1, "read"); if (o.sym && o.sym[a - o.base]) return o.sym[a - o.base]; return mkC(*H(a), 8); }
static std::string mem_str(uint64_t a, uint64_t n) { std::string r; for (uint64_t i = 0; i < n; i++) { access(a + i, 1, "read"); r += (char)*H(a + i); } return r; }

// ------------------------------------------------------------------ threads / frames
struct Frame { int fn; int pc; int32_t base; uint64_t sp; int call; int32_t dst; };
struct Thread {
  std::vector<Frame> fr; V *regs; uint64_t sp, stk_base; bool done = false; int wait_join = -1; uint64_t wait_lock = 0; V exc[2]; std::vector<uint32_t> sobj;
  bool parked = false;
};
static std::deque<Thread> th; static int cur = 0; static int preempts = 0;
static const uint64_t STK = 64ull << 20;
static void new_thread() {
  Thread t; t.regs = (V *)mmap(0, sizeof(V) * (4ull << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t.stk_base = GB + STK_OFF + th.size() * STK; t.sp = t.stk_base; th.push_back(t);
}

// ------------------------------------------------------------------ solver
static std::string where(bool full = false);
static Z3_solver zs; static std::vector<EP> pcs; static size_t zasserted = 0;
static std::vector<std::shared_ptr<Model>> models;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(77); }
static void z_setup() {
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(Z, zerr);
  zs = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, zs);
}
static void set_rlimit(Z3_solver s, uint64_t r) {
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)std::min<uint64_t>(r, 4000000000u)); Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
}
static void get_model(Z3_solver s, Model &m) {
  Z3_model zm = Z3_solver_get_model(Z, s); Z3_model_inc_ref(Z, zm); m.v.assign(vars.size(), 0);
  unsigned n = Z3_model_get_num_consts(Z, zm);
  for (unsigned i = 0; i < n; i++) {
    Z3_func_decl d = Z3_model_get_const_decl(Z, zm, i); Z3_symbol sy = Z3_get_decl_name(Z, d);
    if (Z3_get_symbol_kind(Z, sy) != Z3_INT_SYMBOL) continue; int ix = Z3_get_symbol_int(Z, sy);
    Z3_ast a = Z3_model_get_const_interp(Z, zm, d); if (!a) continue;
    std::string str = Z3_get_numeral_string(Z, a); u128 v = 0; for (char c : str) v = v * 10 + (c - '0');
    if (ix >= 0 && (size_t)ix < m.v.size()) m.v[ix] = v;
  }
  Z3_model_dec_ref(Z, zm);
}
// 1 sat 0 unsat -1 unknown
static std::string show(EP e, int d = 0) {
  static const char *nm[] = {"C", "V", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "cat", "ext", "zext", "sext", "ite"};
  if (!e) return "-"; if (e->op == E_CONST) return std::to_string((uint64_t)e->val) + ":" + std::to_string(e->w); if (e->op == E_VAR) return vars[e->sup].name + "." + std::to_string(e->sup); if (d > 9) return "..";
  std::string r = "(" + std::string(nm[e->op]) + (e->op == E_EXTRACT ? "@" + std::to_string((uint64_t)e->val) : "") + ":" + std::to_string(e->w);
  for (EP x : {e->a, e->b, e->c}) if (x) r += " " + show(x, d + 1); return r + ")";
}
static int query(EP extra, Model *out) {
  S->queries++; double a = now(); if (getenv("SYMX_QLOG")) fprintf(stderr, "Q %s  ## %s\n", where().c_str(), show(extra).c_str());
  while (zasserted < pcs.size()) Z3_solver_assert(Z, zs, zbool(pcs[zasserted++]));
  Z3_solver_push(Z, zs); if (extra) Z3_solver_assert(Z, zs, zbool(extra));
  set_rlimit(zs, opt.rlimit ? opt.rlimit : 200000000u);
  Z3_lbool r = Z3_solver_check(Z, zs);
  if (r == Z3_L_TRUE && out) get_model(zs, *out);
  Z3_solver_pop(Z, zs, 1);
  if (r == Z3_L_UNDEF) {
    // second opinion: a fresh non-incremental bit-blasting solver
    Z3_tactic tc = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, tc); Z3_solver s2 = Z3_mk_solver_from_tactic(Z, tc); Z3_solver_inc_ref(Z, s2);
    for (EP e : pcs) Z3_solver_assert(Z, s2, zbool(e)); if (extra) Z3_solver_assert(Z, s2, zbool(extra));
    set_rlimit(s2, 4000000000u); r = Z3_solver_check(Z, s2); if (r == Z3_L_TRUE && out) get_model(s2, *out);
    Z3_solver_dec_ref(Z, s2); Z3_tactic_dec_ref(Z, tc);
  }
  S->solver_us += (uint64_t)((now() - a) * 1e6); if (getenv("SYMX_QLOG")) fprintf(stderr, "T %.1f %d %s\n", (now() - a) * 1e3, (int)r, where().c_str());
  if (r == Z3_L_TRUE) { S->qsat++; 
    if (out) { for (EP e : pcs) if (!eval(e, *out)) { fprintf(stderr, "model check failed\n"); S->qunk++; return -1; } if (extra && !eval(extra, *out)) { fprintf(stderr, "model check failed\n"); return -1; } }
    return 1; }
  if (r == Z3_L_FALSE) { S->qunsat++; return 0; }
  S->qunk++; return -1;
}
// ---- decided without a query: facts already on the path, and conditions over one byte, by its remaining domain
#include <bitset>
static std::unordered_map<EP, bool> facts;
struct Dom { std::bitset<256> s; bool init = false, multi = false; };
static std::vector<Dom> doms;
static Dom &dom(int v) { if ((size_t)v >= doms.size()) doms.resize(vars.size() + 64); Dom &d = doms[v]; if (!d.init) { d.init = true; d.s.reset(); for (unsigned i = 0; i < (1u << vars[v].w); i++) d.s.set(i); } return d; }
static Model dmod;
static std::unordered_map<EP, std::bitset<256>> dcache;
static const std::bitset<256> &truth(EP c) {
  auto it = dcache.find(c); if (it != dcache.end()) return it->second;
  std::bitset<256> r; int v = c->sup; if ((size_t)v >= dmod.v.size()) dmod.v.resize(vars.size() + 64, 0);
  for (unsigned i = 0; i < (1u << vars[v].w); i++) { dmod.v[v] = i; if (eval(c, dmod)) r.set(i); }
  return dcache[c] = r;
}
// unsigned bounds of an expression, from the remaining domains of the bytes in it
static int rg_budget;
static void range(EP e, u128 &lo, u128 &hi) {
  u128 m = e->w >= 128 ? ~(u128)0 : (((u128)1 << e->w) - 1); lo = 0; hi = m;
  if (e->op == E_CONST) { lo = hi = e->val; return; }
  if (--rg_budget < 0 || e->w > 120) return;
  if (e->sup >= 0 && vars[e->sup].w <= 8) {
    Dom &d = dom(e->sup); if (e->op == E_VAR) { int a = 0, b = 255; while (a < 255 && !d.s[a]) a++; while (b > 0 && !d.s[b]) b--; lo = a; hi = b; return; }
    if (e->op != E_ZEXT && e->op != E_CONCAT && (size_t)d.s.count() <= 256 && e->w > 1) {
      int v = e->sup; if ((size_t)v >= dmod.v.size()) dmod.v.resize(vars.size() + 64, 0); bool f = true;
      for (int i = 0; i < 256; i++) if (d.s[i]) { dmod.v[v] = i; u128 x = eval(e, dmod); if (f) { lo = hi = x; f = false; } else { if (x < lo) lo = x; if (x > hi) hi = x; } }
      if (f) { lo = 0; hi = m; } return;
    }
  }
  u128 al, ah, bl, bh;
  switch (e->op) {
    case E_ZEXT: range(e->a, lo, hi); return;
    case E_CONCAT: range(e->a, al, ah); range(e->b, bl, bh); lo = (al << e->b->w) | bl; hi = (ah << e->b->w) | bh; return;
    case E_EXTRACT: range(e->a, al, ah); al >>= (unsigned)e->val; ah >>= (unsigned)e->val; if (ah <= m) { lo = al; hi = ah; } return;
    case E_LSHR: if (isC(e->b) && e->b->val < e->w) { range(e->a, al, ah); lo = al >> (unsigned)e->b->val; hi = ah >> (unsigned)e->b->val; } return;
    case E_AND: range(e->a, al, ah); range(e->b, bl, bh); hi = std::min(ah, bh); return;
    case E_OR: { range(e->a, al, ah); range(e->b, bl, bh); lo = std::max(al, bl); u128 h = ah | bh; while (h & (h + 1)) h |= h >> 1; hi = std::min(h, m); return; }
    case E_ADD: range(e->a, al, ah); range(e->b, bl, bh); if (ah <= m - bh) { lo = al + bl; hi = ah + bh; } return;
    case E_SUB: range(e->a, al, ah); range(e->b, bl, bh); if (al >= bh) { lo = al - bh; hi = ah - bl; } return;
    case E_UREM: if (isC(e->b) && e->b->val) { range(e->a, al, ah); if (ah < e->b->val) { lo = al; hi = ah; } else hi = e->b->val - 1; } return;
    case E_UDIV: if (isC(e->b) && e->b->val) { range(e->a, al, ah); lo = al / e->b->val; hi = ah / e->b->val; } return;
    case E_ITE: range(e->b, al, ah); range(e->c, bl, bh); lo = std::min(al, bl); hi = std::max(ah, bh); return;
    default: return;
  }
}
// 1: always true on this path, 0: always false, -1: not decided by bounds
static int by_range(EP c, int depth = 0) {
  if (isC(c)) return c->val != 0;
  if (c->w != 1) return -1;
  if ((c->op == E_ULT || c->op == E_EQ) && c->a->w > 1) {
    u128 al, ah, bl, bh; rg_budget = 64; range(c->a, al, ah); rg_budget = 64; range(c->b, bl, bh);
    if (c->op == E_ULT) { if (ah < bl) return 1; if (al >= bh) return 0; return -1; }
    if (ah < bl || bh < al) return 0; return -1;
  }
  if (depth > 6) return -1;
  if (c->op == E_EQ && isC(c->b, 0)) { int r = by_range(c->a, depth + 1); return r < 0 ? -1 : !r; }
  if (c->op == E_AND) { int a = by_range(c->a, depth + 1); if (a == 0) return 0; int b = by_range(c->b, depth + 1); return b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1; }
  if (c->op == E_OR) { int a = by_range(c->a, depth + 1); if (a == 1) return 1; int b = by_range(c->b, depth + 1); return b == 1 ? 1 : a == 0 && b == 0 ? 0 : -1; }
  return -1;
}
// 1: feasible, 0: infeasible, -1: ask the solver
static int cheap(EP c) {
  auto it = facts.find(c); if (it != facts.end()) return it->second ? 1 : 0;
  if (c->sup >= 0 && vars[c->sup].w <= 8) {
    Dom &d = dom(c->sup); auto t = truth(c) & d.s;
    if (t.none()) return 0; if (t == d.s || !d.multi) return 1; return -1;
  }
  return by_range(c);
}
static std::vector<uint32_t> seen_ep; static uint32_t seen_n = 0;
static void mark_multi(EP e) {
  if (e->sup == -1) return; if (e->id >= seen_ep.size()) seen_ep.resize(next_id + 1024, 0); if (seen_ep[e->id] == seen_n) return; seen_ep[e->id] = seen_n;
  if (e->op == E_VAR) { if (e->w <= 8) dom(e->sup).multi = true; return; }
  if (e->a) mark_multi(e->a); if (e->b) mark_multi(e->b); if (e->c) mark_multi(e->c);
}
static void learn(EP c) {
  facts[c] = true; facts[mkNot(c)] = false;
  if (c->sup >= 0) { if (vars[c->sup].w <= 8) { Dom &d = dom(c->sup); d.s &= truth(c); } }
  else if (c->sup == -2) { seen_n++; mark_multi(c); }
}
// if-then-else chains whose guards the path already decides
static EP psimp(EP e) {
  while (e->op == E_ITE) {
    if (cheap(e->a) == 0) e = e->c; else if (cheap(mkNot(e->a)) == 0) e = e->b; else break;
  }
  return e;
}
// a model of the path (and c) found by changing one byte of a known one
static std::shared_ptr<Model> stale;
static bool repair(EP c) {
  std::shared_ptr<Model> b = models.empty() ? stale : models.back(); if (!b) return false;
  int v = -1; auto bad = [&](EP e) { if (eval(e, *b)) return true; if (e->sup < 0 || vars[e->sup].w > 8 || (v >= 0 && v != e->sup)) return false; v = e->sup; return true; };
  if (c && !bad(c)) return false;
  if (b == stale) for (EP e : pcs) if (!bad(e)) return false;
  if (v < 0) { models.push_back(b); S->cheap++; return true; }
  auto t = dom(v).s; if (c && c->sup == v) t &= truth(c);
  auto m = std::make_shared<Model>(*b); if (m->v.size() < vars.size()) m->v.resize(vars.size(), 0); int tries = 0;
  for (int i = 0; i < 256 && tries < 24; i++) if (t[i]) {
    tries++; m->v[v] = i; bool ok = !c || eval(c, *m); for (size_t k = pcs.size(); ok && k-- > 0;) ok = eval(pcs[k], *m);
    if (ok) { models.push_back(m); if (models.size() > 6) models.erase(models.begin()); S->cheap++; return true; }
  }
  return false;
}
static bool may(EP c) {
  if (isC(c)) return c->val != 0;
  for (auto &m : models) if (eval(c, *m)) return true;
  int ch = cheap(c); if (ch >= 0) { S->cheap++; return ch; }
  if (repair(c)) return true;
  auto m = std::make_shared<Model>(); int r = query(c, m.get());
  if (r < 0) path_error("solver gave no answer");
  if (r == 0) { facts[c] = false; facts[mkNot(c)] = true; }
  if (r == 1) { models.push_back(m); if (models.size() > 6) models.erase(models.begin()); return true; }
  return false;
}
static void assume(EP c) {
  if (isC(c)) return;
  if (c->op == E_AND && c->w == 1) { assume(c->a); assume(c->b); return; }
  pcs.push_back(c); learn(c);
  if (!models.empty()) stale = models.back();
  models.erase(std::remove_if(models.begin(), models.end(), [&](std::shared_ptr<Model> &m) { return !eval(c, *m); }), models.end());
}
static Model &some_model() {
  if (models.empty()) repair(nullptr);
  if (models.empty()) { auto m = std::make_shared<Model>(); int r = query(nullptr, m.get()); if (r != 1) path_error(r ? "solver gave no answer" : "path condition became unsatisfiable"); models.push_back(m); }
  return *models.back();
}

// ------------------------------------------------------------------ process-level forking
static void take_slot() { while (!S->stop) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 100000000; if (ts.tv_nsec >= 1000000000) { ts.tv_nsec -= 1000000000; ts.tv_sec++; } if (!sem_timedwait(&S->slots, &ts)) return; } }
static void flush_insts() { S->insts += insts_here - insts_flushed; insts_flushed = insts_here; }
[[noreturn]] static void finish() {
  flush_insts();
  uint64_t m = S->maxinsts; while (insts_here > m && !S->maxinsts.compare_exchange_weak(m, insts_here)) {}
  m = S->maxdepth; while ((uint64_t)fork_depth > m && !S->maxdepth.compare_exchange_weak(m, fork_depth)) {}
  S->live--; sem_post(&S->slots);
  for (pid_t k : kids) { int st; if (waitpid(k, &st, 0) == k && (!WIFEXITED(st) || WEXITSTATUS(st))) { S->errors++; emit("{\"kind\":\"error\",\"msg\":\"executor process died: status " + std::to_string(st) + "\"}"); } }
  if (is_root) throw 1;
  if (seq_child) take_slot();
  _exit(0);
}
static std::string decisions; static size_t dec_at = 0; static bool replaying = false;  // the choices made along this path
static bool do_fork1();
static bool do_fork() {
  if (replaying) { if (dec_at >= decisions.size()) path_error("the recorded path ends early"); return decisions[dec_at++] == '1'; }
  bool r = do_fork1(); decisions.push_back(r ? '1' : '0'); return r;
}
static bool do_fork1() {  // true in the child
  if (S->stop) finish();
  S->forks++; flush_insts(); fork_depth++;
  // a free slot: the child runs beside its parent; none, but few processes yet: the child takes over its parent's slot and
  // the parent waits for any other; otherwise the parent waits for its child
  bool par = !sem_trywait(&S->slots), hand = !par && opt.procs > 1 && S->live < 16 * opt.procs;
  pid_t p = fork();
  if (p < 0) { if (par) sem_post(&S->slots); path_error("fork failed"); }
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); is_root = false; seq_child = !par && !hand; kids.clear(); S->live++; return true; }
  if (par || hand) { kids.push_back(p); if (hand) take_slot(); }
  else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { S->errors++; emit("{\"kind\":\"error\",\"msg\":\"executor process died: status " + std::to_string(st) + "\"}"); } if (S->stop) finish(); }
  return false;
}
// decide a symbolic condition; forks when both outcomes are feasible
static bool branch(EP c) {
  if (isC(c)) return c->val;
  EP nc = mkNot(c);
  bool t = may(c), f = may(nc);
  if (t && !f) return true;
  if (f && !t) return false;
  if (!t && !f) path_error("path condition became unsatisfiable");
  if (do_fork()) { assume(c); return true; }
  assume(nc); return false;
}

static uint64_t concretize(const V &v, unsigned w, int limit = 4096) {
  if (!v.e) return v.c; if (isC(v.e)) return (uint64_t)v.e->val;
  S->concretized++;
  for (int k = 0; k < limit; k++) {
    u128 x = eval(v.e, some_model()); EP q = mkEq(v.e, mkC(x, w));
    if (!may(mkNot(q))) return (uint64_t)x;
    if (opt.verbose && k == 0) fprintf(stderr, "concretize fork at %s\n", where().c_str());
    if (do_fork()) { assume(q); return (uint64_t)x; }
    assume(mkNot(q));
  }
  path_error("too many values while concretizing");
}

// ------------------------------------------------------------------ reporting
static std::string last_panic;
static std::vector<std::string> notes;
static std::string where(bool full) {
  std::string r; Thread &t = th[cur]; int n = 0;
  for (int i = (int)t.fr.size() - 1; i >= 0; i--) {
    Func &F = P.funcs[t.fr[i].fn]; int pc = t.fr[i].pc; if (pc > 0 && i < (int)t.fr.size() - 1) pc--;
    std::string l; if (pc < (int)F.code.size() && F.code[pc].line) l = P.locs[F.code[pc].line].first + ":" + std::to_string(P.locs[F.code[pc].line].second);
    if (n) r += " <- "; r += F.dem.substr(0, 110) + " (" + l + ")"; if (++n >= (full ? 40 : 8)) break;
  }
  return r;
}
static std::string model_json(const Model &m) {
  std::string r = "{"; std::string curname; std::string hex; bool first = true;
  auto flush = [&]() { if (!curname.empty()) { r += (first ? "" : ",") + std::string("\"") + jesc(curname) + "\":\"" + hex + "\""; first = false; } hex.clear(); };
  for (size_t i = 0; i < vars.size(); i++) {
    if (vars[i].name != curname) { flush(); curname = vars[i].name; }
    u128 v = i < m.v.size() ? m.v[i] : 0; for (unsigned b = 0; b < vars[i].w; b += 8) { char t[4]; snprintf(t, 4, "%02x", (unsigned)((v >> b) & 255)); hex += t; }
  }
  flush(); return r + "}";
}
[[noreturn]] static void path_error(const std::string &msg) {
  static bool in = false; 
  uint64_t n = ++S->errors; if (n <= (uint64_t)opt.max_errs) { std::string w = in ? "" : (in = true, th.empty() ? "" : where(opt.verbose)); emit("{\"kind\":\"error\",\"msg\":\"" + jesc(msg) + "\",\"at\":\"" + jesc(w) + "\"}"); }
  if (n >= (uint64_t)opt.max_errs && !opt.all) S->stop = 1;
  finish();
}
[[noreturn]] static void violation(const std::string &kind, const std::string &id, const Model &m) {
  uint64_t n = ++S->violations;
  std::string nn; for (auto &x : notes) nn += (nn.empty() ? "" : "; ") + x;
  if (n <= 20) emit("{\"kind\":\"" + kind + "\",\"id\":\"" + jesc(id) + "\",\"panic\":\"" + jesc(last_panic) + "\",\"notes\":\"" + jesc(nn) + "\",\"at\":\"" + jesc(where(opt.verbose)) + "\",\"decisions\":\"" + (th.size() > 1 ? decisions : "") + "\",\"model\":" + model_json(m) + "}");
  if (!opt.all) S->stop = 1;
  finish();
}

static std::vector<std::string> pcov;
static bool is_known(const std::string &id) { for (auto &k : opt.known) if (k == id) return true; return false; }
static void known_hit(const std::string &id, const Model &m) { uint64_t n = ++S->knowns; if (n <= 40) emit("{\"kind\":\"known\",\"id\":\"" + jesc(id) + "\",\"panic\":\"" + jesc(last_panic) + "\",\"model\":" + model_json(m) + "}"); }
[[noreturn]] static void path_done() {
  uint64_t n = ++S->paths;
  if (n <= opt.samples) { std::string c; for (auto &x : pcov) c += (c.empty() ? "\"" : ",\"") + jesc(x) + "\""; emit("{\"kind\":\"path\",\"conds\":" + std::to_string(pcs.size()) + ",\"insts\":" + std::to_string(insts_here) + ",\"covers\":[" + c + "],\"model\":" + model_json(some_model()) + "}"); }
  finish();
}

#include "interp.h"

// ------------------------------------------------------------------ main
static void on_term(int) { if (S) S->stop = 1; }
int main(int argc, char **argv) {
  rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) { rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 2ull << 30); setrlimit(RLIMIT_STACK, &rl); if (!getenv("SYMX_RE")) { setenv("SYMX_RE", "1", 1); execv("/proc/self/exe", argv); } }
  t0 = now(); std::vector<std::string> keep, noinl = {"rust_panic_with_hook", "default_hook", "tiny_keccak6keccak9keccak256", "_Unwind_", "rust_begin_unwind", "symx_intercept"};
  std::vector<std::string> entries;
  opt.passes = "function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>),cgscc(inline<only-mandatory>),globaldce,function(sroa,early-cse,simplifycfg,instcombine<no-verify-fixpoint>,adce)";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entries.push_back(nx()); else if (a == "--out") opt.out = nx(); else if (a == "--timeout") opt.timeout = atof(argv[++i]);
    else if (a == "--max-insts") opt.max_insts = strtoull(argv[++i], 0, 10); else if (a == "--procs") opt.procs = atoi(argv[++i]);
    else if (a == "--all") opt.all = true; else if (a == "--fork-reads") opt.fork_reads = true; else if (a == "-v") opt.verbose = true; else if (a == "--passes") opt.passes = nx(); else if (a == "--rlimit") opt.rlimit = strtoull(argv[++i], 0, 10);
    else if (a == "--noinline") noinl.push_back(nx()); else if (a == "--preempt") opt.max_preempt = atoi(argv[++i]); else if (a == "--trace") opt.trace = true; else if (a == "--decisions") { decisions = argv[++i]; replaying = true; }
    else if (a == "--samples") opt.samples = strtoull(argv[++i], 0, 10); else if (a == "--known") opt.known.push_back(nx()); else if (a == "--param") { std::string p = nx(); size_t q = p.find('='); opt.params[p.substr(0, q)] = strtoull(p.c_str() + q + 1, 0, 10); }
    else if (a == "--keep") keep.push_back(nx());
    else opt.bc = a;
  }
  for (auto &e : entries) keep.push_back(e);
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  host = (uint8_t *)mmap(0, GSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  gran = (uint32_t *)mmap(0, (GSZ >> 4) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::string err; if (!load_program(opt.bc.c_str(), opt.passes, keep, noinl, err)) { fprintf(stderr, "%s\n", err.c_str()); return 3; }
  setup_handlers();
  // what is forked most: put the loaded program on huge pages, so that a fork copies few page table entries
  malloc_trim(0); { FILE *mf = fopen("/proc/self/maps", "r"); char ln[512]; std::vector<std::pair<uint64_t, uint64_t>> rs; while (mf && fgets(ln, sizeof ln, mf)) { unsigned long long a, b; if (strstr(ln, "[heap]") && sscanf(ln, "%llx-%llx", &a, &b) == 2) rs.push_back({a, b}); } if (mf) fclose(mf);
    for (auto &r : rs) { uint64_t a = (r.first + 0x1fffff) & ~0x1fffffull, b = r.second & ~0x1fffffull; if (a < b) { madvise((void *)a, b - a, MADV_HUGEPAGE); madvise((void *)a, b - a, 25 /* MADV_COLLAPSE */); } } }
  double tload = now() - t0;
  if (entries.size() != 1 || !P.fn_by_name.count(entries[0])) { fprintf(stderr, "no such entry\n"); return 3; }
  opt.entry = entries[0];
  outfd = open(opt.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  signal(SIGTERM, on_term);
  // the exploration runs in a child so that the root can enforce the wall-clock limit
  pid_t w = fork();
  if (w == 0) {
    setpgid(0, 0); S->live = 1; sem_init(&S->slots, 1, opt.procs - 1);
    // in a thread of its own, so that what the exploration allocates is packed into one malloc arena instead of the holes
    // the loader left: a forked process then touches (and copies) far fewer pages
    pthread_t pt; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
    pthread_create(&pt, &at, [](void *) -> void * { z_setup(); new_thread(); tls_start(); try { start_entry(P.fn_by_name[opt.entry]); run(); } catch (int) {} _exit(0); }, 0);
    pthread_join(pt, 0); _exit(1);
  }
  setpgid(w, w);
  double dl = t0 + opt.timeout; int st = 0; bool killed = false;
  for (;;) {
    pid_t r = waitpid(w, &st, WNOHANG); if (r == w) break;
    if (now() > dl && !killed) { S->timed_out = 1; S->stop = 1; if (now() > dl + 3) { kill(-w, SIGKILL); killed = true; } }
    if (S->stop && now() > dl + 3 && !killed) { kill(-w, SIGKILL); killed = true; }
    usleep(2000);
  }
  if (!killed && (!WIFEXITED(st) || WEXITSTATUS(st))) { S->errors++; emit("{\"kind\":\"error\",\"msg\":\"root executor died: status " + std::to_string(st) + "\"}"); }
  std::string covs, chks, fns;
  for (int i = 0; i < S->ncov; i++) covs += (i ? "," : "") + std::string("\"") + jesc(S->cov[i].name) + "\":" + std::to_string(S->cov[i].n);
  for (int i = 0; i < S->nchk; i++) chks += (i ? "," : "") + std::string("\"") + jesc(S->chk[i].name) + "\":[" + std::to_string(S->chk[i].n) + "," + std::to_string(S->chk[i].sym) + "]";
  bool first = true; int nf = 0;
  for (size_t i = 0; i < P.funcs.size() && i < sizeof(S->fnhit); i++) if (S->fnhit[i]) { nf++; if (P.funcs[i].srcfile.find("/repo/") == std::string::npos && P.funcs[i].srcfile.find("verifcrate") == std::string::npos) continue; fns += (first ? "" : ",") + std::string("\"") + jesc(P.funcs[i].dem) + "\""; first = false; }
  char buf[2048]; snprintf(buf, sizeof buf, "{\"kind\":\"summary\",\"entry\":\"%s\",\"paths\":%llu,\"assumed_out\":%llu,\"errors\":%llu,\"violations\":%llu,\"knowns\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"insts\":%llu,\"forks\":%llu,\"decided_without_query\":%llu,\"max_path_insts\":%llu,\"max_fork_depth\":%llu,\"checks_symbolic\":%llu,\"checks_concrete\":%llu,\"panics\":%llu,\"timed_out\":%d,\"load_s\":%.2f,\"wall_s\":%.2f,\"functions_executed\":%d,",
    opt.entry.c_str(), (unsigned long long)S->paths, (unsigned long long)S->assumed_out, (unsigned long long)S->errors, (unsigned long long)S->violations, (unsigned long long)S->knowns, (unsigned long long)S->queries, (unsigned long long)S->qsat, (unsigned long long)S->qunsat, (unsigned long long)S->qunk, S->solver_us / 1e6, (unsigned long long)S->insts, (unsigned long long)S->forks, (unsigned long long)S->cheap, (unsigned long long)S->maxinsts, (unsigned long long)S->maxdepth, (unsigned long long)S->checks_sym, (unsigned long long)S->checks_conc, (unsigned long long)S->panics, (int)S->timed_out, tload, now() - t0, nf);
  emit(std::string(buf) + "\"covers\":{" + covs + "},\"checks\":{" + chks + "},\"functions\":[" + fns + "]}");
  return 0;
}
