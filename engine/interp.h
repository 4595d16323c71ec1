// The interpreter proper: instructions, calls, unwinding, modelled environment functions.
#pragma once
static V *RB;
static inline const V &R(int o) { return o >= 0 ? RB[o] : P.consts[-o - 1]; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

static void take_edge(int ei) {
  const Edge &E = P.edges[ei]; size_t n = E.copies.size();
  if (n == 1) RB[E.copies[0].dst] = R(E.copies[0].src);
  else if (n) { V tmp[64]; std::vector<V> big; V *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
    for (size_t i = 0; i < n; i++) t[i] = R(E.copies[i].src); for (size_t i = 0; i < n; i++) RB[E.copies[i].dst] = t[i]; }
  th[cur].fr.back().pc = E.pc;
}
struct FrameX { uint32_t sobjn; };
static std::vector<std::vector<uint32_t>> frx(1);  // per thread: sobj count at frame entry
static uint64_t stack_alloc(uint64_t size, uint64_t align) {
  Thread &t = th[cur]; if (align < 16) align = 16;
  uint64_t a = (t.sp + align - 1) & ~(align - 1); uint64_t rs = (size + 15) & ~15ull; if (!rs) rs = 16;
  t.sp = a + rs + 16; if (t.sp > t.stk_base + STK) path_error("guest stack overflow");
  uint32_t id; if (!freeobj.empty()) { id = freeobj.back(); freeobj.pop_back(); } else { id = (uint32_t)objs.size(); objs.push_back({}); }
  objs[id] = {a, size, nullptr, 3}; for (uint64_t g = (a - GB) >> 4, e = g + (rs >> 4); g < e; g++) gran[g] = id;
  memset(H(a), 0xA5, rs); t.sobj.push_back(id); return a;
}
static void push_frame(int fi, int call, int32_t dst) {
  Thread &t = th[cur]; translate(fi); Func &F = P.funcs[fi];
  int32_t base = 0; if (!t.fr.empty()) { Frame &f = t.fr.back(); base = f.base + P.funcs[f.fn].nslots; }
  if ((uint64_t)base + F.nslots > (4ull << 20) || t.fr.size() > 20000) path_error("guest call stack too deep");
  if ((size_t)fi < sizeof(S->fnhit)) S->fnhit[fi] = 1;
  t.fr.push_back({fi, 0, base, t.sp, call, dst}); frx[cur].push_back((uint32_t)t.sobj.size());
  RB = t.regs + base;
}
static void pop_frame() {
  Thread &t = th[cur]; uint32_t n = frx[cur].back(); frx[cur].pop_back();
  while (t.sobj.size() > n) {
    uint32_t id = t.sobj.back(); t.sobj.pop_back(); Obj &o = objs[id]; uint64_t rs = (o.size + 15) & ~15ull; if (!rs) rs = 16;
    for (uint64_t g = (o.base - GB) >> 4, e = g + (rs >> 4); g < e; g++) gran[g] = 0;
    free(o.sym); o = {}; freeobj.push_back(id);
  }
  t.sp = t.fr.back().sp; t.fr.pop_back(); if (!t.fr.empty()) RB = t.regs + t.fr.back().base;
}
static std::map<int, int> thread_of_dummy;
static void thread_finished();
static void unwind_to(V a, V b) {
  Thread &t = th[cur];
  for (;;) {
    if (t.fr.empty()) {
      if (cur != 0) { thread_finished(); return; }
      violation("panic", "uncaught panic: " + last_panic, some_model());
    }
    Frame &f = t.fr.back(); Func &F = P.funcs[f.fn]; const Inst &in = F.code[f.pc];
    if (in.op == O_CALL) { CallI &ci = P.calls[in.x]; if (ci.unwind >= 0) { t.exc[0] = a; t.exc[1] = b; RB = t.regs + f.base; take_edge(ci.unwind); return; } }
    pop_frame();
  }
}
static void do_return(const V *vals, int n) {
  Thread &t = th[cur]; V tmp[64]; std::vector<V> big; V *b = tmp; if (n > 64) { big.resize(n); b = big.data(); }
  for (int i = 0; i < n; i++) b[i] = vals[i];
  int32_t dst = t.fr.back().dst; int call = t.fr.back().call; pop_frame();
  if (t.fr.empty()) { thread_finished(); return; }
  for (int i = 0; i < n; i++) RB[dst + i] = b[i];
  if (call >= 0 && P.calls[call].normal >= 0) take_edge(P.calls[call].normal); else t.fr.back().pc++;
}

// ---------------------------------------------------------------- scheduling of guest threads
struct Lk { int writer = -1; int readers = 0; int depth = 0; };
static std::map<uint64_t, Lk> locks; static std::map<uint64_t, int> lock_kind; static std::vector<uint64_t> futex_wait; static std::vector<bool> skip_sched;
static bool runnable(int i) {
  Thread &t = th[i]; if (t.done || t.parked) return false;
  if (t.wait_join >= 0 && !th[t.wait_join].done) return false;
  if (t.wait_lock) { Lk &l = locks[t.wait_lock]; if (l.writer >= 0 && l.writer != i) return false; if (lock_kind[i] == 1 && l.readers > 0) return false; }
  return true;
}
// each thread has its own copy of the thread-local globals; the constants that are their addresses follow the thread
static std::vector<std::vector<uint8_t>> tls_init; static std::map<int, std::vector<uint64_t>> tls_at;
static void tls_start() { auto &l = tls_at[0]; for (auto &g : P.tls) { tls_init.emplace_back(H(g.first), H(g.first) + g.second); l.push_back(g.first); } }
static std::vector<uint64_t> &tls_of(int t) {
  auto &l = tls_at[t];
  if (l.empty()) for (size_t k = 0; k < P.tls.size(); k++) { uint64_t n = P.tls[k].second, a = mem_alloc(n ? n : 1, 64, 2, true); if (n) { access(a, n, "tls"); memcpy(H(a), tls_init[k].data(), n); } l.push_back(a); }
  return l;
}
uint64_t tls_addr(int g) { return tls_of(cur)[g]; }
static void tls_switch(int from, int to) { if (from == to) return; auto &l = tls_of(to); for (auto &c : P.tls_consts) P.consts[c.k].c = l[c.g] + c.off; }
static void switch_to(int i) { tls_switch(cur, i); cur = i; th[i].wait_join = -1; th[i].wait_lock = 0; if (!th[i].fr.empty()) RB = th[i].regs + th[i].fr.back().base; }
// the current thread cannot continue: pick any runnable one (all choices explored)
static void must_switch() {
  std::vector<int> r; for (int i = 0; i < (int)th.size(); i++) if (runnable(i)) r.push_back(i);
  if (r.empty()) violation("deadlock", "deadlock", some_model());
  for (size_t i = 0; i + 1 < r.size(); i++) if (do_fork()) { switch_to(r[i]); return; }
  switch_to(r.back());
}
// a thread that reads the same value from the same place again and again, writing nothing, waits for another thread: the others go on, at no cost
struct Spin { uint64_t v = 0; int n = 0; }; static std::map<int, std::map<std::pair<int, uint64_t>, Spin>> spins;
static bool spin_point(int pc, uint64_t a, uint64_t v) {
  Spin &s = spins[cur][{pc, a}]; if (s.v != v || !s.n) { s = {v, 1}; return false; }
  if (++s.n < 16) return false;
  std::vector<int> r; for (int i = 0; i < (int)th.size(); i++) if (i != cur && runnable(i)) r.push_back(i);
  spins[cur].clear(); if (r.empty()) return false;
  notes.push_back("spin T" + std::to_string(cur)); for (size_t i = 0; i + 1 < r.size(); i++) if (do_fork()) { switch_to(r[i]); return true; }
  switch_to(r.back()); return true;
}
static void thread_finished() {
  if (cur == 0) path_done();
  th[cur].done = true; must_switch();
}
// a visible operation is about to run: maybe preempt. returns true when switched away.
static bool sched_point() {
  if (th.size() < 2) return false;
  if (skip_sched[cur]) { skip_sched[cur] = false; return false; }
  if (preempts >= opt.max_preempt) return false;
  for (int i = 0; i < (int)th.size(); i++) if (i != cur && runnable(i)) { if (do_fork()) { skip_sched[cur] = true; preempts++; notes.push_back("preempt T" + std::to_string(cur) + "->T" + std::to_string(i)); switch_to(i); return true; } }
  return false;
}

// ---------------------------------------------------------------- handlers
struct HCtx { std::vector<V> a; V ret[2]; bool replaced = true; bool control = false; const CallI *ci = nullptr; int32_t dst = 0; int callx = -1; };
typedef void (*HFn)(HCtx &);
struct HEnt { const char *name; HFn fn; };
static uint64_t AC(HCtx &h, int i, unsigned w = 64) { return concretize(h.a[i], w); }
static void keccak_f(uint64_t s[25]) {
  static const uint64_t RC[24] = {1ull, 0x8082ull, 0x800000000000808aull, 0x8000000080008000ull, 0x808bull, 0x80000001ull, 0x8000000080008081ull, 0x8000000000008009ull, 0x8aull, 0x88ull, 0x80008009ull, 0x8000000aull, 0x8000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull, 0x800aull, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x80000001ull, 0x8000000080008008ull};
  static const int rotc[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}, piln[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  for (int r = 0; r < 24; r++) {
    uint64_t bc[5], t; for (int i = 0; i < 5; i++) bc[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
    for (int i = 0; i < 5; i++) { t = bc[(i + 4) % 5] ^ ((bc[(i + 1) % 5] << 1) | (bc[(i + 1) % 5] >> 63)); for (int j = 0; j < 25; j += 5) s[j + i] ^= t; }
    t = s[1]; for (int i = 0; i < 24; i++) { int j = piln[i]; bc[0] = s[j]; s[j] = (t << rotc[i]) | (t >> (64 - rotc[i])); t = bc[0]; }
    for (int j = 0; j < 25; j += 5) { for (int i = 0; i < 5; i++) bc[i] = s[j + i]; for (int i = 0; i < 5; i++) s[j + i] ^= (~bc[(i + 1) % 5]) & bc[(i + 2) % 5]; }
    s[0] ^= RC[r];
  }
}
static std::string keccak256(const std::string &in) {
  uint64_t s[25] = {0}; std::string p = in; p.push_back(1); while (p.size() % 136) p.push_back(0); p[p.size() - 1] |= (char)0x80;
  for (size_t o = 0; o < p.size(); o += 136) { for (int i = 0; i < 17; i++) { uint64_t w; memcpy(&w, p.data() + o + 8 * i, 8); s[i] ^= w; } keccak_f(s); }
  return std::string((char *)s, 32);
}
// Ideal hash: equal inputs <=> equal digests.  Concrete inputs get their true digest; symbolic ones a fresh constant.
struct HashEnt { std::vector<EP> in; std::string out; bool sym; };
static std::vector<HashEnt> htable; static uint64_t hfresh = 0;
static void hash_call(uint64_t out, uint64_t data, uint64_t n) {
  std::vector<EP> in(n); bool sym = false; for (uint64_t i = 0; i < n; i++) { in[i] = mem_byte(data + i); if (!isC(in[i])) sym = true; }
  std::string d; bool got = false;
  for (auto &h : htable) {
    if (h.in.size() != n || (!h.sym && !sym)) continue;
    EP eq = mkC(1, 1); for (uint64_t i = 0; i < n && !isC(eq, 0); i++) eq = mkBin(E_AND, eq, mkEq(in[i], h.in[i]));
    if (branch(eq)) { d = h.out; got = true; break; }
  }
  if (!got) {
    if (!sym) { std::string s; for (auto e : in) s += (char)(uint8_t)e->val; d = keccak256(s); }
    else { d = keccak256("symx fresh digest " + std::to_string(hfresh++)); }
    htable.push_back({in, d, sym});
  }
  for (int i = 0; i < 32; i++) mem_store(out + i, {(uint8_t)d[i], nullptr}, 8);
}
static EP cmp_bytes(uint64_t a, uint64_t b, uint64_t n, bool order) {
  EP r = mkC(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    EP x = mem_byte(a + i), y = mem_byte(b + i); EP eq = mkEq(x, y);
    if (isC(eq, 1)) continue;
    EP ne = order ? mkIte(mkUlt(x, y), mkC(0xffffffff, 32), mkC(1, 32)) : mkC(1, 32);
    r = isC(eq, 0) ? ne : mkIte(eq, r, ne);
  }
  return r;
}
static bool has_sym(uint64_t a, uint64_t n) { if (!n) return false; Obj &o = access(a, n, "read"); if (!o.sym) return false; for (uint64_t i = 0; i < n; i++) if (o.sym[a - o.base + i]) return true; return false; }
static void h_memcmp(HCtx &h) {
  uint64_t a = AC(h, 0), b = AC(h, 1), n = AC(h, 2);
  if (!has_sym(a, n) && !has_sym(b, n)) { int r = n ? memcmp(H(a), H(b), n) : 0; h.ret[0] = {(uint32_t)(r < 0 ? -1 : r > 0), nullptr}; return; }
  h.ret[0] = mkV(cmp_bytes(a, b, n, true));
}
static std::string ahstr(HCtx &h, int i) { return mem_str(AC(h, i), AC(h, i + 1)); }
static EP tobool(const V &v) { EP e = toE(v, 1); return e->w == 1 ? e : mkNot(mkEq(e, mkC(0, e->w))); }
static std::map<std::string, int> name_count;
static std::string uniq(const std::string &n) { int k = name_count[n]++; return k ? n + "#" + std::to_string(k) : n; }
static void h_sym_bytes(HCtx &h) {
  uint64_t p = AC(h, 0), n = AC(h, 1); std::string nm = uniq(ahstr(h, 2));
  for (uint64_t i = 0; i < n; i++) mem_store(p + i, {0, mkVar(nm, 8)}, 8);
}
static void h_sym_u64(HCtx &h) { uint64_t bits = AC(h, 0); std::string nm = uniq(ahstr(h, 1)); EP v = mkVar(nm, (unsigned)bits); h.ret[0] = mkV(mkZext(v, 64)); }
static void h_sym_assume(HCtx &h) {
  EP c = tobool(h.a[0]); if (isC(c, 1)) return;
  if (isC(c, 0) || !may(c)) { S->assumed_out++; finish(); }
  assume(c);
}
static void h_sym_check(HCtx &h) {
  EP c = tobool(h.a[0]); std::string nm = ahstr(h, 1);
  if (isC(c, 1)) { S->checks_conc++; bump(S->chk, S->nchk, nm, false); return; }
  if (isC(c, 0)) { if (is_known(nm)) { known_hit(nm, some_model()); finish(); } violation("check", nm, some_model()); }
  auto m = std::make_shared<Model>(); bool bad = false;
  for (auto &x : models) if (!eval(c, *x)) { *m = *x; bad = true; break; }
  if (!bad) { int r = query(mkNot(c), m.get()); if (r < 0) path_error("solver gave no answer on check " + nm); bad = r == 1; }
  if (bad) { if (!is_known(nm)) violation("check", nm, *m); known_hit(nm, *m); if (!may(c)) finish(); assume(c); return; }
  S->checks_sym++; bump(S->chk, S->nchk, nm, true);
}
static void h_sym_cover(HCtx &h) { std::string n = ahstr(h, 0); pcov.push_back(n); bump(S->cov, S->ncov, n, false); }
static void h_sym_param(HCtx &h) { auto it = opt.params.find(ahstr(h, 0)); h.ret[0] = {it == opt.params.end() ? AC(h, 2) : it->second, nullptr}; }
static void h_sym_known(HCtx &h) { std::string nm = ahstr(h, 0); uint64_t n = ++S->knowns; if (n <= 200) { emit("{\"kind\":\"known\",\"id\":\"" + jesc(nm) + "\",\"panic\":\"" + jesc(last_panic) + "\",\"model\":" + model_json(some_model()) + "}"); } bump(S->cov, S->ncov, "known:" + nm, false); }
static void h_sym_conc(HCtx &h) { h.ret[0] = {concretize(h.a[0], 64), nullptr}; }
// a fresh number below n, forked on at once: every value is feasible
static void h_sym_pick(HCtx &h) {
  uint64_t n = AC(h, 0); std::string nm = uniq(ahstr(h, 1)); unsigned w = n <= 256 ? 8 : 16; EP v = mkVar(nm, w); int ix = v->sup; uint64_t i = 0;
  while (i + 1 < n && !do_fork()) i++;
  EP q = mkEq(v, mkC(i, w));
  for (auto &m : models) { auto c = std::make_shared<Model>(*m); if (c->v.size() <= (size_t)ix) c->v.resize(vars.size(), 0); c->v[ix] = i; m = c; }
  if (stale) { auto c = std::make_shared<Model>(*stale); if (c->v.size() <= (size_t)ix) c->v.resize(vars.size(), 0); c->v[ix] = i; stale = c; }
  pcs.push_back(q); facts[q] = true; facts[mkNot(q)] = false; if (w == 8) { Dom &d = dom(ix); d.s.reset(); d.s.set(i); }
  h.ret[0] = {i, nullptr};
}
static void h_sym_note(HCtx &h) { std::string n = ahstr(h, 0); V v = h.a[2]; notes.push_back(n + "=" + (v.e ? std::string("<sym>") : std::to_string(v.c))); }
static void h_sym_print(HCtx &h) { fprintf(stderr, "[guest] %s\n", ahstr(h, 0).c_str()); }
static void h_sym_end(HCtx &h) { path_done(); }
static void h_is_sym(HCtx &h) { h.ret[0] = {h.a[0].e != nullptr, nullptr}; }
// three-operand boolean connectives without branching: 0 and, 1 or
static void h_bools(HCtx &h) { EP a = tobool(h.a[1]), b = tobool(h.a[2]); uint64_t k = AC(h, 0); h.ret[0] = mkV(mkBin(k ? E_OR : E_AND, a, b)); }
static uint64_t rseed = 11;
static void h_rand_seed(HCtx &h) { rseed = AC(h, 0); }
static void h_issym(HCtx &h) { h.ret[0] = {1, nullptr}; }
static void h_keccak(HCtx &h) { hash_call(AC(h, 0), AC(h, 1), AC(h, 2)); }
static void h_log_panic(HCtx &h) {
  h.replaced = false; S->panics++;
  if (h.a.size() >= 4 && !h.a[3].e) { uint64_t p = h.a[3].c; uint64_t fp = mem_load(p, 64).c, fl = mem_load(p + 8, 64).c; uint32_t ln = (uint32_t)mem_load(p + 16, 32).c; last_panic = mem_str(fp, fl) + ":" + std::to_string(ln); if (opt.verbose) fprintf(stderr, "panic at %s\n", last_panic.c_str()); }
}
static void h_nop0(HCtx &h) { h.ret[0] = {0, nullptr}; }
static uint64_t scratch(const char *what, uint64_t n) { static std::map<std::string, uint64_t> m; auto it = m.find(what); if (it != m.end()) return it->second; return m[what] = mem_alloc(n, 16, 2, true); }
static void h_errno(HCtx &h) { h.ret[0] = {scratch("errno", 8), nullptr}; }
static void h_malloc(HCtx &h) { h.ret[0] = {mem_alloc(AC(h, 0), 16, 1, false), nullptr}; }
static void h_calloc(HCtx &h) { h.ret[0] = {mem_alloc(AC(h, 0) * AC(h, 1), 16, 1, true), nullptr}; }
static void h_free(HCtx &h) { uint64_t p = AC(h, 0); if (p) mem_free(p); }
static void h_realloc(HCtx &h) {
  uint64_t p = AC(h, 0), n = AC(h, 1); uint64_t q = mem_alloc(n, 16, 1, false);
  if (p) { uint64_t os = objs[findobj(p)].size; mem_copy(q, p, std::min(os, n)); mem_free(p); } h.ret[0] = {q, nullptr};
}
static void h_memalign(HCtx &h) { uint64_t a = mem_alloc(AC(h, 2), AC(h, 1), 1, false); mem_store(AC(h, 0), {a, nullptr}, 64); h.ret[0] = {0, nullptr}; }
static void h_aligned_alloc(HCtx &h) { h.ret[0] = {mem_alloc(AC(h, 1), AC(h, 0), 1, false), nullptr}; }
static void h_abort(HCtx &h) { violation("abort", "process abort; last panic: " + last_panic, some_model()); }
static void h_raise(HCtx &h) { h.control = true; unwind_to(h.a[0], {1, nullptr}); }
static void h_strlen(HCtx &h) { uint64_t a = AC(h, 0), n = 0; while (concretize(mkV(mem_byte(a + n)), 8)) n++; h.ret[0] = {n, nullptr}; }
static void h_memchr(HCtx &h) {
  uint64_t a = AC(h, 0), n = AC(h, 2); EP c = mkExtract(toE(h.a[1], 32), 0, 8);
  for (uint64_t i = 0; i < n; i++) if (branch(mkEq(mem_byte(a + i), c))) { h.ret[0] = {a + i, nullptr}; return; }
  h.ret[0] = {0, nullptr};
}
static void h_memrchr(HCtx &h) {
  uint64_t a = AC(h, 0), n = AC(h, 2); EP c = mkExtract(toE(h.a[1], 32), 0, 8);
  for (uint64_t i = n; i-- > 0;) if (branch(mkEq(mem_byte(a + i), c))) { h.ret[0] = {a + i, nullptr}; return; }
  h.ret[0] = {0, nullptr};
}
static void h_memmove(HCtx &h) { uint64_t d = AC(h, 0), s = AC(h, 1), n = AC(h, 2); mem_copy(d, s, n); h.ret[0] = {d, nullptr}; }
// a file system of plain files; directories do not exist, names under a missing one (/nodir/) cannot be opened
static std::map<std::string, std::vector<V>> files; struct Fd { std::string f; uint64_t pos; }; static std::map<uint64_t, Fd> fds;
static std::string mem_cstr(uint64_t a) { std::string r; for (char c; (c = (char)concretize(mkV(mem_byte(a)), 8)); a++) r += c; return r; }
static void set_errno(uint64_t e) { mem_store(scratch("errno", 8), {e, nullptr}, 32); }
static void h_open(HCtx &h) {
  std::string f = mem_cstr(AC(h, 0)); uint64_t fl = AC(h, 1, 32);
  if (f.compare(0, 7, "/nodir/") == 0 || (!files.count(f) && !(fl & 0100))) { set_errno(2); h.ret[0] = {~0ull, nullptr}; return; }
  if (files.count(f) && (fl & 0200)) { set_errno(17); h.ret[0] = {~0ull, nullptr}; return; }
  auto &c = files[f]; if (fl & 01000) c.clear();
  uint64_t fd = 3; while (fds.count(fd)) fd++; fds[fd] = {f, (fl & 02000) ? c.size() : 0}; h.ret[0] = {fd, nullptr};
}
static void h_read(HCtx &h) {
  uint64_t fd = AC(h, 0, 32), p = AC(h, 1), n = AC(h, 2); if (!fds.count(fd)) { set_errno(9); h.ret[0] = {~0ull, nullptr}; return; }
  auto &d = fds[fd]; auto &c = files[d.f]; n = d.pos < c.size() ? std::min<uint64_t>(n, c.size() - d.pos) : 0; for (uint64_t i = 0; i < n; i++) mem_store(p + i, c[d.pos + i], 8); d.pos += n; h.ret[0] = {n, nullptr};
}
static void h_strerror(HCtx &h) { uint64_t p = AC(h, 1), n = AC(h, 2); const char *s = "error"; for (uint64_t i = 0; i < 6 && i < n; i++) mem_store(p + i, {(uint64_t)(unsigned char)s[i], nullptr}, 8); h.ret[0] = {0, nullptr}; }
static void h_close(HCtx &h) { fds.erase(AC(h, 0, 32)); h.ret[0] = {0, nullptr}; }
static void h_unlink(HCtx &h) { if (files.erase(mem_cstr(AC(h, 0)))) { h.ret[0] = {0, nullptr}; return; } set_errno(2); h.ret[0] = {~0ull, nullptr}; }
static void h_rename(HCtx &h) { std::string a = mem_cstr(AC(h, 0)), b = mem_cstr(AC(h, 1)); if (!files.count(a)) { set_errno(2); h.ret[0] = {~0ull, nullptr}; return; } files[b] = files[a]; files.erase(a); h.ret[0] = {0, nullptr}; }
static void h_write(HCtx &h) {
  uint64_t fd = AC(h, 0, 32), p = AC(h, 1), n = AC(h, 2); if (opt.verbose && fd <= 2) fprintf(stderr, "%s", mem_str(p, n).c_str());
  if (fds.count(fd)) { auto &d = fds[fd]; auto &c = files[d.f]; if (c.size() < d.pos + n) c.resize(d.pos + n, V{0, nullptr}); for (uint64_t i = 0; i < n; i++) c[d.pos + i] = mkV(mem_byte(p + i)); d.pos += n; }
  h.ret[0] = {n, nullptr};
}
static std::map<int, std::map<uint64_t, uint64_t>> tls; static uint64_t nkeys = 1;
static void h_key_create(HCtx &h) { mem_store(AC(h, 0), {nkeys++, nullptr}, 32); h.ret[0] = {0, nullptr}; }
static void h_getspecific(HCtx &h) { h.ret[0] = {tls[cur][AC(h, 0, 32)], nullptr}; }
static void h_setspecific(HCtx &h) { tls[cur][AC(h, 0, 32)] = AC(h, 1); h.ret[0] = {0, nullptr}; }
static void h_pthread_self(HCtx &h) { h.ret[0] = {0x7000 + (uint64_t)cur, nullptr}; }
static bool lock_try(HCtx &h, int kind, bool tryonly) {
  uint64_t a = AC(h, 0); if (!tryonly && sched_point()) { h.control = true; return false; }
  Lk &l = locks[a];
  bool busy = (l.writer >= 0 && l.writer != cur) || (kind == 1 && l.readers > 0);
  if (!busy && kind == 2 && l.writer == cur) busy = true;
  if (busy) {
    if (tryonly) { h.ret[0] = {16, nullptr}; return false; }
    lock_kind[cur] = kind; th[cur].wait_lock = a; h.control = true; if (th.size() == 1) violation("deadlock", "self deadlock", some_model()); must_switch(); return false;
  }
  if (kind == 2) l.readers++; else { l.writer = cur; l.depth++; }
  h.ret[0] = {0, nullptr}; return true;
}
static void h_mutex_lock(HCtx &h) { lock_try(h, 0, false); }
static void h_mutex_trylock(HCtx &h) { lock_try(h, 0, true); }
static void h_rdlock(HCtx &h) { lock_try(h, 2, false); }
static void h_wrlock(HCtx &h) { lock_try(h, 1, false); }
static void h_unlock(HCtx &h) { Lk &l = locks[AC(h, 0)]; if (l.writer == cur) { if (--l.depth == 0) l.writer = -1; } else if (l.readers > 0) l.readers--; h.ret[0] = {0, nullptr}; }
static V vbin(uint8_t k, const V &a, const V &b, unsigned w);
static V clk_s = {1577836800, nullptr}; static uint64_t clk_ns = 0;
static void h_clock(HCtx &h) { uint64_t p = AC(h, 1); clk_ns += 1000; if (clk_ns >= 1000000000) { clk_ns = 0; clk_s = vbin(B_ADD, clk_s, {1, nullptr}, 64); } mem_store(p, clk_s, 64); mem_store(p + 8, {clk_ns, nullptr}, 64); h.ret[0] = {0, nullptr}; }
static void h_set_clock(HCtx &h) { clk_s = h.a[0]; clk_ns = 0; }
static void h_getrandom(HCtx &h) { uint64_t p = AC(h, 0), n = AC(h, 1); for (uint64_t i = 0; i < n; i++) mem_store(p + i, {(i * 37 + (rseed >> (8 * (i % 8)))) & 255, nullptr}, 8); h.ret[0] = {n, nullptr}; }
static std::vector<bool> futex_woken;
static void h_syscall(HCtx &h) {
  uint64_t nr = AC(h, 0);
  if (nr == 318) { uint64_t p = AC(h, 1), n = AC(h, 2); for (uint64_t i = 0; i < n; i++) mem_store(p + i, {(i * 37 + (rseed >> (8 * (i % 8)))) & 255, nullptr}, 8); h.ret[0] = {n, nullptr}; return; }
  if (nr == 202) {
    uint64_t a = AC(h, 1), op = AC(h, 2) & 127, val = AC(h, 3);
    if (op == 0) {
      if ((size_t)cur < futex_woken.size() && futex_woken[cur]) { futex_woken[cur] = false; h.ret[0] = {0, nullptr}; return; }
      uint64_t v = concretize(mem_load(a, 32), 32); if (v != (val & 0xffffffff)) { mem_store(scratch("errno", 8), {11, nullptr}, 32); h.ret[0] = {~0ull, nullptr}; return; }
      futex_wait.resize(th.size()); futex_wait[cur] = a; th[cur].parked = true; h.control = true; must_switch(); return;
    }
    if (op == 1) { uint64_t n = 0; futex_wait.resize(th.size()); futex_woken.resize(th.size()); for (size_t i = 0; i < th.size() && n < val; i++) if (th[i].parked && futex_wait[i] == a) { th[i].parked = false; futex_woken[i] = true; n++; } h.ret[0] = {n, nullptr}; return; }
  }
  if (nr == 186) { h.ret[0] = {1000 + (uint64_t)cur, nullptr}; return; }
  path_error("unmodelled syscall " + std::to_string(nr));
}
static void h_sysconf(HCtx &h) { h.ret[0] = {AC(h, 0, 32) == 30 ? 4096ull : 4ull, nullptr}; }
static void h_yield(HCtx &h) { if (sched_point()) { h.control = true; return; } h.ret[0] = {0, nullptr}; }
static void h_spawn(HCtx &h) {
  uint64_t fn = AC(h, 0), arg = AC(h, 1); if (!P.fn_by_addr.count(fn)) path_error("spawn: bad function");
  int me = cur; new_thread(); frx.resize(th.size()); skip_sched.resize(th.size()); int id = (int)th.size() - 1; cur = id; push_frame(P.fn_by_addr[fn], -1, 0); RB[0] = {arg, nullptr}; cur = me; tls_switch(id, me); RB = th[me].regs + th[me].fr.back().base;
  h.ret[0] = {(uint64_t)id, nullptr};
}
static void h_join(HCtx &h) { int id = (int)AC(h, 0); if (!th[id].done) { th[cur].wait_join = id; h.control = true; must_switch(); return; } h.ret[0] = {0, nullptr}; }
static void h_tid(HCtx &h) { h.ret[0] = {(uint64_t)cur, nullptr}; }
static void h_preempts(HCtx &h) { opt.max_preempt = (int)AC(h, 0); }

static const HEnt HT[] = {
  {"sym_bytes", h_sym_bytes}, {"sym_u64", h_sym_u64}, {"sym_assume", h_sym_assume}, {"sym_check", h_sym_check}, {"sym_cover", h_sym_cover}, {"sym_known", h_sym_known}, {"sym_conc", h_sym_conc}, {"sym_pick", h_sym_pick}, {"sym_note", h_sym_note}, {"sym_param", h_sym_param}, {"sym_is_sym", h_is_sym}, {"sym_bools", h_bools}, {"sym_rand_seed", h_rand_seed}, {"sym_print", h_sym_print}, {"sym_end", h_sym_end}, {"sym_is_symbolic", h_issym}, {"sym_set_clock", h_set_clock},
  {"sym_spawn", h_spawn}, {"sym_join", h_join}, {"sym_yield", h_yield}, {"sym_tid", h_tid}, {"sym_preempts", h_preempts},
  {"memcmp", h_memcmp}, {"bcmp", h_memcmp}, {"memchr", h_memchr}, {"memrchr", h_memrchr}, {"strlen", h_strlen}, {"memcpy", h_memmove}, {"memmove", h_memmove},
  {"malloc", h_malloc}, {"calloc", h_calloc}, {"free", h_free}, {"realloc", h_realloc}, {"posix_memalign", h_memalign}, {"aligned_alloc", h_aligned_alloc}, {"abort", h_abort},
  {"_Unwind_RaiseException", h_raise}, {"_Unwind_Backtrace", h_nop0}, {"_Unwind_DeleteException", h_nop0}, {"write", h_write}, {"open64", h_open}, {"open", h_open}, {"read", h_read}, {"close", h_close}, {"unlink", h_unlink}, {"__xpg_strerror_r", h_strerror}, {"rename", h_rename}, {"fcntl", h_nop0}, {"ioctl", h_nop0}, {"fsync", h_nop0}, {"fdatasync", h_nop0}, {"writev", h_nop0}, {"__errno_location", h_errno}, {"getenv", h_nop0},
  {"pthread_mutex_init", h_nop0}, {"pthread_mutex_destroy", h_nop0}, {"pthread_mutex_lock", h_mutex_lock}, {"pthread_mutex_trylock", h_mutex_trylock}, {"pthread_mutex_unlock", h_unlock}, {"pthread_mutexattr_init", h_nop0}, {"pthread_mutexattr_settype", h_nop0}, {"pthread_mutexattr_destroy", h_nop0},
  {"pthread_cond_init", h_nop0}, {"pthread_cond_destroy", h_nop0}, {"pthread_cond_signal", h_nop0}, {"pthread_cond_broadcast", h_nop0}, {"pthread_condattr_init", h_nop0}, {"pthread_condattr_setclock", h_nop0}, {"pthread_condattr_destroy", h_nop0},
  {"pthread_rwlock_rdlock", h_rdlock}, {"pthread_rwlock_wrlock", h_wrlock}, {"pthread_rwlock_unlock", h_unlock}, {"pthread_rwlock_destroy", h_nop0}, {"pthread_key_create", h_key_create}, {"pthread_key_delete", h_nop0}, {"pthread_getspecific", h_getspecific}, {"pthread_setspecific", h_setspecific}, {"pthread_self", h_pthread_self},
  {"clock_gettime", h_clock}, {"getrandom", h_getrandom}, {"syscall", h_syscall}, {"sysconf", h_sysconf}, {"sched_yield", h_yield}, {"pthread_atfork", h_nop0},
  {"__cxa_thread_atexit_impl", h_nop0},
  {"@9panicking20rust_panic_with_hook", h_log_panic}, {"@9panicking12default_hook", h_nop0}, {"@11tiny_keccak6keccak9keccak256", h_keccak},
};
int builtin_handler(const std::string &n) {
  for (size_t i = 0; i < sizeof(HT) / sizeof(*HT); i++) { const char *p = HT[i].name; if (p[0] == '@') { if (n.find(p + 1) != std::string::npos) return (int)i; } else if (n == p) return (int)i; }
  return -1;
}
static void setup_handlers() {}
static void start_entry(int fi) { skip_sched.resize(1); push_frame(fi, -1, 0); }

// ---------------------------------------------------------------- helpers for instructions
static V vbin(uint8_t k, const V &a, const V &b, unsigned w) {
  static const EOp em[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c, r;
    switch (k) {
      case B_ADD: r = x + y; break; case B_SUB: r = x - y; break; case B_MUL: r = x * y; break;
      case B_UDIV: if (!y) path_error("division by zero"); r = x / y; break; case B_UREM: if (!y) path_error("division by zero"); r = x % y; break;
      case B_AND: r = x & y; break; case B_OR: r = x | y; break; case B_XOR: r = x ^ y; break;
      case B_SHL: r = y >= w ? 0 : x << y; break; case B_LSHR: r = y >= w ? 0 : x >> y; break;
      default: r = (uint64_t)foldBin(em[k], x, y, w);
    }
    return {r & m64(w), nullptr};
  }
  return mkV(mkBin(em[k], toE(a, w), toE(b, w)));
}
static V vcmp(uint8_t k, const V &a, const V &b, unsigned w) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; int64_t p = sx(x, w), q = sx(y, w); bool r;
    switch (k) { case C_EQ: r = x == y; break; case C_NE: r = x != y; break; case C_UGT: r = x > y; break; case C_UGE: r = x >= y; break; case C_ULT: r = x < y; break; case C_ULE: r = x <= y; break; case C_SGT: r = p > q; break; case C_SGE: r = p >= q; break; case C_SLT: r = p < q; break; default: r = p <= q; }
    return {r, nullptr};
  }
  EP x = toE(a, w), y = toE(b, w), r;
  switch (k) { case C_EQ: r = mkEq(x, y); break; case C_NE: r = mkNot(mkEq(x, y)); break; case C_UGT: r = mkUlt(y, x); break; case C_UGE: r = mkNot(mkUlt(x, y)); break; case C_ULT: r = mkUlt(x, y); break; case C_ULE: r = mkNot(mkUlt(y, x)); break; case C_SGT: r = mkSlt(y, x); break; case C_SGE: r = mkNot(mkSlt(x, y)); break; case C_SLT: r = mkSlt(x, y); break; default: r = mkNot(mkSlt(y, x)); }
  return mkV(r);
}
static V vcast(const V &a, unsigned w, unsigned w2, bool sext) {
  if (!a.e && w2 <= 64) return {sext ? ((uint64_t)sx(a.c, w) & m64(w2)) : (a.c & m64(w2)), nullptr};
  EP e = toE(a, w); return mkV(w2 < w ? mkExtract(e, 0, w2) : sext ? mkSext(e, w2) : mkZext(e, w2));
}
// a read through a symbolic pointer: if-then-else over the object's cells when it is small, otherwise fork on the address
static uint64_t addr_of(const V &p) { if (!p.e) return p.c; return concretize(p, 64); }
// bounds of an expression from its form; the step is a power of two dividing every difference
static bool range(EP e, uint64_t &lo, uint64_t &hi, uint64_t &step, int depth = 0) {
  if (e->w > 64 || depth > 16) return false;
  if (isC(e)) { lo = hi = (uint64_t)e->val; step = (uint64_t)1 << 32; return true; }
  uint64_t a, b, s, c, d, t;
  switch (e->op) {
    case E_ZEXT: return range(e->a, lo, hi, step, depth + 1);
    case E_CONCAT: { unsigned k = e->b->w; if (!range(e->a, a, b, s, depth + 1) || !range(e->b, c, d, t, depth + 1)) return false; if (k >= 64) return false; lo = (a << k) + c; hi = (b << k) + d; step = std::min(std::min(s << std::min(k, 20u), (uint64_t)1 << 32), t); return true; }
    case E_ADD: { if (!range(e->a, a, b, s, depth + 1) || !range(e->b, c, d, t, depth + 1)) return false;
      // a negative constant: the sum wraps for all values or for none
      u128 m = maskw(e->w), l = (u128)a + c, h = (u128)b + d; if ((l > m) != (h > m)) return false; lo = (uint64_t)(l & m); hi = (uint64_t)(h & m); step = std::min(s, t); return true; }
    case E_AND: { EP k = isC(e->a) ? e->a : isC(e->b) ? e->b : nullptr; if (k && k->val <= 0xffff) { lo = 0; hi = (uint64_t)k->val; step = 1; return true; } } /* fallthrough */
    default: if (e->w > 16) return false; lo = 0; hi = (uint64_t)maskw(e->w); step = 1; return true;
  }
}
static bool table_read(const V &p, unsigned bits, V &out) {
  if (opt.fork_reads) { uint32_t h = findobj((uint64_t)eval(p.e, some_model())); if (h && objs[h].kind == 1) return false; }
  unsigned n = (bits + 7) / 8; uint64_t a0 = (uint64_t)eval(p.e, some_model()); uint32_t id = findobj(a0); if (!id) return false;
  Obj o = objs[id]; if (o.size < n) return false;
  EP off = mkBin(E_SUB, p.e, mkC(o.base, 64));
  // what the offset can be: [lo, hi] in steps of stride
  uint64_t lo = 0, hi = o.size - n, stride = 1; { uint64_t x, y; if (o.size > 512 && range(off, x, y, stride) && x <= y && y <= hi) { lo = x; hi = y; } else if (o.size > 2048 || may(mkUlt(mkC(hi, 64), off))) return false; }
  uint64_t cnt = (hi - lo) / stride + 1; if (cnt > 300) return false;
  EP r = nullptr;
  for (uint64_t k = cnt; k-- > 0;) { V v = mem_load(o.base + lo + k * stride, bits); EP e = toE(v, bits); r = r ? mkIte(mkEq(off, mkC(lo + k * stride, 64)), e, r) : e; }
  out = mkV(r); return true;
}
static EP popcnt(EP x, unsigned w) { EP r = mkC(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(E_ADD, r, mkZext(mkExtract(x, i, 1), w)); return r; }
static double asd(uint64_t v, unsigned w) { if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &v, 8); return d; }
static uint64_t fromd(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t x; memcpy(&x, &d, 8); return x; }

static void intrin(const Inst &in) {
  unsigned w = in.w;
  auto two = [&](int i) { return std::make_pair(in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i], in.sub == I_PSHI ? V{0, nullptr} : in.b >= 0 ? RB[in.b + i] : P.consts[-in.b - 1 + i]); };
  switch (in.sub) {
    case I_MEMCPY: { uint64_t n = concretize(R(in.c), w); uint64_t d = addr_of(R(in.a)), s = addr_of(R(in.b)); mem_copy(d, s, n); return; }
    case I_MEMSET: { uint64_t n = concretize(R(in.c), w); uint64_t d = addr_of(R(in.a)); V v = R(in.b); if (!n) return;
      Obj &o = access(d, n, "write"); if (!v.e) { memset(H(d), (int)v.c, n); if (o.sym) memset(o.sym + (d - o.base), 0, n * sizeof(EP)); } else for (uint64_t i = 0; i < n; i++) mem_store(d + i, v, 8); return; }
    case I_TRAP: violation("abort", "trap; last panic: " + last_panic, some_model());
    case I_PMOVMSKB: {
      bool sym = false; for (int i = 0; i < 16; i++) if (two(i).first.e) sym = true;
      if (!sym) { uint64_t r = 0; for (int i = 0; i < 16; i++) if (two(i).first.c & 0x80) r |= 1u << i; RB[in.dst] = {r, nullptr}; return; }
      EP acc = nullptr; for (int i = 0; i < 16; i++) { EP b = mkExtract(toE(two(i).first, 8), 7, 1); acc = acc ? mkConcat(b, acc) : b; } RB[in.dst] = mkV(mkZext(acc, 32)); return; }
    case I_PSHI: { std::vector<V> r; uint64_t k = concretize(R(in.b), 32); for (int i = 0; i < in.n; i++) r.push_back(k >= w ? V{0, nullptr} : vbin(in.c ? B_SHL : B_LSHR, two(i).first, V{k, nullptr}, w)); for (int i = 0; i < in.n; i++) RB[in.dst + i] = r[i]; return; }
    case I_REDUCE_OR: case I_REDUCE_AND: case I_REDUCE_ADD: { V r = two(0).first; for (int i = 1; i < in.c; i++) r = vbin(in.sub == I_REDUCE_OR ? B_OR : in.sub == I_REDUCE_AND ? B_AND : B_ADD, r, two(i).first, w); RB[in.dst] = r; return; }
    case I_FUNARY: { V a = R(in.a); if (a.e) path_error("symbolic floating point"); double d = asd(a.c, w), r; switch (in.x) { case 0: r = fabs(d); break; case 1: r = floor(d); break; case 2: r = ceil(d); break; case 3: r = trunc(d); break; case 4: r = sqrt(d); break; case 5: r = round(d); break; case 6: r = exp(d); break; case 7: r = log(d); break; case 8: r = pow(d, asd(R(in.b).c, w)); break; case 9: r = exp2(d); break; default: r = log2(d); } RB[in.dst] = {fromd(r, w), nullptr}; return; }
    default: break;
  }
  std::vector<V> res(in.n), ovf(in.n); bool has_ovf = false;
  for (int i = 0; i < in.n; i++) {
    V a = two(i).first, b; if (in.b || in.sub <= I_SSUBS || in.sub >= I_FSHL) b = two(i).second;
    switch (in.sub) {
      case I_UADDO: case I_USUBO: case I_UMULO: case I_SADDO: case I_SSUBO: case I_SMULO: {
        has_ovf = true; int k = (in.sub == I_UADDO || in.sub == I_SADDO) ? B_ADD : (in.sub == I_USUBO || in.sub == I_SSUBO) ? B_SUB : B_MUL; bool sg = in.sub == I_SADDO || in.sub == I_SSUBO || in.sub == I_SMULO;
        res[i] = vbin(k, a, b, w);
        if (!a.e && !b.e) { if (sg) { i128 x = sx(a.c, w), y = sx(b.c, w), r = k == B_ADD ? x + y : k == B_SUB ? x - y : x * y; ovf[i] = {r != (i128)sx((uint64_t)r & m64(w), w), nullptr}; } else { u128 x = a.c, y = b.c, r = k == B_ADD ? x + y : k == B_SUB ? (x - y) : x * y; ovf[i] = {k == B_SUB ? x < y : r > m64(w), nullptr}; } break; }
        if (!sg && k == B_ADD) ovf[i] = mkV(mkUlt(toE(res[i], w), toE(a, w)));
        else if (!sg && k == B_SUB) ovf[i] = mkV(mkUlt(toE(a, w), toE(b, w)));
        else { unsigned ww = k == B_MUL ? 2 * w : w + 1; if (ww > 128) {
            // 128-bit multiply overflow: a != 0 && (a*b)/a != b
            EP x = toE(a, w), y = toE(b, w); if (sg || k != B_MUL) path_error("wide signed overflow"); ovf[i] = mkV(mkBin(E_AND, mkNot(mkEq(x, mkC(0, w))), mkNot(mkEq(mkBin(E_UDIV, toE(res[i], w), x), y)))); break; }
          if (!sg && k == B_MUL && (!a.e || !b.e)) { uint64_t kc = a.e ? b.c : a.c; EP x = a.e ? a.e : b.e; ovf[i] = kc ? mkV(mkUlt(mkC(m64(w) / kc, w), x)) : V{0, nullptr}; break; }
          EP x = sg ? mkSext(toE(a, w), ww) : mkZext(toE(a, w), ww), y = sg ? mkSext(toE(b, w), ww) : mkZext(toE(b, w), ww);
          EP r = mkBin(k == B_ADD ? E_ADD : k == B_SUB ? E_SUB : E_MUL, x, y), back = sg ? mkSext(toE(res[i], w), ww) : mkZext(toE(res[i], w), ww); ovf[i] = mkV(mkNot(mkEq(r, back))); }
        break; }
      case I_UADDS: { V r = vbin(B_ADD, a, b, w); EP o = mkUlt(toE(r, w), toE(a, w)); res[i] = mkV(mkIte(o, mkC(maskw(w), w), toE(r, w))); break; }
      case I_USUBS: { EP o = mkUlt(toE(a, w), toE(b, w)); res[i] = mkV(mkIte(o, mkC(0, w), mkBin(E_SUB, toE(a, w), toE(b, w)))); break; }
      case I_CTPOP: res[i] = a.e ? mkV(popcnt(a.e, w)) : V{(uint64_t)__builtin_popcountll(a.c), nullptr}; break;
      case I_CTLZ: { EP x = toE(a, w); EP r = mkC(w, w); for (unsigned k = 0; k < w; k++) r = mkIte(mkExtract(x, k, 1), mkC(w - 1 - k, w), r); res[i] = mkV(r); break; }
      case I_CTTZ: { EP x = toE(a, w); EP r = mkC(w, w); for (unsigned k = w; k-- > 0;) r = mkIte(mkExtract(x, k, 1), mkC(k, w), r); res[i] = mkV(r); break; }
      case I_BSWAP: { EP x = toE(a, w), acc = nullptr; for (unsigned k = 0; k < w / 8; k++) { EP y = mkExtract(x, w - 8 - 8 * k, 8); acc = acc ? mkConcat(y, acc) : y; } res[i] = mkV(acc); break; }
      case I_BITREV: { EP x = toE(a, w), acc = nullptr; for (unsigned k = 0; k < w; k++) { EP y = mkExtract(x, w - 1 - k, 1); acc = acc ? mkConcat(y, acc) : y; } res[i] = mkV(acc); break; }
      case I_FSHL: case I_FSHR: {
        V s = in.c >= 0 ? RB[in.c + i] : P.consts[-in.c - 1 + i]; if (2 * w > 128) path_error("wide funnel shift");
        EP sh = mkBin(E_UREM, toE(s, w), mkC(w, w)); EP x = mkConcat(toE(a, w), toE(b, w)); EP ss = mkZext(sh, 2 * w);
        res[i] = mkV(in.sub == I_FSHL ? mkExtract(mkBin(E_SHL, x, ss), w, w) : mkExtract(mkBin(E_LSHR, x, ss), 0, w)); break; }
      case I_UMIN: case I_UMAX: case I_SMIN: case I_SMAX: {
        V c = vcmp(in.sub == I_UMIN || in.sub == I_UMAX ? C_ULT : C_SLT, a, b, w); bool mn = in.sub == I_UMIN || in.sub == I_SMIN;
        if (!c.e) res[i] = (c.c != 0) == mn ? a : b; else res[i] = mkV(mkIte(c.e, toE(mn ? a : b, w), toE(mn ? b : a, w))); break; }
      case I_ABS: { EP x = toE(a, w); res[i] = mkV(mkIte(mkSlt(x, mkC(0, w)), mkBin(E_SUB, mkC(0, w), x), x)); break; }
      default: path_error("unmodelled intrinsic");
    }
  }
  for (int i = 0; i < in.n; i++) RB[in.dst + i] = res[i];
  if (has_ovf) for (int i = 0; i < in.n; i++) RB[in.dst + in.n + i] = ovf[i];
}

static void do_call(const Inst &in) {
  CallI &ci = P.calls[in.x]; Thread &t = th[cur];
  if (ci.is_asm) {
    if (ci.asms.find("cpuid") != std::string::npos) { for (int i = 0; i < ci.retn; i++) RB[in.dst + i] = {0, nullptr}; t.fr.back().pc++; return; }
    if (ci.retn == 0 || ci.asms.substr(0, 1) == "|") { for (int i = 0; i < ci.retn; i++) RB[in.dst + i] = {0, nullptr}; if (ci.asms.substr(0, 1) != "|" && ci.asms.find("pause") == std::string::npos) path_error("inline asm: " + ci.asms); t.fr.back().pc++; return; }
    path_error("inline asm: " + ci.asms);
  }
  int fi = ci.fn;
  if (fi < 0) { uint64_t a = addr_of(R(ci.callee)); auto it = P.fn_by_addr.find(a); if (it == P.fn_by_addr.end()) path_error("call through bad pointer"); fi = it->second; }
  Func &F = P.funcs[fi];
  HCtx h;
  int32_t base = t.fr.back().base + P.funcs[t.fr.back().fn].nslots; V *nb = t.regs + base; int k = 0;
  if (F.handler >= 0) {
    for (auto &a : ci.args) for (int i = 0; i < a.n; i++) h.a.push_back(a.op >= 0 ? RB[a.op + i] : P.consts[-a.op - 1 + i]);
    h.ci = &ci; h.ret[0] = h.ret[1] = {0, nullptr};
    HT[F.handler].fn(h);
    if (h.control) return;
    if (h.replaced) {
      for (int i = 0; i < ci.retn && i < 2; i++) RB[in.dst + i] = h.ret[i];
      if (ci.retn == 1 && in.w && in.w <= 64 && !RB[in.dst].e) RB[in.dst].c &= m64(in.w);
      else if (ci.retn == 1 && RB[in.dst].e && RB[in.dst].e->w != in.w) RB[in.dst] = mkV(RB[in.dst].e->w > in.w ? mkExtract(RB[in.dst].e, 0, in.w) : mkZext(RB[in.dst].e, in.w));
      if (ci.normal >= 0) take_edge(ci.normal); else t.fr.back().pc++;
      return;
    }
  }
  if (!F.defined) path_error("call to unmodelled external function " + F.name);
  for (auto &a : ci.args) {
    if (a.byval) { uint64_t src = addr_of(R(a.op)); uint64_t cp = stack_alloc(a.byval, 16); mem_copy(cp, src, a.byval); nb[k++] = {cp, nullptr}; continue; }
    for (int i = 0; i < a.n; i++) nb[k++] = a.op >= 0 ? RB[a.op + i] : P.consts[-a.op - 1 + i];
  }
  push_frame(fi, in.x, in.dst);
}

static void run() {
  for (;;) {
    Thread *t = &th[cur]; Frame *f = &t->fr.back(); const Inst *code = P.funcs[f->fn].code.data(); RB = t->regs + f->base;
    int pc = f->pc;
    for (;;) {
      const Inst &in = code[pc];
      if ((++insts_here & 0xfffff) == 0) { flush_insts(); if (S->stop) finish(); if (insts_here > opt.max_insts) { f->pc = pc; path_error("instruction limit per path reached"); } }
      switch (in.op) {
        case O_BIN: if (in.n == 1) RB[in.dst] = (f->pc = pc, vbin(in.sub, R(in.a), R(in.b), in.w)); else for (int i = 0; i < in.n; i++) RB[in.dst + i] = vbin(in.sub, in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i], in.b >= 0 ? RB[in.b + i] : P.consts[-in.b - 1 + i], in.w); pc++; continue;
        case O_ICMP: if (in.n == 1) RB[in.dst] = vcmp(in.sub, R(in.a), R(in.b), in.w); else for (int i = 0; i < in.n; i++) RB[in.dst + i] = vcmp(in.sub, in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i], in.b >= 0 ? RB[in.b + i] : P.consts[-in.b - 1 + i], in.w); pc++; continue;
        case O_MOV: { if (in.n == 1) RB[in.dst] = R(in.a); else { for (int i = 0; i < in.n; i++) RB[in.dst + i] = in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i]; } pc++; continue; }
        case O_TRUNCI: case O_ZEXT: case O_SEXT: for (int i = 0; i < in.n; i++) RB[in.dst + i] = vcast(in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i], in.w, in.w2, in.op == O_SEXT); pc++; continue;
        case O_GEP: {
          const Gep &g = P.geps[in.x]; V p = R(in.a);
          if (!p.e) { uint64_t a = p.c + (uint64_t)g.base; bool sym = false; for (auto &tm : g.terms) { const V &ix = R(tm.op); if (ix.e) { sym = true; break; } a += (uint64_t)(sx(ix.c, tm.w) * tm.scale); } if (!sym) { RB[in.dst] = {a, nullptr}; pc++; continue; } }
          EP e = mkBin(E_ADD, toE(p, 64), mkC((u128)(uint64_t)g.base, 64));
          for (auto &tm : g.terms) { EP ix = toE(R(tm.op), tm.w); ix = tm.w < 64 ? mkSext(ix, 64) : tm.w > 64 ? mkExtract(ix, 0, 64) : ix; e = mkBin(E_ADD, e, mkBin(E_MUL, ix, mkC((u128)(uint64_t)tm.scale, 64))); }
          RB[in.dst] = mkV(e); pc++; continue; }
        case O_LOAD: {
          f->pc = pc; if (in.sub && th.size() > 1 && sched_point()) goto resched;
          const Layout &L = P.layouts[in.x]; V p = R(in.a); if (in.sub && th.size() > 1 && !p.e) { V v = mem_load(p.c + L.leaves[0].off, L.leaves[0].bits); if (!v.e && spin_point(pc, p.c, v.c)) goto resched; }
          if (p.e) { V out; if (L.leaves.size() == 1 && table_read(p, L.leaves[0].bits, out)) { RB[in.dst] = out; pc++; continue; } p = {addr_of(p), nullptr}; }
          if (in.n == 1) RB[in.dst] = mem_load(p.c + L.leaves[0].off, L.leaves[0].bits); else { int i = 0; for (auto &lf : L.leaves) RB[in.dst + i++] = mem_load(p.c + lf.off, lf.bits); }
          pc++; continue; }
        case O_STORE: {
          f->pc = pc; if (in.sub) spins[cur].clear(); if (in.sub && th.size() > 1 && sched_point()) goto resched;
          const Layout &L = P.layouts[in.x]; uint64_t a = addr_of(R(in.b)); int i = 0; for (auto &lf : L.leaves) { mem_store(a + lf.off, in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i], lf.bits); i++; }
          pc++; continue; }
        case O_ALLOCA: { f->pc = pc; uint64_t n = concretize(R(in.a), in.w); RB[in.dst] = {stack_alloc(n * (uint64_t)in.x, (uint64_t)in.c), nullptr}; pc++; continue; }
        case O_SELECT: {
          const V &c = R(in.a); const V *x = in.b >= 0 ? &RB[in.b] : &P.consts[-in.b - 1], *y = in.c >= 0 ? &RB[in.c] : &P.consts[-in.c - 1];
          if (!c.e) { const V *s = c.c ? x : y; if (in.n == 1) RB[in.dst] = *s; else { std::vector<V> tmp(s, s + in.n); for (int i = 0; i < in.n; i++) RB[in.dst + i] = tmp[i]; } }
          else { const Layout &L = P.layouts[in.x]; std::vector<V> tmp(in.n); for (int i = 0; i < in.n; i++) tmp[i] = mkV(mkIte(c.e, toE(x[i], L.leaves[i].bits), toE(y[i], L.leaves[i].bits))); for (int i = 0; i < in.n; i++) RB[in.dst + i] = tmp[i]; }
          pc++; continue; }
        case O_VSELECT: { const Layout &L = P.layouts[in.x]; std::vector<V> tmp(in.n); for (int i = 0; i < in.n; i++) { V c = in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i], x = in.b >= 0 ? RB[in.b + i] : P.consts[-in.b - 1 + i], y = in.c >= 0 ? RB[in.c + i] : P.consts[-in.c - 1 + i]; tmp[i] = !c.e ? (c.c ? x : y) : mkV(mkIte(c.e, toE(x, L.leaves[i].bits), toE(y, L.leaves[i].bits))); } for (int i = 0; i < in.n; i++) RB[in.dst + i] = tmp[i]; pc++; continue; }
        case O_BR: { take_edge(in.b); pc = f->pc; continue; }
        case O_CONDBR: { const V &c = R(in.a); bool tk; if (!c.e) tk = c.c & 1; else { f->pc = pc; if (opt.trace) fprintf(stderr, "br %s\n", where().c_str()); tk = branch(c.e); } take_edge(tk ? in.b : in.c); pc = f->pc; continue; }
        case O_SWITCH: {
          const SwitchI &sw = P.switches[in.x]; const V v = R(in.a); int e = sw.def; f->pc = pc;
          if (!v.e) { for (auto &c : sw.cases) if (c.first == v.c) { e = c.second; break; } }
          else { for (auto &c : sw.cases) if (branch(mkEq(v.e, mkC(c.first, in.w)))) { e = c.second; break; } }
          take_edge(e); pc = f->pc; continue; }
        case O_CALL: { f->pc = pc; do_call(in); goto resched; }
        case O_RET: { f->pc = pc; do_return(in.n ? (in.a >= 0 ? &RB[in.a] : &P.consts[-in.a - 1]) : nullptr, in.n); goto resched; }
        case O_LANDINGPAD: for (int i = 0; i < in.n && i < 2; i++) RB[in.dst + i] = t->exc[i]; pc++; continue;
        case O_RESUME: { V a = in.a >= 0 ? RB[in.a] : P.consts[-in.a - 1], b = in.a >= 0 ? RB[in.a + 1] : P.consts[-in.a]; pop_frame(); unwind_to(a, b); goto resched; }
        case O_INSERTVAL: { std::vector<V> tmp(in.n); for (int i = 0; i < in.n; i++) tmp[i] = in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i]; for (int i = 0; i < in.x; i++) tmp[in.c + i] = in.b >= 0 ? RB[in.b + i] : P.consts[-in.b - 1 + i]; for (int i = 0; i < in.n; i++) RB[in.dst + i] = tmp[i]; pc++; continue; }
        case O_EXTRACTELT: { f->pc = pc; uint64_t i = concretize(R(in.b), 64); RB[in.dst] = in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i]; pc++; continue; }
        case O_INSERTELT: { f->pc = pc; uint64_t ix = concretize(R(in.c), 64); V v = R(in.b); std::vector<V> tmp(in.n); for (int i = 0; i < in.n; i++) tmp[i] = in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i]; tmp[ix] = v; for (int i = 0; i < in.n; i++) RB[in.dst + i] = tmp[i]; pc++; continue; }
        case O_SHUFFLE: { auto &m = P.shuffles[in.x]; std::vector<V> tmp(m.size()); for (size_t i = 0; i < m.size(); i++) { int k = m[i]; if (k < 0) tmp[i] = {0, nullptr}; else if (k < in.c) tmp[i] = in.a >= 0 ? RB[in.a + k] : P.consts[-in.a - 1 + k]; else tmp[i] = in.b >= 0 ? RB[in.b + k - in.c] : P.consts[-in.b - 1 + k - in.c]; } for (size_t i = 0; i < m.size(); i++) RB[in.dst + i] = tmp[i]; pc++; continue; }
        case O_BITCAST: {
          // lanes -> bytes -> lanes
          std::vector<EP> by; bool bad = in.w % 8 || in.w2 % 8;
          if (bad && in.b > 1 && in.n == 1 && in.w == 1) { EP acc = nullptr; for (int i = 0; i < in.b; i++) { EP b = toE(in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i], 1); acc = acc ? mkConcat(b, acc) : b; } RB[in.dst] = mkV(acc); pc++; continue; }
          if (bad) { f->pc = pc; path_error("bitcast"); }
          for (int i = 0; i < in.b; i++) { EP e = toE(in.a >= 0 ? RB[in.a + i] : P.consts[-in.a - 1 + i], in.w); for (unsigned k = 0; k < in.w; k += 8) by.push_back(mkExtract(e, k, 8)); }
          size_t q = 0; for (int i = 0; i < in.n; i++) { EP acc = nullptr; for (unsigned k = 0; k < in.w2; k += 8) { EP b = by[q++]; acc = acc ? mkConcat(b, acc) : b; } RB[in.dst + i] = mkV(acc); }
          pc++; continue; }
        case O_ATOMICRMW: {
          f->pc = pc; spins[cur].clear(); if (th.size() > 1 && sched_point()) goto resched;
          uint64_t a = addr_of(R(in.a)); V o = mem_load(a, in.w), v = R(in.b), r;
          switch (in.sub) { case R_XCHG: r = v; break; case R_ADD: r = vbin(B_ADD, o, v, in.w); break; case R_SUB: r = vbin(B_SUB, o, v, in.w); break; case R_AND: r = vbin(B_AND, o, v, in.w); break; case R_OR: r = vbin(B_OR, o, v, in.w); break; case R_XOR: r = vbin(B_XOR, o, v, in.w); break; case R_NAND: r = vbin(B_XOR, vbin(B_AND, o, v, in.w), {m64(in.w), nullptr}, in.w); break;
            default: { V c = vcmp(in.sub == R_MAX ? C_SGT : in.sub == R_MIN ? C_SLT : in.sub == R_UMAX ? C_UGT : C_ULT, o, v, in.w); r = !c.e ? (c.c ? o : v) : mkV(mkIte(c.e, toE(o, in.w), toE(v, in.w))); } }
          mem_store(a, r, in.w); RB[in.dst] = o; pc++; continue; }
        case O_CMPXCHG: {
          f->pc = pc; spins[cur].clear(); if (th.size() > 1 && sched_point()) goto resched;
          uint64_t a = addr_of(R(in.a)); V o = mem_load(a, in.w), e = R(in.b), n = R(in.c); V c = vcmp(C_EQ, o, e, in.w); bool ok = c.e ? branch(c.e) : c.c;
          if (ok) mem_store(a, n, in.w); RB[in.dst] = o; RB[in.dst + 1] = {ok, nullptr}; pc++; continue; }
        case O_FBIN: { V a = R(in.a), b = R(in.b); f->pc = pc; if (a.e || b.e) path_error("symbolic floating point"); double x = asd(a.c, in.w), y = asd(b.c, in.w), r = in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : in.sub == 3 ? x / y : fmod(x, y); RB[in.dst] = {fromd(r, in.w), nullptr}; pc++; continue; }
        case O_FNEG: { V a = R(in.a); f->pc = pc; if (a.e) path_error("symbolic floating point"); RB[in.dst] = {fromd(-asd(a.c, in.w), in.w), nullptr}; pc++; continue; }
        case O_FCMP: { V a = R(in.a), b = R(in.b); f->pc = pc; if (a.e || b.e) path_error("symbolic floating point"); double x = asd(a.c, in.w), y = asd(b.c, in.w); bool un = isnan(x) || isnan(y); int p = in.sub; bool r = ((p & 1) && !un && x == y) || ((p & 2) && !un && x > y) || ((p & 4) && !un && x < y) || ((p & 8) && un); RB[in.dst] = {r, nullptr}; pc++; continue; }
        case O_FCAST: { V a = R(in.a); f->pc = pc; if (a.e) path_error("symbolic floating point"); uint64_t r; switch (in.sub) { case 0: r = (uint64_t)asd(a.c, in.w) & m64(in.w2); break; case 1: r = (uint64_t)(int64_t)asd(a.c, in.w) & m64(in.w2); break; case 2: r = fromd((double)a.c, in.w2); break; case 3: r = fromd((double)sx(a.c, in.w), in.w2); break; default: r = fromd(asd(a.c, in.w), in.w2); } RB[in.dst] = {r, nullptr}; pc++; continue; }
        case O_INTRIN: { f->pc = pc; intrin(in); pc++; continue; }
        case O_UNREACHABLE: f->pc = pc; path_error("reached unreachable");
        case O_UNSUPPORTED: f->pc = pc; path_error("unsupported: " + P.strs[in.x]);
        default: f->pc = pc; path_error("bad opcode " + std::to_string(in.op) + " pc " + std::to_string(pc) + "/" + std::to_string(P.funcs[f->fn].code.size()));
      }
    }
  resched:;
  }
}
