// Hash-consed bit-vector expressions with local simplification, evaluation and translation to Z3.
#pragma once
#include "prog.h"
#include <z3.h>
#include <memory>
#include <algorithm>

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u128 sextw(u128 v, unsigned w) { if (w >= 128) return v; u128 m = (u128)1 << (w - 1); v &= maskw(w); return (v ^ m) - m; }

struct Arena {
  static const size_t CH = 8192;
  std::vector<Expr *> ch; size_t used = CH;
  Expr *get() { if (used == CH) { ch.push_back((Expr *)malloc(sizeof(Expr) * CH)); used = 0; } return &ch.back()[used++]; }
};
static Arena arena;
static std::vector<Expr *> htab(1 << 16, nullptr);
static size_t hcount = 0;
static uint32_t next_id = 0;

static EP mkraw(EOp op, unsigned w, EP a, EP b, EP c, u128 val) {
  uint64_t h = op * 0x9E3779B97F4A7C15ull + w * 0xC2B2AE3D27D4EB4Full + (uint64_t)val * 0x165667B19E3779F9ull + (uint64_t)(val >> 64) * 0x27D4EB2F165667C5ull;
  h = (h ^ (a ? a->id + 1 : 0) * 0xff51afd7ed558ccdull); h = (h << 23) | (h >> 41);
  h = (h ^ (b ? b->id + 1 : 0) * 0xc4ceb9fe1a85ec53ull); h = (h << 23) | (h >> 41);
  h = (h ^ (c ? c->id + 1 : 0) * 0x9E3779B97F4A7C15ull); h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
  size_t m = htab.size() - 1, i = h & m;
  while (Expr *e = htab[i]) {
    if (e->hash == h && e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == val) return e;
    i = (i + 1) & m;
  }
  Expr *e = arena.get(); e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = val; e->hash = h; e->id = next_id++;
  int32_t sp = -1;
  if (op == E_VAR) sp = (int32_t)val; else for (EP x : {a, b, c}) if (x && x->sup != -1) sp = sp == -1 ? x->sup : sp == x->sup ? sp : -2;
  e->sup = sp; e->itc = 0;
  if (op == E_ITE) { unsigned lb = b->op == E_CONST ? 1 : b->itc, lc = c->op == E_CONST ? 1 : c->itc; if (lb && lc && lb + lc <= 80) e->itc = lb + lc; }
  htab[i] = e;
  if (++hcount * 2 > htab.size()) {
    std::vector<Expr *> n(htab.size() * 2, nullptr); size_t mm = n.size() - 1;
    for (Expr *x : htab) if (x) { size_t j = x->hash & mm; while (n[j]) j = (j + 1) & mm; n[j] = x; }
    htab.swap(n);
  }
  return e;
}
static inline EP mkC(u128 v, unsigned w) { return mkraw(E_CONST, w, 0, 0, 0, v & maskw(w)); }
EP mk_const_wide(u128 v, unsigned w) { return mkC(v, w); }
static inline bool isC(EP e) { return e->op == E_CONST; }
static inline bool isC(EP e, u128 v) { return e->op == E_CONST && e->val == v; }
static EP mkExtract(EP x, unsigned lo, unsigned w);
static EP mkConcat(EP hi, EP lo);
static EP mkZext(EP x, unsigned w);
static EP mkSext(EP x, unsigned w);
static EP mkIte(EP c, EP a, EP b);
static EP mkBin(EOp op, EP a, EP b);
static EP mkEq(EP a, EP b);
static EP mkUlt(EP a, EP b);
static EP mkSlt(EP a, EP b);
static inline EP mkNot(EP x) { return mkEq(x, mkC(0, 1)); }

static u128 foldBin(EOp op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
    case E_SDIV: { if (!b) return m; i128 x = (i128)sextw(a, w), y = (i128)sextw(b, w); return (u128)(x / y) & m; }
    case E_SREM: { if (!b) return a; i128 x = (i128)sextw(a, w), y = (i128)sextw(b, w); return (u128)(x % y) & m; }
    case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m; case E_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case E_ASHR: { i128 x = (i128)sextw(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : (unsigned)b)) & m; }
    default: return 0;
  }
}
static inline bool iteC(EP e) { return e->itc != 0; }

struct Piece { EP e; unsigned w; };  // e==null: zeros
static void pieces(EP e, std::vector<Piece> &out, int depth = 0) {  // low to high
  if (e->op == E_CONCAT && depth < 64) { pieces(e->b, out, depth + 1); pieces(e->a, out, depth + 1); return; }
  if (e->op == E_ZEXT) { pieces(e->a, out, depth + 1); out.push_back({nullptr, (unsigned)(e->w - e->a->w)}); return; }
  if (isC(e) && e->val == 0) { out.push_back({nullptr, e->w}); return; }
  out.push_back({e, e->w});
}
static EP tryDisjointOr(EP a, EP b) {
  if (!(a->op == E_CONCAT || a->op == E_ZEXT || isC(a)) || !(b->op == E_CONCAT || b->op == E_ZEXT || isC(b))) return nullptr;
  std::vector<Piece> pa, pb; pieces(a, pa); pieces(b, pb);
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0; EP acc = nullptr; unsigned w = a->w, pos = 0;
  while (pos < w) {
    unsigned n = std::min(pa[i].w - oi, pb[j].w - oj);
    EP x = pa[i].e, y = pb[j].e, r;
    if (x && y) {
      EP xe = mkExtract(x, oi, n), ye = mkExtract(y, oj, n);
      if (isC(xe) && isC(ye)) r = mkC(xe->val | ye->val, n);
      else if (isC(xe, 0)) r = ye; else if (isC(ye, 0)) r = xe;
      else return nullptr;
    } else r = x ? mkExtract(x, oi, n) : y ? mkExtract(y, oj, n) : mkC(0, n);
    acc = acc ? mkConcat(r, acc) : r; pos += n; oi += n; oj += n;
    if (oi == pa[i].w) { i++; oi = 0; }
    if (oj == pb[j].w) { j++; oj = 0; }
  }
  return acc;
}

// a sum whose symbolic bits do not overlap, with the constants gathered, is a concatenation (varint and big-endian decoding)
static bool addTerms(EP e, unsigned w, std::vector<std::pair<unsigned, EP>> &sym, u128 &k, u128 &occ, int &budget) {
  if (--budget < 0) return false;
  if (e->op == E_ADD) return addTerms(e->a, w, sym, k, occ, budget) && addTerms(e->b, w, sym, k, occ, budget);
  std::vector<Piece> ps; pieces(e, ps); unsigned pos = 0; if (ps.size() > 24) return false;
  for (auto &p : ps) {
    if (p.e && isC(p.e)) k += p.e->val << pos;
    else if (p.e) { u128 m = (p.w >= 128 ? ~(u128)0 : (((u128)1 << p.w) - 1)) << pos; if (occ & m) return false; occ |= m; sym.push_back({pos, p.e}); }
    pos += p.w;
  }
  return true;
}
static EP tryAddCat(EP a, EP b) {
  unsigned w = a->w; if (w > 120 || w < 2) return nullptr;
  auto ok = [](EP e) { return isC(e) || e->op == E_CONCAT || e->op == E_ZEXT || e->op == E_ADD; };
  if (!ok(a) || !ok(b) || (isC(b) && a->op == E_ADD && isC(a->b))) return nullptr;
  std::vector<std::pair<unsigned, EP>> sym; u128 k = 0, occ = 0; int budget = 24;
  if (!addTerms(a, w, sym, k, occ, budget) || !addTerms(b, w, sym, k, occ, budget)) return nullptr;
  k &= maskw(w); if (k & occ) return nullptr;
  std::sort(sym.begin(), sym.end(), [](const std::pair<unsigned, EP> &x, const std::pair<unsigned, EP> &y) { return x.first < y.first; });
  EP acc = nullptr; unsigned pos = 0; auto put = [&](EP e) { acc = acc ? mkConcat(e, acc) : e; pos += e->w; };
  for (auto &p : sym) { if (p.first > pos) put(mkC((k >> pos) & maskw(p.first - pos), p.first - pos)); put(p.second); }
  if (pos < w) { u128 rest = (k >> pos) & maskw(w - pos); if (rest == 0 && acc) return mkZext(acc, w); put(mkC(rest, w - pos)); }
  return acc;
}
static EP mkBin(EOp op, EP a, EP b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkC(foldBin(op, a->val, b->val, w), w);
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (isC(b) && iteC(a)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (isC(a) && iteC(b)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  u128 m = maskw(w);
  switch (op) {
    case E_ADD:
      if (isC(b, 0)) return a;
      if (isC(b) && a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkC(a->b->val + b->val, w));
      if (!isC(b) && a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_ADD, a->a, b), a->b);
      if (!isC(b) && b->op == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_ADD, a, b->a), b->b);
      // x + (y - x) = y ; (y - x) + x = y
      if (b->op == E_SUB && b->b == a) return b->a;
      if (a->op == E_SUB && a->b == b) return a->a;
      if (w == 1) return mkBin(E_XOR, a, b);
      if (EP r = tryAddCat(a, b)) return r;
      break;
    case E_SUB:
      if (a == b) return mkC(0, w);
      if (isC(b)) return mkBin(E_ADD, a, mkC((u128)0 - b->val, w));
      if (a->op == E_ADD && a->a == b) return a->b;
      if (a->op == E_ADD && a->b == b) return a->a;
      if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, mkBin(E_SUB, a->a, b), a->b);
      if (b->op == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_SUB, a, b->a), mkC((u128)0 - b->b->val, w));
      if (w == 1) return mkBin(E_XOR, a, b);
      break;
    case E_MUL:
      if (isC(b, 0)) return b; if (isC(b, 1)) return a;
      if (isC(b) && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return mkBin(E_SHL, a, mkC(k, w)); }
      break;
    case E_UDIV: if (isC(b, 1)) return a;
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return mkBin(E_LSHR, a, mkC(k, w)); } break;
    case E_UREM: if (isC(b, 1)) return mkC(0, w);
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mkBin(E_AND, a, mkC(b->val - 1, w)); break;
    case E_AND:
      if (isC(b, 0)) return b; if (isC(b, m)) return a; if (a == b) return a;
      if (isC(b) && w > 1) {
        u128 v = b->val; unsigned lo = 0; while (!((v >> lo) & 1)) lo++;
        u128 t = v >> lo; if ((t & (t + 1)) == 0) { unsigned n = 0; while (t) { n++; t >>= 1; }
          EP x = mkExtract(a, lo, n); if (lo) x = mkConcat(x, mkC(0, lo)); return mkZext(x, w); }
      }
      if (isC(b) && a->op == E_AND && isC(a->b)) return mkBin(E_AND, a->a, mkC(a->b->val & b->val, w));
      if (w == 1) { if (a == mkNot(b)) return mkC(0, 1); }
      break;
    case E_OR:
      if (isC(b, 0)) return a; if (isC(b, m)) return b; if (a == b) return a;
      if (w == 1) { if (a == mkNot(b)) return mkC(1, 1); }
      else if (EP r = tryDisjointOr(a, b)) return r;
      else if (isC(b)) {
        int runs = 0; for (unsigned i = 0; i < w; i++) if (i == 0 || ((b->val >> i) & 1) != ((b->val >> (i - 1)) & 1)) runs++;
        if (runs <= 4) { EP acc = nullptr; unsigned i = 0; while (i < w) { unsigned j = i; bool one = (b->val >> i) & 1; while (j < w && (bool)((b->val >> j) & 1) == one) j++; EP p = one ? mkC(maskw(j - i), j - i) : mkExtract(a, i, j - i); acc = acc ? mkConcat(p, acc) : p; i = j; } return acc; }
      }
      break;
    case E_XOR:
      if (isC(b, 0)) return a; if (a == b) return mkC(0, w);
      if (w == 1 && isC(b, 1)) return mkNot(a);
      if (isC(b) && a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkC(a->b->val ^ b->val, w));
      break;
    case E_SHL: if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkC(0, w); unsigned k = (unsigned)b->val; return mkConcat(mkExtract(a, 0, w - k), mkC(0, k)); } break;
    case E_LSHR: if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkC(0, w); unsigned k = (unsigned)b->val; return mkZext(mkExtract(a, k, w - k), w); } break;
    case E_ASHR: if (isC(b)) { if (b->val == 0) return a; unsigned k = b->val >= w ? w - 1 : (unsigned)b->val; return mkSext(mkExtract(a, k, w - k), w); } break;
    default: break;
  }
  return mkraw(op, w, a, b, 0, 0);
}
static EP mkEq(EP a, EP b) {
  if (a == b) return mkC(1, 1);
  if (isC(a) && isC(b)) return mkC(a->val == b->val, 1);
  if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  unsigned w = a->w;
  if (isC(b)) {
    if (w == 1) { if (b->val == 1) return a; if (a->op == E_EQ && a->a->w == 1 && isC(a->b, 0)) return a->a; }
    if (a->op == E_ZEXT) { if (b->val >> a->a->w) return mkC(0, 1); return mkEq(a->a, mkC(b->val, a->a->w)); }
    if (a->op == E_SEXT) { u128 lo = b->val & maskw(a->a->w); if ((sextw(lo, a->a->w) & maskw(w)) != b->val) return mkC(0, 1); return mkEq(a->a, mkC(lo, a->a->w)); }
    if (a->op == E_CONCAT) { unsigned lw = a->b->w; EP l = mkEq(a->b, mkC(b->val, lw)); if (isC(l, 0)) return l; EP h = mkEq(a->a, mkC(b->val >> lw, a->a->w)); return mkBin(E_AND, h, l); }
    if (a->op == E_ITE && (isC(a->b) || isC(a->c) || iteC(a->c))) { EP x = mkEq(a->b, b), y = mkEq(a->c, b); return mkIte(a->a, x, y); }
    if (a->op == E_ADD && isC(a->b)) return mkEq(a->a, mkC(b->val - a->b->val, w));
    if (a->op == E_XOR && isC(a->b)) return mkEq(a->a, mkC(b->val ^ a->b->val, w));
  } else {
    if (a->op == E_ZEXT && b->op == E_ZEXT) {
      if (a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->a->w < b->a->w) return mkEq(mkZext(a->a, b->a->w), b->a); else return mkEq(a->a, mkZext(b->a, a->a->w));
    }
    if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) { EP l = mkEq(a->b, b->b); if (isC(l, 0)) return l; return mkBin(E_AND, mkEq(a->a, b->a), l); }
    if (a->op == E_ADD && b->op == E_ADD && a->b == b->b) return mkEq(a->a, b->a);
    if (a->op == E_ADD && b->op == E_ADD && a->a == b->a) return mkEq(a->b, b->b);
    if (a->op == E_CONCAT && b->op == E_ZEXT) std::swap(a, b);
    if (a->op == E_ZEXT && b->op == E_CONCAT) { unsigned lw = b->b->w; return mkBin(E_AND, mkEq(mkExtract(a, lw, w - lw), b->a), mkEq(mkExtract(a, 0, lw), b->b)); }
  }
  return mkraw(E_EQ, 1, a, b, 0, 0);
}
static EP mkUlt(EP a, EP b) {
  if (a == b) return mkC(0, 1);
  if (isC(a) && isC(b)) return mkC(a->val < b->val, 1);
  unsigned w = a->w;
  if (isC(b)) {
    if (b->val == 0) return b->w == 1 ? b : mkC(0, 1);
    if (b->val == 1) return mkEq(a, mkC(0, w));
    if (a->op == E_ZEXT) { if (b->val > maskw(a->a->w)) return mkC(1, 1); return mkUlt(a->a, mkC(b->val, a->a->w)); }
    if (iteC(a)) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (b->val == maskw(w)) return mkNot(mkEq(a, b));
    if (a->op == E_CONCAT && !(b->val & maskw(a->b->w))) return mkUlt(a->a, mkC(b->val >> a->b->w, a->a->w));
    if (a->op == E_CONCAT && isC(a->a)) { u128 h = b->val >> a->b->w; if (a->a->val != h) return mkC(a->a->val < h, 1); return mkUlt(a->b, mkC(b->val & maskw(a->b->w), a->b->w)); }
  }
  if (isC(a)) {
    if (a->val == maskw(w)) return mkC(0, 1);
    if (a->val == 0) return mkNot(mkEq(b, a));
    if (b->op == E_ZEXT) { if (a->val >= maskw(b->a->w)) return mkC(0, 1); return mkUlt(mkC(a->val, b->a->w), b->a); }
    if (iteC(b)) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    if (a->val == maskw(w) - 1) return mkEq(b, mkC(maskw(w), w));
  }
  if (a->op == E_ZEXT && b->op == E_ZEXT) {
    if (a->a->w == b->a->w) return mkUlt(a->a, b->a);
    if (a->a->w < b->a->w) return mkUlt(mkZext(a->a, b->a->w), b->a); else return mkUlt(a->a, mkZext(b->a, a->a->w));
  }
  return mkraw(E_ULT, 1, a, b, 0, 0);
}
static EP mkSlt(EP a, EP b) {
  if (a == b) return mkC(0, 1);
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkC((i128)sextw(a->val, w) < (i128)sextw(b->val, w), 1);
  if (w > 1 && isC(b, 0)) return mkExtract(a, w - 1, 1);
  if (w > 1 && isC(a, maskw(w))) return mkNot(mkExtract(b, w - 1, 1));
  if (a->op == E_ZEXT && b->op == E_ZEXT) return mkUlt(a, b);
  if (a->op == E_ZEXT && isC(b)) { if ((b->val >> (w - 1)) & 1) return mkC(0, 1); return mkUlt(a, b); }
  if (b->op == E_ZEXT && isC(a)) { if ((a->val >> (w - 1)) & 1) return mkC(1, 1); return mkUlt(a, b); }
  if (a->op == E_ITE && isC(b) && (isC(a->c) || iteC(a->c))) return mkIte(a->a, mkSlt(a->b, b), mkSlt(a->c, b));
  if (b->op == E_ITE && isC(a) && (isC(b->c) || iteC(b->c))) return mkIte(b->a, mkSlt(a, b->b), mkSlt(a, b->c));
  return mkraw(E_SLT, 1, a, b, 0, 0);
}
static EP mkExtract(EP x, unsigned lo, unsigned w) {
  if (lo == 0 && w == x->w) return x;
  if (isC(x)) return mkC(x->val >> lo, w);
  switch (x->op) {
    case E_EXTRACT: return mkExtract(x->a, lo + (unsigned)x->val, w);
    case E_CONCAT: { unsigned lw = x->b->w; if (lo + w <= lw) return mkExtract(x->b, lo, w); if (lo >= lw) return mkExtract(x->a, lo - lw, w);
      return mkConcat(mkExtract(x->a, 0, lo + w - lw), mkExtract(x->b, lo, lw - lo)); }
    case E_ZEXT: { unsigned iw = x->a->w; if (lo + w <= iw) return mkExtract(x->a, lo, w); if (lo >= iw) return mkC(0, w); return mkZext(mkExtract(x->a, lo, iw - lo), w); }
    case E_SEXT: { unsigned iw = x->a->w; if (lo + w <= iw) return mkExtract(x->a, lo, w); if (lo == 0) return mkSext(x->a, w); break; }
    case E_ITE: if (isC(x->b) || isC(x->c)) return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->c, lo, w)); break;
    default: break;
  }
  return mkraw(E_EXTRACT, w, x, 0, 0, lo);
}
static EP mergeAdj(EP hi, EP lo) {  // null when not mergeable
  if (isC(hi) && isC(lo) && hi->w + lo->w <= 128) return mkC((hi->val << lo->w) | lo->val, hi->w + lo->w);
  if (hi->op == E_EXTRACT) {
    if (lo->op == E_EXTRACT && lo->a == hi->a && (unsigned)lo->val + lo->w == (unsigned)hi->val) return mkExtract(hi->a, (unsigned)lo->val, hi->w + lo->w);
    if (hi->a == lo && (unsigned)hi->val == lo->w) return nullptr;
  }
  return nullptr;
}
static EP mkConcat(EP hi, EP lo) {
  unsigned w = hi->w + lo->w;
  if (EP m = mergeAdj(hi, lo)) return m;
  if (hi->op == E_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (lo->op == E_CONCAT) if (EP m = mergeAdj(hi, lo->a)) return mkConcat(m, lo->b);
  if (isC(hi, 0)) return mkZext(lo, w);
  if (hi->op == E_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
  return mkraw(E_CONCAT, w, hi, lo, 0, 0);
}
static EP mkZext(EP x, unsigned w) {
  if (x->w == w) return x;
  if (isC(x)) return mkC(x->val, w);
  if (x->op == E_ZEXT) return mkZext(x->a, w);
  if (iteC(x)) return mkIte(x->a, mkZext(x->b, w), mkZext(x->c, w));
  return mkraw(E_ZEXT, w, x, 0, 0, 0);
}
static EP mkSext(EP x, unsigned w) {
  if (x->w == w) return x;
  if (isC(x)) return mkC(sextw(x->val, x->w), w);
  if (x->op == E_ZEXT) return mkZext(x->a, w);
  if (x->op == E_SEXT) return mkSext(x->a, w);
  if (x->w == 1) return mkIte(x, mkC(~(u128)0, w), mkC(0, w));
  if (iteC(x)) return mkIte(x->a, mkSext(x->b, w), mkSext(x->c, w));
  return mkraw(E_SEXT, w, x, 0, 0, 0);
}
static EP mkIte(EP c, EP a, EP b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->op == E_EQ && c->a->w == 1 && isC(c->b, 0)) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a, 1) && isC(b, 0)) return c;
    if (isC(a, 0) && isC(b, 1)) return mkNot(c);
    if (isC(b, 0)) return mkBin(E_AND, c, a);
    if (isC(a, 1)) return mkBin(E_OR, c, b);
    if (isC(a, 0)) return mkBin(E_AND, mkNot(c), b);
    if (isC(b, 1)) return mkBin(E_OR, mkNot(c), a);
  }
  if (a->op == E_ITE && a->a == c) a = a->b;
  if (b->op == E_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->op == E_ITE && b->b == a) return mkIte(mkBin(E_OR, c, b->a), a, b->c);
  if (b->op == E_ITE && b->c == a) return mkIte(mkBin(E_OR, c, mkNot(b->a)), a, b->b);
  return mkraw(E_ITE, a->w, c, a, b, 0);
}

// ---- variables, evaluation
struct VarInfo { std::string name; unsigned w; };
static std::vector<VarInfo> vars;
static EP mkVar(const std::string &name, unsigned w) { vars.push_back({name, w}); return mkraw(E_VAR, w, 0, 0, 0, vars.size() - 1); }
struct Model { std::vector<u128> v; };
static std::vector<u128> ev_val; static std::vector<uint32_t> ev_ep; static uint32_t ev_epoch = 0;
static u128 ev(EP e, const Model &m) {
  if (e->op == E_CONST) return e->val;
  if (e->op == E_VAR) return e->val < m.v.size() ? m.v[(size_t)e->val] : 0;
  if (e->id < ev_ep.size() && ev_ep[e->id] == ev_epoch) return ev_val[e->id];
  u128 r = 0;
  switch (e->op) {
    case E_EQ: r = ev(e->a, m) == ev(e->b, m); break;
    case E_ULT: r = ev(e->a, m) < ev(e->b, m); break;
    case E_SLT: r = (i128)sextw(ev(e->a, m), e->a->w) < (i128)sextw(ev(e->b, m), e->a->w); break;
    case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
    case E_EXTRACT: r = (ev(e->a, m) >> (unsigned)e->val) & maskw(e->w); break;
    case E_ZEXT: r = ev(e->a, m); break;
    case E_SEXT: r = sextw(ev(e->a, m), e->a->w) & maskw(e->w); break;
    case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
    default: r = foldBin(e->op, ev(e->a, m), ev(e->b, m), e->w);
  }
  if (e->id >= ev_ep.size()) { ev_ep.resize(next_id + 1024, 0); ev_val.resize(next_id + 1024); }
  ev_ep[e->id] = ev_epoch; ev_val[e->id] = r;
  return r;
}
static u128 eval(EP e, const Model &m) { ev_epoch++; return ev(e, m); }

// ---- Z3
static Z3_context Z;
static std::vector<Z3_ast> zcache, zbcache;
static Z3_ast zbool(EP e);
static Z3_ast zbv(EP e) {
  if (e->id < zcache.size() && zcache[e->id]) return zcache[e->id];
  Z3_ast r = 0; Z3_sort s;
  switch (e->op) {
    case E_CONST: {
      s = Z3_mk_bv_sort(Z, e->w);
      if (e->w <= 64) r = Z3_mk_unsigned_int64(Z, (uint64_t)e->val, s);
      else { Z3_ast hi = Z3_mk_unsigned_int64(Z, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(Z, e->w - 64)), lo = Z3_mk_unsigned_int64(Z, (uint64_t)e->val, Z3_mk_bv_sort(Z, 64)); r = Z3_mk_concat(Z, hi, lo); }
      break; }
    case E_VAR: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, (int)e->val), Z3_mk_bv_sort(Z, e->w)); break;
    case E_EQ: case E_ULT: case E_SLT: r = Z3_mk_ite(Z, zbool(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)), Z3_mk_unsigned_int64(Z, 0, Z3_mk_bv_sort(Z, 1))); break;
    case E_ADD: r = Z3_mk_bvadd(Z, zbv(e->a), zbv(e->b)); break;
    case E_SUB: r = Z3_mk_bvsub(Z, zbv(e->a), zbv(e->b)); break;
    case E_MUL: r = Z3_mk_bvmul(Z, zbv(e->a), zbv(e->b)); break;
    case E_UDIV: r = Z3_mk_bvudiv(Z, zbv(e->a), zbv(e->b)); break;
    case E_SDIV: r = Z3_mk_bvsdiv(Z, zbv(e->a), zbv(e->b)); break;
    case E_UREM: r = Z3_mk_bvurem(Z, zbv(e->a), zbv(e->b)); break;
    case E_SREM: r = Z3_mk_bvsrem(Z, zbv(e->a), zbv(e->b)); break;
    case E_AND: r = Z3_mk_bvand(Z, zbv(e->a), zbv(e->b)); break;
    case E_OR: r = Z3_mk_bvor(Z, zbv(e->a), zbv(e->b)); break;
    case E_XOR: r = Z3_mk_bvxor(Z, zbv(e->a), zbv(e->b)); break;
    case E_SHL: r = Z3_mk_bvshl(Z, zbv(e->a), zbv(e->b)); break;
    case E_LSHR: r = Z3_mk_bvlshr(Z, zbv(e->a), zbv(e->b)); break;
    case E_ASHR: r = Z3_mk_bvashr(Z, zbv(e->a), zbv(e->b)); break;
    case E_CONCAT: r = Z3_mk_concat(Z, zbv(e->a), zbv(e->b)); break;
    case E_EXTRACT: r = Z3_mk_extract(Z, (unsigned)e->val + e->w - 1, (unsigned)e->val, zbv(e->a)); break;
    case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, zbv(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, zbv(e->a)); break;
    case E_ITE: r = Z3_mk_ite(Z, zbool(e->a), zbv(e->b), zbv(e->c)); break;
    default: abort();
  }
  if (e->id >= zcache.size()) zcache.resize(next_id + 1024, 0);
  zcache[e->id] = r; return r;
}
static Z3_ast zbool(EP e) {  // width-1 expression as a Bool
  if (e->id < zbcache.size() && zbcache[e->id]) return zbcache[e->id];
  Z3_ast r;
  switch (e->op) {
    case E_CONST: r = e->val ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case E_EQ: if (e->a->w == 1) r = Z3_mk_eq(Z, zbool(e->a), zbool(e->b)); else r = Z3_mk_eq(Z, zbv(e->a), zbv(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(Z, zbv(e->a), zbv(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(Z, zbv(e->a), zbv(e->b)); break;
    case E_AND: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_and(Z, 2, x); break; }
    case E_OR: { Z3_ast x[2] = {zbool(e->a), zbool(e->b)}; r = Z3_mk_or(Z, 2, x); break; }
    case E_XOR: r = Z3_mk_xor(Z, zbool(e->a), zbool(e->b)); break;
    case E_ITE: r = Z3_mk_ite(Z, zbool(e->a), zbool(e->b), zbool(e->c)); break;
    default: r = Z3_mk_eq(Z, zbv(e), Z3_mk_unsigned_int64(Z, 1, Z3_mk_bv_sort(Z, 1)));
  }
  if (e->id >= zbcache.size()) zbcache.resize(next_id + 1024, 0);
  zbcache[e->id] = r; return r;
}
