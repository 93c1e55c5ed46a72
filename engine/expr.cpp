#include "expr.h"
#include <unordered_set>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <fstream>

std::vector<SymInfo> gSyms;
size_t gExprCount = 0;
SolverStats gStats;
unsigned gSolverTimeoutMs = 20000;
std::string gDumpDir; int gDumpMax = 0;

namespace {
struct HashE { size_t operator()(E e) const { return e->h; } };
struct EqE { bool operator()(E a, E b) const {
    return a->k == b->k && a->w == b->w && a->aux == b->aux && a->c == b->c && a->x == b->x && a->y == b->y && a->z == b->z; } };
std::unordered_set<E, HashE, EqE> &table() { static auto *t = new std::unordered_set<E, HashE, EqE>(1 << 16); return *t; }
// arena
Expr *arenaAlloc() {
    static Expr *blk = nullptr; static size_t left = 0;
    if (!left) { left = 8192; blk = (Expr *)malloc(left * sizeof(Expr)); }
    --left; return blk++;
}
E mk(Kind k, unsigned w, u32 aux, u128 c, E x, E y, E z) {
    Expr t; t.k = k; t.w = w; t.aux = aux; t.c = c; t.x = x; t.y = y; t.z = z;
    size_t h = (size_t)k * 0x9E3779B97F4A7C15ull + w * 31 + aux * 131;
    auto mix = [&](size_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
    mix((u64)c); mix((u64)(c >> 64)); mix(x ? x->id : 0); mix(y ? y->id + 7 : 0); mix(z ? z->id + 13 : 0);
    t.h = h;
    auto it = table().find(&t);
    if (it != table().end()) return *it;
    Expr *n = arenaAlloc();
    new (n) Expr(t);
    n->id = ++gExprCount;
    table().insert(n);
    return n;
}
}

E mkConst(u128 v, unsigned w) { return mk(KConst, w, 0, v & maskw(w), 0, 0, 0); }
E mkSym(const std::string &name, unsigned w) {
    gSyms.push_back({name, w});
    return mk(KSym, w, (u32)gSyms.size() - 1, 0, 0, 0, 0);
}

u128 umaxOf(E e) {
    switch (e->k) {
    case KConst: return e->c;
    case KZExt: return umaxOf(e->x);
    case KAnd: return std::min(umaxOf(e->x), umaxOf(e->y));
    case KIte: return std::max(umaxOf(e->y), umaxOf(e->z));
    case KURem: if (e->y->isConst() && e->y->c) return e->y->c - 1; break;
    case KUDiv: if (e->y->isConst() && e->y->c) return umaxOf(e->x) / e->y->c; break;
    case KLShr: if (e->y->isConst()) return e->y->c >= e->w ? 0 : umaxOf(e->x) >> (unsigned)e->y->c; break;
    case KShl: if (e->y->isConst() && e->y->c < e->w && e->w <= 64) { u128 m = umaxOf(e->x) << (unsigned)e->y->c; if (m <= maskw(e->w)) return m; } break;
    case KAdd: { if (e->w <= 64) { u128 m = umaxOf(e->x) + umaxOf(e->y); if (m <= maskw(e->w)) return m; } break; }
    case KMul: { if (e->w <= 64) { u128 a = umaxOf(e->x), b = umaxOf(e->y); if (a < ((u128)1 << 60) && b < ((u128)1 << 60)) { u128 m = a * b; if (m <= maskw(e->w)) return m; } } break; }
    case KConcat: if (e->x->isConst()) return (e->x->c << e->y->w) | umaxOf(e->y); break;
    case KOr: { if (e->w <= 64) { u128 m = umaxOf(e->x) | umaxOf(e->y); unsigned b = 0; while (b < 128 && (m >> b)) ++b; return maskw(b ? b : 1) & (b ? ~(u128)0 : 0); } break; }
    default: break;
    }
    return maskw(e->w);
}
unsigned tzOf(E e) {
    switch (e->k) {
    case KConst: { if (!e->c) return e->w; unsigned n = 0; while (!((e->c >> n) & 1)) ++n; return n; }
    case KZExt: case KSExt: { unsigned t = tzOf(e->x); return t; }
    case KShl: if (e->y->isConst()) return std::min<unsigned>(e->w, tzOf(e->x) + (unsigned)e->y->c); return tzOf(e->x);
    case KMul: return std::min<unsigned>(e->w, tzOf(e->x) + tzOf(e->y));
    case KAdd: case KSub: case KOr: case KXor: return std::min(tzOf(e->x), tzOf(e->y));
    case KAnd: return std::max(tzOf(e->x), tzOf(e->y));
    case KIte: return std::min(tzOf(e->y), tzOf(e->z));
    case KConcat: { unsigned t = tzOf(e->y); return t; }
    default: return 0;
    }
}

u128 foldBin(Kind k, u128 a, u128 b, unsigned w, bool &ok) {
    ok = true;
    u128 m = maskw(w); a &= m; b &= m;
    switch (k) {
    case KAdd: return (a + b) & m;
    case KSub: return (a - b) & m;
    case KMul: return (a * b) & m;
    case KUDiv: if (!b) { return m; } return a / b;
    case KURem: if (!b) { return a; } return a % b;
    case KSDiv: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) { return x < 0 ? 1 : m; } if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case KSRem: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) { return a; } if (y == -1) return 0; return (u128)(x % y) & m; }
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case KLShr: return b >= w ? 0 : a >> (unsigned)b;
    case KAShr: { i128 x = sext128(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; }
    case KEq: return a == b;
    case KUlt: return a < b;
    case KUle: return a <= b;
    case KSlt: return sext128(a, w) < sext128(b, w);
    case KSle: return sext128(a, w) <= sext128(b, w);
    default: ok = false; return 0;
    }
}

E mkNot(E e) { // bitwise not
    if (e->isConst()) return mkConst(~e->c, e->w);
    if (e->k == KNot) return e->x;
    if (e->w == 1) {
        if (e->k == KUlt) return mkBin(KUle, e->y, e->x);
        if (e->k == KUle) return mkBin(KUlt, e->y, e->x);
        if (e->k == KSlt) return mkBin(KSle, e->y, e->x);
        if (e->k == KSle) return mkBin(KSlt, e->y, e->x);
    }
    return mk(KNot, e->w, 0, 0, e, 0, 0);
}
E mkExtract(E e, unsigned off, unsigned w) {
    if (off == 0 && w == e->w) return e;
    switch (e->k) {
    case KConst: return mkConst(e->c >> off, w);
    case KExtract: return mkExtract(e->x, e->aux + off, w);
    case KConcat: {
        unsigned lw = e->y->w;
        if (off + w <= lw) return mkExtract(e->y, off, w);
        if (off >= lw) return mkExtract(e->x, off - lw, w);
        return mkConcat(mkExtract(e->x, 0, off + w - lw), mkExtract(e->y, off, lw - off));
    }
    case KZExt: {
        unsigned iw = e->x->w;
        if (off + w <= iw) return mkExtract(e->x, off, w);
        if (off >= iw) return mkConst(0, w);
        return mkZExt(mkExtract(e->x, off, iw - off), w);
    }
    case KSExt: {
        unsigned iw = e->x->w;
        if (off + w <= iw) return mkExtract(e->x, off, w);
        if (off == 0) return mkSExt(e->x, w);
        break;
    }
    case KIte: if (e->y->isConst() || e->z->isConst()) return mkIte(e->x, mkExtract(e->y, off, w), mkExtract(e->z, off, w)); break;
    case KAnd: case KOr: case KXor:
        if (e->x->isConst() || e->y->isConst()) return mkBin(e->k, mkExtract(e->x, off, w), mkExtract(e->y, off, w));
        break;
    case KAdd: case KSub: case KMul:
        if (off == 0) return mkBin(e->k, mkExtract(e->x, 0, w), mkExtract(e->y, 0, w));
        break;
    case KShl: if (e->y->isConst() && off == 0 && e->y->c < w) return mkBin(KShl, mkExtract(e->x, 0, w), mkConst(e->y->c, w)); break;
    case KLShr: if (e->y->isConst() && e->y->c + off + w <= e->w) return mkExtract(e->x, off + (unsigned)e->y->c, w); break;
    case KNot: return mkNot(mkExtract(e->x, off, w));
    default: break;
    }
    return mk(KExtract, w, off, 0, e, 0, 0);
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (hi->isConst() && lo->isConst() && w <= 128) return mkConst((hi->c << lo->w) | lo->c, w);
    if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
    if (hi->k == KExtract && lo->k == KExtract && hi->x == lo->x && hi->aux == lo->aux + lo->w) return mkExtract(hi->x, lo->aux, w);
    if (lo->k == KConcat && hi->k == KExtract && lo->x->k == KExtract && hi->x == lo->x->x && hi->aux == lo->x->aux + lo->x->w)
        return mkConcat(mkExtract(hi->x, lo->x->aux, hi->w + lo->x->w), lo->y);
    // Extract above a full-width low part:  concat(extract(x, n..), x') where lo == x trunc handled by KExtract case above
    if (hi->k == KExtract && hi->x->k == KZExt && lo == hi->x->x && hi->aux == lo->w) return mkZExt(lo, w);
    // the lower part may have been simplified to something narrower
    if (hi->k == KExtract && hi->aux >= lo->w && (hi->x->k == KAdd || hi->x->k == KSub || hi->x->k == KMul) && mkExtract(hi->x, hi->aux - lo->w, lo->w) == lo) return mkExtract(hi->x, hi->aux - lo->w, w);
    // concat(concat(a,b),c) -> concat(a,concat(b,c))
    if (hi->k == KConcat) return mkConcat(hi->x, mkConcat(hi->y, lo));
    return mk(KConcat, w, 0, 0, hi, lo, 0);
}
E mkZExt(E e, unsigned w) {
    if (w == e->w) return e;
    if (w < e->w) return mkExtract(e, 0, w);
    if (e->isConst()) return mkConst(e->c, w);
    if (e->k == KZExt) return mkZExt(e->x, w);
    if (e->k == KIte && e->y->isConst() && e->z->isConst()) return mkIte(e->x, mkZExt(e->y, w), mkZExt(e->z, w));
    return mk(KZExt, w, 0, 0, e, 0, 0);
}
E mkSExt(E e, unsigned w) {
    if (w == e->w) return e;
    if (w < e->w) return mkExtract(e, 0, w);
    if (e->isConst()) return mkConst((u128)sext128(e->c, e->w), w);
    if (e->k == KSExt) return mkSExt(e->x, w);
    if (e->k == KZExt) return mkZExt(e->x, w);
    if (e->k == KIte && e->y->isConst() && e->z->isConst()) return mkIte(e->x, mkSExt(e->y, w), mkSExt(e->z, w));
    return mk(KSExt, w, 0, 0, e, 0, 0);
}
E mkIte(E c, E a, E b) {
    if (c->isConst()) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
        if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    if (c->k == KNot) return mkIte(c->x, b, a);
    if (a->k == KIte && a->x == c) a = a->y;
    if (b->k == KIte && b->x == c) b = b->z;
    if (a == b) return a;
    return mk(KIte, a->w, 0, 0, c, a, b);
}
static bool iteConsts(E e, int depth = 12) { // ite tree whose leaves are all constants
    if (e->isConst()) return true;
    if (e->k != KIte || depth == 0) return false;
    return iteConsts(e->y, depth - 1) && iteConsts(e->z, depth - 1);
}
static size_t iteSize(E e, size_t lim) { if (e->k != KIte) return 1; if (lim <= 1) return 2; size_t a = iteSize(e->y, lim - 1); if (a >= lim) return a; return a + iteSize(e->z, lim - a); }

// ---- comparisons of sums with constant factors (times and dates): cancel what is common, divide, narrow
struct ById { bool operator()(E a, E b) const { return a->id < b->id; } };
struct Lin { std::map<E, i128, ById> t; i128 c = 0; };
static bool linOf(E e, i128 f, Lin &l, int depth) {
    if (f > ((i128)1 << 62) || f < -((i128)1 << 62) || depth > 40 || l.t.size() > 24) return false;
    if (e->isConst()) { i128 v = sext128(e->c, e->w); if (v > ((i128)1 << 62) || v < -((i128)1 << 62)) return false; if (v != 0 && (f > ((i128)1 << 100) / (v < 0 ? -v : v) || -f > ((i128)1 << 100) / (v < 0 ? -v : v))) return false; l.c += f * v; return true; }
    if (e->k == KAdd) return linOf(e->x, f, l, depth + 1) && linOf(e->y, f, l, depth + 1);
    if (e->k == KSub) return linOf(e->x, f, l, depth + 1) && linOf(e->y, -f, l, depth + 1);
    if (e->k == KMul && e->y->isConst()) { i128 v = sext128(e->y->c, e->w); if (v > ((i128)1 << 40) || v < -((i128)1 << 40)) return false; if (f > ((i128)1 << 40) || f < -((i128)1 << 40)) return false; return linOf(e->x, f * v, l, depth + 1); }
    l.t[e] += f; return true;
}
static bool linFits(const Lin &l) { i128 lo = l.c, hi = l.c; for (auto &p : l.t) { u128 m = umaxOf(p.first); if (m >= ((u128)1 << 62)) return false; i128 v = p.second; if ((v < 0 ? -v : v) > (((i128)1 << 100) / ((i128)m + 1))) return false; if (v > 0) hi += v * (i128)m; else lo += v * (i128)m; } return lo >= 0 && hi < ((i128)1 << 63); }
static bool hasMul(E e, int d = 0) { return e->k == KMul ? e->y->isConst() : e->k == KSub && !e->x->isConst() ? true : (e->k == KAdd || e->k == KSub) && d < 12 && (hasMul(e->x, d + 1) || hasMul(e->y, d + 1)); }
static E linCmp(Kind k, E a, E b) {
    if (a->w != 64 || !(hasMul(a) || hasMul(b))) return nullptr;
    Lin la, lb; if (!linOf(a, 1, la, 0) || !linOf(b, 1, lb, 0) || !linFits(la) || !linFits(lb)) return nullptr;
    for (auto &p : lb.t) la.t[p.first] -= p.second; i128 K = lb.c - la.c, g = 0; // sum cmp K
    for (auto &p : la.t) { i128 v = p.second < 0 ? -p.second : p.second; while (v) { i128 r = g % v; g = v; v = r; } }
    if (g == 0) return mkConst(k == KEq ? K == 0 : k == KUlt || k == KSlt ? 0 < K : 0 <= K, 1);
    auto fl = [](i128 x, i128 y) { i128 q = x / y; return x % y < 0 ? q - 1 : q; };
    if (k == KEq) { if (K % g) return mkFalse(); K /= g; } else if (k == KUlt || k == KSlt) K = -fl(-K, g); else K = fl(K, g);
    i128 lo = 0, hi = 0, hl = 0, hr = 0; for (auto &p : la.t) { i128 v = p.second / g * (i128)umaxOf(p.first); if (v > 0) { hi += v; hl += v; } else { lo += v; hr -= v; } }
    if (k == KEq && (K < lo || K > hi)) return mkFalse();
    if (k == KUlt || k == KSlt) { if (hi < K) return mkTrue(); if (lo >= K) return mkFalse(); } else if (k != KEq) { if (hi <= K) return mkTrue(); if (lo > K) return mkFalse(); }
    if (K > 0) hr += K; else hl -= K; i128 top = hl > hr ? hl : hr; unsigned w = 1; while (((i128)1 << w) <= top) ++w; if (w > 62) return nullptr;
    E l = mkConst(K < 0 ? (u128)-K : 0, w), r = mkConst(K > 0 ? (u128)K : 0, w);
    for (auto &p : la.t) { i128 v = p.second / g; if (!v) continue; E t = p.first->w >= w ? mkExtract(p.first, 0, w) : mkZExt(p.first, w); i128 c = v < 0 ? -v : v; if (c != 1) t = mkBin(KMul, t, mkConst((u128)c, w)); E &s = v < 0 ? r : l; s = mkBin(KAdd, s, t); }
    return mkBin(k == KSlt ? KUlt : k == KSle ? KUle : k, l, r);
}

E mkBin(Kind k, E a, E b) {
    unsigned w = a->w;
    bool cmp = k >= KEq && k <= KSle;
    if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %u vs %u\n", k, a->w, b->w); abort(); }
    if (a->isConst() && b->isConst()) { bool ok; u128 v = foldBin(k, a->c, b->c, w, ok); return mkConst(v, cmp ? 1 : w); }
    if (cmp) if (E r = linCmp(k, a, b)) return r;
    // canonical: constant on the right for commutative
    bool comm = k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq;
    if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    if (comm && a->isConst()) std::swap(a, b);
    switch (k) {
    case KAdd:
        if (b->isConst() && b->c == 0) return a;
        if (b->isConst() && a->k == KAdd && a->y->isConst()) return mkBin(KAdd, a->x, mkConst(a->y->c + b->c, w));
        if (b->isConst() && a->k == KSub && a->x->isConst()) return mkBin(KSub, mkConst(a->x->c + b->c, w), a->y);
        if (!b->isConst() && a->k == KAdd && a->y->isConst()) return mkBin(KAdd, mkBin(KAdd, a->x, b), a->y);
        if (!b->isConst() && b->k == KAdd && b->y->isConst()) return mkBin(KAdd, mkBin(KAdd, a, b->x), b->y);
        if (b->k == KSub && b->y == a) return b->x;
        if (a->k == KSub && a->y == b) return a->x;
        break;
    case KSub:
        if (a == b) return mkConst(0, w);
        if (b->isConst()) return mkBin(KAdd, a, mkConst((u128)0 - b->c, w));
        if (a->k == KAdd && a->x == b) return a->y;
        if (a->k == KAdd && a->y == b) return a->x;
        if (a->k == KAdd && a->y->isConst() && b->k == KAdd && b->y->isConst()) return mkBin(KAdd, mkBin(KSub, a->x, b->x), mkConst(a->y->c - b->y->c, w));
        if (a->k == KAdd && a->y->isConst()) return mkBin(KAdd, mkBin(KSub, a->x, b), a->y);
        if (b->k == KAdd && b->y->isConst()) return mkBin(KAdd, mkBin(KSub, a, b->x), mkConst((u128)0 - b->y->c, w));
        break;
    case KMul:
        if (b->isConst()) { if (b->c == 0) return b; if (b->c == 1) return a;
            if (!(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) ++s; return mkBin(KShl, a, mkConst(s, w)); } }
        break;
    case KUDiv: if (b->isConst() && b->c == 1) return a;
        if (b->isConst() && b->c && !(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) ++s; return mkBin(KLShr, a, mkConst(s, w)); }
        break;
    case KURem: if (b->isConst() && b->c == 1) return mkConst(0, w);
        if (b->isConst() && b->c && !(b->c & (b->c - 1))) return mkBin(KAnd, a, mkConst(b->c - 1, w));
        if (b->isConst() && umaxOf(a) < b->c) return a;
        break;
    case KAnd:
        if (a == b) return a;
        if (b->isConst()) {
            if (b->c == 0) return b;
            if (b->c == maskw(w)) return a;
            if (a->k == KAnd && a->y->isConst()) return mkBin(KAnd, a->x, mkConst(a->y->c & b->c, w));
            if (a->k == KZExt && (b->c & maskw(a->x->w)) == maskw(a->x->w)) return a;
            if (a->k == KZExt) return mkZExt(mkBin(KAnd, a->x, mkConst(b->c, a->x->w)), w);
            // low mask -> zext(extract)
            if (!(b->c & (b->c + 1))) { unsigned n = 0; while ((b->c >> n) & 1) ++n; return mkZExt(mkExtract(a, 0, n), w); }
            if (a->k == KIte && iteConsts(a) && iteSize(a, 16) < 16) return mkIte(a->x, mkBin(KAnd, a->y, b), mkBin(KAnd, a->z, b));
        }
        if (w == 1 && ((a->k == KNot && a->x == b) || (b->k == KNot && b->x == a))) return mkFalse();
        break;
    case KOr:
        if (a == b) return a;
        if (b->isConst()) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; 
            if (a->k == KOr && a->y->isConst()) return mkBin(KOr, a->x, mkConst(a->y->c | b->c, w)); }
        if (w == 1 && ((a->k == KNot && a->x == b) || (b->k == KNot && b->x == a))) return mkTrue();
        // (zext lo) | (x << n) with disjoint bits -> concat
        for (int t = 0; t < 2; ++t) {
            E p = t ? b : a, q = t ? a : b;
            if (q->k == KShl && q->y->isConst() && p->k == KZExt && p->x->w <= q->y->c && q->y->c < w) {
                unsigned s = (unsigned)q->y->c;
                return mkConcat(mkExtract(q->x, 0, w - s), mkZExt(p->x, s));
            }
        }
        break;
    case KXor:
        if (a == b) return mkConst(0, w);
        if (b->isConst()) { if (b->c == 0) return a; if (b->c == maskw(w)) return mkNot(a);
            if (a->k == KXor && a->y->isConst()) return mkBin(KXor, a->x, mkConst(a->y->c ^ b->c, w)); }
        break;
    case KShl:
        if (b->isConst()) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w);
            if (a->k == KShl && a->y->isConst()) { u128 s = a->y->c + b->c; return s >= w ? mkConst(0, w) : mkBin(KShl, a->x, mkConst(s, w)); }
        }
        if (a->isConst() && a->c == 0) return a;
        break;
    case KLShr:
        if (b->isConst()) { if (b->c == 0) return a; if (b->c >= w) return mkConst(0, w);
            return mkZExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w); }
        if (a->isConst() && a->c == 0) return a;
        break;
    case KAShr:
        if (b->isConst() && b->c == 0) return a;
        if (b->isConst() && b->c < w) return mkSExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
        break;
    case KEq:
        if (a == b) return mkTrue();
        if (b->isConst()) {
            if (w == 1) return b->c ? a : mkNot(a);
            if (a->k == KZExt) { if (b->c > maskw(a->x->w)) return mkFalse(); return mkEq(a->x, mkConst(b->c, a->x->w)); }
            if (a->k == KSExt) { u128 t = b->c & maskw(a->x->w); if (((u128)sext128(t, a->x->w) & maskw(w)) != b->c) return mkFalse(); return mkEq(a->x, mkConst(t, a->x->w)); }
            if (a->k == KAdd && a->y->isConst()) return mkEq(a->x, mkConst(b->c - a->y->c, w));
            if (a->k == KSub && a->x->isConst()) return mkEq(a->y, mkConst(a->x->c - b->c, w));
            if (a->k == KXor && a->y->isConst()) return mkEq(a->x, mkConst(a->y->c ^ b->c, w));
            if (a->k == KNot) return mkEq(a->x, mkConst(~b->c, w));
            if (a->k == KConcat) return mkAnd(mkEq(a->x, mkConst(b->c >> a->y->w, a->x->w)), mkEq(a->y, mkConst(b->c, a->y->w)));
            if (a->k == KShl && a->y->isConst()) { unsigned s = (unsigned)a->y->c; if (b->c & maskw(s)) return mkFalse(); return mkEq(mkExtract(a->x, 0, w - s), mkConst(b->c >> s, w - s)); }
            if (a->k == KIte && (a->y->isConst() || a->z->isConst()) ) {
                return mkIte(a->x, mkEq(a->y, b), mkEq(a->z, b));
            }
            if (umaxOf(a) < b->c) return mkFalse();
        } else {
            if (a->k == KZExt && b->k == KZExt && a->x->w == b->x->w) return mkEq(a->x, b->x);
            if (a->k == KSExt && b->k == KSExt && a->x->w == b->x->w) return mkEq(a->x, b->x);
            if (a->k == KAdd && a->y->isConst() && b->k == KAdd && b->y == a->y) return mkEq(a->x, b->x);
            if (a->k == KConcat && b->k == KConcat && a->y->w == b->y->w) return mkAnd(mkEq(a->x, b->x), mkEq(a->y, b->y));
        }
        break;
    case KUlt:
        if (a == b) return mkFalse();
        if (b->isConst()) { if (b->c == 0) return mkFalse(); if (umaxOf(a) < b->c) return mkTrue(); if (b->c == 1) return mkEq(a, mkConst(0, w));
            if (a->k == KZExt) { if (b->c > maskw(a->x->w)) return mkTrue(); return mkBin(KUlt, a->x, mkConst(b->c, a->x->w)); } }
        if (a->isConst()) { if (a->c == maskw(w)) return mkFalse(); if (umaxOf(b) <= a->c) return mkFalse();
            if (b->k == KZExt) return mkBin(KUlt, mkConst(a->c, b->x->w), b->x); 
            if (a->c == 0) return mkNot(mkEq(b, a)); }
        if (a->k == KZExt && b->k == KZExt && a->x->w == b->x->w) return mkBin(KUlt, a->x, b->x);
        break;
    case KUle:
        if (a == b) return mkTrue();
        if (b->isConst()) { if (umaxOf(a) <= b->c) return mkTrue(); if (b->c == 0) return mkEq(a, b);
            if (a->k == KZExt) return mkBin(KUle, a->x, mkConst(b->c, a->x->w)); }
        if (a->isConst()) { if (a->c == 0) return mkTrue(); if (umaxOf(b) < a->c) return mkFalse(); if (a->c == 1) return mkNot(mkEq(b, mkConst(0, w)));
            if (b->k == KZExt) return mkBin(KUle, mkConst(a->c, b->x->w), b->x); }
        if (a->k == KZExt && b->k == KZExt && a->x->w == b->x->w) return mkBin(KUle, a->x, b->x);
        break;
    case KSlt: case KSle:
        if (a == b) return mkConst(k == KSle, 1);
        if (a->k == KZExt && a->x->w < w && b->isConst()) { if (sext128(b->c, w) < 0) return mkFalse(); return mkBin(k == KSlt ? KUlt : KUle, a, b); }
        if (b->k == KZExt && b->x->w < w && a->isConst()) { if (sext128(a->c, w) < 0) return mkTrue(); return mkBin(k == KSlt ? KUlt : KUle, a, b); }
        if (a->k == KZExt && b->k == KZExt && a->x->w < w && b->x->w < w) return mkBin(k == KSlt ? KUlt : KUle, a, b);
        if (a->k == KSExt && b->k == KSExt && a->x->w == b->x->w) return mkBin(k, a->x, b->x);
        if (a->k == KSExt && b->isConst()) { unsigned iw = a->x->w; i128 v = sext128(b->c, w); i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
            if (v > hi) return mkTrue(); if (v < lo) return mkFalse(); return mkBin(k, a->x, mkConst((u128)v, iw)); }
        if (b->k == KSExt && a->isConst()) { unsigned iw = b->x->w; i128 v = sext128(a->c, w); i128 lo = -((i128)1 << (iw - 1)), hi = ((i128)1 << (iw - 1)) - 1;
            if (v > hi) return mkFalse(); if (v < lo) return mkTrue(); return mkBin(k, mkConst((u128)v, iw), b->x); }
        break;
    default: break;
    }
    if (cmp && ((a->k == KIte && b->isConst() && iteConsts(a, 6)) )) return mkIte(a->x, mkBin(k, a->y, b), mkBin(k, a->z, b));
    if (cmp && ((b->k == KIte && a->isConst() && iteConsts(b, 6)) )) return mkIte(b->x, mkBin(k, a, b->y), mkBin(k, a, b->z));
    return mk(k, cmp ? 1 : w, 0, 0, a, b, 0);
}

const std::vector<u32> &symsOf(E e) {
    if (e->syms) return *e->syms;
    static std::vector<u32> none;
    std::vector<u32> r;
    // iterative post-order to avoid deep recursion
    std::vector<E> st{e};
    while (!st.empty()) {
        E t = st.back();
        if (t->syms) { st.pop_back(); continue; }
        if (t->k == KConst) { t->syms = &none; st.pop_back(); continue; }
        if (t->k == KSym) { t->syms = new std::vector<u32>{t->aux}; st.pop_back(); continue; }
        bool ready = true;
        for (E ch : {t->x, t->y, t->z}) if (ch && !ch->syms) { st.push_back(ch); ready = false; }
        if (!ready) continue;
        const std::vector<u32> *acc = &none; 
        std::vector<u32> tmp; bool owned = false;
        for (E ch : {t->x, t->y, t->z}) {
            if (!ch || ch->syms->empty() || ch->syms == acc) continue;
            if (acc->empty() && !owned) { acc = ch->syms; continue; }
            std::vector<u32> out;
            std::set_union(acc->begin(), acc->end(), ch->syms->begin(), ch->syms->end(), std::back_inserter(out));
            if (!owned && out.size() == acc->size()) continue;
            if (!owned && out.size() == ch->syms->size()) { acc = ch->syms; continue; }
            tmp.swap(out); owned = true; acc = &tmp;
        }
        if (owned) t->syms = new std::vector<u32>(tmp); else t->syms = acc;
        st.pop_back();
    }
    return *e->syms;
}

static u64 gModelId = 0;
ModelP emptyModel() { auto m = std::make_shared<Model>(); m->id = ++gModelId; return m; }

u128 evalExpr(E e, const Model &m) {
    if (e->k == KConst) return e->c;
    if (e->evModel == m.id) return e->evVal;
    u128 r = 0;
    switch (e->k) {
    case KSym: r = m.get(e->aux) & maskw(e->w); break;
    case KExtract: r = (evalExpr(e->x, m) >> e->aux) & maskw(e->w); break;
    case KConcat: r = (evalExpr(e->x, m) << e->y->w) | evalExpr(e->y, m); break;
    case KZExt: r = evalExpr(e->x, m); break;
    case KSExt: r = (u128)sext128(evalExpr(e->x, m), e->x->w) & maskw(e->w); break;
    case KNot: r = ~evalExpr(e->x, m) & maskw(e->w); break;
    case KIte: r = evalExpr(e->x, m) ? evalExpr(e->y, m) : evalExpr(e->z, m); break;
    default: { bool ok; r = foldBin(e->k, evalExpr(e->x, m), evalExpr(e->y, m), e->x->w, ok); }
    }
    e->evModel = m.id; e->evVal = r;
    return r;
}

std::string exprStr(E e, int depth) {
    static const char *names[] = {"const", "sym", "extract", "concat", "zext", "sext", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "not", "ite"};
    if (e->k == KConst) { char b[64]; snprintf(b, 64, "0x%llx:%u", (unsigned long long)e->c, e->w); return b; }
    if (e->k == KSym) return gSyms[e->aux].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + names[e->k];
    if (e->k == KExtract) s += "@" + std::to_string(e->aux) + ":" + std::to_string(e->w);
    for (E c : {e->x, e->y, e->z}) if (c) s += " " + exprStr(c, depth - 1);
    return s + ")";
}

// ------------------------------------------------------------------ z3
static Z3_context ctx; static Z3_solver slv;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void initZ3() {
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg); // (not rc: asts live for ever)
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, zerr);
    slv = Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 1000);
    Z3_solver_set_params(ctx, slv, p);
}
static std::vector<Z3_func_decl> gSymDecl;
static Z3_ast asBool(E e); static Z3_ast asBV(E e);
static Z3_ast toZ3(E e) { // width-1 expressions are Bool
    if (e->ast) return e->ast;
    Z3_ast r = nullptr;
    switch (e->k) {
    case KConst:
        if (e->w == 1) r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        else {
            // decimal string for >64
            if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->c, Z3_mk_bv_sort(ctx, e->w));
            else { std::string s; u128 v = e->c; if (!v) s = "0"; while (v) { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } r = Z3_mk_numeral(ctx, s.c_str(), Z3_mk_bv_sort(ctx, e->w)); }
        }
        break;
    case KSym: {
        Z3_sort s = e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w);
        Z3_func_decl d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("s" + std::to_string(e->aux)).c_str()), 0, 0, s);
        if (gSymDecl.size() <= e->aux) gSymDecl.resize(e->aux + 1, nullptr);
        gSymDecl[e->aux] = d;
        r = Z3_mk_app(ctx, d, 0, 0);
        break;
    }
    case KExtract: {
        Z3_ast t = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, asBV(e->x));
        r = e->w == 1 ? Z3_mk_eq(ctx, t, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))) : t;
        break;
    }
    case KConcat: r = Z3_mk_concat(ctx, asBV(e->x), asBV(e->y)); break;
    case KZExt: if (e->x->w == 1) r = Z3_mk_ite(ctx, asBool(e->x), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, e->w)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, e->w)));
        else r = Z3_mk_zero_ext(ctx, e->w - e->x->w, asBV(e->x)); break;
    case KSExt: r = Z3_mk_sign_ext(ctx, e->w - e->x->w, asBV(e->x)); break;
    case KNot: r = e->w == 1 ? Z3_mk_not(ctx, asBool(e->x)) : Z3_mk_bvnot(ctx, toZ3(e->x)); break;
    case KIte: r = Z3_mk_ite(ctx, asBool(e->x), toZ3(e->y), toZ3(e->z)); break;
    default: {
        if (e->x->w == 1 && (e->k == KAnd || e->k == KOr || e->k == KXor || e->k == KEq)) {
            Z3_ast ab[2] = {asBool(e->x), asBool(e->y)};
            r = e->k == KAnd ? Z3_mk_and(ctx, 2, ab) : e->k == KOr ? Z3_mk_or(ctx, 2, ab) : e->k == KXor ? Z3_mk_xor(ctx, ab[0], ab[1]) : Z3_mk_iff(ctx, ab[0], ab[1]);
            break;
        }
        Z3_ast a = asBV(e->x), b = asBV(e->y);
        switch (e->k) {
        case KAdd: r = Z3_mk_bvadd(ctx, a, b); break;
        case KSub: r = Z3_mk_bvsub(ctx, a, b); break;
        case KMul: r = Z3_mk_bvmul(ctx, a, b); break;
        case KUDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
        case KSDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
        case KURem: r = Z3_mk_bvurem(ctx, a, b); break;
        case KSRem: r = Z3_mk_bvsrem(ctx, a, b); break;
        case KAnd: r = Z3_mk_bvand(ctx, a, b); break;
        case KOr: r = Z3_mk_bvor(ctx, a, b); break;
        case KXor: r = Z3_mk_bvxor(ctx, a, b); break;
        case KShl: r = Z3_mk_bvshl(ctx, a, b); break;
        case KLShr: r = Z3_mk_bvlshr(ctx, a, b); break;
        case KAShr: r = Z3_mk_bvashr(ctx, a, b); break;
        case KEq: r = Z3_mk_eq(ctx, a, b); break;
        case KUlt: r = Z3_mk_bvult(ctx, a, b); break;
        case KUle: r = Z3_mk_bvule(ctx, a, b); break;
        case KSlt: r = Z3_mk_bvslt(ctx, a, b); break;
        case KSle: r = Z3_mk_bvsle(ctx, a, b); break;
        default: abort();
        }
        if (e->w == 1 && !(e->k >= KEq && e->k <= KSle)) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
    }
    e->ast = r;
    return r;
}
static Z3_ast asBool(E e) { return toZ3(e); }
static Z3_ast asBV(E e) {
    Z3_ast t = toZ3(e);
    if (e->w == 1) return Z3_mk_ite(ctx, t, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)));
    return t;
}

namespace {
struct VecHash { size_t operator()(const std::vector<u32> &v) const { size_t h = v.size(); for (u32 x : v) h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h; } };
struct CacheEnt { SatRes r; std::vector<std::pair<u32, u128>> m; };
std::unordered_map<std::vector<u32>, CacheEnt, VecHash> gCache;
std::vector<u32> gMark; u32 gEpoch = 0;
}

SatRes solveWith(const std::vector<E> &pc, E c, const ModelP &base, ModelP &out, bool isAssertion) {
    if (c->isConst()) { out = base; return c->c ? SAT : UNSAT; }
    if (evalExpr(c, *base)) { out = base; return SAT; }
    initZ3();
    // slice
    ++gEpoch; if (gMark.size() < gSyms.size()) gMark.resize(gSyms.size() + 64, 0);
    for (u32 s : symsOf(c)) gMark[s] = gEpoch;
    std::vector<E> slice; std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) if (!used[i]) {
            const auto &ss = symsOf(pc[i]); bool hit = false;
            for (u32 s : ss) if (gMark[s] == gEpoch) { hit = true; break; }
            if (hit) { used[i] = 1; slice.push_back(pc[i]); for (u32 s : ss) if (gMark[s] != gEpoch) { gMark[s] = gEpoch; ch = true; } }
        }
    }
    std::vector<u32> key; for (E e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(c->id);
    ++gStats.queries;
    auto it = gCache.find(key);
    CacheEnt *ent;
    if (it != gCache.end()) { ++gStats.cached; ent = &it->second; }
    else {
        auto t0 = std::chrono::steady_clock::now();
        CacheEnt ne; 
        Z3_solver_push(ctx, slv);
        for (E e : slice) Z3_solver_assert(ctx, slv, asBool(e));
        Z3_solver_assert(ctx, slv, asBool(c));
        Z3_lbool r = Z3_solver_check(ctx, slv);
        Z3_model mdl = nullptr;
        Z3_solver s2 = nullptr;
        if (r == Z3_L_UNDEF) { // fall back to the dedicated bit-vector solver
            s2 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s2);
            Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs * 3);
            Z3_solver_set_params(ctx, s2, p);
            for (E e : slice) Z3_solver_assert(ctx, s2, asBool(e));
            Z3_solver_assert(ctx, s2, asBool(c));
            r = Z3_solver_check(ctx, s2);
            if (r == Z3_L_TRUE) mdl = Z3_solver_get_model(ctx, s2);
        } else if (r == Z3_L_TRUE) mdl = Z3_solver_get_model(ctx, slv);
        if (r == Z3_L_TRUE) {
            Z3_model_inc_ref(ctx, mdl);
            ne.r = SAT; ++gStats.sat;
            for (u32 s = 0; s < gSyms.size(); ++s) if (s < gMark.size() && gMark[s] == gEpoch && s < gSymDecl.size() && gSymDecl[s]) {
                Z3_ast a = nullptr; u128 v = 0;
                Z3_ast app = Z3_mk_app(ctx, gSymDecl[s], 0, 0);
                if (Z3_model_eval(ctx, mdl, app, true, &a)) {
                    if (gSyms[s].w == 1) v = Z3_get_bool_value(ctx, a) == Z3_L_TRUE;
                    else if (gSyms[s].w <= 64) { uint64_t t = 0; Z3_get_numeral_uint64(ctx, a, &t); v = t; }
                    else { const char *str = Z3_get_numeral_string(ctx, a); v = 0; for (; *str; ++str) v = v * 10 + (*str - '0'); }
                }
                ne.m.push_back({s, v});
            }
            Z3_model_dec_ref(ctx, mdl);
        } else if (r == Z3_L_FALSE) { ne.r = UNSAT; ++gStats.unsat; }
        else { ne.r = UNKNOWN; ++gStats.unknown; }
        if (gDumpMax > 0 && !gDumpDir.empty() && r != Z3_L_UNDEF && (isAssertion || gStats.queries % 37 == 0)) {
            static int nd = 0;
            if (nd < gDumpMax) {
                char fn[512]; snprintf(fn, sizeof fn, "%s/q%05d.%s.smt2", gDumpDir.c_str(), nd++, r == Z3_L_TRUE ? "sat" : "unsat");
                std::ofstream f(fn); f << "(set-logic QF_BV)\n" << Z3_solver_to_string(ctx, slv) << "\n(check-sat)\n";
            }
        }
        if (s2) Z3_solver_dec_ref(ctx, s2);
        Z3_solver_pop(ctx, slv, 1);
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (getenv("PSE_SLOW") && dt > 1) { static int ns = 0; char fn[256]; snprintf(fn, sizeof fn, "%s/slow%03d.smt2", getenv("PSE_SLOW"), ns++); std::string txt; Z3_solver_push(ctx, slv); for (E e : slice) Z3_solver_assert(ctx, slv, asBool(e)); Z3_solver_assert(ctx, slv, asBool(c)); std::ofstream f(fn); f << "; " << dt << " s, result " << (int)r << "\n" << Z3_solver_to_string(ctx, slv) << "\n(check-sat)\n"; Z3_solver_pop(ctx, slv, 1); }
        gStats.time += dt; if (dt > gStats.maxTime) gStats.maxTime = dt;
        ent = &gCache.emplace(std::move(key), std::move(ne)).first->second;
    }
    if (ent->r == SAT) {
        auto m = std::make_shared<Model>(); m->id = ++gModelId; m->v = base->v;
        for (auto &p : ent->m) { if (m->v.size() <= p.first) m->v.resize(p.first + 1, 0); m->v[p.first] = p.second; }
        if (!evalExpr(c, *m)) { fprintf(stderr, "MODEL MISMATCH (solver model does not satisfy the condition) %s\n", exprStr(c).c_str()); abort(); }
        for (E e : slice) if (!evalExpr(e, *m)) { fprintf(stderr, "MODEL MISMATCH (pc) %s\n", exprStr(e).c_str()); abort(); }
        out = m;
    }
    return ent->r;
}
