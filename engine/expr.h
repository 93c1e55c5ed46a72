// Hash-consed bit-vector expression DAG with a light simplifier, and an SMT (z3) back end.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <map>
#include <memory>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Kind : u8 { KConst, KSym, KExtract, KConcat, KZExt, KSExt, KAdd, KSub, KMul, KUDiv, KSDiv,
    KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr, KEq, KUlt, KUle, KSlt, KSle, KNot, KIte };

struct Expr {
    Kind k; uint16_t w; u32 id; u32 aux; // aux: extract offset / symbol id
    u128 c;
    const Expr *x, *y, *z;
    size_t h;
    mutable Z3_ast ast = nullptr;
    mutable const std::vector<u32> *syms = nullptr;
    mutable u64 evModel = 0; mutable u128 evVal = 0;
    bool isConst() const { return k == KConst; }
};
typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sext128(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (i128)((v ^ s) - s); }

E mkConst(u128 v, unsigned w);
E mkSym(const std::string &name, unsigned w);
E mkExtract(E e, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkBin(Kind k, E a, E b);
E mkNot(E e);
E mkIte(E c, E a, E b);
inline E mkEq(E a, E b) { return mkBin(KEq, a, b); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkAnd(E a, E b) { return mkBin(KAnd, a, b); }
inline E mkOr(E a, E b) { return mkBin(KOr, a, b); }
u128 foldBin(Kind k, u128 a, u128 b, unsigned w, bool &ok);
u128 umaxOf(E e);              // cheap upper bound
unsigned tzOf(E e);            // known trailing zero bits

struct SymInfo { std::string name; unsigned w; };
extern std::vector<SymInfo> gSyms;
extern size_t gExprCount;

struct Model { u64 id; std::vector<u128> v; u128 get(u32 s) const { return s < v.size() ? v[s] : 0; } };
typedef std::shared_ptr<const Model> ModelP;
ModelP emptyModel();
u128 evalExpr(E e, const Model &m);
const std::vector<u32> &symsOf(E e);
std::string exprStr(E e, int depth = 6);

enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries = 0, cached = 0, sat = 0, unsat = 0, unknown = 0; double time = 0, maxTime = 0; };
extern SolverStats gStats;
extern unsigned gSolverTimeoutMs;
extern std::string gDumpDir; extern int gDumpMax;
// Is (conj of pc) && c satisfiable?  base is a model of pc; on SAT returns a model of pc && c.
SatRes solveWith(const std::vector<E> &pc, E c, const ModelP &base, ModelP &out, bool isAssertion = false);
