// pse: a small symbolic executor for LLVM IR (path forking, byte-precise memory, z3 bit-vectors).
#include "exec.h"
#include <cstring>
#include <cstdio>
#include <cmath>
#include <chrono>
#include <fstream>
#include <sstream>
#include <deque>
#include <sys/resource.h>
#include <unistd.h>
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;

static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::vector<State *> work;
static std::map<const Function *, CFunc *> cfuncs;
static std::map<const GlobalValue *, u64> gaddr; static std::map<u64, Function *> faddr;
static std::map<std::string, int> builtinIdx; 
typedef bool (*BFn)(State &, const CI &, std::vector<Val> &, Val &);
static std::vector<BFn> builtins;
static std::vector<u64> gArgs;
static u64 optMaxSteps = 3000000, optMaxPaths = ~0ull; static double optTime = 600; static unsigned optMaxViol = 6; static std::string optRepo = "/repo/";
static unsigned optMaxSwitches = 3; static unsigned optWitness = 6; static u64 optAllocCap = 1 << 22; static unsigned optConcLimit = 4096; static bool optVerbose = false; static bool optUninitBranch = true;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> trace; };
static std::vector<Violation> viols; static std::set<std::string> violKeys;
struct Witness { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::pair<std::string, std::string>> obs; };
static std::vector<Witness> witnesses; 
static std::map<std::string, u64> reach; static u64 nPaths = 0, nInfeasible = 0, nInstr = 0, nForks = 0, nAsserts = 0, nAssertQ = 0, nMemChecks = 0, nUnsupported = 0, nStepLimit = 0, nConcLimit = 0, nUnknown = 0, nErrPaths = 0;
static std::map<std::string, u64> unsupportedMsgs; static std::map<std::string, u64> forkSites;

static unsigned tyW(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}
static std::string hexOf(const std::vector<u8> &v) { std::string s; char b[3]; for (u8 c : v) { snprintf(b, 3, "%02x", c); s += b; } return s; }
static std::string locStr(const Instruction *I) {
    if (!I) return "?";
    const DebugLoc &dl = I->getDebugLoc();
    if (!dl) return std::string("<") + I->getFunction()->getName().str() + ">";
    auto *sc = cast<DIScope>(dl.getScope());
    std::string f = sc->getFilename().str();
    return f + ":" + std::to_string(dl.getLine());
}
static bool locInRepo(const Instruction *I, std::string &out) {
    const DILocation *d = I ? I->getDebugLoc().get() : nullptr;
    for (; d; d = d->getInlinedAt()) {
        std::string f = d->getFilename().str(); if (f.size() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
        if (f.compare(0, optRepo.size(), optRepo) == 0) { 
            std::string fn; if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
            out = f.substr(optRepo.size()) + ":" + fn + ":" + std::to_string(d->getLine()); return true; }
    }
    return false;
}
static std::string whereStr(State &s) {
    for (auto it = s.st().rbegin(); it != s.st().rend(); ++it) { std::string o; if (it->ip < it->cf->code.size() && locInRepo(it->cf->code[it->ip].I, o)) return o; }
    if (s.st().empty()) return "?";
    return locStr(s.top().cf->code[s.top().ip].I);
}
static std::vector<std::string> backtrace(State &s) {
    std::vector<std::string> r;
    for (auto it = s.st().rbegin(); it != s.st().rend() && r.size() < 24; ++it) r.push_back(it->cf->dname.substr(0, 120) + " @ " + locStr(it->cf->code[it->ip].I));
    return r;
}
static std::vector<std::pair<std::string, std::string>> inputsOf(State &s, const Model &m) {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto &in : s.inputs) { std::vector<u8> b; for (E e : in.bytes) b.push_back((u8)evalExpr(e, m)); r.push_back({in.name, hexOf(b)}); }
    return r;
}
static void report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
    std::string w = whereStr(s);
    // dedupe on function rather than exact line so one defect is one report
    std::string key = kind + "|" + msg + "|" + w;
    ++nErrPaths;
    if (!violKeys.insert(key).second) return;
    viols.push_back({kind, msg, w, inputsOf(s, m), backtrace(s)});
    if (optVerbose) { fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), w.c_str()); for (auto &t : viols.back().trace) fprintf(stderr, "     %s\n", t.c_str()); for (auto &i : viols.back().inputs) fprintf(stderr, "     in %s = %s\n", i.first.c_str(), i.second.c_str()); }
}
static bool unsupported(State &s, const std::string &msg) {
    ++nUnsupported; if (unsupportedMsgs[msg]++ == 0 && optVerbose) { fprintf(stderr, "UNSUPPORTED %s\n", msg.c_str()); for (auto &t : backtrace(s)) fprintf(stderr, "     %s\n", t.c_str()); }
    s.dead = true; return false;
}

// ------------------------------------------------------------- constraints
static void addC(State &s, E c) {
    if (c->isConst()) return;
    if (c->k == KAnd && c->w == 1) { addC(s, c->x); addC(s, c->y); return; }
    s.pc.push_back(c);
}
static bool usesUninit(E c) { for (u32 x : symsOf(c)) if (gSyms[x].name[0] == '~') return true; return false; }
// Decide a condition; forks (re-executing the current instruction) when both outcomes are feasible.
static bool decide(State &s, E c) {
    if (c->isConst()) return c->c != 0;
    E n = mkNot(c);
    for (size_t i = s.pc.size(), k = 0; i > 0 && k < 6; --i, ++k) { if (s.pc[i - 1] == c) return true; if (s.pc[i - 1] == n) return false; }
    bool cur = evalExpr(c, *s.model) != 0;
    E other = cur ? n : c; ModelP om;
    SatRes r = solveWith(s.pc, other, s.model, om);
    if (r == UNKNOWN) { ++nUnknown; }
    if (r == SAT) {
        State *f = new State(s); f->model = om; addC(*f, other); ++f->depth; work.push_back(f); ++nForks;
        if (optVerbose) forkSites[whereStr(s) + " | " + s.top().cf->F->getName().str()]++;
    }
    if (r == SAT) addC(s, cur ? c : n);
    return cur;
}
// concretise by forking over every feasible value
static u64 concretize(State &s, const Val &v, unsigned w) {
    if (v.conc()) return v.c;
    u64 x = (u64)evalExpr(v.e, *s.model);
    if (s.concForks > optConcLimit) { ++nConcLimit; s.dead = true; return x; }
    ++s.concForks;
    bool b = decide(s, mkEq(v.e, mkConst(x, v.e->w)));
    (void)b; // model says equal, so decide() returns true for this state
    return x;
}

// ------------------------------------------------------------- memory
static Val readBytes(State &s, Obj *o, u64 off, unsigned n, unsigned w, u64 id) {
    bool conc = true;
    if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) if (o->s[off + i]) { conc = false; break; }
    if (conc && n <= 8) { u64 v = 0; memcpy(&v, &o->d[off], n); if (w < 64) v &= (1ull << w) - 1; return Val(v); }
    E e = nullptr;
    for (unsigned i = 0; i < n; ++i) {
        E b = o->s.empty() ? nullptr : o->s[off + i];
        if (b == UNINIT) {
            o = s.mem.wget(id); // each uninitialised byte gets one arbitrary value
            b = mkSym("~uninit", 8); o->s[off + i] = b;
        }
        if (!b) b = mkConst(o->d[off + i], 8);
        e = e ? mkConcat(b, e) : b;
    }
    if (w < e->w) e = mkExtract(e, 0, w);
    return Val::of(e);
}
static void writeBytes(Obj *o, u64 off, unsigned n, unsigned w, const Val &v) {
    if (v.conc() && n <= 8) { u64 c = v.c; if (w < 64) c &= (1ull << w) - 1; memcpy(&o->d[off], &c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; ++i) o->s[off + i] = nullptr; return; }
    E e = toE(v, w); if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; ++i) {
        E b = mkExtract(e, i * 8, 8);
        if (b->isConst()) { o->d[off + i] = (u8)b->c; if (!o->s.empty()) o->s[off + i] = nullptr; }
        else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off + i] = b; }
    }
}
static u64 newObj(State &s, u64 size, ObjKind k, bool uninit, const char *name = "", u8 alloc = 0) {
    Obj *o = new Obj; o->size = size; o->kind = k; o->d.assign(size, 0); o->name = name; o->alloc = alloc;
    if (uninit && size) o->s.assign(size, UNINIT);
    return s.mem.add(o);
}
static std::string describe(State &s, u64 a, u64 n) {
    u64 id = a >> ADDR_SHIFT; char b[200];
    if (a < (1 << ADDR_SHIFT)) { snprintf(b, 200, "null-pointer access"); return b; }
    Obj *o = s.mem.get(id);
    if (!o) return s.mem.wasFreed(id) ? "use of freed memory" : "wild pointer";
    return std::string("out-of-bounds ") + (o->kind == OK_Heap ? "heap" : o->kind == OK_Stack ? "stack" : "global");
}
// ---- data races.  An access counts when the innermost frame that is not library code belongs to the code under test.
static bool gAtomic = false;
static int siteKind(const Instruction *I) { // 1 code under test, 2 harness or stand-in, 0 library
    static std::map<const Instruction *, int> memo; auto it = memo.find(I); if (it != memo.end()) return it->second; int r = 0;
    DISubprogram *sp = I->getFunction()->getSubprogram(); if (!sp) return memo[I] = 2; // runtime
    if (!I->getDebugLoc()) { std::string f = sp->getFilename().str(); if (f.size() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; return memo[I] = f.compare(0, optRepo.size(), optRepo) == 0 ? 1 : f.compare(0, 5, "/usr/") != 0 ? 2 : 0; }
    for (const DILocation *d = I->getDebugLoc().get(); d && !r; d = d->getInlinedAt()) { std::string f = d->getFilename().str(); if (f.size() && f[0] != '/') f = d->getDirectory().str() + "/" + f; if (f.compare(0, optRepo.size(), optRepo) == 0) r = 1; else if (f.compare(0, 5, "/usr/") != 0) r = 2; }
    return memo[I] = r;
}
static std::string siteStr(const Instruction *I) { std::string o; return I && locInRepo(I, o) ? o : I ? locStr(I) : "?"; }
static const Instruction *raceSite(State &s) { for (auto it = s.st().rbegin(); it != s.st().rend(); ++it) { const Instruction *I = it->cf->code[it->ip].I; int k = siteKind(I); if (k == 1) return I; if (k == 2) return nullptr; } return nullptr; }
static u32 siteNo(const Instruction *I, const Instruction **back = nullptr, u32 n = 0) { static std::map<const Instruction *, u32> m; static std::vector<const Instruction *> v(1, nullptr); if (back) { *back = v[n]; return n; } auto it = m.find(I); if (it != m.end()) return it->second; v.push_back(I); return m[I] = v.size() - 1; }
static void raceAccess(State &s, u64 id, u64 off, u64 n, bool write) {
    Obj *o = s.mem.get(id); if (!o || o->readonly || o->kind == OK_Func || (o->kind == OK_Stack && id >= s.raceBase)) return;
    const Instruction *I = raceSite(s); if (!I) return; u32 t = s.cur; VC &v = s.vc[t]; u32 me = siteNo(I); Shadow *h = s.shadow(id, o->size);
    for (u64 i = off; i < off + n && i < h->v.size(); ++i) { Cell &c = h->v[i]; u32 on = 0; const char *what = nullptr;
        if (c.wt != t && c.wc > v.c[c.wt]) { what = write ? "written by two threads" : "read while another thread writes"; on = c.ws; }
        if (write && !what) for (u32 u = 0; u < MAXT; ++u) if (u != t && c.rc[u] > v.c[u]) { what = "written while another thread reads"; on = c.rs[u]; }
        if (what) { const Instruction *other; siteNo(nullptr, &other, on); std::string x = siteStr(I), y = siteStr(other), fx = x.substr(0, x.rfind(':')), fy = y.substr(0, y.rfind(':')), msg = "data race between " + std::min(fx, fy) + " and " + std::max(fx, fy); u64 a = addrOf(id) + i; for (auto &r : s.raceNames) if (a >= std::get<0>(r) && a < std::get<1>(r)) msg = "data race on " + std::get<2>(r);
            size_t had = viols.size(); report(s, "race", msg, *s.model); if (viols.size() > had) { auto &tr = viols.back().trace; tr.insert(tr.begin(), {x, y, what}); } }
        if (write) { c.wt = t; c.wc = v.c[t]; c.ws = me; } else { c.rc[t] = v.c[t]; c.rs[t] = me; } }
}
// Resolve [ptr, ptr+n) to one object. Returns object id (0 => path ended) and either a concrete offset or a symbolic one.
static u64 resolve(State &s, const Val &ptr, u64 n, bool write, u64 &off, E &soff) {
    ++nMemChecks; soff = nullptr;
    if (ptr.conc()) {
        u64 a = ptr.c, id = a >> ADDR_SHIFT; Obj *o = s.mem.get(id);
        off = a - addrOf(id);
        if (!o || off > o->size || n > o->size - off || o->kind == OK_Func) {
            report(s, "memory", describe(s, a, n) + (write ? " write" : " read"), *s.model); s.dead = true; return 0; }
        if (write && o->readonly) { report(s, "memory", "write to constant", *s.model); s.dead = true; return 0; }
        if (s.races && s.th.size() > 1 && !gAtomic) { raceAccess(s, id, off, n, write); if (s.dead) return 0; }
        return id;
    }
    E A = ptr.e;
    u64 a = (u64)evalExpr(A, *s.model), id = a >> ADDR_SHIFT; Obj *o = s.mem.get(id);
    u64 o0 = a - addrOf(id);
    bool okv = o && o->kind != OK_Func && o0 <= o->size && n <= o->size - o0;
    if (!okv) { // the current model already is a witness of a bad access
        report(s, "memory", describe(s, a, n) + (write ? " write" : " read"), *s.model); s.dead = true; 
        // continue with the valid part of the space: exclude every address of this bad slot
        ModelP om; u64 lo = id << ADDR_SHIFT;
        E inslot = mkEq(mkExtract(A, ADDR_SHIFT, 64 - ADDR_SHIFT), mkConst(id, 64 - ADDR_SHIFT)); (void)lo;
        E alt = mkNot(inslot);
        if (o && o->kind != OK_Func && o->size >= n) alt = mkOr(alt, mkBin(KUle, mkBin(KSub, A, mkConst(addrOf(id), 64)), mkConst(o->size - n, 64)));
        if (viols.size() < optMaxViol && solveWith(s.pc, alt, s.model, om) == SAT) { State *f = new State(s); f->dead = false; f->model = om; addC(*f, alt); work.push_back(f); }
        return 0; }
    E so = mkBin(KSub, A, mkConst(addrOf(id), 64));
    E in = mkBin(KUle, so, mkConst(o->size - n, 64));
    if (!decide(s, in)) { s.dead = true; return 0; } // (model satisfies `in`; the other side is forked and re-resolved there)
    if (write && o->readonly) { report(s, "memory", "write to constant", *s.model); s.dead = true; return 0; }
    soff = so; off = 0;
    return id;
}
static Val loadSym(State &s, u64 id, E so, unsigned n, unsigned w) {
    Obj *o = s.mem.get(id);
    unsigned tz = std::min(tzOf(so), 12u); u64 step = 1ull << tz; u64 maxo = o->size - n; u128 um = umaxOf(so); if (um < maxo) maxo = (u64)um;
    u64 cnt = maxo / step + 1;
    if (cnt > 4096) { u64 off = concretize(s, Val::of(so), 64); if (s.dead) return Val(); return readBytes(s, o, off, n, w, id); }
    bool conc = true; if (!o->s.empty()) for (u64 i = 0; i <= maxo + n - 1; ++i) if (o->s[i]) { conc = false; break; }
    // element values
    std::vector<E> el; for (u64 k = 0; k < cnt; ++k) { o = s.mem.get(id); el.push_back(toE(readBytes(s, o, k * step, n, w, id), w)); }
    E ix = so;
    if (conc && cnt > 2) { // run-length: constant runs and affine runs (value - index constant)
        struct Run { u64 lo, hi; E v; };
        std::vector<Run> runs;
        for (u64 k = 0; k < cnt;) {
            u64 j = k + 1; while (j < cnt && el[j] == el[k]) ++j;
            u64 j2 = k + 1; while (j2 < cnt && ((el[j2]->c - el[k]->c) & maskw(w)) == (u128)(j2 - k)) ++j2;
            if (j2 > j && j2 - k >= 3 && step == 1 && w >= 8) { E base = w <= 64 ? mkExtract(mkZExt(ix, 64), 0, std::min(w, 64u)) : mkZExt(ix, w); if (base->w != w) base = mkZExt(base, w); runs.push_back({k, j2 - 1, mkBin(KAdd, base, mkConst(el[k]->c - k, w))}); k = j2; }
            else { runs.push_back({k, j - 1, el[k]}); k = j; }
        }
        std::function<E(size_t, size_t)> tree = [&](size_t a, size_t b) -> E { if (a == b) return runs[a].v; size_t m = (a + b) / 2; return mkIte(mkBin(KUle, ix, mkConst(runs[m].hi * step, 64)), tree(a, m), tree(m + 1, b)); };
        return Val::of(tree(0, runs.size() - 1));
    }
    E r = el.back();
    for (u64 k = cnt - 1; k-- > 0;) r = mkIte(mkEq(ix, mkConst(k * step, 64)), el[k], r);
    return Val::of(r);
}
static bool doLoad(State &s, const Val &p, Type *ty, Val &out) {
    if (ty->isStructTy() || ty->isArrayTy()) {
        Agg *a = new Agg; unsigned nf = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements();
        for (unsigned i = 0; i < nf; ++i) {
            Type *ft = ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType();
            u64 off = ty->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(ft);
            Val q = p.conc() ? Val(p.c + off) : Val::of(mkBin(KAdd, p.e, mkConst(off, 64))); Val fv;
            if (!doLoad(s, q, ft, fv)) return false; a->f.push_back(fv);
        }
        out = Val(); out.agg = a; return true;
    }
    if (ty->isVectorTy()) return unsupported(s, "vector load");
    u64 n = DL->getTypeStoreSize(ty); unsigned w = tyW(ty); u64 off; E so;
    u64 id = resolve(s, p, n, false, off, so); if (!id) return false;
    if (so) { out = loadSym(s, id, so, n, w); return !s.dead; }
    out = readBytes(s, s.mem.get(id), off, n, w, id); return true;
}
static bool doStore(State &s, const Val &p, Type *ty, const Val &v) {
    if (ty->isStructTy() || ty->isArrayTy()) {
        unsigned nf = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements();
        for (unsigned i = 0; i < nf; ++i) {
            Type *ft = ty->isStructTy() ? ty->getStructElementType(i) : ty->getArrayElementType();
            u64 off = ty->isStructTy() ? (u64)DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * (u64)DL->getTypeAllocSize(ft);
            Val q = p.conc() ? Val(p.c + off) : Val::of(mkBin(KAdd, p.e, mkConst(off, 64)));
            if (!doStore(s, q, ft, v.agg ? v.agg->f[i] : Val(0))) return false;
        }
        return true;
    }
    if (ty->isVectorTy()) return unsupported(s, "vector store");
    u64 n = DL->getTypeStoreSize(ty); unsigned w = tyW(ty); u64 off; E so;
    u64 id = resolve(s, p, n, true, off, so); if (!id) return false;
    if (so) {
        Obj *o = s.mem.get(id); unsigned tz = std::min(tzOf(so), 12u); u64 step = 1ull << tz; u64 cnt = (o->size - n) / step + 1;
        if (cnt > 256) { off = concretize(s, Val::of(so), 64); if (s.dead) return false; }
        else {
            E ve = toE(v, w);
            o = s.mem.wget(id);
            for (u64 k = 0; k < cnt; ++k) { Val old = readBytes(s, s.mem.get(id), k * step, n, w, id); E nv = mkIte(mkEq(so, mkConst(k * step, 64)), ve, toE(old, w)); o = s.mem.wget(id); writeBytes(o, k * step, n, w, Val::of(nv)); }
            return true;
        }
    }
    writeBytes(s.mem.wget(id), off, n, w, v); return true;
}
static bool readConcU64(State &s, u64 addr, u64 &out) { Val v; if (!doLoad(s, Val(addr), Type::getInt64Ty(M->getContext()), v)) return false; if (!v.conc()) { out = concretize(s, v, 64); return !s.dead; } out = v.c; return true; }
static std::string readCStr(State &s, u64 addr) {
    std::string r; for (u64 i = 0; i < 4096; ++i) { u64 id = (addr + i) >> ADDR_SHIFT; Obj *o = s.mem.get(id); if (!o) break; u64 off = addr + i - addrOf(id); if (off >= o->size) break; if (!o->s.empty() && o->s[off]) { r += '?'; continue; } if (!o->d[off]) break; r += (char)o->d[off]; } return r;
}
static bool doMemcpy(State &s, const Val &d, const Val &sr, u64 n) {
    if (!n) return true;
    u64 doff, soff; E ds, ss;
    Val sp = sr, dp = d;
    if (!sp.conc()) { sp = Val(concretize(s, sp, 64)); if (s.dead) return false; }
    if (!dp.conc()) { dp = Val(concretize(s, dp, 64)); if (s.dead) return false; }
    u64 si = resolve(s, sp, n, false, soff, ss); if (!si) return false;
    u64 di = resolve(s, dp, n, true, doff, ds); if (!di) return false;
    Obj *dst = s.mem.wget(di); Obj *src = s.mem.get(si);
    memmove(&dst->d[doff], &src->d[soff], n);
    if (!src->s.empty()) {
        bool any = false; for (u64 i = 0; i < n; ++i) if (src->s[soff + i]) { any = true; break; }
        if (any) { if (dst->s.empty()) dst->s.assign(dst->size, nullptr); memmove(&dst->s[doff], &src->s[soff], n * sizeof(E)); }
        else if (!dst->s.empty()) for (u64 i = 0; i < n; ++i) dst->s[doff + i] = nullptr;
    } else if (!dst->s.empty()) for (u64 i = 0; i < n; ++i) dst->s[doff + i] = nullptr;
    return true;
}
static bool doMemset(State &s, const Val &d, const Val &v, u64 n) {
    if (!n) return true; Val dp = d; if (!dp.conc()) { dp = Val(concretize(s, dp, 64)); if (s.dead) return false; }
    u64 off; E so; u64 di = resolve(s, dp, n, true, off, so); if (!di) return false; Obj *o = s.mem.wget(di);
    if (v.conc()) { memset(&o->d[off], (int)v.c, n); if (!o->s.empty()) for (u64 i = 0; i < n; ++i) o->s[off + i] = nullptr; }
    else { E b = mkExtract(v.e, 0, 8); if (o->s.empty()) o->s.assign(o->size, nullptr); for (u64 i = 0; i < n; ++i) o->s[off + i] = b; }
    return true;
}

// ------------------------------------------------------------- constants / globals
static Val cval(const Constant *c);
static u64 globalAddr(const GlobalValue *g) {
    if (auto *a = dyn_cast<GlobalAlias>(g)) { Val v = cval(a->getAliasee()); return v.c; }
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    fprintf(stderr, "no address for global %s\n", g->getName().str().c_str()); abort();
}
static Val evalCE(const ConstantExpr *ce) {
    auto op = [&](unsigned i) { return cval(ce->getOperand(i)).c; };
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off); return Val(op(0) + off.getZExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return Val(op(0));
    case Instruction::Add: return Val(op(0) + op(1));
    case Instruction::Sub: return Val(op(0) - op(1));
    case Instruction::Trunc: { unsigned w = tyW(ce->getType()); return Val(op(0) & (u64)maskw(w)); }
    case Instruction::ZExt: return Val(op(0));
    case Instruction::Xor: return Val(op(0) ^ op(1));
    case Instruction::And: return Val(op(0) & op(1));
    case Instruction::LShr: return Val(op(0) >> op(1));
    case Instruction::ICmp: { bool r = false; u64 a = op(0), b = op(1); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: break; } return Val(r); }
    default: fprintf(stderr, "unsupported constant expr %s\n", ce->getOpcodeName()); return Val(0);
    }
}
static Val cval(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() <= 64) return Val(ci->getZExtValue()); u128 v = ((u128)ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth() - 64), 64) << 64) | ci->getValue().extractBitsAsZExtValue(64, 0); Val r; r.e = mkConst(v, ci->getBitWidth()); return r; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() <= 64) return Val(b.getZExtValue()); Val r; r.e = mkConst(((u128)b.extractBitsAsZExtValue(b.getBitWidth() - 64, 64) << 64) | b.extractBitsAsZExtValue(64, 0), b.getBitWidth()); return r; }
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (auto *g = dyn_cast<GlobalValue>(c)) return Val(globalAddr(g));
    if (auto *ce = dyn_cast<ConstantExpr>(c)) return evalCE(ce);
    if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
        Agg *a = new Agg; unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) a->f.push_back(cval(c->getAggregateElement(i)));
        Val v; v.agg = a; return v;
    }
    if (isa<UndefValue>(c)) { if (tyW(c->getType()) > 64) { Val r; r.e = mkConst(0, tyW(c->getType())); return r; } return Val(0); }
    if (c->isNullValue()) return Val(0);
    return Val(0);
}
static void initGlobal(std::vector<u8> &d, u64 off, const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&d[off], r.data(), r.size()); return; }
    if (t->isStructTy()) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); ++i) initGlobal(d, off + (u64)sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); ++i) initGlobal(d, off + i * es, c->getAggregateElement(i)); return; }
    if (t->isVectorTy()) { fprintf(stderr, "vector global init\n"); return; }
    Val v = cval(c); u64 n = DL->getTypeStoreSize(t); 
    if (v.e) { u128 x = v.e->c; memcpy(&d[off], &x, n); } else memcpy(&d[off], &v.c, n);
}

// ------------------------------------------------------------- function compilation
static CFunc *compileF(Function *F) {
    auto it = cfuncs.find(F); if (it != cfuncs.end()) return it->second;
    CFunc *cf = new CFunc; cfuncs[F] = cf; cf->F = F; cf->dname = demangle(F->getName().str());
    if (auto *sp = F->getSubprogram()) { std::string f = sp->getFilename().str(); if (f.size() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; cf->file = f; cf->inRepo = f.compare(0, optRepo.size(), optRepo) == 0; }
    std::map<const Value *, u32> slot; u32 ns = 0;
    for (auto &a : F->args()) slot[&a] = ns++;
    for (auto &bb : *F) for (auto &I : bb) if (!I.getType()->isVoidTy()) slot[&I] = ns++;
    cf->nslots = ns;
    std::map<const Constant *, u32> cidx;
    auto mkop = [&](const Value *v) -> Op {
        if (auto *c = dyn_cast<Constant>(v)) { auto i = cidx.find(c); if (i != cidx.end()) return {true, i->second}; u32 k = cf->consts.size(); cf->consts.push_back(cval(c)); cidx[c] = k; return {true, k}; }
        auto i = slot.find(v); if (i == slot.end()) return {true, (cf->consts.push_back(Val(0)), (u32)cf->consts.size() - 1)};
        return {false, i->second};
    };
    u32 bi = 0; for (auto &bb : *F) cf->bidx[&bb] = bi++;
    for (auto &bb : *F) {
        cf->blocks.push_back({&bb, (u32)cf->code.size()});
        std::vector<std::pair<int, std::map<u32, Op>>> ph;
        for (auto &I : bb) {
            if (auto *p = dyn_cast<PHINode>(&I)) { std::map<u32, Op> m; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) m[cf->bidx[p->getIncomingBlock(i)]] = mkop(p->getIncomingValue(i)); ph.push_back({(int)slot[&I], m}); continue; }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            CI ci; ci.I = &I; ci.opc = I.getOpcode(); ci.ty = I.getType(); ci.w = tyW(I.getType());
            if (!I.getType()->isVoidTy()) ci.dst = slot[&I];
            if (I.getNumOperands()) ci.w0 = tyW(I.getOperand(0)->getType());
            if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                if (g->getType()->isVectorTy()) { }
                ci.ops.push_back(mkop(g->getPointerOperand()));
                u64 cst = 0;
                for (gep_type_iterator ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
                    Value *ix = ti.getOperand();
                    if (StructType *st = ti.getStructTypeOrNull()) { cst += (u64)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
                    else { u64 sc = DL->getTypeAllocSize(ti.getIndexedType()); if (auto *c = dyn_cast<ConstantInt>(ix)) cst += (u64)c->getSExtValue() * sc; else ci.gep.push_back({mkop(ix), sc, tyW(ix->getType())}); }
                }
                ci.imm = cst;
            } else if (auto *b = dyn_cast<BranchInst>(&I)) {
                if (b->isConditional()) { ci.ops.push_back(mkop(b->getCondition())); ci.t0 = cf->bidx[b->getSuccessor(0)]; ci.t1 = cf->bidx[b->getSuccessor(1)]; }
                else ci.t0 = cf->bidx[b->getSuccessor(0)];
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                ci.ops.push_back(mkop(sw->getCondition())); ci.w0 = tyW(sw->getCondition()->getType()); ci.t0 = cf->bidx[sw->getDefaultDest()];
                for (auto &cs : sw->cases()) ci.cases.push_back({cs.getCaseValue()->getZExtValue(), cf->bidx[cs.getCaseSuccessor()]});
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) ci.ops.push_back({true, (cf->consts.push_back(Val(0)), (u32)cf->consts.size() - 1)}); else ci.ops.push_back(mkop(a.get())); }
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                while (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
                ci.callee = dyn_cast<Function>(cv);
                if (ci.callee) { auto bt = builtinIdx.find(ci.callee->getName().str()); if (bt != builtinIdx.end()) ci.builtin = bt->second; }
                else if (!isa<InlineAsm>(cv)) ci.ops.push_back(mkop(cb->getCalledOperand()));
                if (auto *iv = dyn_cast<InvokeInst>(&I)) { ci.t0 = cf->bidx[iv->getNormalDest()]; ci.t1 = cf->bidx[iv->getUnwindDest()]; }
            } else if (auto *a = dyn_cast<AllocaInst>(&I)) {
                ci.imm = DL->getTypeAllocSize(a->getAllocatedType()); ci.ops.push_back(mkop(a->getArraySize()));
            } else { for (auto &o : I.operands()) { if (isa<BasicBlock>(o.get())) continue; ci.ops.push_back(mkop(o.get())); } }
            if (auto *c = dyn_cast<CmpInst>(&I)) ci.pred = c->getPredicate();
            cf->code.push_back(std::move(ci));
        }
        cf->phis.push_back(ph);
    }
    cf->covered.assign(cf->blocks.size(), false);
    return cf;
}
static inline Val get(Frame &f, const Op &o) { return o.isConst ? f.cf->consts[o.idx] : f.regs[o.idx]; }
static void enterBlock(State &s, u32 to) {
    Frame &f = s.top(); u32 from = f.block; auto &ph = f.cf->phis[to];
    if (!ph.empty()) { std::vector<Val> tmp; tmp.reserve(ph.size()); for (auto &p : ph) { auto it = p.second.find(from); tmp.push_back(it == p.second.end() ? Val(0) : get(f, it->second)); } for (size_t i = 0; i < ph.size(); ++i) f.regs[ph[i].first] = tmp[i]; }
    f.block = to; f.ip = f.cf->blocks[to].first; f.cf->covered[to] = true;
}
static bool pushCall(State &s, Function *F, const std::vector<Val> &args, const CI *call, int special = 0) {
    if (s.st().size() > 2000) { report(s, "recursion", "call depth exceeds 2000 frames", *s.model); s.dead = true; return false; }
    CFunc *cf = compileF(F); ++cf->hits;
    Frame fr; fr.cf = cf; fr.regs.resize(cf->nslots); for (size_t i = 0; i < args.size() && i < F->arg_size(); ++i) fr.regs[i] = args[i];
    fr.call = call; fr.special = special; fr.ip = 0; fr.block = 0; cf->covered[0] = true;
    // byval copies
    for (unsigned i = 0; i < F->arg_size() && i < args.size(); ++i) if (F->getArg(i)->hasByValAttr()) {
        u64 sz = DL->getTypeAllocSize(F->getArg(i)->getParamByValType()); u64 id = newObj(s, sz, OK_Stack, true, "byval");
        if (!doMemcpy(s, Val(addrOf(id)), args[i], sz)) return false; fr.regs[i] = Val(addrOf(id)); fr.allocas.push_back(id);
    }
    s.st().push_back(std::move(fr)); return true;
}
static void advance(State &s, const CI &ci) { // after a completed call/instruction in the top frame
    if (ci.opc == Instruction::Invoke) enterBlock(s, ci.t0); else ++s.top().ip;
}
static void endThread(State &s);
static void popFrame(State &s) { for (u64 id : s.top().allocas) s.mem.free(id); s.st().pop_back(); }
static void doReturn(State &s, const Val &v) {
    const CI *call = s.top().call; int special = s.top().special;
    popFrame(s);
    if (s.st().empty()) { endThread(s); return; }
    if (special == 2) return; // caller's ip is already where it should be
    if (call) { if (call->dst >= 0 && !special) s.top().regs[call->dst] = v; advance(s, *call); }
}

// ------------------------------------------------------------- exceptions / RTTI
static std::string extName(State &s, u64 addr) { Obj *o = s.mem.get(addr >> ADDR_SHIFT); return o ? o->name : ""; }
static bool tiToBase(State &s, u64 ti, u64 want, u64 obj, u64 &adj, int depth = 0) {
    if (ti == want) { adj = obj; return true; }
    if (depth > 20) return false;
    u64 vt; if (!readConcU64(s, ti, vt)) return false; std::string k = extName(s, vt);
    if (k.find("si_class_type_info") != std::string::npos) { u64 b; readConcU64(s, ti + 16, b); return tiToBase(s, b, want, obj, adj, depth + 1); }
    if (k.find("vmi_class_type_info") != std::string::npos) {
        u64 fc; readConcU64(s, ti + 16, fc); u32 cnt = (u32)(fc >> 32);
        for (u32 i = 0; i < cnt; ++i) {
            u64 b, of; readConcU64(s, ti + 24 + 16 * i, b); readConcU64(s, ti + 32 + 16 * i, of);
            int64_t off = (int64_t)of >> 8; u64 sub = obj;
            if (!(of & 2)) continue; // non-public
            if (of & 1) { if (obj) { u64 vp, vo; readConcU64(s, obj, vp); readConcU64(s, vp + off, vo); sub = obj + vo; } }
            else sub = obj ? obj + off : 0;
            if (tiToBase(s, b, want, sub, adj, depth + 1)) return true;
        }
    }
    return false;
}
static std::string tiName(State &s, u64 ti) { u64 n = 0; readConcU64(s, ti + 8, n); return demangle("_ZTS" + readCStr(s, n)); }
// find a handler for the pending exception and transfer control to the nearest landing pad
static bool matchPad(State &s, Frame &f, const LandingPadInst *lp, const ExcInfo &ei, u64 exc, bool &cleanup, u64 &sel, u64 &adj, bool &handled) {
    handled = false; cleanup = lp->isCleanup();
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        if (lp->isCatch(i)) { u64 t = cval(lp->getClause(i)).c; if (t == 0) { handled = true; sel = 1; adj = exc; return true; } if (tiToBase(s, ei.ti, t, exc, adj)) { handled = true; sel = t >> ADDR_SHIFT; return true; } }
        else { // filter: treat an empty filter as "no exception allowed"
            auto *ca = lp->getClause(i); bool ok = false; if (ca->getType()->isArrayTy()) for (unsigned k = 0; k < ca->getType()->getArrayNumElements(); ++k) { u64 t = cval(ca->getAggregateElement(k)).c; u64 a; if (tiToBase(s, ei.ti, t, exc, a)) ok = true; }
            if (!ok) { handled = true; sel = (u64)(u32)-1; adj = exc; return true; } }
    }
    return cleanup;
}
static bool unwind(State &s, u64 exc) { // frames: top frame is the one whose instruction raised
    ExcInfo &ei = s.exc[exc];
    // phase 1
    bool found = false;
    for (auto it = s.st().rbegin(); it != s.st().rend() && !found; ++it) {
        const CI &ci = it->cf->code[it->ip]; if (ci.opc != Instruction::Invoke) continue;
        bool cl, h; u64 sel, adj; auto *lp = cast<InvokeInst>(ci.I)->getLandingPadInst(); matchPad(s, *it, lp, ei, exc, cl, sel, adj, h); if (h) found = true;
    }
    if (!found) { report(s, "exception", "uncaught exception " + tiName(s, ei.ti), *s.model); s.dead = true; return false; }
    while (!s.st().empty()) {
        Frame &f = s.top(); const CI &ci = f.cf->code[f.ip];
        if (ci.opc == Instruction::Invoke) {
            bool cl, h; u64 sel = 0, adj = exc; auto *lp = cast<InvokeInst>(ci.I)->getLandingPadInst();
            if (matchPad(s, f, lp, ei, exc, cl, sel, adj, h)) {
                if (!h) { sel = 0; adj = exc; }
                ei.adjusted = adj; u32 tb = ci.t1; enterBlock(s, tb);
                Frame &g = s.top();
                // the landing pad instruction is the first non-phi
                const CI &l = g.cf->code[g.ip]; Agg *a = new Agg; a->f = {Val(exc), Val(sel)}; Val v; v.agg = a; g.regs[l.dst] = v; ++g.ip; return true;
            }
        }
        popFrame(s);
    }
    s.dead = true; return false;
}
static bool throwObj(State &s, u64 exc, u64 ti) { ExcInfo ei; ei.ti = ti; s.exc[exc] = ei; return unwind(s, exc); }
static bool throwBadAlloc(State &s) {
    GlobalValue *g = M->getNamedValue("_ZTISt9bad_alloc"); GlobalValue *vt = M->getNamedValue("_ZTVSt9bad_alloc");
    u64 id = newObj(s, 16, OK_Heap, false, "exc"); if (vt) writeBytes(s.mem.wget(id), 0, 8, 64, Val(globalAddr(vt) + 16));
    if (!g) return unsupported(s, "bad_alloc typeinfo missing"); return throwObj(s, addrOf(id), globalAddr(g));
}

// ------------------------------------------------------------- threads
static bool runnable(State &s, u32 t) {
    Thread &h = s.th[t]; if (h.done) return false;
    if (h.waitMutex) { auto it = s.locks.find(h.waitMutex); if (it != s.locks.end() && it->second) return false; }
    if (h.waitJoin && !s.th[h.waitJoin - 1].done) return false;
    if (h.waitAddr) { u64 x; if (!readConcU64(s, h.waitAddr, x) || x < h.waitVal) return false; }
    return true;
}
static bool pickThread(State &s, bool mayStay) { // fork over the runnable threads (bounded context switches)
    std::vector<u32> r; for (u32 i = 0; i < s.th.size(); ++i) if (runnable(s, i)) r.push_back(i);
    if (r.empty()) { bool all = true; for (auto &t : s.th) all &= t.done; if (!all) report(s, "deadlock", "no runnable thread", *s.model); s.dead = true; return false; }
    bool stay = mayStay && runnable(s, s.cur);
    if (stay && s.switches >= (s.maxSwitches == ~0u ? optMaxSwitches : s.maxSwitches)) return true;
    if (r.size() == 1) { s.cur = r[0]; return true; }
    E sym = mkSym("!sched", 8); s.inputs.push_back({"!sched", {sym}});
    if (gSyms.size() > s.model->v.size()) {}
    u32 first = stay ? s.cur : r[0];
    for (u32 t : r) if (t != first) { State *f = new State(s); f->cur = t; if (stay) ++f->switches; E c = mkEq(sym, mkConst(t, 8)); ModelP om; if (solveWith(f->pc, c, f->model, om) != SAT) { delete f; continue; } f->model = om; addC(*f, c); work.push_back(f); ++nForks; }
    { E c = mkEq(sym, mkConst(first, 8)); ModelP om; solveWith(s.pc, c, s.model, om); s.model = om; addC(s, c); }
    s.cur = first; return true;
}
static void pathDone(State &s);
static void endThread(State &s) {
    s.th[s.cur].done = true; s.release(s.cur); // joined through key = thread number
    if (s.cur == 0) { pathDone(s); s.dead = true; return; }
    pickThread(s, false);
}

#include "builtins.inc"

// ------------------------------------------------------------- instruction step
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; } static u64 dAs(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float asF(u64 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; } static u64 fAs(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static long double asX(const Val &v) { u128 b = v.e ? v.e->c : v.c; long double d = 0; memcpy(&d, &b, 10); return d; }
static Val xAs(long double d) { u128 b = 0; memcpy(&b, &d, 10); Val r; r.e = mkConst(b, 80); return r; }
static bool fpConc(const Val &v) { return v.conc() || (v.e && v.e->isConst()); }
static long double fpGet(const Val &v, Type *t) { if (t->isFloatTy()) return asF(v.c); if (t->isDoubleTy()) return asD(v.c); return asX(v); }
static Val fpPut(long double d, Type *t) { if (t->isFloatTy()) return Val(fAs((float)d)); if (t->isDoubleTy()) return Val(dAs((double)d)); return xAs(d); }

static Kind binKind(unsigned o) {
    switch (o) { case Instruction::Add: return KAdd; case Instruction::Sub: return KSub; case Instruction::Mul: return KMul; case Instruction::UDiv: return KUDiv; case Instruction::SDiv: return KSDiv; case Instruction::URem: return KURem; case Instruction::SRem: return KSRem; case Instruction::And: return KAnd; case Instruction::Or: return KOr; case Instruction::Xor: return KXor; case Instruction::Shl: return KShl; case Instruction::LShr: return KLShr; default: return KAShr; }
}
static E icmp(unsigned p, E a, E b) {
    switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); case CmpInst::ICMP_ULT: return mkBin(KUlt, a, b); case CmpInst::ICMP_ULE: return mkBin(KUle, a, b); case CmpInst::ICMP_UGT: return mkBin(KUlt, b, a); case CmpInst::ICMP_UGE: return mkBin(KUle, b, a); case CmpInst::ICMP_SLT: return mkBin(KSlt, a, b); case CmpInst::ICMP_SLE: return mkBin(KSle, a, b); case CmpInst::ICMP_SGT: return mkBin(KSlt, b, a); default: return mkBin(KSle, b, a); }
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
    switch (p) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; default: break; }
    int64_t x = w >= 64 ? (int64_t)a : (int64_t)(a << (64 - w)) >> (64 - w), y = w >= 64 ? (int64_t)b : (int64_t)(b << (64 - w)) >> (64 - w);
    switch (p) { case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y; case CmpInst::ICMP_SGT: return x > y; default: return x >= y; }
}

static bool callFunction(State &s, const CI &ci, Function *F, std::vector<Val> &args) {
    if (F->isDeclaration()) {
        auto it = builtinIdx.find(F->getName().str());
        if (it == builtinIdx.end()) return unsupported(s, "external function " + demangle(F->getName().str()) + " [" + F->getName().str() + "]");
        Val r; return builtins[it->second](s, ci, args, r) ? (ci.dst >= 0 ? (void)(s.top().regs[ci.dst] = r) : (void)0, advance(s, ci), true) : false;
    }
    return pushCall(s, F, args, &ci);
}

static void step(State &s) {
    Frame &f = s.top(); const CI &ci = f.cf->code[f.ip];
    ++s.steps; ++nInstr;
    auto A = [&](unsigned i) { return get(f, ci.ops[i]); };
    auto set = [&](const Val &v) { if (ci.dst >= 0) f.regs[ci.dst] = v; ++f.ip; };
    switch (ci.opc) {
    case Instruction::Ret: { Val v; if (!ci.ops.empty()) v = A(0); doReturn(s, v); return; }
    case Instruction::Br: {
        if (ci.ops.empty()) { enterBlock(s, ci.t0); return; }
        Val c = A(0); bool t;
        if (c.conc()) t = c.c & 1; else { t = decide(s, c.e); if (s.dead) return; }
        enterBlock(s, t ? ci.t0 : ci.t1); return;
    }
    case Instruction::Switch: {
        Val c = A(0);
        if (c.conc()) { for (auto &k : ci.cases) if ((u64)k.first == c.c) { enterBlock(s, k.second); return; } enterBlock(s, ci.t0); return; }
        // group the cases by successor; follow the model's branch, fork the complement
        u128 mv = evalExpr(c.e, *s.model); u32 tgt = ci.t0; for (auto &k : ci.cases) if (k.first == mv) tgt = k.second;
        E cond;
        if (tgt == ci.t0) { cond = mkTrue(); for (auto &k : ci.cases) if (k.second != tgt) cond = mkAnd(cond, mkNot(mkEq(c.e, mkConst(k.first, ci.w0)))); }
        else { cond = mkFalse(); for (auto &k : ci.cases) if (k.second == tgt) cond = mkOr(cond, mkEq(c.e, mkConst(k.first, ci.w0))); }
        bool t = decide(s, cond); if (s.dead) return; if (!t) { s.dead = true; return; }
        enterBlock(s, tgt); return;
    }
    case Instruction::Unreachable: report(s, "unreachable", "control reaches undefined behaviour (unreachable)", *s.model); s.dead = true; return;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (!ci.w) { unsupported(s, "vector arithmetic"); return; }
        Val a = A(0), b = A(1);
        if (ci.opc == Instruction::UDiv || ci.opc == Instruction::SDiv || ci.opc == Instruction::URem || ci.opc == Instruction::SRem) {
            E z = mkEq(toE(b, ci.w), mkConst(0, ci.w));
            if (z->isConst() ? z->c != 0 : decide(s, z)) { report(s, "arithmetic", "division by zero", *s.model); s.dead = true; return; }
            if (s.dead) return;
        }
        if (a.conc() && b.conc() && ci.w <= 64) {
            u64 x = a.c, y = b.c, r, m = ci.w == 64 ? ~0ull : (1ull << ci.w) - 1;
            switch (ci.opc) {
            case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
            case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
            default: { bool ok; r = (u64)foldBin(binKind(ci.opc), x, y, ci.w, ok); }
            }
            set(Val(r & m)); return;
        }
        set(Val::of(mkBin(binKind(ci.opc), toE(a, ci.w), toE(b, ci.w)))); return;
    }
    case Instruction::ICmp: {
        if (!ci.w0) { unsupported(s, "vector icmp"); return; }
        Val a = A(0), b = A(1); if (a.conc() && b.conc() && ci.w0 <= 64) { set(Val(icmpC(ci.pred, a.c, b.c, ci.w0))); return; }
        set(Val::of(icmp(ci.pred, toE(a, ci.w0), toE(b, ci.w0)))); return;
    }
    case Instruction::ZExt: { Val a = A(0); if (a.conc() && ci.w <= 64) { set(a); return; } set(Val::of(mkZExt(toE(a, ci.w0), ci.w))); return; }
    case Instruction::SExt: { Val a = A(0); if (a.conc() && ci.w <= 64) { u64 m = ci.w == 64 ? ~0ull : (1ull << ci.w) - 1; set(Val((u64)((int64_t)(a.c << (64 - ci.w0)) >> (64 - ci.w0)) & m)); return; } set(Val::of(mkSExt(toE(a, ci.w0), ci.w))); return; }
    case Instruction::Trunc: { Val a = A(0); if (a.conc()) { set(Val(ci.w == 64 ? a.c : a.c & ((1ull << ci.w) - 1))); return; } set(Val::of(mkExtract(toE(a, ci.w0), 0, ci.w))); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = A(0); if (ci.w == ci.w0) { set(a); return; } if (ci.w < ci.w0) { if (a.conc()) set(Val(a.c & ((1ull << ci.w) - 1))); else set(Val::of(mkExtract(a.e, 0, ci.w))); } else set(a.conc() ? a : Val::of(mkZExt(a.e, ci.w))); return; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: set(A(0)); return;
    case Instruction::Select: {
        Val c = A(0); if (c.conc()) { set((c.c & 1) ? A(1) : A(2)); return; }
        Val a = A(1), b = A(2);
        if (a.agg || b.agg || ci.ty->isPointerTy()) { bool t = decide(s, c.e); if (s.dead) return; set(t ? a : b); return; }
        set(Val::of(mkIte(c.e, toE(a, ci.w), toE(b, ci.w)))); return;
    }
    case Instruction::Alloca: {
        Val n = A(0); u64 k = concretize(s, n, 64); if (s.dead) return; u64 id = newObj(s, ci.imm * k, OK_Stack, true, "alloca"); f.allocas.push_back(id); set(Val(addrOf(id))); return;
    }
    case Instruction::Load: { Val v; bool at = cast<LoadInst>(ci.I)->isAtomic(); gAtomic = at; bool ok = doLoad(s, A(0), ci.ty, v); gAtomic = false; if (!ok) return; if (at && A(0).conc()) s.acquire(A(0).c); set(v); return; }
    case Instruction::Store: { auto *si = cast<StoreInst>(ci.I); bool at = si->isAtomic(); if (at && A(1).conc()) s.release(A(1).c); gAtomic = at; bool ok = doStore(s, A(1), si->getValueOperand()->getType(), A(0)); gAtomic = false; if (!ok) return; ++s.top().ip; return; }
    case Instruction::GetElementPtr: {
        Val p = A(0);
        if (!ci.ty->isPointerTy()) { unsupported(s, "vector gep"); return; }
        bool conc = p.conc(); u64 off = ci.imm;
        if (conc) for (auto &g : ci.gep) { Val i = get(f, g.op); if (!i.conc()) { conc = false; break; } int64_t x = g.w >= 64 ? (int64_t)i.c : (int64_t)(i.c << (64 - g.w)) >> (64 - g.w); off += (u64)x * g.scale; }
        if (conc) { set(Val(p.c + off)); return; }
        E e = mkBin(KAdd, toE(p, 64), mkConst(ci.imm, 64));
        for (auto &g : ci.gep) { Val i = get(f, g.op); E x = mkSExt(toE(i, g.w), 64); e = mkBin(KAdd, e, mkBin(KMul, x, mkConst(g.scale, 64))); }
        set(Val::of(e)); return;
    }
    case Instruction::ExtractValue: { Val v = A(0); for (unsigned i : cast<ExtractValueInst>(ci.I)->indices()) v = v.agg ? v.agg->f[i] : Val(0); set(v); return; }
    case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(ci.I); Val v = A(0);
        std::function<Val(Val, Type *, unsigned)> ins = [&](Val cur, Type *t, unsigned d) -> Val {
            if (d == iv->getNumIndices()) return A(1);
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            Agg *a = new Agg; if (cur.agg) a->f = cur.agg->f; a->f.resize(n); unsigned ix = iv->getIndices()[d]; Type *ft = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); a->f[ix] = ins(a->f[ix], ft, d + 1); Val r; r.agg = a; return r; };
        set(ins(v, ci.ty, 0)); return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        Val a = A(0), b = A(1); if (!fpConc(a) || !fpConc(b)) { unsupported(s, "symbolic floating point"); return; }
        if (ci.ty->isVectorTy()) { unsupported(s, "vector fp"); return; }
        if (ci.ty->isFloatTy()) { float x = asF(a.c), y = asF(b.c), r = ci.opc == Instruction::FAdd ? x + y : ci.opc == Instruction::FSub ? x - y : ci.opc == Instruction::FMul ? x * y : ci.opc == Instruction::FDiv ? x / y : fmodf(x, y); set(Val(fAs(r))); return; }
        if (ci.ty->isDoubleTy()) { double x = asD(a.c), y = asD(b.c), r = ci.opc == Instruction::FAdd ? x + y : ci.opc == Instruction::FSub ? x - y : ci.opc == Instruction::FMul ? x * y : ci.opc == Instruction::FDiv ? x / y : fmod(x, y); set(Val(dAs(r))); return; }
        { long double x = asX(a), y = asX(b), r = ci.opc == Instruction::FAdd ? x + y : ci.opc == Instruction::FSub ? x - y : ci.opc == Instruction::FMul ? x * y : ci.opc == Instruction::FDiv ? x / y : fmodl(x, y); set(xAs(r)); return; }
    }
    case Instruction::FNeg: { Val a = A(0); if (!fpConc(a)) { unsupported(s, "symbolic floating point"); return; } set(fpPut(-fpGet(a, ci.ty), ci.ty)); return; }
    case Instruction::FPExt: case Instruction::FPTrunc: { Val a = A(0); if (!fpConc(a)) { unsupported(s, "symbolic floating point"); return; } set(fpPut(fpGet(a, ci.I->getOperand(0)->getType()), ci.ty)); return; }
    case Instruction::UIToFP: { Val a = A(0); if (!a.conc()) { a = Val(concretize(s, a, ci.w0)); if (s.dead) return; } set(ci.ty->isFloatTy() ? Val(fAs((float)a.c)) : ci.ty->isDoubleTy() ? Val(dAs((double)a.c)) : xAs((long double)a.c)); return; }
    case Instruction::SIToFP: { Val a = A(0); if (!a.conc()) { a = Val(concretize(s, a, ci.w0)); if (s.dead) return; } int64_t x = (int64_t)(a.c << (64 - ci.w0)) >> (64 - ci.w0); set(ci.ty->isFloatTy() ? Val(fAs((float)x)) : ci.ty->isDoubleTy() ? Val(dAs((double)x)) : xAs((long double)x)); return; }
    case Instruction::FPToUI: { Val a = A(0); if (!fpConc(a)) { unsupported(s, "symbolic floating point"); return; } long double d = fpGet(a, ci.I->getOperand(0)->getType()); set(Val((u64)d & (u64)maskw(ci.w))); return; }
    case Instruction::FPToSI: { Val a = A(0); if (!fpConc(a)) { unsupported(s, "symbolic floating point"); return; } long double d = fpGet(a, ci.I->getOperand(0)->getType()); set(Val((u64)(int64_t)d & (u64)maskw(ci.w))); return; }
    case Instruction::FCmp: {
        Val a = A(0), b = A(1); if (!fpConc(a) || !fpConc(b)) { unsupported(s, "symbolic floating point"); return; } Type *t = ci.I->getOperand(0)->getType(); long double x = fpGet(a, t), y = fpGet(b, t); bool un = x != x || y != y, r = false;
        switch (ci.pred) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; default: break; }
        set(Val(r)); return;
    }
    case Instruction::AtomicRMW: {
        auto *rm = cast<AtomicRMWInst>(ci.I); Val p = A(0), v = A(1), old; Type *t = rm->getValOperand()->getType(); gAtomic = true; bool lok = doLoad(s, p, t, old); gAtomic = false; if (!lok) return; if (p.conc()) { s.acquire(p.c); s.release(p.c); } unsigned w = tyW(t); E o = toE(old, w), x = toE(v, w), n;
        switch (rm->getOperation()) { case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = mkBin(KAdd, o, x); break; case AtomicRMWInst::Sub: n = mkBin(KSub, o, x); break; case AtomicRMWInst::And: n = mkBin(KAnd, o, x); break; case AtomicRMWInst::Or: n = mkBin(KOr, o, x); break; case AtomicRMWInst::Xor: n = mkBin(KXor, o, x); break; default: unsupported(s, "atomicrmw"); return; }
        gAtomic = true; lok = doStore(s, p, t, Val::of(n)); gAtomic = false; if (!lok) return; s.top().regs[ci.dst] = old; ++s.top().ip; return;
    }
    case Instruction::AtomicCmpXchg: {
        auto *cx = cast<AtomicCmpXchgInst>(ci.I); Type *t = cx->getCompareOperand()->getType(); Val p = A(0), old; gAtomic = true; bool lok = doLoad(s, p, t, old); gAtomic = false; if (!lok) return; if (p.conc()) { s.acquire(p.c); s.release(p.c); } unsigned w = tyW(t);
        bool eq = decide(s, mkEq(toE(old, w), toE(A(1), w))); if (s.dead) return; if (eq) { gAtomic = true; lok = doStore(s, p, t, A(2)); gAtomic = false; if (!lok) return; }
        Agg *a = new Agg; a->f = {old, Val(eq)}; Val r; r.agg = a; s.top().regs[ci.dst] = r; ++s.top().ip; return;
    }
    case Instruction::Fence: ++f.ip; return;
    case Instruction::LandingPad: ++f.ip; return; // normally set by unwind
    case Instruction::Resume: { Val v = A(0); u64 exc = v.agg ? v.agg->f[0].c : 0; // continue unwinding from the caller
        popFrame(s); if (s.st().empty()) { s.dead = true; return; } unwind(s, exc); return; }
    case Instruction::Call: case Instruction::Invoke: {
        auto *cb = cast<CallBase>(ci.I);
        unsigned na = cb->arg_size(); std::vector<Val> args; args.reserve(na + 1); for (unsigned i = 0; i < na; ++i) args.push_back(A(i));
        if (ci.builtin >= 0) { Val r; if (!builtins[ci.builtin](s, ci, args, r)) return; Frame &g = s.top(); if (ci.dst >= 0) g.regs[ci.dst] = r; advance(s, ci); return; }
        if (ci.callee) {
            if (ci.callee->isIntrinsic()) { Val r; if (!intrinsic(s, ci, args, r)) return; if (ci.dst >= 0) s.top().regs[ci.dst] = r; advance(s, ci); return; }
            callFunction(s, ci, ci.callee, args); return;
        }
        if (isa<InlineAsm>(cb->getCalledOperand()->stripPointerCasts())) {
            auto *ia = cast<InlineAsm>(cb->getCalledOperand()->stripPointerCasts()); if (ia->getAsmString().empty()) { if (ci.dst >= 0) f.regs[ci.dst] = args.empty() ? Val(0) : args[0]; advance(s, ci); return; }
            unsupported(s, "inline asm " + std::string(ia->getAsmString())); return; }
        Val fp = get(f, ci.ops.back()); u64 a = concretize(s, fp, 64); if (s.dead) return;
        auto it = faddr.find(a); if (it == faddr.end()) { report(s, "memory", "indirect call through an invalid function pointer (" + describe(s, a, 1) + ")", *s.model); s.dead = true; return; }
        callFunction(s, ci, it->second, args); return;
    }
    default: unsupported(s, std::string("instruction ") + ci.I->getOpcodeName()); return;
    }
}

static void pathDone(State &s) {
    ++nPaths;
    if (witnesses.size() < optWitness || (nPaths % 97 == 0 && witnesses.size() < optWitness * 2)) {
        Witness w; w.inputs = inputsOf(s, *s.model);
        for (auto &o : s.obs) { u64 v = o.second.conc() ? o.second.c : (u64)evalExpr(o.second.e, *s.model); bool un = o.second.e && usesUninit(o.second.e); w.obs.push_back({o.first, un ? "?" : std::to_string(v)}); }
        witnesses.push_back(w);
    }
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string jpairs(const std::vector<std::pair<std::string, std::string>> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += std::string(i ? "," : "") + "[\"" + jesc(v[i].first) + "\",\"" + jesc(v[i].second) + "\"]"; return r + "]"; }

static int realMain(int argc, char **argv) {
    T0 = std::chrono::steady_clock::now();
    std::string file, entry, out;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--arg") gArgs.push_back(strtoull(nx().c_str(), 0, 0));
        else if (a == "--time") optTime = atof(nx().c_str()); else if (a == "--steps") optMaxSteps = strtoull(nx().c_str(), 0, 0); else if (a == "--max-viol") optMaxViol = atoi(nx().c_str());
        else if (a == "--repo") optRepo = nx(); else if (a == "-v") optVerbose = true; else if (a == "--switches") optMaxSwitches = atoi(nx().c_str()); else if (a == "--witness") optWitness = atoi(nx().c_str());
        else if (a == "--dump") { gDumpDir = nx(); gDumpMax = atoi(nx().c_str()); } else if (a == "--solver-ms") gSolverTimeoutMs = atoi(nx().c_str()); else if (a == "--alloc-cap") optAllocCap = strtoull(nx().c_str(), 0, 0); else if (a == "--conc-limit") optConcLimit = atoi(nx().c_str());
        else file = a;
    }
    LLVMContext C; SMDiagnostic err; M = parseIRFile(file, err, C);
    if (!M) { err.print("pse", errs()); return 3; }
    DL = &M->getDataLayout();
    initBuiltins();
    State *s0 = new State; s0->model = emptyModel();
    for (auto &F : *M) { Obj *o = new Obj; o->kind = OK_Func; o->size = 1; o->d.assign(1, 0); o->readonly = true; u64 id = s0->mem.add(o); gaddr[&F] = addrOf(id); faddr[addrOf(id)] = &F; }
    std::vector<std::pair<GlobalVariable *, u64>> gv;
    for (auto &G : M->globals()) {
        Obj *o = new Obj; o->kind = OK_Global; u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 1; if (G.isDeclaration()) { o->kind = OK_Extern; sz = std::max<u64>(sz, 512); }
        o->size = sz; o->d.assign(sz, 0); o->readonly = false; o->name = strdup(G.getName().str().c_str()); u64 id = s0->mem.add(o); gaddr[&G] = addrOf(id); gv.push_back({&G, id}); }
    for (auto &p : gv) if (p.first->hasInitializer()) { Obj *o = s0->mem.wget(p.second); initGlobal(o->d, 0, p.first->getInitializer()); o->readonly = p.first->isConstant(); }
    Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    // run global constructors, then the entry, as a chain of frames (last pushed runs first)
    s0->th.resize(1); CFunc *ecf = compileF(F); ++ecf->hits;
    { Frame fr; fr.cf = ecf; fr.regs.resize(ecf->nslots); ecf->covered[0] = true; s0->st().push_back(fr); }
    if (auto *ct = M->getGlobalVariable("llvm.global_ctors")) if (ct->hasInitializer()) {
        std::vector<std::pair<u64, Function *>> v; auto *ca = dyn_cast<ConstantArray>(ct->getInitializer());
        if (ca) for (unsigned i = 0; i < ca->getNumOperands(); ++i) { auto *cs = cast<ConstantStruct>(ca->getOperand(i)); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
        std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto it = v.rbegin(); it != v.rend(); ++it) { CFunc *cf = compileF(it->second); Frame fr; fr.cf = cf; fr.regs.resize(cf->nslots); fr.special = 2; s0->st().push_back(fr); }
    }
    work.push_back(s0); bool timeout = false; size_t maxWork = 0;
    while (!work.empty()) {
        maxWork = std::max(maxWork, work.size());
        State *s = work.back(); work.pop_back();
        u64 k = 0;
        while (!s->dead) {
            step(*s);
            if ((++k & 0x3fff) == 0 && elapsed() > optTime) { timeout = true; break; }
            if (s->steps > optMaxSteps) { ++nStepLimit; report(*s, "nontermination", "step bound exceeded", *s->model); s->dead = true; }
        }
        delete s;
        if (timeout || elapsed() > optTime) { timeout = timeout || !work.empty(); break; }
        if (viols.size() >= optMaxViol) break;
        if (nPaths >= optMaxPaths) break;
    }
    bool complete = work.empty() && !timeout && !nUnsupported && !nConcLimit && !nUnknown;
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    std::ostringstream j;
    j << "{\"entry\":\"" << entry << "\",\"args\":["; for (size_t i = 0; i < gArgs.size(); ++i) j << (i ? "," : "") << gArgs[i];
    j << "],\"complete\":" << (complete ? "true" : "false") << ",\"timeout\":" << (timeout ? "true" : "false") << ",\"paths\":" << nPaths << ",\"infeasible\":" << nInfeasible << ",\"error_paths\":" << nErrPaths << ",\"forks\":" << nForks << ",\"instructions\":" << nInstr << ",\"asserts\":" << nAsserts << ",\"assert_queries\":" << nAssertQ << ",\"mem_checks\":" << nMemChecks << ",\"unsupported\":" << nUnsupported << ",\"step_limit\":" << nStepLimit << ",\"conc_limit\":" << nConcLimit << ",\"unknown\":" << nUnknown << ",\"pending\":" << work.size();
    j << ",\"queries\":" << gStats.queries << ",\"cached\":" << gStats.cached << ",\"sat\":" << gStats.sat << ",\"unsat\":" << gStats.unsat << ",\"solver_s\":" << gStats.time << ",\"max_query_s\":" << gStats.maxTime << ",\"wall_s\":" << elapsed() << ",\"max_rss_mb\":" << ru.ru_maxrss / 1024 << ",\"symbols\":" << gSyms.size();
    j << ",\"unsupported_msgs\":{"; { bool first = true; for (auto &p : unsupportedMsgs) { j << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; } }
    j << "},\"reach\":{"; { bool first = true; for (auto &p : reach) { j << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; } }
    j << "},\"functions\":["; { bool first = true; for (auto &p : cfuncs) { CFunc *c = p.second; if (!c->inRepo || !c->hits) continue; u64 cov = 0; for (bool b : c->covered) cov += b; j << (first ? "" : ",") << "[\"" << jesc(c->dname) << "\",\"" << jesc(c->file.substr(optRepo.size())) << "\"," << cov << "," << c->blocks.size() << "," << c->hits << "]"; first = false; } }
    j << "],\"violations\":["; for (size_t i = 0; i < viols.size(); ++i) { auto &v = viols[i]; j << (i ? "," : "") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":" << jpairs(v.inputs) << ",\"trace\":["; for (size_t k = 0; k < v.trace.size(); ++k) j << (k ? "," : "") << "\"" << jesc(v.trace[k]) << "\""; j << "]}"; }
    j << "],\"witnesses\":["; for (size_t i = 0; i < witnesses.size(); ++i) j << (i ? "," : "") << "{\"inputs\":" << jpairs(witnesses[i].inputs) << ",\"obs\":" << jpairs(witnesses[i].obs) << "}";
    j << "]}\n";
    if (out.empty()) fputs(j.str().c_str(), stdout); else { std::ofstream f(out); f << j.str(); }
    if (optVerbose) {
        fprintf(stderr, "paths %llu instr %llu forks %llu queries %llu cached %llu solver %.2fs wall %.2fs complete %d\n", (unsigned long long)nPaths, (unsigned long long)nInstr, (unsigned long long)nForks, (unsigned long long)gStats.queries, (unsigned long long)gStats.cached, gStats.time, elapsed(), complete);
        std::vector<std::pair<u64, std::string>> fs; for (auto &p : forkSites) fs.push_back({p.second, p.first}); std::sort(fs.rbegin(), fs.rend()); for (size_t i = 0; i < fs.size() && i < 15; ++i) fprintf(stderr, "  fork %llu %s\n", (unsigned long long)fs[i].first, fs[i].second.c_str());
    }
    fflush(stdout); _exit(viols.empty() ? 0 : 1);
}
#include <pthread.h>
static int g_argc; static char **g_argv; static int g_rc;
static void *thr(void *) { g_rc = realMain(g_argc, g_argv); return nullptr; }
int main(int argc, char **argv) {
    g_argc = argc; g_argv = argv; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1ull << 30); pthread_t t; pthread_create(&t, &a, thr, nullptr); pthread_join(t, nullptr); return g_rc;
}
