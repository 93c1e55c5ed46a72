#pragma once
#include <tuple>
#include "expr.h"
#include <set>
#include <functional>
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DataLayout.h"

struct Agg;
struct Val { // scalar: e==null -> concrete c (width from type, <=64) ; e -> expression ; aggregate -> agg
    E e = nullptr; u64 c = 0; Agg *agg = nullptr;
    Val() {} Val(u64 v) : c(v) {}
    static Val of(E e) { Val v; if (e->isConst() && e->w <= 64) v.c = (u64)e->c; else v.e = e; return v; }
    bool conc() const { return !e && !agg; }
};
struct Agg { std::vector<Val> f; };
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct RC { mutable u32 rc = 0; };
template <class T> struct P {
    T *p = nullptr;
    P() {} P(T *t) : p(t) { if (p) ++p->rc; } P(const P &o) : p(o.p) { if (p) ++p->rc; }
    P(P &&o) : p(o.p) { o.p = nullptr; }
    ~P() { rel(); } void rel() { if (p && --p->rc == 0) delete p; p = nullptr; }
    P &operator=(const P &o) { if (o.p) ++o.p->rc; rel(); p = o.p; return *this; }
    P &operator=(P &&o) { std::swap(p, o.p); return *this; }
    T *operator->() const { return p; } T &operator*() const { return *p; } explicit operator bool() const { return p; }
};

#define UNINIT ((E)1)
enum ObjKind : u8 { OK_Heap, OK_Stack, OK_Global, OK_Func, OK_Extern };
struct Obj : RC {
    u64 size = 0; ObjKind kind = OK_Heap; bool readonly = false; bool isArrayNew = false; u8 alloc = 0; // alloc: 0 malloc 1 new 2 new[]
    std::vector<u8> d; std::vector<E> s; // s empty => all concrete
    const char *name = "";
    Obj() {} Obj(const Obj &o) : RC(), size(o.size), kind(o.kind), readonly(o.readonly), isArrayNew(o.isArrayNew), alloc(o.alloc), d(o.d), s(o.s), name(o.name) {}
};
struct Chunk : RC { P<Obj> o[64]; u8 freed[64]; Chunk() { memset(freed, 0, 64); } Chunk(const Chunk &c) : RC() { for (int i = 0; i < 64; ++i) { o[i] = c.o[i]; freed[i] = c.freed[i]; } } };
struct Mem {
    std::vector<P<Chunk>> ch; u64 next = 1;
    Obj *get(u64 id) const { u64 k = id >> 6; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id & 63].p; }
    bool wasFreed(u64 id) const { u64 k = id >> 6; if (k >= ch.size() || !ch[k]) return false; return ch[k]->freed[id & 63]; }
    Chunk *wchunk(u64 id) { u64 k = id >> 6; if (k >= ch.size()) ch.resize(k + 1); if (!ch[k]) ch[k] = P<Chunk>(new Chunk); else if (ch[k]->rc > 1) ch[k] = P<Chunk>(new Chunk(*ch[k])); return ch[k].p; }
    Obj *wget(u64 id) { Chunk *c = wchunk(id); P<Obj> &o = c->o[id & 63]; if (o->rc > 1) o = P<Obj>(new Obj(*o)); return o.p; }
    u64 add(Obj *o) { u64 id = next++; wchunk(id)->o[id & 63] = P<Obj>(o); return id; }
    void free(u64 id) { Chunk *c = wchunk(id); c->o[id & 63] = P<Obj>(); c->freed[id & 63] = 1; }
};
static const unsigned ADDR_SHIFT = 24; static const u64 ADDR_OFF = 0x400000;
inline u64 addrOf(u64 id) { return (id << ADDR_SHIFT) + ADDR_OFF; }

struct CI; struct CFunc;
struct CBlock { const llvm::BasicBlock *bb; u32 first; };
struct Op { bool isConst; u32 idx; };
typedef std::function<void()> Fn;
struct GepIdx { Op op; u64 scale; unsigned w; };
struct CI {
    const llvm::Instruction *I; unsigned opc; int dst = -1; unsigned w = 0; // result width
    unsigned w0 = 0; // width of operand 0
    std::vector<Op> ops; std::vector<GepIdx> gep; u64 imm = 0;
    llvm::Function *callee = nullptr; int builtin = -1; unsigned pred = 0;
    u32 t0 = 0, t1 = 0; // successor block indices
    std::vector<std::pair<u128, u32>> cases;
    llvm::Type *ty = nullptr;
};
struct CFunc {
    llvm::Function *F; std::vector<CI> code; std::vector<CBlock> blocks; std::map<const llvm::BasicBlock *, u32> bidx;
    u32 nslots = 0; std::vector<Val> consts; bool inRepo = false; std::string dname, file; std::vector<bool> covered; u64 hits = 0;
    // phi moves: per block, list of (dst slot, per-pred op)
    std::vector<std::vector<std::pair<int, std::map<u32, Op>>>> phis;
};
struct Frame {
    CFunc *cf; u32 ip = 0; u32 block = 0; std::vector<Val> regs; std::vector<u64> allocas; const CI *call = nullptr; // the call instruction in the *caller*
    int special = 0; // 1: ignore return value
};
struct Caught { u64 exc; };
struct ExcInfo { u64 ti = 0; u64 adjusted = 0; int handlers = 0; };
struct Input { std::string name; std::vector<E> bytes; };
struct Thread { std::vector<Frame> stack; std::vector<u64> caught; bool done = false, pre = false; u64 waitMutex = 0; u64 waitJoin = 0; u64 waitAddr = 0, waitVal = 0; };
// ---- data races: who touched each byte last, in vector time
typedef uint16_t u16; static const unsigned MAXT = 8;
struct VC { u16 c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC &o) { for (unsigned i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Cell { u16 wc = 0, rc[MAXT] = {0}; u8 wt = 0; u32 ws = 0, rs[MAXT] = {0}; }; // sites: numbers of instructions
struct Shadow : RC { std::vector<Cell> v; Shadow(size_t n) : v(n) {} Shadow(const Shadow &o) : RC(), v(o.v) {} };
struct SChunk : RC { P<Shadow> o[64]; SChunk() {} SChunk(const SChunk &c) : RC() { for (int i = 0; i < 64; ++i) o[i] = c.o[i]; } };
struct State {
    bool races = false; u64 raceBase = 0; std::vector<VC> vc; std::map<u64, VC> syncVC; std::vector<std::tuple<u64, u64, std::string>> raceNames; std::vector<P<SChunk>> sh;
    Shadow *shadow(u64 id, size_t n) { u64 k = id >> 6; if (k >= sh.size()) sh.resize(k + 1); if (!sh[k]) sh[k] = P<SChunk>(new SChunk); else if (sh[k]->rc > 1) sh[k] = P<SChunk>(new SChunk(*sh[k])); P<Shadow> &o = sh[k]->o[id & 63]; if (!o) o = P<Shadow>(new Shadow(n)); else if (o->rc > 1) o = P<Shadow>(new Shadow(*o)); return o.p; }
    void acquire(u64 a) { if (!races || th.size() < 2) return; auto it = syncVC.find(a); if (it != syncVC.end()) vc[cur].join(it->second); }
    void release(u64 a) { if (!races || th.size() < 2) return; syncVC[a].join(vc[cur]); ++vc[cur].c[cur]; }
    std::vector<Thread> th; u32 cur = 0;
    Mem mem; std::vector<E> pc; ModelP model;
    std::map<u64, ExcInfo> exc; u64 pendExc = 0; 
    std::vector<Input> inputs; std::vector<std::pair<std::string, Val>> obs; 
    u64 steps = 0; u32 depth = 0; u32 concForks = 0; u32 nsym = 0; u32 switches = 0; u32 maxSwitches = ~0u;
    std::map<u64, int> locks; // mutex addr -> owner+1
    bool dead = false;
    std::vector<Frame> &st() { return th[cur].stack; }
    Frame &top() { return th[cur].stack.back(); }
};
