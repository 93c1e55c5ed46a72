// Intrinsics and environment builtins.  A builtin returns true when it produced a value and the
// caller should advance; false when it ended the path or transferred control itself.
typedef std::vector<Val> VV;
static u64 conc(State &s, const Val &v, unsigned w = 64) { return concretize(s, v, w); }

static bool memcmpB(State &s, const CI &ci, VV &a, Val &r) {
    u64 n = conc(s, a[2]); if (s.dead) return false; if (!n) { r = Val(0); return true; }
    Val pa = Val(conc(s, a[0])); if (s.dead) return false; Val pb = Val(conc(s, a[1])); if (s.dead) return false;
    u64 oa, ob; E sa, sb; 
    // libc may stop at the first difference, but the standard lets memcmp touch all n bytes
    u64 ia = resolve(s, pa, n, false, oa, sa); if (!ia) return false; u64 ib = resolve(s, pb, n, false, ob, sb); if (!ib) return false;
    E e = mkConst(0, 32); unsigned w = 32;
    // find first position where they may differ; build from the end
    for (u64 i = n; i-- > 0;) {
        E x = toE(readBytes(s, s.mem.get(ia), oa + i, 1, 8, ia), 8), y = toE(readBytes(s, s.mem.get(ib), ob + i, 1, 8, ib), 8);
        if (x == y) continue;
        E d = mkBin(KSub, mkZExt(x, w), mkZExt(y, w));
        if (x->isConst() && y->isConst()) e = d; else e = mkIte(mkEq(x, y), e, d);
    }
    r = Val::of(e); return true;
}
static bool bcmpB(State &s, const CI &ci, VV &a, Val &r) {
    u64 n = conc(s, a[2]); if (s.dead) return false; if (!n) { r = Val(0); return true; }
    Val pa = Val(conc(s, a[0])); if (s.dead) return false; Val pb = Val(conc(s, a[1])); if (s.dead) return false;
    u64 oa, ob; E sa, sb; u64 ia = resolve(s, pa, n, false, oa, sa); if (!ia) return false; u64 ib = resolve(s, pb, n, false, ob, sb); if (!ib) return false;
    E eq = mkTrue();
    for (u64 i = 0; i < n; ++i) { E x = toE(readBytes(s, s.mem.get(ia), oa + i, 1, 8, ia), 8), y = toE(readBytes(s, s.mem.get(ib), ob + i, 1, 8, ib), 8); eq = mkAnd(eq, mkEq(x, y)); }
    r = Val::of(mkZExt(mkNot(eq), 32)); return true;
}
static bool memeqB(State &s, const CI &ci, VV &a, Val &r) { if (!bcmpB(s, ci, a, r)) return false; r = Val::of(mkZExt(mkEq(toE(r, 32), mkConst(0, 32)), 32)); return true; }

static bool allocB(State &s, const Val &sz, u8 kind, bool zero, bool thr, Val &r) {
    u64 n;
    if (!sz.conc()) { // sizes above the cap behave as an allocation failure
        bool big = decide(s, mkBin(KUlt, mkConst(optAllocCap, 64), sz.e)); if (s.dead) return false;
        if (big) { if (thr) { throwBadAlloc(s); return false; } r = Val(0); return true; }
        n = conc(s, sz); if (s.dead) return false;
    } else n = sz.c;
    if (n > optAllocCap) { if (thr) { throwBadAlloc(s); return false; } r = Val(0); return true; }
    u64 id = newObj(s, n, OK_Heap, !zero, "heap", kind); r = Val(addrOf(id)); return true;
}
static bool freeB(State &s, const Val &p, u8 kind) {
    u64 a = conc(s, p); if (s.dead) return false; if (!a) return true;
    u64 id = a >> ADDR_SHIFT; Obj *o = s.mem.get(id);
    if (!o) { report(s, "memory", s.mem.wasFreed(id) ? "double free" : "free of wild pointer", *s.model); s.dead = true; return false; }
    if (o->kind != OK_Heap || a != addrOf(id)) { report(s, "memory", "invalid free (not the start of a heap block)", *s.model); s.dead = true; return false; }
    if (o->alloc != kind) { report(s, "memory", "mismatched allocation/deallocation", *s.model); s.dead = true; return false; }
    if (s.races && s.th.size() > 1) { raceAccess(s, id, 0, o->size, true); if (s.dead) return false; }
    s.mem.free(id); return true;
}
#define B(n) static bool n(State &s, const CI &ci, VV &a, Val &r)
B(b_malloc) { return allocB(s, a[0], 0, false, false, r); }
B(b_calloc) { u64 n = conc(s, a[0]); if (s.dead) return false; u64 m = conc(s, a[1]); if (s.dead) return false; return allocB(s, Val(n * m), 0, true, false, r); }
B(b_realloc) {
    u64 p = conc(s, a[0]); if (s.dead) return false; u64 n = conc(s, a[1]); if (s.dead) return false; if (!p) return allocB(s, Val(n), 0, false, false, r);
    u64 id = p >> ADDR_SHIFT; Obj *o = s.mem.get(id); if (!o || o->kind != OK_Heap) { report(s, "memory", "realloc of invalid pointer", *s.model); s.dead = true; return false; }
    u64 old = o->size; if (!allocB(s, Val(n), 0, false, false, r)) return false; if (!r.c) return true; if (!doMemcpy(s, r, Val(p), std::min(old, n))) return false; return freeB(s, Val(p), 0);
}
B(b_free) { return freeB(s, a[0], 0); }
B(b_new) { return allocB(s, a[0], 1, false, true, r); }
B(b_newarr) { return allocB(s, a[0], 2, false, true, r); }
B(b_new_nt) { return allocB(s, a[0], 1, false, false, r); }
B(b_newarr_nt) { return allocB(s, a[0], 2, false, false, r); }
B(b_del) { return freeB(s, a[0], 1); }
B(b_delarr) { return freeB(s, a[0], 2); }
B(b_memcpy) { u64 n = conc(s, a[2]); if (s.dead) return false; r = a[0]; return doMemcpy(s, a[0], a[1], n); }
B(b_mempcpy) { u64 n = conc(s, a[2]); if (s.dead) return false; r = a[0].conc() ? Val(a[0].c + n) : Val::of(mkBin(KAdd, a[0].e, mkConst(n, 64))); return doMemcpy(s, a[0], a[1], n); }
B(b_memset) { u64 n = conc(s, a[2]); if (s.dead) return false; r = a[0]; return doMemset(s, a[0], a[1], n); }
B(b_zero) { r = Val(0); return true; }
B(b_one) { r = Val(1); return true; }
B(b_arg0) { r = a[0]; return true; }

// ---- harness API
B(p_symbolic) { // pse_symbolic(void*, size_t, const char*)
    u64 p = conc(s, a[0]); if (s.dead) return false; u64 n = conc(s, a[1]); if (s.dead) return false; std::string nm = readCStr(s, a[2].c);
    u64 off; E so; if (n) { u64 id = resolve(s, Val(p), n, true, off, so); if (!id) return false; Input in; in.name = nm; Obj *o = s.mem.wget(id); if (o->s.empty()) o->s.assign(o->size, nullptr);
        for (u64 i = 0; i < n; ++i) {
            // reuse one symbol per (order, index) so that sibling paths share solver cache entries
            static std::map<std::pair<u32, std::string>, E> symcache; auto key = std::make_pair(s.nsym++, nm); auto it = symcache.find(key); E e; if (it == symcache.end()) { e = mkSym(nm + "[" + std::to_string(i) + "]", 8); symcache[key] = e; } else e = it->second;
            o->s[off + i] = e; in.bytes.push_back(e); }
        s.inputs.push_back(in); }
    return true;
}
B(p_assume) {
    E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32)));
    if (c->isConst()) { if (!c->c) { s.dead = true; ++nInfeasible; return false; } return true; }
    ModelP m; SatRes q = solveWith(s.pc, c, s.model, m); if (q != SAT) { if (q == UNKNOWN) ++nUnknown; s.dead = true; ++nInfeasible; return false; } s.model = m; addC(s, c); return true;
}
B(p_assert) {
    ++nAsserts; E c = mkNot(mkEq(toE(a[0], 32), mkConst(0, 32))); std::string msg = readCStr(s, a[1].c);
    ++reach["assert:" + msg];
    if (c->isConst()) { if (!c->c) { report(s, "assertion", msg, *s.model); s.dead = true; return false; } return true; }
    ModelP m; ++nAssertQ; SatRes q = solveWith(s.pc, mkNot(c), s.model, m, true);
    if (q == SAT) { report(s, "assertion", msg, *m); ModelP m2; if (solveWith(s.pc, c, s.model, m2) != SAT) { s.dead = true; return false; } s.model = m2; addC(s, c); }
    else if (q == UNKNOWN) { ++nUnknown; addC(s, c); if (!evalExpr(c, *s.model)) { s.dead = true; return false; } }
    return true;
}
B(p_reach) { ++reach[readCStr(s, a[0].c)]; return true; }
B(p_stop) { s.dead = true; ++nInfeasible; return false; }
B(p_fail) { report(s, "assertion", readCStr(s, a[0].c), *s.model); ++nAsserts; s.dead = true; return false; }
B(p_conc) { r = Val(conc(s, a[0])); return !s.dead; }
B(p_arg) { u64 i = conc(s, a[0]); r = Val(i < gArgs.size() ? gArgs[i] : 0); return true; }
B(p_observe) { s.obs.push_back({readCStr(s, a[0].c), a[1]}); return true; }
B(p_issym) { r = Val(1); return true; }
B(p_debug) { fprintf(stderr, "DBG %s %s\n", readCStr(s, a[0].c).c_str(), a[1].conc() ? std::to_string(a[1].c).c_str() : exprStr(a[1].e, 8).c_str()); return true; }
B(p_heapsize) { // size of the heap block a pointer starts (for harness oracles)
    u64 p = conc(s, a[0]); if (s.dead) return false; Obj *o = s.mem.get(p >> ADDR_SHIFT); r = Val(o ? o->size : 0); return true; }
B(p_livehb) { u64 n = 0; for (u64 i = 1; i < s.mem.next; ++i) { Obj *o = s.mem.get(i); if (o && o->kind == OK_Heap) ++n; } r = Val(n); return true; }

// ---- C++ ABI
B(x_alloc_exc) { u64 n = conc(s, a[0]); if (s.dead) return false; u64 id = newObj(s, n, OK_Heap, false, "exc"); r = Val(addrOf(id)); return true; }
B(x_throw) { u64 e = a[0].c, t = a[1].c; throwObj(s, e, t); return false; }
B(x_begin_catch) { u64 e = a[0].c; ExcInfo &ei = s.exc[e]; ++ei.handlers; s.th[s.cur].caught.push_back(e); r = Val(ei.adjusted ? ei.adjusted : e); return true; }
B(x_get_exc_ptr) { u64 e = a[0].c; ExcInfo &ei = s.exc[e]; r = Val(ei.adjusted ? ei.adjusted : e); return true; }
B(x_end_catch) { auto &c = s.th[s.cur].caught; if (!c.empty()) { --s.exc[c.back()].handlers; c.pop_back(); } return true; }
B(x_rethrow) { auto &c = s.th[s.cur].caught; if (c.empty()) { report(s, "exception", "rethrow with no active exception", *s.model); s.dead = true; return false; } u64 e = c.back(); unwind(s, e); return false; }
B(x_dyncast) {
    u64 p = conc(s, a[0]); if (s.dead) return false; if (!p) { r = Val(0); return true; } u64 vp, top, ti; if (!readConcU64(s, p, vp) || !readConcU64(s, vp - 16, top) || !readConcU64(s, vp - 8, ti)) return false;
    u64 adj; if (tiToBase(s, ti, a[2].c, p + top, adj)) r = Val(adj); else r = Val(0); return true; }
B(x_abort) { report(s, "abort", "abort/terminate called", *s.model); s.dead = true; return false; }
B(x_pure) { report(s, "abort", "pure virtual call", *s.model); s.dead = true; return false; }
B(x_assertfail) { report(s, "abort", "C assert failed: " + readCStr(s, a[0].c), *s.model); s.dead = true; return false; }
B(x_guard_acq) { Val v; gAtomic = true; bool ok = doLoad(s, a[0], Type::getInt8Ty(M->getContext()), v); gAtomic = false; if (!ok) return false; s.acquire(a[0].c); r = Val(v.conc() && v.c ? 0 : 1); return true; }
B(x_guard_rel) { s.release(a[0].c); gAtomic = true; bool ok = doStore(s, a[0], Type::getInt8Ty(M->getContext()), Val(1)); gAtomic = false; return ok; }
B(x_badcast) { GlobalValue *g = M->getNamedValue("_ZTISt8bad_cast"); if (!g) return unsupported(s, "bad_cast typeinfo"); GlobalValue *vt = M->getNamedValue("_ZTVSt8bad_cast"); u64 id = newObj(s, 16, OK_Heap, false, "exc"); if (vt) writeBytes(s.mem.wget(id), 0, 8, 64, Val(globalAddr(vt) + 16)); throwObj(s, addrOf(id), globalAddr(g)); return false; }
B(x_uncaught) { r = Val(0); return true; }

// ---- threads
B(t_races) { s.races = true; s.raceBase = s.mem.next; if (s.vc.empty()) { s.vc.resize(1); s.vc[0].c[0] = 1; } return true; }
B(t_racename) { u64 p = conc(s, a[0]), n = conc(s, a[1]); if (s.dead) return false; s.raceNames.push_back(std::make_tuple(p, p + n, readCStr(s, a[2].c))); return true; }
B(t_acquire) { s.acquire(conc(s, a[0])); return true; }
B(t_release) { s.release(conc(s, a[0])); return true; }
B(t_spawn) { // pse_spawn(void(*)(void*), void*) -> tid
    auto it = faddr.find(conc(s, a[0])); if (s.dead) return false; if (it == faddr.end()) return unsupported(s, "spawn target"); Thread t; CFunc *cf = compileF(it->second); ++cf->hits; Frame fr; fr.cf = cf; fr.regs.resize(cf->nslots); if (cf->F->arg_size()) fr.regs[0] = a[1]; cf->covered[0] = true; t.stack.push_back(fr); s.th.push_back(t); if (s.races) { if (s.th.size() > MAXT) return unsupported(s, "threads"); while (s.vc.size() < s.th.size()) s.vc.push_back(VC()); u32 n = s.th.size() - 1; s.vc[n] = s.vc[s.cur]; s.vc[n].c[n] = 1; ++s.vc[s.cur].c[s.cur]; } r = Val(s.th.size() - 1); return true; }
B(t_join) { u64 t = conc(s, a[0]); if (s.dead) return false; if (t >= s.th.size()) return true; if (s.th[t].done) { s.th[s.cur].waitJoin = 0; s.acquire(t); return true; } s.th[s.cur].waitJoin = t + 1; pickThread(s, false); return false; }
// a scheduling point: (1) maybe switch, marked so that re-execution continues
B(t_yield) { if (s.th.size() == 1) return true; // advance first, then let pickThread fork over successors
    if (ci.dst >= 0) s.top().regs[ci.dst] = Val(0); advance(s, ci); pickThread(s, true); return false; }
B(t_switches) { u64 n = conc(s, a[0]); if (s.dead) return false; s.maxSwitches = (u32)n; return true; }
B(t_self) { r = Val((u64)s.cur); return true; }
// a switch is possible before a lock is taken and after it is released
B(t_lock) {
    u64 m = conc(s, a[0]); if (s.dead) return false;
    if (s.th.size() > 1 && !s.th[s.cur].pre) { s.th[s.cur].pre = true; pickThread(s, true); return false; }
    s.th[s.cur].waitMutex = 0;
    int &o = s.locks[m];
    if (s.th.size() > 1 && !(o == (int)s.cur + 1)) {
        if (o) { s.th[s.cur].waitMutex = m; pickThread(s, false); return false; }
    }
    if (o) { report(s, "deadlock", "relock of a held mutex", *s.model); s.dead = true; return false; }
    o = s.cur + 1; s.th[s.cur].pre = false; s.acquire(m); r = Val(0); return true; }
B(t_trylock) { u64 m = conc(s, a[0]); if (s.dead) return false; int &o = s.locks[m]; if (o) r = Val(16); else { o = s.cur + 1; s.acquire(m); r = Val(0); } return true; }
B(t_unlock) {
    u64 m = conc(s, a[0]); if (s.dead) return false; int &o = s.locks[m]; if (o != (int)s.cur + 1) { report(s, "lock", "unlock of a mutex not held", *s.model); s.dead = true; return false; } o = 0; s.release(m); r = Val(0);
    if (s.th.size() > 1) { if (ci.dst >= 0) s.top().regs[ci.dst] = Val(0); advance(s, ci); pickThread(s, true); return false; }
    return true; }
B(t_lockcount) { u64 n = 0; for (auto &p : s.locks) if (p.second) ++n; r = Val(n); return true; }


// ---- sprintf family (concrete format; hex of symbolic values stays symbolic, other symbolic numbers are forked)
static bool fmtOut(State &s, const CI &ci, VV &a, unsigned fi, std::vector<E> &out) {
    std::string f = readCStr(s, conc(s, a[fi])); unsigned ai = fi + 1; auto put = [&](char c) { out.push_back(mkConst((u8)c, 8)); };
    for (size_t i = 0; i < f.size(); ++i) {
        if (f[i] != '%') { put(f[i]); continue; }
        ++i; if (i < f.size() && f[i] == '%') { put('%'); continue; }
        bool zero = false, left = false; while (i < f.size() && strchr("0-+ #", f[i])) { if (f[i] == '0') zero = true; if (f[i] == '-') left = true; ++i; }
        unsigned width = 0; while (i < f.size() && isdigit(f[i])) width = width * 10 + (f[i++] - '0'); int prec = -1; if (i < f.size() && f[i] == '.') { ++i; prec = 0; while (i < f.size() && isdigit(f[i])) prec = prec * 10 + (f[i++] - '0'); }
        unsigned bits = 32; while (i < f.size() && strchr("lhzjt", f[i])) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') bits = 64; else bits = bits == 16 ? 8 : 16; ++i; }
        if (i >= f.size() || ai >= a.size()) return unsupported(s, "printf format " + f);
        char c = f[i]; unsigned aw = tyW(cast<CallBase>(ci.I)->getArgOperand(ai)->getType()); Val v = a[ai++]; std::vector<E> t; bool neg = false;
        if (c == 's') { u64 p = conc(s, v); if (s.dead) return false; std::string x = readCStr(s, p); if (prec >= 0 && x.size() > (size_t)prec) x.resize(prec); for (char k : x) t.push_back(mkConst((u8)k, 8)); prec = -1; zero = false; }
        else if (c == 'c') t.push_back(mkExtract(toE(v, aw), 0, 8));
        else if (c == 'x' || c == 'X' || c == 'd' || c == 'i' || c == 'u') {
            E e = toE(v, aw); if (e->w > bits) e = mkExtract(e, 0, bits); 
            if (c == 'x' || c == 'X') {
                unsigned n = 1; while (n * 4 < e->w) { bool lt = decide(s, mkBin(KUlt, e, mkConst((u128)1 << (n * 4), e->w))); if (s.dead) return false; if (lt) break; ++n; }
                for (unsigned k = n; k-- > 0;) { unsigned lo = k * 4; E d = mkZExt(mkExtract(e, lo, std::min(4u, e->w - lo)), 8); t.push_back(mkIte(mkBin(KUlt, d, mkConst(10, 8)), mkBin(KAdd, d, mkConst('0', 8)), mkBin(KAdd, d, mkConst((c == 'x' ? 'a' : 'A') - 10, 8)))); }
                if (prec == 0) return unsupported(s, "printf %.0x");
            } else { u64 x = conc(s, Val::of(e), e->w); if (s.dead) return false; std::string d; if (c != 'u') { int64_t y = e->w >= 64 ? (int64_t)x : (int64_t)(x << (64 - e->w)) >> (64 - e->w); neg = y < 0; d = std::to_string(neg ? 0 - (u64)y : (u64)y); } else d = std::to_string(x); for (char k : d) t.push_back(mkConst((u8)k, 8)); }
            while (prec > (int)t.size()) t.insert(t.begin(), mkConst('0', 8)); if (prec >= 0) zero = false;
        } else return unsupported(s, std::string("printf conversion %") + c);
        while (zero && !left && t.size() + neg < width) t.insert(t.begin(), mkConst('0', 8)); if (neg) t.insert(t.begin(), mkConst('-', 8));
        while (t.size() < width) { if (left) t.push_back(mkConst(' ', 8)); else t.insert(t.begin(), mkConst(' ', 8)); }
        out.insert(out.end(), t.begin(), t.end());
    }
    return true;
}
B(b_sprintf) { std::vector<E> o; if (!fmtOut(s, ci, a, 1, o)) return false; o.push_back(mkConst(0, 8)); u64 d = conc(s, a[0]); Type *t8 = Type::getInt8Ty(M->getContext()); for (size_t i = 0; i < o.size(); ++i) if (!doStore(s, Val(d + i), t8, Val::of(o[i]))) return false; r = Val(o.size() - 1); return true; }
B(b_snprintf) { std::vector<E> o; if (!fmtOut(s, ci, a, 2, o)) return false; u64 n = conc(s, a[1]); if (s.dead) return false; u64 d = conc(s, a[0]); Type *t8 = Type::getInt8Ty(M->getContext()); for (size_t i = 0; n && i < o.size() && i < n - 1; ++i) if (!doStore(s, Val(d + i), t8, Val::of(o[i]))) return false; if (n && !doStore(s, Val(d + std::min<u64>(o.size(), n - 1)), t8, Val(0))) return false; r = Val(o.size()); return true; }
// cond-variable support: block until *(u64*)addr >= v
B(t_waituntil) { u64 p = conc(s, a[0]); if (s.dead) return false; u64 v = conc(s, a[1]); if (s.dead) return false; u64 x; if (!readConcU64(s, p, x)) return false; if (x >= v) { s.th[s.cur].waitAddr = 0; if (s.races) for (auto &o : s.vc) s.vc[s.cur].join(o); return true; } s.th[s.cur].waitAddr = p; s.th[s.cur].waitVal = v; pickThread(s, false); return false; }

static void initBuiltins() {
    
    auto add = [](const char *n, BFn f) { builtinIdx[n] = builtins.size(); builtins.push_back(f); };
    add("malloc", b_malloc); add("calloc", b_calloc); add("realloc", b_realloc); add("free", b_free);
    add("_Znwm", b_new); add("_Znam", b_newarr); add("_ZnwmRKSt9nothrow_t", b_new_nt); add("_ZnamRKSt9nothrow_t", b_newarr_nt); add("_ZnwmSt11align_val_t", b_new);
    for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) add(n, b_del);
    for (const char *n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) add(n, b_delarr);
    add("memcpy", b_memcpy); add("memmove", b_memcpy); add("memset", b_memset); add("mempcpy", b_mempcpy); add("memcmp", memcmpB); add("bcmp", bcmpB);
    add("pse_symbolic", p_symbolic); add("pse_assume", p_assume); add("pse_assert_", p_assert); add("pse_reach", p_reach); add("pse_stop", p_stop); add("pse_fail", p_fail); add("pse_concretize", p_conc); add("pse_arg", p_arg); add("pse_observe", p_observe); add("pse_symbolic_run", p_issym); add("pse_debug", p_debug); add("pse_memeq", memeqB); add("pse_heap_size", p_heapsize); add("pse_live_heap", p_livehb);
    add("pse_spawn", t_spawn); add("pse_races", t_races); add("pse_race_name", t_racename); add("pse_hb_acquire", t_acquire); add("pse_hb_release", t_release); add("pse_join", t_join); add("pse_yield", t_yield); add("pse_held_locks", t_lockcount); add("pse_switches", t_switches); add("pse_self", t_self); add("pse_lock", t_lock); add("pse_trylock", t_trylock); add("pse_unlock", t_unlock);
    add("__cxa_allocate_exception", x_alloc_exc); add("__cxa_free_exception", b_zero); add("__cxa_throw", x_throw); add("__cxa_begin_catch", x_begin_catch); add("__cxa_end_catch", x_end_catch); add("__cxa_rethrow", x_rethrow); add("__cxa_get_exception_ptr", x_get_exc_ptr); add("__dynamic_cast", x_dyncast); add("__cxa_bad_cast", x_badcast); add("__cxa_pure_virtual", x_pure);
    add("__cxa_guard_acquire", x_guard_acq); add("__cxa_guard_release", x_guard_rel); add("__cxa_guard_abort", b_zero); add("__cxa_atexit", b_zero); add("atexit", b_zero); add("__cxa_thread_atexit", b_zero);
    add("abort", x_abort); add("_ZSt9terminatev", x_abort); add("__clang_call_terminate_", x_abort); add("exit", x_abort); add("_exit", x_abort); add("__assert_fail", x_assertfail); add("_ZSt18uncaught_exceptionv", x_uncaught); add("_ZSt19uncaught_exceptionsv", x_uncaught);
    add("_ZNSt8ios_base4InitC1Ev", b_zero); add("_ZNSt8ios_base4InitD1Ev", b_zero);
    add("pthread_mutex_lock", t_lock); add("pthread_mutex_trylock", t_trylock); add("pthread_mutex_unlock", t_unlock); add("pthread_mutex_init", b_zero); add("pthread_mutex_destroy", b_zero);
    for (const char *n : {"pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_condattr_init", "pthread_condattr_destroy", "pthread_condattr_setclock", "pthread_mutexattr_init", "pthread_mutexattr_destroy", "pthread_mutexattr_settype", "sched_yield", "puts", "printf", "fprintf", "fflush", "fputs", "putchar", "fputc", "fwrite", "perror"}) add(n, b_zero);
    add("sprintf", b_sprintf); add("snprintf", b_snprintf); add("_ZN5boost6system6detail8snprintfEPcmPKcz", b_snprintf); add("pse_wait_until", t_waituntil);
    add("__gthread_active_p", b_one); add("pthread_self", b_one);
}

static bool intrinsic(State &s, const CI &ci, VV &a, Val &r) {
    auto *II = cast<IntrinsicInst>(ci.I); unsigned w = ci.w;
    auto ov = [&](Kind k, bool sg) {
        unsigned ww = tyW(II->getArgOperand(0)->getType()); E x = toE(a[0], ww), y = toE(a[1], ww); E res = mkBin(k, x, y);
        unsigned W = k == KMul ? 2 * ww : ww + 1; E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W); E R = mkBin(k, X, Y); E o;
        if (W > 128) { // only concrete 64x64 would fit 128
            o = mkFalse(); }
        else o = mkNot(mkEq(R, sg ? mkSExt(res, W) : mkZExt(res, W)));
        Agg *g = new Agg; g->f = {Val::of(res), Val::of(o)}; r = Val(); r.agg = g; };
    switch (II->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n = conc(s, a[2]); if (s.dead) return false; return doMemcpy(s, a[0], a[1], n); }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = conc(s, a[2]); if (s.dead) return false; return doMemset(s, a[0], a[1], n); }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::stackrestore: case Intrinsic::vaend: r = Val(0); return true;
    case Intrinsic::stacksave: r = Val(0); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r = a[0]; return true;
    case Intrinsic::objectsize: r = Val((a.size() > 1 && a[1].c) ? 0 : (w == 64 ? ~0ull : (1ull << w) - 1)); return true;
    case Intrinsic::is_constant: r = Val(0); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: report(s, "abort", "trap", *s.model); s.dead = true; return false;
    case Intrinsic::eh_typeid_for: r = Val((a[0].c ? a[0].c >> ADDR_SHIFT : 1) & 0xffffffffu); return true;
    case Intrinsic::umul_with_overflow: ov(KMul, false); return true;
    case Intrinsic::smul_with_overflow: ov(KMul, true); return true;
    case Intrinsic::uadd_with_overflow: ov(KAdd, false); return true;
    case Intrinsic::sadd_with_overflow: ov(KAdd, true); return true;
    case Intrinsic::usub_with_overflow: { unsigned ww = tyW(II->getArgOperand(0)->getType()); E x = toE(a[0], ww), y = toE(a[1], ww); Agg *g = new Agg; g->f = {Val::of(mkBin(KSub, x, y)), Val::of(mkBin(KUlt, x, y))}; r = Val(); r.agg = g; return true; }
    case Intrinsic::ssub_with_overflow: ov(KSub, true); return true;
    case Intrinsic::umin: { E x = toE(a[0], w), y = toE(a[1], w); r = Val::of(mkIte(mkBin(KUlt, x, y), x, y)); return true; }
    case Intrinsic::umax: { E x = toE(a[0], w), y = toE(a[1], w); r = Val::of(mkIte(mkBin(KUlt, x, y), y, x)); return true; }
    case Intrinsic::smin: { E x = toE(a[0], w), y = toE(a[1], w); r = Val::of(mkIte(mkBin(KSlt, x, y), x, y)); return true; }
    case Intrinsic::smax: { E x = toE(a[0], w), y = toE(a[1], w); r = Val::of(mkIte(mkBin(KSlt, x, y), y, x)); return true; }
    case Intrinsic::abs: { E x = toE(a[0], w); r = Val::of(mkIte(mkBin(KSlt, x, mkConst(0, w)), mkBin(KSub, mkConst(0, w), x), x)); return true; }
    case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w); E t = mkBin(KAdd, x, y); r = Val::of(mkIte(mkBin(KUlt, t, x), mkConst(~(u128)0, w), t)); return true; }
    case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); r = Val::of(mkIte(mkBin(KUlt, x, y), mkConst(0, w), mkBin(KSub, x, y))); return true; }
    case Intrinsic::bswap: { E x = toE(a[0], w); E e = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(x, i, 8); e = e ? mkConcat(e, b) : b; } r = Val::of(e); return true; }
    case Intrinsic::ctpop: { E x = toE(a[0], w); E e = mkConst(0, w); for (unsigned i = 0; i < w; ++i) e = mkBin(KAdd, e, mkZExt(mkExtract(x, i, 1), w)); r = Val::of(e); return true; }
    case Intrinsic::ctlz: { E x = toE(a[0], w); E e = mkConst(w, w); for (unsigned i = 0; i < w; ++i) e = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), e); r = Val::of(e); return true; }
    case Intrinsic::cttz: { E x = toE(a[0], w); E e = mkConst(w, w); for (unsigned i = w; i-- > 0;) e = mkIte(mkExtract(x, i, 1), mkConst(i, w), e); r = Val::of(e); return true; }
    case Intrinsic::fshl: { E x = toE(a[0], w), y = toE(a[1], w), z = toE(a[2], w); if (!z->isConst()) return unsupported(s, "fshl symbolic shift"); unsigned k = (unsigned)(z->c % w); if (!k) { r = a[0]; return true; } r = Val::of(mkConcat(mkExtract(x, 0, w - k), mkExtract(y, w - k, k))); return true; }
    case Intrinsic::fshr: { E x = toE(a[0], w), y = toE(a[1], w), z = toE(a[2], w); if (!z->isConst()) return unsupported(s, "fshr symbolic shift"); unsigned k = (unsigned)(z->c % w); if (!k) { r = a[1]; return true; } r = Val::of(mkConcat(mkExtract(x, 0, k), mkExtract(y, k, w - k))); return true; }
    case Intrinsic::ptrmask: { r = Val::of(mkBin(KAnd, toE(a[0], 64), toE(a[1], 64))); return true; }
    case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::fabs: case Intrinsic::trunc: case Intrinsic::sqrt: {
        if (!a[0].conc()) return unsupported(s, "symbolic fp intrinsic"); auto id = II->getIntrinsicID(); auto op = [&](double d) { return id == Intrinsic::ceil ? ceil(d) : id == Intrinsic::floor ? floor(d) : id == Intrinsic::fabs ? fabs(d) : id == Intrinsic::sqrt ? sqrt(d) : trunc(d); };
        if (ci.ty->isFloatTy()) { u32 x = (u32)a[0].c; float f; memcpy(&f, &x, 4); f = (float)op(f); memcpy(&x, &f, 4); r = Val(x); } else { double d; memcpy(&d, &a[0].c, 8); d = op(d); u64 x; memcpy(&x, &d, 8); r = Val(x); } return true; }
    default: return unsupported(s, "intrinsic " + II->getCalledFunction()->getName().str());
    }
}
