// Built-in functions: allocation, memory, exceptions, threads, the sym_* API and LLVM intrinsics.
// Every builtin performs its forks (decide/getConc) before any side effect, because a fork re-executes the call.

static V loadRaw(State& S, u64 addr, unsigned w) {
    u32 n = (w + 7) / 8;
    Obj* o = checkAccess(S, addr, n, false);
    u32 off = (u32)addr; bool allc = true;
    for (u32 i = 0; i < n; i++) if (o->st[off + i]) { allc = false; break; }
    if (allc) { u64 v = 0; memcpy(&v, o->data + off, n); return cv(v & maskw(w)); }
    Expr* e = byteExpr(S, addr >> 32, off);
    for (u32 i = 1; i < n; i++) e = mkConcat(byteExpr(S, addr >> 32, off + i), e);
    if (w < n * 8) e = mkExtract(e, 0, w);
    return fromE(e);
}
static void storeRaw(State& S, u64 addr, V v, unsigned w) {
    u32 n = (w + 7) / 8;
    checkAccess(S, addr, n, true);
    Obj* o = S.mem.writable(addr >> 32);
    u32 off = (u32)addr;
    if (!v.e) { memcpy(o->data + off, &v.c, n); memset(o->st + off, 0, n); return; }
    Expr* e = v.e;
    if (w < n * 8) e = mkZExt(e, n * 8);
    for (u32 i = 0; i < n; i++) storeByte(o, off + i, mkExtract(e, i * 8, 8));
}

// ---- symbolic variables, shared between states by name ------------------------
static std::unordered_map<std::string, Expr*> varByName;
static Expr* symVar(const std::string& name, unsigned w) {
    auto it = varByName.find(name);
    if (it != varByName.end()) return it->second;
    return varByName[name] = mkVar(name, w);
}
static std::string inName(State& S, const char* pfx) { return S.entry + "/" + pfx + std::to_string(S.inputs.size()); }

// ---- threads ------------------------------------------------------------------
static void joinClock(VClock& a, const VClock& b) {
    if (a.c.size() < b.c.size()) a.c.resize(b.c.size(), 0);
    for (size_t i = 0; i < b.c.size(); i++) a.c[i] = std::max(a.c[i], b.c[i]);
}
static void schedTo(State& S, u32 t) {      // the k-th scheduling decision is the symbolic variable sched<k>
    Expr* v = symVar("sched" + std::to_string(S.sched.size()), 8);
    Model m = S.pc.model;
    if (m.size() < gVars.size()) m.resize(gVars.size(), 0);
    m[v->c] = t;
    addConstraint(S.pc, mkBin(OEq, v, mkConst(t, 8)), &m);
    S.sched.push_back(t);
    S.cur = t;
}
static void threadSwitchPoint(State& S, bool mustSwitch) {
    nSwitches++;
    Thread& T = S.th[S.cur];
    if (mustSwitch) {
        std::vector<u32> run;
        for (u32 t = 0; t < S.th.size(); t++) if (t != S.cur && S.th[t].status == 0) run.push_back(t);
        if (run.empty()) {
            if (T.stack.empty()) { for (u32 t = 0; t < S.th.size(); t++) if (!S.th[t].stack.empty()) S.cur = t; }
            fail(S, "deadlock", "deadlock: no runnable thread");
        }
        for (size_t i = 1; i < run.size(); i++) { State* n = cloneState(S); schedTo(*n, run[i]); pushWork(n); }
        schedTo(S, run[0]);
        return;
    }
    if (T.pointDone) { T.pointDone = false; return; }
    if ((int)S.preempt >= preemptBound) return;
    for (u32 t = 0; t < S.th.size(); t++) if (t != S.cur && S.th[t].status == 0) {
        State* n = cloneState(S);
        n->th[S.cur].pointDone = true; n->preempt++;
        schedTo(*n, t);
        pushWork(n);
    }
}
static void atomicPoint(State& S) { threadSwitchPoint(S, false); }
static void atomicLoad(State& S, u64 a, bool acq) {
    Thread& T = S.th[S.cur];
    joinClock(acq ? T.vc : T.acqPend, S.mutexes[a].vc);
}
static void atomicStore(State& S, u64 a, bool rel) {
    Thread& T = S.th[S.cur];
    S.mutexes[a].vc = rel ? T.vc : T.relFence;
    if (rel) T.vc.c[S.cur]++;
}
static void atomicRmw(State& S, u64 a, bool acq, bool rel) {    // continues the release sequence
    Thread& T = S.th[S.cur];
    atomicLoad(S, a, acq);
    joinClock(S.mutexes[a].vc, rel ? T.vc : T.relFence);
    if (rel) T.vc.c[S.cur]++;
}
static void atomicFence(State& S, bool acq, bool rel) {
    Thread& T = S.th[S.cur];
    if (acq) joinClock(T.vc, T.acqPend);
    if (rel) { T.relFence = T.vc; T.vc.c[S.cur]++; }
}
static void threadBlock(State& S, int status, u64 on) {
    S.th[S.cur].status = status; S.th[S.cur].waitOn = on;
    threadSwitchPoint(S, true);
}

// ---- allocation -----------------------------------------------------------------
static u64 heapAlloc(State& S, u64 n, ObjKind k, bool undef = true) {
    if (n > (1ull << 26)) incomplete(S, "allocation larger than the modelled heap");
    u32 id = S.mem.alloc((u32)n, k, nullptr, undef);
    S.mem.get(id)->tid = S.cur;
    bool own = S.th[S.cur].inits != 0;
    S.mem.get(id)->initOwned = own;
    if ((k == KNew || k == KNewArr) && !own) S.liveNew++;
    return (u64)id << 32;
}
static void heapFree(State& S, u64 p, ObjKind k) {
    if (!p) return;
    Obj* o = S.mem.get(p >> 32);
    if (!o || (p >> 32) <= FNOBJ) fail(S, "mem", "free of a wild pointer");
    if (o == &deadHeap) fail(S, "mem", "double free");
    if (o == &deadStack) fail(S, "mem", "free of a stack object");
    if (o->kind != KNew && o->kind != KNewArr && o->kind != KMalloc) fail(S, "mem", "free of a non-heap object");
    if ((u32)p) fail(S, "mem", "free of an interior pointer");
    if (o->kind != k) fail(S, "mem", "allocation/deallocation function mismatch");
    if (raceOn(S)) raceCheck(S, p, std::min<u32>(o->size, 64), true);
    if (o->kind != KMalloc && !o->initOwned) S.liveNew--;
    S.mem.kill(p >> 32, &deadHeap);
    S.shadow.erase(u32(p >> 32));
}
static Expr* ctzlz(Expr* a, unsigned w, bool lead) {
    Expr* r = mkConst(w, w);
    for (unsigned i = 0; i < w; i++) {
        unsigned bit = lead ? i : w - 1 - i;
        r = mkIte(mkExtract(a, bit, 1), mkConst(lead ? w - 1 - bit : bit, w), r);
    }
    return r;
}
static Expr* byteAt(State& S, u64 a) { return E(loadAt(S, a, 8), 8); }

static void callBuiltin(State& S, FnInfo* fn, CallInfo& ci, Inst& I, V* args, u32 n) {
    auto C = [&](u32 i, unsigned w = 64) { return getConc(S, args[i], w); };
    auto ret = [&](V v) { finishCall(S, &v, 1); };
    auto retc = [&](u64 c) { V v = cv(c); finishCall(S, &v, 1); };
    auto done = [&] { finishCall(S, nullptr, 0); };
    unsigned w = n ? ci.argw[0] : 0;
    switch (fn->builtin) {
    case B_unsup: incomplete(S, "unsupported intrinsic " + fn->name);
    case B_nop: done(); return;
    case B_ret0: retc(0); return;
    // -- allocation
    case B_malloc: { u64 k = C(0); retc(heapAlloc(S, k, KMalloc)); return; }
    case B_calloc: { u64 a = C(0), b = C(1); retc(heapAlloc(S, a * b, KMalloc, false)); return; }
    case B_realloc: {
        u64 p = C(0), k = C(1); u64 q = heapAlloc(S, k, KMalloc);
        if (p) { Obj* o = S.mem.get(p >> 32); u64 sz = (o && o != &deadHeap && o != &deadStack) ? o->size : 0; copyBytes(S, q, p, std::min(sz, k)); heapFree(S, p, KMalloc); }
        retc(q); return;
    }
    case B_free: { u64 p = C(0); heapFree(S, p, KMalloc); done(); return; }
    case B__Znwm: case B__ZnwmRKSt9nothrow_t: case B__ZnwmSt11align_val_t: { u64 k = C(0); retc(heapAlloc(S, k, KNew)); return; }
    case B__Znam: case B__ZnamRKSt9nothrow_t: { u64 k = C(0); retc(heapAlloc(S, k, KNewArr)); return; }
    case B__ZdlPv: case B__ZdlPvm: case B__ZdlPvRKSt9nothrow_t: case B__ZdlPvSt11align_val_t: case B__ZdlPvmSt11align_val_t: {
        u64 p = C(0);
        if (fn->builtin == B__ZdlPvm && p) {
            u64 k = C(1); Obj* o = S.mem.get(p >> 32);
            if (o && o != &deadHeap && o != &deadStack && o->size != k) fail(S, "mem", "sized delete with the wrong size (" + std::to_string(k) + " for an object of " + std::to_string(o->size) + ")");
        }
        heapFree(S, p, KNew); done(); return;
    }
    case B__ZdaPv: case B__ZdaPvm: case B__ZdaPvRKSt9nothrow_t: { u64 p = C(0); heapFree(S, p, KNewArr); done(); return; }
    // -- memory
    case B_memcpy: case B_memmove: case B_llvm_memcpy: {
        u64 d = C(0), s = C(1), k = C(2, ci.argw[2]);
        copyBytes(S, d, s, k);
        if (fn->builtin == B_llvm_memcpy) done(); else retc(d);
        return;
    }
    case B_memset: case B_llvm_memset: {
        u64 d = C(0), k = C(2, ci.argw[2]);
        V b = args[1];
        Expr* be = E(b, ci.argw[1]); if (be->w > 8) be = mkExtract(be, 0, 8);
        if (k) {
            checkAccess(S, d, k, true);
            if (raceOn(S)) raceCheck(S, d, k, true);
            Obj* o = S.mem.writable(d >> 32);
            if (isConst(be)) { memset(o->data + (u32)d, be->c, k); memset(o->st + (u32)d, 0, k); }
            else for (u64 i = 0; i < k; i++) storeByte(o, (u32)d + i, be);
        }
        if (fn->builtin == B_llvm_memset) done(); else retc(d);
        return;
    }
    case B_memcmp: case B_bcmp: {
        u64 a = C(0), b = C(1), k = C(2);
        unsigned rw = 32;
        if (k) { checkAccess(S, a, k, false); checkAccess(S, b, k, false); }
        if (fn->builtin == B_bcmp) {
            Expr* eq = mkConst(1, 1);
            for (u64 i = 0; i < k && !isFalse(eq); i++) eq = mkBin(OAnd, eq, mkBin(OEq, byteAt(S, a + i), byteAt(S, b + i)));
            ret(fromE(mkZExt(mkNot(eq), rw))); return;
        }
        Expr* r = mkConst(0, rw);
        // stop at the first pair that certainly differs
        u64 lim = k;
        for (u64 i = 0; i < k; i++) { Expr *x = byteAt(S, a + i), *y = byteAt(S, b + i); if (isConst(x) && isConst(y) && x->c != y->c) { lim = i + 1; break; } }
        for (u64 i = lim; i-- > 0;) {
            Expr *x = byteAt(S, a + i), *y = byteAt(S, b + i);
            r = mkIte(mkBin(OEq, x, y), r, mkIte(mkBin(OUlt, x, y), mkConst(0xffffffffu, rw), mkConst(1, rw)));
        }
        ret(fromE(r)); return;
    }
    case B_strlen: {
        u64 a = C(0); u64 i = 0;
        for (;; i++) { Expr* b = byteAt(S, a + i); if (decide(S, mkBin(OEq, b, mkConst(0, 8)))) break; }
        retc(i); return;
    }
    case B_memchr: {
        u64 a = C(0), k = C(2); Expr* ch = mkExtract(E(args[1], 32), 0, 8);
        for (u64 i = 0; i < k; i++) if (decide(S, mkBin(OEq, byteAt(S, a + i), ch))) { retc(a + i); return; }
        retc(0); return;
    }
    case B_strcmp: {
        u64 a = C(0), b = C(1);
        for (u64 i = 0;; i++) {
            Expr *x = byteAt(S, a + i), *y = byteAt(S, b + i);
            if (!decide(S, mkBin(OEq, x, y))) { bool lt = decide(S, mkBin(OUlt, x, y)); retc(lt ? 0xffffffffu : 1); return; }
            if (decide(S, mkBin(OEq, x, mkConst(0, 8)))) { retc(0); return; }
        }
    }
    // -- termination
    case B_abort: fail(S, "abort", "abort() called");
    case B_exit: case B__Exit: fail(S, "abort", "exit() called");
    case B__ZSt9terminatev: fail(S, "terminate", "std::terminate() called");
    case B___cxa_pure_virtual: fail(S, "mem", "pure virtual call");
    case B___cxa_atexit: case B___cxa_thread_atexit: retc(0); return;
    // -- guards
    case B___cxa_guard_acquire: {
        u64 g = C(0);
        if (raceOn(S) && !loadRaw(S, g, 8).c) threadSwitchPoint(S, false);     // an initialised static never changes again
        V b = loadRaw(S, g, 8);
        MutexState& m = S.mutexes[g];
        if (b.c) { joinClock(S.th[S.cur].vc, m.vc); retc(0); return; }
        if (m.owner == (i32)S.cur) fail(S, "deadlock", "recursive initialisation of a function-local static");
        if (m.owner >= 0) { threadBlock(S, 1, g); return; }
        m.owner = S.cur; joinClock(S.th[S.cur].vc, m.vc);
        S.th[S.cur].inits++;
        retc(1); return;
    }
    case B___cxa_guard_release: case B___cxa_guard_abort: {
        u64 g = C(0);
        MutexState& m = S.mutexes[g];
        m.owner = -1;
        if (S.th[S.cur].inits) S.th[S.cur].inits--;
        if (fn->builtin == B___cxa_guard_release) storeRaw(S, g, cv(1), 8);
        joinClock(m.vc, S.th[S.cur].vc); S.th[S.cur].vc.c[S.cur]++;
        for (auto& t : S.th) if (t.status == 1 && t.waitOn == g) t.status = 0;
        done(); return;
    }
    // -- exceptions
    case B___cxa_allocate_exception: { u64 k = C(0); retc((u64)S.mem.alloc(k, KExc, "exception", true) << 32); return; }
    case B___cxa_free_exception: { done(); return; }
    case B___cxa_throw: {
        u64 p = C(0), ti = C(1), d = C(2);
        ExcInfo& e = S.exc[p]; e = ExcInfo{ti, d, 0, false, p};
        S.th[S.cur].uncaught++;
        unwind(S, p); return;
    }
    case B___cxa_rethrow: {
        auto& c = S.th[S.cur].caught;
        if (c.empty()) fail(S, "terminate", "rethrow without an active exception");
        S.exc[c.back()].rethrown = true;
        S.th[S.cur].uncaught++;
        unwind(S, c.back()); return;
    }
    case B___cxa_begin_catch: {
        u64 p = C(0);
        auto it = S.exc.find(p);
        if (it == S.exc.end()) incomplete(S, "begin_catch of unknown exception");
        it->second.handlers++; it->second.rethrown = false;
        if (S.th[S.cur].uncaught) S.th[S.cur].uncaught--;
        S.th[S.cur].caught.push_back(p);
        retc(it->second.adj); return;
    }
    case B__ZSt18uncaught_exceptionv: retc(S.th[S.cur].uncaught != 0); return;
    case B__ZSt19uncaught_exceptionsv: retc(S.th[S.cur].uncaught); return;
    case B___cxa_get_exception_ptr: { u64 p = C(0); retc(S.exc[p].adj); return; }
    case B___cxa_end_catch: {
        auto& c = S.th[S.cur].caught;
        if (c.empty()) incomplete(S, "end_catch without catch");
        u64 p = c.back(); c.pop_back();
        ExcInfo& e = S.exc[p];
        e.handlers--;
        done();
        if (e.handlers == 0 && !e.rethrown && e.dtor) {
            V a = cv(p);
            FnInfo* d = fns[(u32)e.dtor >> 4];
            if (d->builtin || d->decl) return;
            pushFrame(S, d, &a, 1, 1);
            S.stack().back().excOnReturn = 2;
        }
        return;
    }
    // -- mutexes
    case B_pthread_mutex_init: {
        u64 p = C(0), at = C(1);
        u64 kind = 0; if (at) kind = loadRaw(S, at, 32).c & 3;
        storeRaw(S, p + 16, cv(kind), 32); retc(0); return;
    }
    case B_pthread_mutexattr_init: { u64 p = C(0); storeRaw(S, p, cv(0), 32); retc(0); return; }
    case B_pthread_mutexattr_settype: { u64 p = C(0), k = C(1, 32); storeRaw(S, p, cv(k), 32); retc(0); return; }
    case B_pthread_mutexattr_destroy: retc(0); return;
    case B_pthread_mutex_destroy: retc(0); return;
    case B_pthread_rwlock_rdlock: case B_pthread_rwlock_tryrdlock: {
        u64 p = C(0);
        MutexState& m = S.mutexes[p];
        if (m.readers[S.cur]) { m.readers[S.cur]++; m.nreaders++; retc(0); return; }
        if (raceOn(S)) threadSwitchPoint(S, false);
        if (m.owner >= 0) {
            if (fn->builtin == B_pthread_rwlock_tryrdlock) { retc(16); return; }
            if (m.owner == (i32)S.cur) fail(S, "deadlock", "deadlock: thread locks a mutex it already holds");
            threadBlock(S, 1, p); return;
        }
        m.readers[S.cur]++; m.nreaders++; joinClock(S.th[S.cur].vc, m.vc);
        retc(0); return;
    }
    case B_pthread_rwlock_wrlock: case B_pthread_rwlock_trywrlock:
    case B_pthread_mutex_lock: case B_pthread_mutex_trylock: {
        u64 p = C(0);
        bool rw = fn->builtin == B_pthread_rwlock_wrlock || fn->builtin == B_pthread_rwlock_trywrlock;
        bool rec = !rw && (loadRaw(S, p + 16, 32).c & 3) == 1;
        MutexState& m = S.mutexes[p];
        if (m.owner == (i32)S.cur && rec) { m.count++; retc(0); return; }      // invisible to other threads
        if (raceOn(S)) threadSwitchPoint(S, false);
        if (m.owner >= 0 || m.nreaders) {
            if (fn->builtin == B_pthread_mutex_trylock || fn->builtin == B_pthread_rwlock_trywrlock) { retc(16); return; }
            if (m.owner == (i32)S.cur || m.readers[S.cur]) fail(S, "deadlock", "deadlock: thread locks a mutex it already holds");
            threadBlock(S, 1, p); return;
        }
        m.owner = S.cur; m.count = 1; joinClock(S.th[S.cur].vc, m.vc); if (rw) joinClock(S.th[S.cur].vc, m.rvc);
        retc(0); return;
    }
    case B_pthread_rwlock_unlock: case B_pthread_mutex_unlock: {
        u64 p = C(0);
        MutexState& m = S.mutexes[p];
        bool reader = fn->builtin == B_pthread_rwlock_unlock && m.readers[S.cur];
        if (reader) {
            m.readers[S.cur]--; m.nreaders--;
            joinClock(m.rvc, S.th[S.cur].vc); S.th[S.cur].vc.c[S.cur]++;
        } else {
            if (m.owner != (i32)S.cur) fail(S, "ub", "unlock of a mutex the thread does not hold");
            if (--m.count == 0) { m.owner = -1; m.vc = S.th[S.cur].vc; S.th[S.cur].vc.c[S.cur]++; }
        }
        if (m.owner < 0 && !m.nreaders) for (auto& t : S.th) if (t.status == 1 && t.waitOn == p) t.status = 0;
        retc(0); return;
    }
    case B_pthread_rwlock_init: case B_pthread_rwlock_destroy: retc(0); return;
    case B_pthread_self: retc(S.cur + 1); return;
    // -- sym API
    case B_sym_engine: retc(1); return;
    case B_sym_bytes: {
        u64 p = C(0), k = C(1); std::string nm = readStr(S, C(2));
        std::string base = inName(S, "b");
        InputRec r; r.name = nm; r.kind = 'b'; r.v = 0;
        if (k) checkAccess(S, p, k, true);
        for (u64 i = 0; i < k; i++) { Expr* v = symVar(base + "." + std::to_string(i), 8); r.e.push_back(v); }
        if (k) { Obj* o = S.mem.writable(p >> 32); for (u64 i = 0; i < k; i++) storeByte(o, (u32)p + i, r.e[i]); }
        if (S.pc.model.size() < gVars.size()) S.pc.model.resize(gVars.size(), 0);
        S.inputs.push_back(r); done(); return;
    }
    case B_sym_u: {
        u64 bits = C(0, 32); std::string nm = readStr(S, C(1));
        Expr* v = symVar(inName(S, ("u" + std::to_string(bits) + "_").c_str()), bits);
        if (S.pc.model.size() < gVars.size()) S.pc.model.resize(gVars.size(), 0);
        InputRec r; r.name = nm; r.kind = 'i'; r.v = 0; r.e.push_back(v); S.inputs.push_back(r);
        ret(fromE(bits < 64 ? mkZExt(v, 64) : v)); return;
    }
    case B_sym_fresh_double: {     // over-approximation of a numeric library result; not an input
        Expr* v = symVar("fresh" + std::to_string(S.undefCount++), 64);
        if (S.pc.model.size() < gVars.size()) S.pc.model.resize(gVars.size(), 0);
        ret(fromE(v)); return;
    }
    case B_sym_choose: {
        u64 k = C(0, 32); std::string nm = readStr(S, C(1));
        if (k == 0) throw PathEnd();
        // the choice is a variable with domain [0,k); its values are separated by path constraints
        Expr* v = symVar(inName(S, "c"), 32);
        if (S.pc.model.size() < gVars.size()) S.pc.model.resize(gVars.size(), 0);
        InputRec r; r.name = nm; r.kind = 'c'; r.e.push_back(v);
        for (u64 j = 0; j < k; j++) {
            State* t = j + 1 < k ? cloneState(S) : &S;
            Model m = t->pc.model; m[v->c] = j;
            addConstraint(t->pc, mkBin(OEq, v, mkConst(j, 32)), &m);
            r.v = j; t->inputs.push_back(r);
            V x = cv(j); finishCall(*t, &x, 1);
            if (t != &S) pushWork(t);
        }
        return;
    }
    case B_sym_assume: {
        V c = args[0]; Expr* e = E(c, ci.argw[0]); if (e->w > 1) e = mkNot(mkBin(OEq, e, mkConst(0, e->w)));
        if (isConst(e)) { if (!e->c) { nInfeasible++; throw PathEnd(); } done(); return; }
        Model m;
        SatRes r = maySat(S.pc, e, &m);
        if (r == RUnknown) incomplete(S, "solver returned unknown");
        if (r == RUnsat) { nInfeasible++; throw PathEnd(); }
        addConstraint(S.pc, e, &m);
        done(); return;
    }
    case B_sym_check: case B_sym_fail: {
        std::string msg = readStr(S, C(fn->builtin == B_sym_fail ? 0 : 1));
        if (fn->builtin == B_sym_fail) { nChecks++; fail(S, "check", msg); }
        V c = args[0]; Expr* e = E(c, ci.argw[0]); if (e->w > 1) e = mkNot(mkBin(OEq, e, mkConst(0, e->w)));
        nChecks++;
        if (isConst(e)) { if (!e->c) fail(S, "check", msg); done(); return; }
        if (e->undef) checkUndef(S, e, ("check '" + msg + "'").c_str());
        Model m;
        SatRes r = maySatZ3(S.pc, mkNot(e), &m);
        if (r == RUnknown) incomplete(S, "solver returned unknown on check: " + msg);
        if (r == RSat) { violation(S, "check", msg, m); nErr++; throw PathEnd(); }
        done(); return;
    }
    case B_sym_cover: case B_sym_expect: {
        std::string l = readStr(S, C(0));
        if (fn->builtin == B_sym_expect) { coverWanted.insert(S.entry + "/" + l); done(); return; }
        auto it = coverIds.find(l); u32 id;
        if (it == coverIds.end()) { id = coverNames.size(); coverNames.push_back(l); coverIds[l] = id; } else id = it->second;
        if (std::find(S.covers.begin(), S.covers.end(), id) == S.covers.end()) S.covers.push_back(id);
        done(); return;
    }
    case B_sym_obs: {
        std::string nm = readStr(S, C(0)); u64 p = C(1), k = C(2);
        ObsRec r; r.name = nm;
        for (u64 i = 0; i < k; i++) {
            V b = loadRaw(S, p + i, 8);
            if (b.e && b.e->undef) { checkUndef(S, mkBin(OEq, b.e, mkConst(evalExpr(b.e, S.pc.model), 8)), "observed output"); }
            r.bytes.push_back(b);
        }
        S.obs.push_back(r); done(); return;
    }
    case B_sym_live: retc((u64)S.liveNew); return;
    case B_sym_log: {
        std::string nm = readStr(S, C(0));
        fprintf(stderr, "[sym_log] %s: %s\n", nm.c_str(), args[1].e ? exprStr(args[1].e, 10).c_str() : std::to_string((i64)args[1].c).c_str());
        done(); return;
    }
    case B_sym_is_concrete: retc(args[0].e ? 0 : 1); return;
    case B_sym_conc: { u64 x = C(0); retc(x); return; }
    case B_sym_undef: {
        u64 p = C(0), k = C(1);
        checkAccess(S, p, k, true);
        Obj* o = S.mem.writable(p >> 32);
        memset(o->st + (u32)p, 2, k); done(); return;
    }
    case B_sym_yield: if (raceOn(S)) threadSwitchPoint(S, false); done(); return;
    case B_sym_digits: {     // decimal digits of an unsigned 64-bit value; returns the count
        u64 buf = C(1);
        if (!args[0].e) {
            std::string t = std::to_string(args[0].c);
            for (size_t i = 0; i < t.size(); i++) storeAt(S, buf + i, cv((u8)t[i]), 8);
            retc(t.size()); return;
        }
        Expr* v = args[0].e;
        while (v->op == OIte) v = decide(S, v->k[0]) ? v->k[1] : v->k[2];     // the digits of each alternative on their own
        if (isConst(v)) {
            std::string t = std::to_string(v->c);
            for (size_t i = 0; i < t.size(); i++) storeAt(S, buf + i, cv((u8)t[i]), 8);
            retc(t.size()); return;
        }
        u32 k = 1; u64 p10 = 10;
        for (; k < 20; k++, p10 *= 10) if (decide(S, mkBin(OUlt, v, mkConst(p10, 64)))) break;
        std::string base = "digits" + std::to_string(v->id) + "." + std::to_string(k);
        std::vector<Expr*> d; Expr* h = nullptr;
        for (u32 i = 0; i < k; i++) {
            Expr* x = symVar(base + "." + std::to_string(i), 8); d.push_back(x);
            Expr* dv = mkZExt(x, 64);
            h = h ? mkBin(OAdd, mkBin(OMul, h, mkConst(10, 64)), dv) : dv;
        }
        if (S.pc.model.size() < gVars.size()) S.pc.model.resize(gVars.size(), 0);
        bool have = std::find(S.pc.cs.begin(), S.pc.cs.end(), mkBin(OEq, h, v)) != S.pc.cs.end();
        if (!have) {
            Model m = S.pc.model;
            std::string t = std::to_string(evalExpr(v, m));
            for (u32 i = 0; i < k; i++) m[d[i]->c] = t[i] - '0';
            for (u32 i = 0; i < k; i++) addConstraint(S.pc, mkBin(OUle, d[i], mkConst(9, 8)), &m);
            if (k > 1) addConstraint(S.pc, mkNot(mkBin(OEq, d[0], mkConst(0, 8))), nullptr);
            gDefinitions[mkBin(OEq, h, v)] = Definition{v, d};
            addConstraint(S.pc, mkBin(OEq, h, v), nullptr);
        }
        std::vector<Expr*> chars;
        for (u32 i = 0; i < k; i++) chars.push_back(mkBin(OAdd, d[i], mkConst('0', 8)));
        for (u32 i = 0; i < k; i++) storeAt(S, buf + i, fromE(chars[i]), 8);
        gDigits[chars] = std::make_pair(mkBin(OEq, h, v), v);
        retc(k); return;
    }
    case B_sym_undigits: {   // text which is exactly what sym_digits wrote -> the value
        u64 p = C(0), k = C(1), out = C(2);
        std::vector<Expr*> chars;
        for (u64 i = 0; i < k; i++) { V b = loadAt(S, p + i, 8); chars.push_back(b.e ? b.e : mkConst(b.c, 8)); }
        auto it = gDigits.find(chars);
        if (it == gDigits.end() || std::find(S.pc.cs.begin(), S.pc.cs.end(), it->second.first) == S.pc.cs.end()) { retc(0); return; }
        storeAt(S, out, fromE(it->second.second), 64);
        retc(1); return;
    }
    case B_sym_fmtd: {       // (buf, n, fmt, double) -> length, concrete doubles only
        u64 buf = C(0), k = C(1); std::string f = readStr(S, C(2));
        if (args[3].e) incomplete(S, "formatting of a symbolic floating-point value " + exprStr(args[3].e, 8));
        double d; memcpy(&d, &args[3].c, 8);
        char tmp[512]; int r = snprintf(tmp, sizeof tmp, f.c_str(), d);
        for (int i = 0; i <= r && (u64)i < k; i++) storeAt(S, buf + i, cv((u8)tmp[i]), 8);
        if (k && (u64)r >= k) storeAt(S, buf + k - 1, cv(0), 8);
        retc((u32)r); return;
    }
    case B_sym_strtod: {     // (text, len, *erange) -> double; concrete text only
        u64 p = C(0), k = C(1), er = C(2);
        std::string t; bool conc = true;
        for (u64 i = 0; i < k; i++) { V b = loadAt(S, p + i, 8); if (b.e) conc = false; else t += (char)b.c; }
        if (!conc) incomplete(S, "strtod on symbolic text");
        errno = 0; double d = strtod(t.c_str(), nullptr); bool e = errno == ERANGE;
        storeAt(S, er, cv(e), 32);
        u64 x; memcpy(&x, &d, 8); retc(x); return;
    }
    case B_sym_libm: {      // exact on concrete operands, otherwise any double
        u64 op = C(0, 32);
        if (args[1].e || args[2].e) {
            Expr* v = symVar("fresh" + std::to_string(S.undefCount++), 64);
            if (S.pc.model.size() < gVars.size()) S.pc.model.resize(gVars.size(), 0);
            ret(fromE(v)); return;
        }
        double a, b, r; memcpy(&a, &args[1].c, 8); memcpy(&b, &args[2].c, 8);
        switch (op) {
        case 0: r = fmod(a, b); break; case 1: r = pow(a, b); break; case 2: r = exp(a); break; case 3: r = log(a); break;
        case 4: r = log2(a); break; case 5: r = log10(a); break; case 6: r = hypot(a, b); break; case 7: r = nextafter(a, b); break;
        case 8: r = ldexp(a, (int)b); break; case 9: r = cbrt(a); break; case 10: r = sqrt(a); break; default: r = exp2(a); break;
        }
        u64 x; memcpy(&x, &r, 8); retc(x); return;
    }
    case B_sym_model_bytes: incomplete(S, "sym_model_bytes");
    case B_sym_thread_create: {
        u64 f = C(0); V a = args[1];
        u32 tid = S.th.size();
        if (tid >= MaxThreads) incomplete(S, "too many threads");
        Thread& P = S.th[S.cur];
        Thread t; t.vc = P.vc; t.vc.c.resize(tid + 1, 0); t.vc.c[tid] = 1;
        P.vc.c[S.cur]++;
        S.th.push_back(t);
        u32 cur = S.cur; S.cur = tid;
        pushFrame(S, fns[(u32)f >> 4], &a, 1, 1);
        S.cur = cur;
        retc(tid); return;
    }
    case B_sym_thread_join: {
        u64 t = C(0, 32);
        if (t >= S.th.size()) incomplete(S, "join of unknown thread");
        if (raceOn(S)) threadSwitchPoint(S, false);
        if (S.th[t].status != 3) { threadBlock(S, 2, t); return; }
        joinClock(S.th[S.cur].vc, S.th[t].vc);
        done(); return;
    }
    // -- intrinsics
    case B_llvm_lifetime: case B_llvm_lifetime_end: {
        u64 p = C(1); Obj* o = S.mem.get(p >> 32);
        if (o && o != &deadStack && o != &deadHeap && o->kind == KStack && (u32)p == 0) { Obj* q = S.mem.writable(p >> 32); memset(q->st, 2, q->size); }
        done(); return;
    }
    case B_llvm_umin: case B_llvm_umax: case B_llvm_smin: case B_llvm_smax: {
        Expr *a = E(args[0], w), *b = E(args[1], w), *c;
        switch (fn->builtin) {
        case B_llvm_umin: c = mkBin(OUlt, a, b); break; case B_llvm_umax: c = mkBin(OUlt, b, a); break;
        case B_llvm_smin: c = mkBin(OSlt, a, b); break; default: c = mkBin(OSlt, b, a);
        }
        ret(fromE(mkIte(c, a, b))); return;
    }
    case B_llvm_abs: { Expr* a = E(args[0], w); int k = knownTruth(S.pc, mkBin(OSlt, a, mkConst(0, w))); if (k >= 0) { ret(fromE(k ? mkBin(OSub, mkConst(0, w), a) : a)); return; } ret(fromE(mkIte(mkBin(OSlt, a, mkConst(0, w)), mkBin(OSub, mkConst(0, w), a), a))); return; }
    case B_llvm_ctlz: case B_llvm_cttz: {
        Expr* a = E(args[0], w);
        ret(fromE(ctzlz(a, w, fn->builtin == B_llvm_ctlz))); return;
    }
    case B_llvm_ctpop: { Expr* a = E(args[0], w); Expr* r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(OAdd, r, mkZExt(mkExtract(a, i, 1), w)); ret(fromE(r)); return; }
    case B_llvm_bswap: { Expr* a = E(args[0], w); Expr* r = mkExtract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(a, i, 8)); ret(fromE(r)); return; }
    case B_llvm_fshl: case B_llvm_fshr: {
        u64 s = C(2, w) % w; Expr *a = E(args[0], w), *b = E(args[1], w);
        if (fn->builtin == B_llvm_fshr) { if (s == 0) { ret(fromE(b)); return; } s = w - s; }
        if (s == 0) { ret(fromE(a)); return; }
        ret(fromE(mkBin(OOr, mkBin(OShl, a, mkConst(s, w)), mkBin(OLShr, b, mkConst(w - s, w))))); return;
    }
    case B_llvm_saddo: case B_llvm_uaddo: case B_llvm_ssubo: case B_llvm_usubo: case B_llvm_smulo: case B_llvm_umulo: {
        Expr *a = E(args[0], w), *b = E(args[1], w), *r, *o;
        Expr* z = mkConst(0, w);
        switch (fn->builtin) {
        case B_llvm_saddo: r = mkBin(OAdd, a, b); o = mkBin(OSlt, mkBin(OAnd, mkBin(OXor, a, r), mkBin(OXor, b, r)), z); break;
        case B_llvm_ssubo: r = mkBin(OSub, a, b); o = mkBin(OSlt, mkBin(OAnd, mkBin(OXor, a, b), mkBin(OXor, a, r)), z); break;
        case B_llvm_uaddo: r = mkBin(OAdd, a, b); o = mkBin(OUlt, r, a); break;
        case B_llvm_usubo: r = mkBin(OSub, a, b); o = mkBin(OUlt, a, b); break;
        case B_llvm_smulo: {
            r = mkBin(OMul, a, b);
            if (isConst(a) && !isConst(b)) std::swap(a, b);
            i64 mn = sextw(1ull << (w - 1), w), mx = (i64)maskw(w - 1);
            if (isConst(b)) {
                i64 k = sextw(b->c, w);
                if (isConst(a)) { __int128 p = (__int128)sextw(a->c, w) * k; o = mkConst(p < mn || p > mx, 1); }
                else if (k == 0 || k == 1) o = mkConst(0, 1);
                else if (k == -1) o = mkBin(OEq, a, mkConst((u64)mn & maskw(w), w));
                else { i64 lo = k > 0 ? mn / k : mx / k, hi = k > 0 ? mx / k : mn / k; o = mkBin(OOr, mkBin(OSlt, a, mkConst((u64)lo & maskw(w), w)), mkBin(OSlt, mkConst((u64)hi & maskw(w), w), a)); }
            } else if (w <= 32) { Expr* p = mkBin(OMul, mkSExt(a, 64), mkSExt(b, 64)); o = mkNot(mkBin(OEq, p, mkSExt(mkExtract(p, 0, w), 64))); }
            else {
                Expr* q = mkBin(OSDiv, r, mkIte(mkBin(OEq, b, z), mkConst(1, w), b));
                o = mkBin(OAnd, mkNot(mkBin(OEq, b, z)), mkBin(OOr, mkNot(mkBin(OEq, q, a)), mkBin(OAnd, mkBin(OEq, b, mkConst(maskw(w), w)), mkBin(OEq, a, mkConst((u64)mn & maskw(w), w)))));
            }
            break;
        }
        default: {
            r = mkBin(OMul, a, b);
            if (isConst(a) && !isConst(b)) std::swap(a, b);
            if (isConst(b)) o = b->c ? mkBin(OUlt, mkConst(maskw(w) / b->c, w), a) : mkConst(0, 1);
            else if (w <= 32) { Expr* p = mkBin(OMul, mkZExt(a, 64), mkZExt(b, 64)); o = mkBin(OUlt, mkConst(maskw(w), 64), p); }
            else o = mkBin(OAnd, mkNot(mkBin(OEq, b, z)), mkNot(mkBin(OEq, mkBin(OUDiv, r, mkIte(mkBin(OEq, b, z), mkConst(1, w), b)), a)));
        }
        }
        V x[2] = {fromE(r), fromE(o)};
        finishCall(S, x, 2); return;
    }
    case B_llvm_usubsat: { Expr *a = E(args[0], w), *b = E(args[1], w); ret(fromE(mkIte(mkBin(OUlt, a, b), mkConst(0, w), mkBin(OSub, a, b)))); return; }
    case B_llvm_uaddsat: { Expr *a = E(args[0], w), *b = E(args[1], w), *r = mkBin(OAdd, a, b); ret(fromE(mkIte(mkBin(OUlt, r, a), mkConst(maskw(w), w), r))); return; }
    case B_llvm_expect: ret(args[0]); return;
    case B_llvm_tls: { // each thread but the first has a copy, made at its first use
        u64 a = C(0);
        if (!S.cur) { ret(args[0]); return; }
        u32& id = S.tls[{S.cur, (u32)(a >> 32)}];
        if (!id) {
            auto& init = gTlsInit[a >> 32];
            id = S.mem.alloc(init.size(), KGlobal, "thread local", false);
            memcpy(S.mem.writable(id)->data, init.data(), init.size());
        }
        retc(((u64)id << 32) + (u32)a); return;
    }
    case B_llvm_va_start: {
        u64 ap = C(0);
        Frame& f = S.stack().back();
        u32 id = S.mem.alloc(8 * f.va.size() + 8, KStack, "va", true);
        S.mem.get(id)->tid = S.cur;
        f.allocas.push_back(id);
        std::vector<V> va = f.va;
        for (size_t i = 0; i < va.size(); i++) {
            V v = va[i];
            if (v.e && v.e->w < 64) v.e = mkZExt(v.e, 64);
            storeRaw(S, ((u64)id << 32) + 8 * i, v, 64);
        }
        storeRaw(S, ap, cv(48), 32); storeRaw(S, ap + 4, cv(176), 32); storeRaw(S, ap + 8, cv((u64)id << 32), 64); storeRaw(S, ap + 16, cv(0), 64);
        done(); return;
    }
    case B_llvm_va_copy: { u64 d = C(0), s = C(1); copyBytes(S, d, s, 24); done(); return; }
    case B_llvm_trap: fail(S, "ub", "trap");
    case B_llvm_ubsantrap: {
        static const char* nm[] = {"add overflow", "builtin unreachable/zero", "cfi", "division overflow", "dynamic type cache miss", "float cast overflow", "function type mismatch", "implicit conversion", "invalid builtin", "invalid objc cast", "invalid value load", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment", "vla bound"};
        u64 k = args[0].c; fail(S, "ub", std::string("undefined behaviour: ") + (k < 25 ? nm[k] : "?"));
    }
    case B_llvm_typeid: retc(tiSel(C(0))); return;
    case B_llvm_objectsize: retc(args[1].c ? 0 : ~0ull); return;
    case B_llvm_isconst: retc(0); return;
    case B_llvm_fabs: ret(fromE(mkBin(OAnd, E(args[0], w), mkConst(maskw(w) >> 1, w)))); return;
    case B_llvm_copysign: ret(fromE(mkBin(OOr, mkBin(OAnd, E(args[0], w), mkConst(maskw(w) >> 1, w)), mkBin(OAnd, E(args[1], w), mkConst(1ull << (w - 1), w))))); return;
    case B_llvm_saddsat: case B_llvm_ssubsat: {
        Expr *a = E(args[0], w), *b = E(args[1], w); bool sub = fn->builtin == B_llvm_ssubsat;
        Expr* r = mkBin(sub ? OSub : OAdd, a, b), *sgn = mkConst(1ull << (w - 1), w), *z = mkConst(0, w);
        Expr* x = mkBin(OXor, a, r), *y = sub ? mkBin(OXor, a, b) : mkBin(OXor, b, r);
        Expr* o = mkNot(mkBin(OEq, mkBin(OAnd, mkBin(OAnd, x, y), sgn), z));
        ret(fromE(mkIte(o, mkIte(mkBin(OSlt, a, z), sgn, mkConst(maskw(w) >> 1, w)), r))); return;
    }
    case B_llvm_minnum: case B_llvm_maxnum: {
        Expr *a = E(args[0], w), *b = E(args[1], w);
        Expr* lt = fn->builtin == B_llvm_minnum ? mkBin(OFLt, a, b) : mkBin(OFLt, b, a);
        ret(fromE(mkIte(mkBin(OFUno, a, a), b, mkIte(mkBin(OFUno, b, b), a, mkIte(lt, a, b))))); return;
    }
    case B_llvm_round: {
        if (args[0].e) incomplete(S, "rounding of a symbolic floating-point value");
        double d; memcpy(&d, &args[0].c, 8);
        const std::string& n = fn->name;
        auto has = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
        d = has("llvm.floor") ? floor(d) : has("llvm.ceil") ? ceil(d) : has("llvm.trunc") ? trunc(d) : has("llvm.round") ? round(d) : has("llvm.sqrt") ? sqrt(d) : nearbyint(d);
        u64 x; memcpy(&x, &d, 8); retc(x); return;
    }
    case B_llvm_bitrev: {
        Expr* a = E(args[0], w); Expr* r = mkExtract(a, 0, 1);
        for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(a, i, 1));
        ret(fromE(r)); return;
    }
    case B_llvm_isfpclass: {
        Expr* a = E(args[0], w); u64 m = args[1].c;
        unsigned eb = w == 64 ? 11 : 8, mb = w == 64 ? 52 : 23;
        Expr *sg = mkExtract(a, w - 1, 1), *ex = mkExtract(a, mb, eb), *mn = mkExtract(a, 0, mb);
        Expr *e1 = mkBin(OEq, ex, mkConst(maskw(eb), eb)), *e0 = mkBin(OEq, ex, mkConst(0, eb)), *m0 = mkBin(OEq, mn, mkConst(0, mb));
        Expr* q = mkExtract(mn, mb - 1, 1);
        auto A = [&](Expr* x, Expr* y) { return mkBin(OAnd, x, y); };
        Expr* cls[10] = {A(e1, A(mkNot(m0), mkNot(q))), A(e1, q), A(sg, A(e1, m0)), A(sg, A(mkNot(e1), mkNot(e0))), A(sg, A(e0, mkNot(m0))), A(sg, A(e0, m0)),
                         A(mkNot(sg), A(e0, m0)), A(mkNot(sg), A(e0, mkNot(m0))), A(mkNot(sg), A(mkNot(e1), mkNot(e0))), A(mkNot(sg), A(e1, m0))};
        Expr* r = mkConst(0, 1);
        for (int i = 0; i < 10; i++) if (m >> i & 1) r = mkBin(OOr, r, cls[i]);
        ret(fromE(r)); return;
    }
    case B_llvm_ptrmask: { ret(binop(IAnd, 64, args[0], args[1])); return; }
    default: incomplete(S, "builtin not implemented: " + fn->name);
    }
}
