// Calls, intrinsics, externals, threads, main loop. Included at the end of exec.cpp.
static inline Val ev(State &s, const Opnd &o) {
    Val v = o.reg ? s.st().back().regs[o.idx] : o.v;
    if (v.k == V_BV && !s.concr.empty()) { auto it = s.concr.find(v.e); if (it != s.concr.end()) return VI(it->second, v.w); }
    else if (v.k == V_FS && !s.nodeConst.empty()) { auto it = s.nodeConst.find(v.n->id); if (it != s.nodeConst.end()) return VF(it->second, v.w); }
    return v;
}
static u64 addrOf(State &s, const Val &v) {
    if (v.k == V_INT) return v.i;
    if (v.k == V_UNDEF || v.k == V_RAW) throw MemErr{"address depends on uninitialised value"};
    return concInt(s, v);
}
static Val merge(State &s, const Val &c, const Val &a, const Val &b) { // symbolic select
    auto isf = [](const Val &v) { return v.k == V_FP || v.k == V_FS; };
    auto isi = [](const Val &v) { return v.k == V_INT || v.k == V_BV; };
    if (a.k == b.k && a.w == b.w) { if (a.k == V_INT && a.i == b.i) return a; if (a.k == V_BV && a.e == b.e) return a; if (a.k == V_FS && a.n == b.n) return a; if (a.k == V_FP && memcmp(&a.d, &b.d, 8) == 0) return a; }
    bool forkIt = true;
    if (isf(a) && isf(b)) { forkIt = !g_fp && ((a.k == V_FP && !std::isfinite(a.d)) || (b.k == V_FP && !std::isfinite(b.d))); }
    else if (isi(a) && isi(b)) forkIt = false;
    if (forkIt) { bool t; concBool(s, c, t); return t ? a : b; }
    expr e = boolOf(c);
    if (isf(a)) return VN(mkIte(e, nodeOf(a), nodeOf(b)));
    if (a.w == 1) return VB(z3::ite(e, boolOf(a), boolOf(b)), 1);
    return VB(z3::ite(e, bvOf(a), bvOf(b)), a.w);
}
static Val selectOp(State &s, const Val &c, const Val &a, const Val &b) {
    if (c.k == V_AGG) { std::vector<Val> r; for (size_t i = 0; i < c.a->v.size(); i++) r.push_back(selectOp(s, c.a->v[i], a.a->v[i], b.a->v[i])); return VAgg(std::move(r)); }
    if (c.k == V_INT) return (c.i & 1) ? a : b;
    if (c.k == V_UNDEF || c.k == V_RAW) { if (a.k == V_INT && b.k == V_INT && a.i == b.i) return a; return VU(a.w ? a.w : 64); }
    if (a.k == V_AGG || b.k == V_AGG) { bool t; concBool(s, c, t); return t ? a : b; }
    return merge(s, c, a, b);
}

// ---------------------------------------------------------------- frames
static void pushFrame(State &s, Function *F, std::vector<Val> &args) {
    FnInfo *f = decode(F); if (!f->counted) { f->counted = true; usedFns.insert(f); }
    if (s.st().size() > 400) throw MemErr{"stack overflow"};
    s.st().emplace_back(); Frame &fr = s.st().back(); fr.f = f; fr.regs.assign(f->nregs, Val());
    for (size_t i = 0; i < args.size() && i < F->arg_size(); i++) {
        fr.regs[i] = args[i];
    }
    // byval arguments: copy
    for (auto &a : F->args()) if (a.hasByValAttr()) { unsigned i = a.getArgNo(); u64 n = DL->getTypeAllocSize(a.getParamByValType()); u64 p = alloc(s, n, 's', "byval"); copyMem(s, p, args[i].i, n); fr.allocas.push_back(p); fr.regs[i] = VI(p, 64); }
}
static void popFrame(State &s) { Frame &fr = s.st().back(); for (u64 a : fr.allocas) { int i = findObj(s, a); if (i >= 0) freeIdx(s, i); } s.st().pop_back(); }

// jump to a block, evaluating its phis
static void jump(State &s, int to) {
    Frame &fr = s.st().back(); int from = fr.bb; FnInfo *f = fr.f; BBI &bb = f->bbs[to];
    if (bb.nphi) {
        Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (bb.nphi > 64) { big.resize(bb.nphi); t = big.data(); }
        for (int i = 0; i < bb.nphi; i++) { bool ok = false; for (auto &p : bb.ins[i].phis) if (p.first == from) { t[i] = ev(s, p.second); ok = true; break; } if (!ok) throw Unsupported("phi"); }
        for (int i = 0; i < bb.nphi; i++) fr.regs[bb.ins[i].dst] = t[i];
    }
    fr.prev = from; fr.bb = to; fr.ip = bb.nphi;
}

// ---------------------------------------------------------------- exceptions
static std::string tiName(const GlobalValue *g) { return g ? g->getName().str() : ""; }
static std::map<u64, const GlobalVariable *> gvAt;
static bool tiMatch(const std::string &thrown, const std::string &want) {
    if (thrown == want) return true;
    static const std::map<std::string, std::string> base = {
        {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
        {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
    auto it = base.find(thrown); if (it != base.end()) return tiMatch(it->second, want);
    if (auto *g = M->getGlobalVariable(thrown, true)) if (g->hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer())) if (cs->getNumOperands() >= 3)
        if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts())) return tiMatch(b->getName().str(), want);
    return false;
}
// unwind the current thread with the exception (ptr, ti); transfers control to a landing pad
static void unwind(State &s, u64 ptr, const std::string &ti, bool popCurrent) {
    auto &st = s.st(); (void)popCurrent; bool first = true;
    while (!st.empty()) {
        Frame &fr = st.back(); DI &d = fr.f->bbs[fr.bb].ins[fr.ip];
        if (d.op == Instruction::Invoke) {
            int pad = d.succ[1]; BBI &pb = fr.f->bbs[pad]; LandingPadInst *lp = 0; int dst = -1;
            for (auto &x : pb.ins) if ((lp = dyn_cast<LandingPadInst>(x.I))) { dst = x.dst; break; }
            if (lp) {
                int sel = -1; for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
                    if (lp->isCatch(i)) { auto *c = dyn_cast<GlobalValue>(lp->getClause(i)->stripPointerCasts()); if (!c) sel = 1; else if (tiMatch(ti, tiName(c))) sel = (int)(addrOfGlobal(c) & 0x7fffffff); }
                    else sel = 2; /* filter: treated as matching */ }
                if (sel < 0 && lp->isCleanup()) sel = 0;
                if (sel >= 0) { jump(s, pad); std::vector<Val> r{VI(ptr, 64), VI(sel, 32)}; if (dst >= 0) st.back().regs[dst] = VAgg(std::move(r)); s.excPtr = ptr; s.excTi = ti; 
                    // continue after the landingpad
                    for (size_t i = 0; i < pb.ins.size(); i++) if (pb.ins[i].I == lp) { st.back().ip = i + 1; break; }
                    return; }
            }
        }
        (void)first; first = false; popFrame(s);
    }
    s.th[s.cur].st.clear(); throw PathEnd{"uncaught exception " + ti};
}
static std::map<u64, std::string> thrownTi; // exception object -> typeinfo (address unique per allocation in path; store in state objects' name)

// ---------------------------------------------------------------- threads
static bool mutexFree(State &s, u64 m) { auto it = s.mutexOwner.find(m); return it == s.mutexOwner.end() || it->second < 0; }
static bool enabled(State &s, int t) {
    Thread &h = s.th[t];
    switch (h.s) { case T_RUN: return true; case T_MUTEX: return mutexFree(s, h.on); case T_COND: return false; case T_JOIN: return s.th[h.on].s == T_DONE; default: return false; }
}
// schedule choices: >=0 thread id; T|0x100 spurious wake-up of a condition waiter; T|0x200 timeout of a timed waiter
static void reschedule(State &s, bool mustSwitch) {
    std::vector<int> ch; int me = s.cur;
    if (!mustSwitch && enabled(s, me)) ch.push_back(me);
    bool free = mustSwitch || !enabled(s, me) || s.preempt < gcfg.maxpreempt;
    if (free) for (int t = 0; t < (int)s.th.size(); t++) { if (t == me && !mustSwitch) continue; if (enabled(s, t)) ch.push_back(t); }
    bool anyRun = !ch.empty();
    if (free) for (int t = 0; t < (int)s.th.size(); t++) if (s.th[t].s == T_COND) {
        if (s.th[t].timed) { if (!anyRun || s.spurious < gcfg.maxspurious) ch.push_back(t | 0x200); }
        else if (s.spurious < gcfg.maxspurious && anyRun) ch.push_back(t | 0x100);
    }
    if (ch.empty()) {
        for (auto &h : s.th) if (h.s != T_DONE) { std::string w; for (int t = 0; t < (int)s.th.size(); t++) { Thread &x = s.th[t]; w += " T" + std::to_string(t) + (x.s == T_MUTEX ? ":mutex" : x.s == T_COND ? ":cond" : x.s == T_JOIN ? ":join" : ":done"); } throw MemErr{"deadlock:" + w}; }
        throw PathEnd{"all threads done"};
    }
    auto apply = [me, mustSwitch](State &x, int c) {
        x.sched.push_back(c); int t = c & 0xff;
        if (c & 0x300) { x.spurious++; Thread &h = x.th[t]; h.s = T_MUTEX; h.on = h.mtx; h.signalled = false; h.wakeTimeout = (c & 0x200) != 0; return false; }
        if (t != me && !mustSwitch && enabled(x, me)) x.preempt++;
        x.cur = t; Thread &h = x.th[t];
        if (h.s == T_MUTEX) { x.mutexOwner[h.on] = t; h.s = T_RUN; h.acquired = true; }
        else if (h.s == T_JOIN) { h.s = T_RUN; h.acquired = true; }
        return true; };
    if (gcfg.haveSched) {
        size_t k = s.sched.size(); int c = k < gcfg.sched.size() ? gcfg.sched[k] : ch[0];
        if (std::find(ch.begin(), ch.end(), c) == ch.end()) c = ch[0];
        if (!apply(s, c)) reschedule(s, mustSwitch || !enabled(s, me)); return;
    }
    // clones resume by re-choosing: mark with a pending schedule
    for (size_t i = 1; i < ch.size(); i++) { State *o = clone(s); if (!apply(*o, ch[i])) o->needSched = true; work.push_back(o); }
    if (!apply(s, ch[0])) { reschedule(s, mustSwitch || !enabled(s, me)); }
}
static void joinVC(std::vector<u32> &a, const std::vector<u32> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static std::set<u64> raceExempt;
static void raceCheck(State &s, u64 addr, u64 n, bool write, int objIdx) {
    if (s.th.size() < 2) return; if (objIdx >= 0 && s.mem[objIdx].second->kind == 's' && false) return;
    Thread &me = s.th[s.cur]; if (me.vc.size() < s.th.size()) me.vc.resize(s.th.size(), 0);
    for (u64 a = addr; a < addr + n; a++) {
        if (raceExempt.count(a)) continue;
        RaceCell &c = s.race[a];
        if (c.w >= 0 && c.w != s.cur && c.wc > me.vc[c.w]) throw MemErr{std::string("data race: ") + (write ? "write" : "read") + " unordered with write by another thread"};
        if (write) { for (size_t t = 0; t < c.r.size(); t++) if ((int)t != s.cur && c.r[t] > me.vc[t]) throw MemErr{"data race: write unordered with read by another thread"}; c.w = s.cur; c.wc = me.vc[s.cur]; c.r.clear(); }
        else { if (c.r.size() < s.th.size()) c.r.resize(s.th.size(), 0); c.r[s.cur] = me.vc[s.cur]; }
    }
}
static void tick(State &s) { Thread &me = s.th[s.cur]; if ((int)me.vc.size() <= s.cur) me.vc.resize(s.th.size(), 0); me.vc[s.cur]++; }
static void threadDone(State &s) {
    tick(s); s.th[s.cur].s = T_DONE; s.th[s.cur].st.clear();
    if (s.cur == 0) throw PathEnd{"done"};
    reschedule(s, true);
}

// ---------------------------------------------------------------- externals
struct Ctx { State &s; DI &d; std::vector<Val> &a; Val ret; bool handledFlow = false; bool advance = true; };
typedef std::function<void(Ctx &)> Handler;
static std::unordered_map<std::string, Handler> H;
static const Handler *handlerFor(const std::string &n);
static std::unordered_map<const Function *, const Handler *> hcache;

static u64 argU(Ctx &c, int i) { if (c.a[i].k == V_UNDEF || c.a[i].k == V_RAW) throw MemErr{"argument of " + std::string(c.d.callee ? c.d.callee->getName() : "call") + " is uninitialised"}; return concInt(c.s, c.a[i]); }
static double argD(Ctx &c, int i) { if (c.a[i].k != V_FP) throw Unsupported("constant expected"); return c.a[i].d; }
static std::string argS(Ctx &c, int i) { return readStr(c.s, argU(c, i)); }

static void doFree(State &s, u64 p, char kind) {
    if (!p) return; int i = findObj(s, p);
    if (i < 0 || s.mem[i].second->base != p) throw MemErr{i < 0 ? "free of a pointer that is not a live allocation (double free?)" : "free of interior pointer"};
    Obj &o = *s.mem[i].second; if (o.kind != 'm' && o.kind != 'n' && o.kind != 'a') throw MemErr{"free of non-heap object"};
    (void)kind; if (o.kind != kind) throw MemErr{std::string("allocation/deallocation mismatch")};
    if (gcfg.sharedSched) { raceCheck(s, o.base, std::min<u64>(o.size, 256), true, i); }
    freeIdx(s, i);
}
static Val newInput(State &s, const std::string &name, char t, double lo, double hi) {
    InRec r; r.name = name; r.t = t; r.lo = lo; r.hi = hi; r.conc = false; r.val = 0; r.decl = 0;
    if (gcfg.concrete) {
        double v = s.in.size() < gcfg.conc.size() ? gcfg.conc[s.in.size()] : (t == 'i' ? lo : std::max(lo, std::min(hi, 0.0)));
        r.conc = true; r.val = v; s.in.push_back(r);
        if (t == 'i') return VI((u64)(i64)v, 32); return VF(t == 'f' ? (double)(float)v : v, t == 'f' ? 32 : 64);
    }
    if (lo == hi) { r.conc = true; r.val = lo; s.in.push_back(r); if (t == 'i') return VI((u64)(i64)lo, 32); return VF(lo, t == 'f' ? 32 : 64); }
    // the same (name, box) denotes the same variable on every path
    std::string nm = name + "#" + std::to_string(s.in.size());
    if (t == 'i') {
        expr v = ZC.bv_const(nm.c_str(), 32); r.decl = Z3_get_func_decl_id(ZC, v.decl()); keepAlive.push_back(v); s.in.push_back(r);
        addPC(s, v >= ZC.bv_val((int)lo, 32) && v <= ZC.bv_val((int)hi, 32)); return VB(v, 32);
    }
    if (g_fp) {
        Node *n = mkVar(nm, lo, hi, t == 'f', 0); expr v = F(n); r.decl = Z3_get_func_decl_id(ZC, v.decl()); s.in.push_back(r);
        expr l = t == 'f' ? ZC.fpa_val((float)lo) : ZC.fpa_val(lo), h = t == 'f' ? ZC.fpa_val((float)hi) : ZC.fpa_val(hi);
        addPC(s, expr(ZC, Z3_mk_fpa_leq(ZC, l, v)) && expr(ZC, Z3_mk_fpa_leq(ZC, v, h))); return VN(n);
    }
    int at; Node *n = mkVar(nm, lo, hi, t == 'f', &at); r.decl = Z3_get_func_decl_id(ZC, atoms[at].var.decl()); s.in.push_back(r); s.sym = true;
    return VN(n);
}
static bool isNonFin(const Val &v) { return v.k == V_FP && !std::isfinite(v.d); }
static void failConst(Ctx &c, const std::string &kind, const std::string &label) {
    labels[label].violated++; addReport(c.s, kind, label, where(c.s), {ZC.bool_val(true)}); pathsViol++;
}
static void doAssert(Ctx &c) {
    State &s = c.s; std::string label = argS(c, 1); LabelStat &L = labels[label]; L.checked++;
    Val v = c.a[0]; if (v.k == V_UNDEF || v.k == V_RAW) throw MemErr{"assertion on uninitialised value (" + label + ")"};
    if (v.k == V_INT) { if (v.i) { L.structural++; return; } failConst(c, "assert", label); throw PathEnd{"violated"}; }
    expr good = (bvOf(v) != ZC.bv_val(0, v.w)).simplify(); expr bad = !good;
    QRes r = check(s.pc, bad);
    if (r.r == UNSAT_) { L.discharged++; return; }
    if (r.r == UNK_) { L.unknown++; return; }
    L.violated++; addReport(s, "assert", label, where(s), {bad}); pathsViol++;
    if (check(s.pc, good).r == UNSAT_) throw PathEnd{"violated"};
    addPC(s, good);
}
static void doClose(Ctx &c) {
    State &s = c.s; std::string label = argS(c, 3); LabelStat &L = labels[label]; L.checked++;
    Val a = c.a[0], b = c.a[1], t = c.a[2];
    for (auto &x : {a, b, t}) if (x.k == V_UNDEF || x.k == V_RAW) throw MemErr{"comparison of uninitialised value (" + label + ")"};
    if (a.k == V_FP && b.k == V_FP && t.k == V_FP) { if (std::fabs(a.d - b.d) <= t.d) { L.structural++; return; } failConst(c, "close", label); return; }
    if (isNonFin(a) || isNonFin(b) || isNonFin(t)) { failConst(c, "close", label); return; }
    Node *x = nodeOf(a), *y = nodeOf(b);
    if (x == y) { L.structural++; return; }
    if (g_fp) {
        expr rm = expr(ZC, Z3_mk_fpa_rne(ZC)); expr d = expr(ZC, Z3_mk_fpa_abs(ZC, expr(ZC, Z3_mk_fpa_sub(ZC, rm, F(x), F(y)))));
        expr bad = !expr(ZC, Z3_mk_fpa_leq(ZC, d, F(nodeOf(t)))); QRes r = check(s.pc, bad);
        if (r.r == UNSAT_) { L.discharged++; return; } if (r.r == UNK_) { L.unknown++; return; }
        L.violated++; addReport(s, "close", label, where(s), {bad}); return;
    }
    double e = up(x->err + y->err); Poly d = polyAdd(x->p, 1, y->p, -1, e);
    if (t.k == V_FP && t.d > 0) { // terms that cannot matter for the tolerance go into the error bound
        double cut = t.d * 1e-3 / (d.t.size() + 1); Poly d2; quad more = 0;
        for (auto &m : d.t) { quad z = (m.second < 0 ? -m.second : m.second) * (quad)(m.first ? monoMag(m.first) : 1.0); if (z < (quad)cut) more += z; else d2.t.push_back(m); }
        if (d2.t.size() < d.t.size()) { e = up(e + qd_up(more * 1.0000001Q)); d = d2; } }
    double lo, hi; polyRange(d, lo, hi);
    if (t.k == V_FP && e >= t.d) { L.unknown++; errCount["tolerance below rounding bound: " + label + " err=" + std::to_string(e)]++; return; }
    if (t.k == V_FP && (d.t.size() > 400 || (d.t.size() > 60 && L.checked > 500)) && std::max(std::fabs(lo), std::fabs(hi)) + e <= t.d) { L.structural++; return; } // interval bound already decides a very long sum
    if (t.k == V_FP && std::max(std::fabs(lo), std::fabs(hi)) + e > t.d) { double bd; if (clearBound(d, bd) && bd + e <= t.d) { L.structural++; return; } }
    expr D = polyExpr(d), T = t.k == V_FP ? realD(t.d) : R(t.n);
    expr thr = T - realD(e);
    if (t.k == V_FP && (lo == hi) && d.t.size() <= 1) { /* constant difference */ }
    expr bad = D > thr || D < -thr; 
    QRes r = check(s.pc, D > thr); if (r.r == UNSAT_) { r = check(s.pc, D < -thr); }
    else if (r.r == UNK_) { QRes r2 = check(s.pc, D < -thr); if (r2.r == SAT_) r = r2; }
    if (r.r == UNSAT_) { L.discharged++; return; }
    if (r.r == UNK_) { L.unknown++; if (getenv("VP_DBG")) fprintf(stderr, "unknown close %s: d range [%g,%g] e=%g terms=%zu %s\n", label.c_str(), lo, hi, e, d.t.size(), d.t.size() < 4 ? polyExpr(d).to_string().c_str() : ""); return; }
    if (getenv("VP_DBG")) fprintf(stderr, "violated close %s: d range [%g,%g] e=%g terms=%zu %s\n", label.c_str(), lo, hi, e, d.t.size(), d.t.size() < 4 ? polyExpr(d).to_string().c_str() : "");
    L.violated++; std::vector<expr> qs; double w = std::max(std::fabs(lo), std::fabs(hi));
    if (std::isfinite(w)) for (double f : {0.9, 0.5, 0.1, 0.01, 1e-4}) { expr m = realD(w * f); if (t.k == V_FP && w * f < t.d + e) break; qs.push_back(D > m); qs.push_back(D < -m); }
    expr m2 = T + T + realD(e); qs.push_back(D > m2 || D < -m2); qs.push_back(bad);
    addReport(s, "close", label, where(s), qs); pathsViol++;
}
static void doSame(Ctx &c) {
    State &s = c.s; std::string label = argS(c, 2); LabelStat &L = labels[label]; L.checked++;
    Val a = c.a[0], b = c.a[1];
    if ((a.k == V_UNDEF || a.k == V_RAW) || (b.k == V_UNDEF || b.k == V_RAW)) throw MemErr{"comparison of uninitialised value (" + label + ")"};
    if (a.k == V_FP && b.k == V_FP) { if (a.d == b.d || (std::isnan(a.d) && std::isnan(b.d))) { L.structural++; return; } failConst(c, "same", label); return; }
    if (isNonFin(a) || isNonFin(b)) { failConst(c, "same", label); return; }
    Node *x = nodeOf(a), *y = nodeOf(b); if (x == y) { L.structural++; return; }
    expr bad = !cmpExpr(EQ, x, y); QRes r = check(s.pc, bad);
    if (r.r == UNSAT_) { L.discharged++; return; } if (r.r == UNK_) { L.unknown++; return; }
    L.violated++; std::vector<expr> qs;
    if (!g_fp) { expr D = R(x) - R(y); for (double m : {1.0, 1e-1, 1e-3, 1e-6}) { qs.push_back(D > realD(m)); qs.push_back(D < -realD(m)); } }
    qs.push_back(bad); addReport(s, "same", label, where(s), qs); pathsViol++;
}
// copy of a value with a name (for readability of traces)
static void regH(std::initializer_list<const char *> ns, Handler h) { for (auto n : ns) H[n] = h; }

static void memcmpImpl(Ctx &c, u64 p, u64 q, u64 n) {
    State &s = c.s; for (u64 i = 0; i < n; i++) { u64 o1, o2; Obj &A = access(s, p + i, 1, false, o1); Val x = loadInt(A, o1, 8); Obj &B = access(s, q + i, 1, false, o2); Val y = loadInt(B, o2, 8);
        if (x.k == V_INT && y.k == V_INT) { if (x.i != y.i) { c.ret = VI((u64)(i64)(x.i < y.i ? -1 : 1), 32); return; } continue; }
        throw Unsupported("memcmp on symbolic bytes"); }
    c.ret = VI(0, 32);
}
static void registerHandlers() {
    // ---- harness API
    regH({"vp_double"}, [](Ctx &c) { c.ret = newInput(c.s, argS(c, 0), 'd', argD(c, 1), argD(c, 2)); });
    regH({"vp_float"}, [](Ctx &c) { c.ret = newInput(c.s, argS(c, 0), 'f', argD(c, 1), argD(c, 2)); });
    regH({"vp_int"}, [](Ctx &c) { c.ret = newInput(c.s, argS(c, 0), 'i', (double)sextw(argU(c, 1), 32), (double)sextw(argU(c, 2), 32)); });
    regH({"vp_choice"}, [](Ctx &c) {
        State &s = c.s; int lo = sextw(argU(c, 1), 32), hi = sextw(argU(c, 2), 32); std::string nm = argS(c, 0);
        if (gcfg.concrete) { c.ret = newInput(s, nm, 'i', lo, hi); return; }
        InRec r; r.name = nm; r.t = 'i'; r.lo = lo; r.hi = hi; r.conc = true; r.decl = 0;
        if (!s.pendingChoice.empty()) { r.val = s.pendingChoice.back(); s.pendingChoice.pop_back(); s.in.push_back(r); c.ret = VI((u64)(i64)r.val, 32); return; }
        for (int v = hi; v > lo; v--) { State *o = clone(s); o->pendingChoice.push_back(v); work.push_back(o); }
        r.val = lo; s.in.push_back(r); c.ret = VI((u64)(i64)lo, 32); });
    regH({"vp_assume"}, [](Ctx &c) {
        Val v = c.a[0]; if (v.k == V_INT) { if (!v.i) throw PathEnd{"assume"}; return; }
        if (v.k != V_BV) throw MemErr{"assume on uninitialised value"};
        expr g = (bvOf(v) != ZC.bv_val(0, v.w)).simplify(); if (check(c.s.pc, g).r == UNSAT_) throw PathEnd{"assume"}; addPC(c.s, g); });
    regH({"vp_assert"}, doAssert); regH({"vp_close"}, doClose); regH({"vp_same"}, doSame);
    regH({"vp_observe"}, [](Ctx &c) { if (c.a[1].k == V_FP) c.s.obs.emplace_back(argS(c, 0), c.a[1].d); });
    regH({"vp_reach"}, [](Ctx &c) { c.s.reached.insert(argS(c, 0)); });
    regH({"vp_param"}, [](Ctx &c) { u64 i = argU(c, 0); c.ret = VI(i < gcfg.params.size() ? (u64)gcfg.params[i] : 0, 32); });
    regH({"vp_symbolic"}, [](Ctx &c) { c.ret = VI(c.a[0].k == V_FS, 32); });
    regH({"vp_isfinite"}, [](Ctx &c) { c.ret = VI(c.a[0].k == V_FP ? std::isfinite(c.a[0].d) : c.a[0].k == V_FS, 32); });
    regH({"vp_print"}, [](Ctx &c) { std::string t = argS(c, 0); Val v = c.a[1]; if (v.k == V_FP) fprintf(stderr, "P %s = %.17g\n", t.c_str(), v.d); else if (v.k == V_FS) fprintf(stderr, "P %s = node [%g,%g] err %g terms %zu\n", t.c_str(), v.n->lo, v.n->hi, v.n->err, v.n->p.t.size()); else fprintf(stderr, "P %s = kind %d\n", t.c_str(), v.k); });
    regH({"vp_heap_objects"}, [](Ctx &c) { int n = 0; for (auto &m : c.s.mem) { char k = m.second->kind; if (k == 'm' || k == 'n' || k == 'a') n++; } c.ret = VI(n, 32); });
    // ---- allocation
    auto mk = [](char kind) { return [kind](Ctx &c) { u64 n = argU(c, 0); if (n > (1ULL << 31)) { if (kind == 'm') { c.ret = VI(0, 64); return; } throw MemErr{"allocation of negative or enormous size"}; } c.ret = VI(alloc(c.s, n, kind, "heap"), 64); }; };
    regH({"malloc"}, mk('m')); regH({"_Znwm", "_ZnwmRKSt9nothrow_t"}, mk('n')); regH({"_Znam", "_ZnamRKSt9nothrow_t"}, mk('a'));
    regH({"calloc"}, [](Ctx &c) { u64 n = argU(c, 0) * argU(c, 1); u64 p = alloc(c.s, n, 'm', "calloc"); int i = findObj(c.s, p); Obj &o = wr(c.s, i); std::fill(o.data.begin(), o.data.end(), 0); std::fill(o.init.begin(), o.init.end(), 1); c.ret = VI(p, 64); });
    regH({"realloc"}, [](Ctx &c) { u64 p = argU(c, 0), n = argU(c, 1); u64 q = alloc(c.s, n, 'm', "realloc"); if (p) { int i = findObj(c.s, p); if (i < 0 || c.s.mem[i].second->base != p) throw MemErr{"realloc of a pointer that is not a live allocation"}; u64 m = std::min(n, c.s.mem[i].second->size); copyMem(c.s, q, p, m); doFree(c.s, p, 'm'); } c.ret = VI(q, 64); });
    regH({"aligned_alloc", "memalign"}, [](Ctx &c) { c.ret = VI(alloc(c.s, argU(c, 1), 'm', "heap", argU(c, 0)), 64); });
    regH({"posix_memalign"}, [](Ctx &c) { u64 al = argU(c, 1), n = argU(c, 2); u64 p = alloc(c.s, n, 'm', "heap", al); u64 off; Obj &o = access(c.s, argU(c, 0), 8, true, off); storeBytes(o, off, (u8 *)&p, 8); c.ret = VI(0, 32); });
    regH({"free"}, [](Ctx &c) { doFree(c.s, argU(c, 0), 'm'); });
    regH({"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"}, [](Ctx &c) { doFree(c.s, argU(c, 0), 'n'); });
    regH({"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}, [](Ctx &c) { doFree(c.s, argU(c, 0), 'a'); });
    // ---- mem/str
    auto cpy = [](Ctx &c) { u64 d = argU(c, 0), q = argU(c, 1), n = argU(c, 2); c.ret = c.a[0]; if (!n) return; u64 o; access(c.s, q, n, false, o); access(c.s, d, n, true, o); if (gcfg.sharedSched) { raceCheck(c.s, q, n, false, -1); raceCheck(c.s, d, n, true, -1); } copyMem(c.s, d, q, n); };
    regH({"memcpy", "memmove"}, cpy);
    regH({"memset"}, [](Ctx &c) { u64 d = argU(c, 0), n = argU(c, 2); c.ret = c.a[0]; if (!n) return; u64 off; Obj &o = access(c.s, d, n, true, off); clearCells(o, off, n); if (c.a[1].k == V_INT) { memset(&o.data[off], (int)c.a[1].i, n); memset(&o.init[off], 1, n); } else if (c.a[1].k == V_BV) { Val b = VB(bvOf(c.a[1]).extract(7, 0), 8); memset(&o.init[off], 1, n); for (u64 i = 0; i < n; i++) o.cells[off + i] = Cell{1, b}; } else memset(&o.init[off], 0, n); });
    regH({"strlen"}, [](Ctx &c) { c.ret = VI(argS(c, 0).size(), 64); });
    regH({"memcmp", "bcmp"}, [](Ctx &c) { memcmpImpl(c, argU(c, 0), argU(c, 1), argU(c, 2)); });
    regH({"strcmp"}, [](Ctx &c) { std::string a = argS(c, 0), b = argS(c, 1); c.ret = VI((u64)(i64)a.compare(b), 32); });
    regH({"strncmp"}, [](Ctx &c) { std::string a = argS(c, 0), b = argS(c, 1); u64 n = argU(c, 2); c.ret = VI((u64)(i64)strncmp(a.c_str(), b.c_str(), n), 32); });
    regH({"strcpy"}, [](Ctx &c) { std::string a = argS(c, 1); copyMem(c.s, argU(c, 0), argU(c, 1), a.size() + 1); c.ret = c.a[0]; });
    regH({"strncpy"}, [](Ctx &c) { std::string a = argS(c, 1); u64 n = argU(c, 2); std::vector<u8> b(n, 0); memcpy(b.data(), a.data(), std::min<u64>(n, a.size())); u64 off; Obj &o = access(c.s, argU(c, 0), n, true, off); storeBytes(o, off, b.data(), n); c.ret = c.a[0]; });
    regH({"strcat"}, [](Ctx &c) { std::string a = argS(c, 0), b = argS(c, 1); copyMem(c.s, argU(c, 0) + a.size(), argU(c, 1), b.size() + 1); c.ret = c.a[0]; });
    regH({"strchr"}, [](Ctx &c) { std::string a = argS(c, 0); size_t p = a.find((char)argU(c, 1)); if ((char)argU(c, 1) == 0) p = a.size(); c.ret = VI(p == std::string::npos ? 0 : argU(c, 0) + p, 64); });
    regH({"memchr"}, [](Ctx &c) { u64 p = argU(c, 0), n = argU(c, 2); u8 ch = argU(c, 1); c.ret = VI(0, 64); for (u64 i = 0; i < n; i++) { u64 o; Obj &O = access(c.s, p + i, 1, false, o); if (O.data[o] == ch) { c.ret = VI(p + i, 64); return; } } });
    regH({"toupper", "tolower"}, [](Ctx &c) { int x = argU(c, 0); c.ret = VI(c.d.callee->getName() == "toupper" ? toupper(x) : tolower(x), 32); });
    regH({"atoi"}, [](Ctx &c) { c.ret = VI(atoi(argS(c, 0).c_str()), 32); });
    // ---- libm
    for (const char *n : {"sqrt", "sin", "cos", "tan", "exp", "log", "log10", "log2", "exp2", "floor", "ceil", "fabs", "asin", "acos", "atan", "sinh", "cosh", "tanh", "round", "trunc", "rint", "nearbyint", "cbrt", "log1p", "expm1", "pow", "atan2", "fmod", "hypot", "fmax", "fmin", "copysign"}) {
        std::string nm = n; H[nm] = [nm](Ctx &c) { c.ret = mathCall(c.s, nm, c.a, 64); }; H[nm + "f"] = [nm](Ctx &c) { c.ret = mathCall(c.s, nm, c.a, 32); }; H["__" + nm + "_finite"] = H[nm]; }
    regH({"ldexp", "scalbn"}, [](Ctx &c) { int e = sextw(argU(c, 1), 32); if (c.a[0].k == V_FP) c.ret = VF(ldexp(c.a[0].d, e), 64); else c.ret = fbin(c.s, Instruction::FMul, c.a[0], VF(ldexp(1, e), 64)); });
    regH({"frexp"}, [](Ctx &c) { int e; double r = frexp(argD(c, 0), &e); u64 off; Obj &o = access(c.s, argU(c, 1), 4, true, off); storeBytes(o, off, (u8 *)&e, 4); c.ret = VF(r, 64); });
    regH({"modf"}, [](Ctx &c) { Val t = mathCall(c.s, "trunc", {c.a[0]}, 64); u64 p = argU(c, 1); Val r = fbin(c.s, Instruction::FSub, c.a[0], t); u64 off; Obj &o = access(c.s, p, 8, true, off); storeOff(o, off, t, Type::getDoubleTy(M->getContext())); c.ret = r; });
    auto lr = [](Ctx &c, bool even, unsigned w) { Val v = c.a[0]; if (v.k == V_FP) { c.ret = VI((u64)(i64)(even ? rint(v.d) : round(v.d)), w); return; } if (even || g_fp) throw Unsupported("lrint symbolic"); c.ret = VI((u64)(i64)concNode(c.s, mkFloorLike(N_ROUND, nodeOf(v))), w); };
    regH({"lrint", "lrintf", "llrint", "llrintf"}, [lr](Ctx &c) { lr(c, true, 64); }); regH({"lround", "lroundf", "llround", "llroundf"}, [lr](Ctx &c) { lr(c, false, 64); });
    regH({"__isnan", "isnan", "__isnanf"}, [](Ctx &c) { c.ret = VI(c.a[0].k == V_FP && std::isnan(c.a[0].d), 32); });
    regH({"__isinf", "isinf", "__isinff"}, [](Ctx &c) { c.ret = VI(c.a[0].k == V_FP && std::isinf(c.a[0].d), 32); });
    regH({"__finite", "finite"}, [](Ctx &c) { c.ret = VI(!(c.a[0].k == V_FP && !std::isfinite(c.a[0].d)), 32); });
    regH({"abs"}, [](Ctx &c) { Val v = c.a[0]; if (v.k == V_INT) c.ret = VI((u64)std::llabs(sextw(v.i, 32)), 32); else { expr e = bvOf(v); c.ret = VB(z3::ite(e < 0, -e, e), 32); } });
    // ---- environment
    regH({"rand"}, [](Ctx &c) { State &s = c.s; s.rnd = (s.rnd * 1103515245 + 12345) & 0x7fffffff; c.ret = VI(s.rnd, 32); });
    regH({"srand"}, [](Ctx &c) { c.s.rnd = 1; });
    regH({"time"}, [](Ctx &c) { u64 p = argU(c, 0); i64 t = 1000000; if (p) { u64 off; Obj &o = access(c.s, p, 8, true, off); storeBytes(o, off, (u8 *)&t, 8); } c.ret = VI(t, 64); });
    auto zero32 = [](Ctx &c) { c.ret = VI(0, 32); };
    regH({"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "putc", "vfprintf", "perror", "fwrite", "__cxa_atexit", "atexit", "signal", "fclose", "fopen", "setvbuf", "usleep", "sleep"}, [](Ctx &c) { c.ret = VI(0, c.d.w ? c.d.w : 32); });
    regH({"getenv"}, [](Ctx &c) { c.ret = VI(0, 64); });
    regH({"sprintf", "snprintf"}, [](Ctx &c) { // content not modelled: empty string
        u64 off; Obj &o = access(c.s, argU(c, 0), 1, true, off); u8 z = 0; storeBytes(o, off, &z, 1); c.ret = VI(0, 32); });
    regH({"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}, [](Ctx &) {});
    regH({"__errno_location"}, [](Ctx &c) { c.ret = VI(initErrno, 64); });
    regH({"exit", "_exit"}, [](Ctx &c) { throw MemErr{"library called exit(" + std::to_string((int)argU(c, 0)) + ")"}; });
    regH({"abort", "__assert_fail", "_ZSt9terminatev", "__cxa_pure_virtual", "__stack_chk_fail", "__clang_call_terminate"}, [](Ctx &c) { throw MemErr{"abort: " + std::string(c.d.callee->getName())}; });
    // ---- exceptions
    regH({"__cxa_allocate_exception"}, [](Ctx &c) { c.ret = VI(alloc(c.s, std::max<u64>(argU(c, 0), 16), 'x', "exc"), 64); });
    regH({"__cxa_free_exception"}, [](Ctx &) {});
    regH({"__cxa_throw"}, [](Ctx &c) { u64 p = argU(c, 0), t = argU(c, 1); std::string ti = gvAt.count(t) ? gvAt[t]->getName().str() : "?"; c.handledFlow = true; int i = findObj(c.s, p); if (i >= 0) wr(c.s, i).name = ti; unwind(c.s, p, ti, true); });
    regH({"__cxa_begin_catch"}, [](Ctx &c) { u64 p = argU(c, 0); int i = findObj(c.s, p); c.s.caughtStack.emplace_back(p, i >= 0 ? c.s.mem[i].second->name : "?"); c.ret = VI(p, 64); });
    regH({"__cxa_end_catch"}, [](Ctx &c) { if (!c.s.caughtStack.empty()) c.s.caughtStack.pop_back(); });
    regH({"__cxa_rethrow"}, [](Ctx &c) { if (c.s.caughtStack.empty()) throw MemErr{"rethrow without exception"}; auto p = c.s.caughtStack.back(); c.handledFlow = true; unwind(c.s, p.first, p.second, true); });
    regH({"__cxa_get_exception_ptr"}, [](Ctx &c) { c.ret = c.a[0]; });
    regH({"__cxa_guard_acquire"}, [](Ctx &c) { u64 off; Obj &o = access(c.s, argU(c, 0), 1, false, off); c.ret = VI(o.data[off] == 0, 32); });
    regH({"__cxa_guard_release"}, [](Ctx &c) { u64 off; Obj &o = access(c.s, argU(c, 0), 1, true, off); u8 one = 1; storeBytes(o, off, &one, 1); });
    regH({"__cxa_guard_abort"}, [](Ctx &) {});
    for (const char *n : {"16invalid_argument", "12length_error", "12out_of_range", "12domain_error", "11logic_error", "13runtime_error", "11range_error", "14overflow_error"}) {
        std::string b = std::string("_ZNSt") + n; for (const char *suf : {"C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C1ERKS_", "C2ERKS_", "D1Ev", "D2Ev"}) H[b + suf] = [](Ctx &) {}; }
    auto thr = [](const char *ti) { std::string t = ti; return [t](Ctx &c) { u64 p = alloc(c.s, 16, 'x', t); c.handledFlow = true; unwind(c.s, p, t, true); }; };
    regH({"_ZSt20__throw_length_errorPKc"}, thr("_ZTISt12length_error")); regH({"_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz"}, thr("_ZTISt12out_of_range"));
    regH({"_ZSt19__throw_logic_errorPKc"}, thr("_ZTISt11logic_error")); regH({"_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv"}, thr("_ZTISt9bad_alloc")); regH({"__cxa_throw_bad_array_new_length"}, thr("_ZTISt20bad_array_new_length"));
    regH({"_ZSt24__throw_invalid_argumentPKc"}, thr("_ZTISt16invalid_argument")); regH({"_ZSt16__throw_bad_castv"}, thr("_ZTISt8bad_cast"));
    regH({"_ZSt25__throw_bad_function_callv"}, thr("_ZTISt17bad_function_call"));
    // ---- pthreads
    regH({"pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_attr_init", "pthread_attr_setstacksize", "pthread_attr_destroy", "pthread_condattr_init", "pthread_condattr_destroy", "sched_yield"}, zero32);
    regH({"pthread_mutex_init", "pthread_cond_init"}, [](Ctx &c) { u64 off; Obj &o = access(c.s, argU(c, 0), 8, true, off); u64 z = 0; storeBytes(o, off, (u8 *)&z, 8); c.s.mutexOwner.erase(argU(c, 0)); c.ret = VI(0, 32); });
    regH({"pthread_mutex_destroy"}, [](Ctx &c) { u64 m = argU(c, 0); u64 off; access(c.s, m, 1, true, off); auto it = c.s.mutexOwner.find(m); if (it != c.s.mutexOwner.end() && it->second >= 0) throw MemErr{"destruction of a locked mutex"}; for (auto &t : c.s.th) if (t.s == T_MUTEX && t.on == m) throw MemErr{"destruction of a mutex in use"}; c.ret = VI(0, 32); });
    regH({"pthread_cond_destroy"}, [](Ctx &c) { u64 m = argU(c, 0); u64 off; access(c.s, m, 1, true, off); for (auto &t : c.s.th) if (t.s == T_COND && t.on == m) throw MemErr{"destruction of a condition variable in use"}; c.ret = VI(0, 32); });
    regH({"pthread_self"}, [](Ctx &c) { c.ret = VI(c.s.cur + 1, 64); });
    regH({"pthread_create"}, [](Ctx &c) {
        State &s = c.s; u64 fn = argU(c, 2), arg = argU(c, 3), pt = argU(c, 0); auto it = fnAt.find(fn); if (it == fnAt.end()) throw Unsupported("pthread_create target");
        u64 id = s.th.size() + 1; u64 off; Obj &o = access(s, pt, 8, true, off); storeBytes(o, off, (u8 *)&id, 8); if (gcfg.sharedSched) raceCheck(s, pt, 8, true, -1);
        int me = s.cur; tick(s); s.th.emplace_back(); Thread &t = s.th.back(); t.vc = s.th[me].vc; t.vc.resize(s.th.size(), 0); t.vc[s.th.size() - 1] = 1; s.cur = (int)s.th.size() - 1; std::vector<Val> a{VI(arg, 64)}; pushFrame(s, it->second, a); s.cur = me; c.ret = VI(0, 32); s.schedAfter = true; });
    regH({"pthread_join"}, [](Ctx &c) { State &s = c.s; int t = (int)argU(c, 0) - 1; if (t < 0 || t >= (int)s.th.size()) throw MemErr{"join of an invalid thread"}; if (s.th[t].joined) throw MemErr{"second join of a thread"};
        Thread &me = s.th[s.cur]; if (me.acquired) { me.acquired = false; s.th[t].joined = true; joinVC(me.vc, s.th[t].vc); c.ret = VI(0, 32); return; }
        if (s.th[t].s == T_DONE) { s.th[t].joined = true; joinVC(me.vc, s.th[t].vc); c.ret = VI(0, 32); return; }
        me.s = T_JOIN; me.on = t; c.advance = false; s.mustSched = true; });
    regH({"pthread_mutex_lock"}, [](Ctx &c) { State &s = c.s; u64 m = argU(c, 0); u64 off; access(s, m, 8, true, off); Thread &me = s.th[s.cur];
        if (me.acquired) { me.acquired = false; joinVC(me.vc, s.syncVC[m]); c.ret = VI(0, 32); return; }
        if (mutexFree(s, m)) { s.mutexOwner[m] = s.cur; joinVC(me.vc, s.syncVC[m]); c.ret = VI(0, 32); return; }
        me.s = T_MUTEX; me.on = m; c.advance = false; s.mustSched = true; });
    regH({"pthread_mutex_trylock"}, [](Ctx &c) { State &s = c.s; u64 m = argU(c, 0); if (mutexFree(s, m)) { s.mutexOwner[m] = s.cur; joinVC(s.th[s.cur].vc, s.syncVC[m]); c.ret = VI(0, 32); } else c.ret = VI(16, 32); });
    regH({"pthread_mutex_unlock"}, [](Ctx &c) { State &s = c.s; u64 m = argU(c, 0); u64 off; access(s, m, 8, true, off); auto it = s.mutexOwner.find(m); if (it == s.mutexOwner.end() || it->second != s.cur) throw MemErr{"unlock of a mutex not owned by the calling thread"}; it->second = -1; joinVC(s.syncVC[m], s.th[s.cur].vc); tick(s); c.ret = VI(0, 32); s.schedAfter = true; });
    regH({"pthread_cond_signal", "pthread_cond_broadcast"}, [](Ctx &c) { State &s = c.s; u64 q = argU(c, 0); u64 off; access(s, q, 8, true, off); bool all = c.d.callee->getName() == "pthread_cond_broadcast"; std::vector<int> w; for (int t = 0; t < (int)s.th.size(); t++) if (s.th[t].s == T_COND && s.th[t].on == q) w.push_back(t);
        for (size_t i = 0; i < w.size() && (all || i < 1); i++) { Thread &h = s.th[w[i]]; h.s = T_MUTEX; h.on = h.mtx; h.signalled = true; h.wakeTimeout = false; }
        c.ret = VI(0, 32); s.schedAfter = true; });
    auto cwait = [](Ctx &c, bool timed) { State &s = c.s; u64 q = argU(c, 0), m = argU(c, 1); Thread &me = s.th[s.cur];
        if (me.acquired) { me.acquired = false; joinVC(me.vc, s.syncVC[m]); c.ret = VI(me.wakeTimeout ? 110 : 0, 32); return; }
        u64 off; access(s, q, 8, true, off);
        if (timed) { u64 tp = argU(c, 2); Obj &o = access(s, tp, 16, false, off); s.dlSec = loadInt(o, off, 64); s.dlNs = loadInt(o, off + 8, 64); LabelStat &L = labels["deadline is a valid time"]; L.checked++;
            expr e = bvOf(s.dlNs), bad = (e < ZC.bv_val(0, 64) || e >= ZC.bv_val(1000000000, 64)).simplify();
            if (bad.is_false()) L.structural++;
            else { QRes r = check(s.pc, bad); if (r.r == UNSAT_) L.discharged++; else if (r.r == UNK_) L.unknown++; else { L.violated++; addReport(s, "assert", "deadline is a valid time", where(s), {bad}); pathsViol++; throw PathEnd{"violated"}; } } }
        auto it = s.mutexOwner.find(m); if (it == s.mutexOwner.end() || it->second != s.cur) throw MemErr{"condition wait without holding the mutex"};
        it->second = -1; joinVC(s.syncVC[m], me.vc); tick(s); me.s = T_COND; me.on = q; me.mtx = m; me.timed = timed; me.signalled = false; me.wakeTimeout = false; c.advance = false; s.mustSched = true; };
    regH({"pthread_cond_wait"}, [cwait](Ctx &c) { cwait(c, false); }); regH({"pthread_cond_timedwait"}, [cwait](Ctx &c) { cwait(c, true); });
    regH({"gettimeofday"}, [](Ctx &c) { // arbitrary microsecond part
        State &s = c.s; u64 p = argU(c, 0); Val us = newInput(s, "tv_usec", 'i', 0, 999999); s.nowUs = us; i64 sec = 1000; u64 off; Obj &o = access(s, p, 16, true, off); storeBytes(o, off, (u8 *)&sec, 8);
        Val u = us.k == V_INT ? VI(us.i, 64) : VB(z3::zext(bvOf(us), 32), 64); storeOff(o, off + 8, u, Type::getInt64Ty(M->getContext())); c.ret = VI(0, 32); });
    regH({"nanosleep"}, zero32);
    regH({"vp_deadline"}, [](Ctx &c) { State &s = c.s; Val v = c.a[0].i == 0 ? s.dlSec : c.a[0].i == 1 ? s.dlNs : s.nowUs; if (v.k == V_UNDEF) throw MemErr{"no timed wait was made"}; if (v.k == V_INT) c.ret = VI(v.i, 64); else c.ret = v.w == 64 ? v : VB(z3::zext(bvOf(v), 32), 64); });
    regH({"vp_log_point"}, [](Ctx &c) { double d = argD(c, 0); if (std::find(logPoints.begin(), logPoints.end(), d) == logPoints.end()) logPoints.push_back(d); });
    regH({"cexp"}, [](Ctx &c) { Val x = c.a[0], y = c.a[1]; Val e = mathCall(c.s, "exp", {x}, 64), re = mathCall(c.s, "cos", {y}, 64), im = mathCall(c.s, "sin", {y}, 64);
        if (!(x.k == V_FP && x.d == 0)) { re = fbin(c.s, Instruction::FMul, e, re); im = fbin(c.s, Instruction::FMul, e, im); } c.ret = VAgg({re, im}); });
    regH({"vp_race_exempt"}, [](Ctx &c) { u64 p = argU(c, 0), n = argU(c, 1); for (u64 i = 0; i < n; i++) raceExempt.insert(p + i); });
}
static bool ostreamName(const std::string &n) {
    static const char *pre[] = {"_ZNSo", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZNSt13basic_ostream", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNKSt5ctype", "_ZNSt8ios_base"};
    for (auto p : pre) if (n.compare(0, strlen(p), p) == 0) return true; return false;
}
static const Handler *handlerFor(const std::string &n) {
    auto it = H.find(n); if (it != H.end()) return &it->second;
    if (ostreamName(n)) { H[n] = [](Ctx &c) { if (!c.a.empty()) c.ret = c.a[0]; else c.ret = VI(0, 64); }; return &H[n]; }
    return 0;
}

// ---------------------------------------------------------------- intrinsics
static Val each(unsigned n, const std::vector<Val> &a, std::function<Val(const std::vector<Val> &)> f) {
    bool vec = false; for (auto &x : a) if (x.k == V_AGG) vec = true;
    if (!vec) return f(a);
    std::vector<Val> r; for (unsigned i = 0; i < n; i++) { std::vector<Val> b; for (auto &x : a) b.push_back(x.k == V_AGG ? x.a->v[i] : x); r.push_back(f(b)); } return VAgg(std::move(r));
}
static bool intrinsic(Ctx &c) {
    State &s = c.s; auto *ii = dyn_cast<IntrinsicInst>(c.d.I); if (!ii) return false; auto &a = c.a; auto id = ii->getIntrinsicID();
    Type *rt = ii->getType(); unsigned nv = 1; Type *et = rt; if (auto *vt = dyn_cast<FixedVectorType>(rt)) { nv = vt->getNumElements(); et = vt->getElementType(); } unsigned w = tyW(et);
    auto m1 = [&](const char *n) { c.ret = each(nv, a, [&](const std::vector<Val> &x) { return mathCall(s, n, x, w); }); return true; };
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: H["memcpy"](c); return true;
    case Intrinsic::memset: H["memset"](c); return true;
    case Intrinsic::fabs: return m1("fabs"); case Intrinsic::sqrt: return m1("sqrt"); case Intrinsic::floor: return m1("floor"); case Intrinsic::ceil: return m1("ceil"); case Intrinsic::trunc: return m1("trunc"); case Intrinsic::round: return m1("round"); case Intrinsic::rint: case Intrinsic::nearbyint: return m1("rint");
    case Intrinsic::exp: return m1("exp"); case Intrinsic::exp2: return m1("exp2"); case Intrinsic::log: return m1("log"); case Intrinsic::log10: return m1("log10"); case Intrinsic::log2: return m1("log2"); case Intrinsic::sin: return m1("sin"); case Intrinsic::cos: return m1("cos"); case Intrinsic::pow: return m1("pow");
    case Intrinsic::maxnum: case Intrinsic::maximum: return m1("fmax"); case Intrinsic::minnum: case Intrinsic::minimum: return m1("fmin");
    case Intrinsic::copysign: { if (a[0].k == V_FP && a[1].k == V_FP) { c.ret = VF(copysign(a[0].d, a[1].d), w); return true; } Val m = mathCall(s, "fabs", {a[0]}, w); bool neg; if (a[1].k == V_FP) neg = std::signbit(a[1].d); else neg = fact(s, a[1].n, F_NEG); c.ret = neg ? (m.k == V_FP ? VF(-m.d, w) : VN(mkNeg(m.n))) : m; return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: c.ret = each(nv, a, [&](const std::vector<Val> &x) { return fbin(s, Instruction::FAdd, fbin(s, Instruction::FMul, x[0], x[1]), x[2]); }); return true;
    case Intrinsic::powi: { int p = sextw(argU(c, 1), 32); c.ret = each(nv, {a[0]}, [&](const std::vector<Val> &x) { unsigned n = p < 0 ? -(unsigned)p : p; Val y = (n & 1) ? x[0] : VF(1, w), b = x[0]; while (n >>= 1) { b = fbin(s, Instruction::FMul, b, b); if (n & 1) y = fbin(s, Instruction::FMul, y, b); } if (p < 0) y = fbin(s, Instruction::FDiv, VF(1, w), y); return y; }); return true; }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        unsigned p = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
        c.ret = each(nv, a, [&](const std::vector<Val> &x) { return selectOp(s, icmp(s, p, x[0], x[1], w), x[0], x[1]); }); return true; }
    case Intrinsic::abs: c.ret = each(nv, {a[0]}, [&](const std::vector<Val> &x) { if (x[0].k == V_INT) return VI((u64)std::llabs(sextw(x[0].i, w)), w); if (x[0].k != V_BV) return VU(w); expr e = bvOf(x[0]); return VB(z3::ite(e < 0, -e, e), w); }); return true;
    case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: c.ret = each(nv, {a[0]}, [&](const std::vector<Val> &x) {
        if (x[0].k == V_INT) { u64 v = x[0].i; if (id == Intrinsic::ctpop) return VI(__builtin_popcountll(v), w); if (!v) return VI(w, w); return VI(id == Intrinsic::ctlz ? __builtin_clzll(v) - (64 - w) : __builtin_ctzll(v), w); }
        if (x[0].k != V_BV) return VU(w); expr e = bvOf(x[0]); expr r = ZC.bv_val((uint64_t)(id == Intrinsic::ctpop ? 0 : w), w);
        if (id == Intrinsic::ctpop) { for (unsigned i = 0; i < w; i++) r = r + z3::zext(e.extract(i, i), w - 1); }
        else if (id == Intrinsic::ctlz) { for (unsigned i = 0; i < w; i++) r = z3::ite(e.extract(i, i) == ZC.bv_val(1, 1), ZC.bv_val((uint64_t)(w - 1 - i), w), r); }
        else { for (unsigned i = w; i-- > 0;) r = z3::ite(e.extract(i, i) == ZC.bv_val(1, 1), ZC.bv_val((uint64_t)i, w), r); }
        return VB(r, w); }); return true;
    case Intrinsic::bswap: { u64 v = argU(c, 0); u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((v >> (8 * i)) & 0xff) << (w - 8 - 8 * i); c.ret = VI(r, w); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: { u64 x = argU(c, 0), y = argU(c, 1), sh = argU(c, 2) % w; u64 r; if (id == Intrinsic::fshl) r = sh ? (x << sh) | (maskw(y, w) >> (w - sh)) : x; else r = sh ? (x << (w - sh)) | (maskw(y, w) >> sh) : y; c.ret = VI(r, w); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
        unsigned ww = tyW(ii->getArgOperand(0)->getType()); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        if (a[0].k == V_INT && a[1].k == V_INT) { __int128 x = sg ? (__int128)sextw(a[0].i, ww) : (__int128)a[0].i, y = sg ? (__int128)sextw(a[1].i, ww) : (__int128)a[1].i, r = 0;
            if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) r = x + y; else if (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) r = x - y; else r = x * y;
            bool ov = sg ? (r != (__int128)sextw((u64)r, ww)) : (r < 0 || r != (__int128)maskw((u64)r, ww)); std::vector<Val> v{VI((u64)r, ww), VI(ov, 1)}; c.ret = VAgg(std::move(v)); return true; }
        expr x = bvOf(a[0]), y = bvOf(a[1]); unsigned W = 2 * ww; expr X = sg ? z3::sext(x, ww) : z3::zext(x, ww), Y = sg ? z3::sext(y, ww) : z3::zext(y, ww); (void)W;
        expr r = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow ? X + Y : id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow ? X - Y : X * Y; expr t = r.extract(ww - 1, 0); expr back = sg ? z3::sext(t, ww) : z3::zext(t, ww);
        std::vector<Val> v{VB(t, ww), VB(back != r, 1)}; c.ret = VAgg(std::move(v)); return true; }
    case Intrinsic::uadd_sat: case Intrinsic::usub_sat: case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
        c.ret = each(nv, a, [&](const std::vector<Val> &x) {
            bool sg = id == Intrinsic::sadd_sat || id == Intrinsic::ssub_sat;
            if (x[0].k == V_INT && x[1].k == V_INT) { __int128 p = sg ? (__int128)sextw(x[0].i, w) : (__int128)x[0].i, q = sg ? (__int128)sextw(x[1].i, w) : (__int128)x[1].i; __int128 r = id == Intrinsic::uadd_sat || id == Intrinsic::sadd_sat ? p + q : p - q;
                __int128 lo = sg ? -((__int128)1 << (w - 1)) : 0, hi = sg ? ((__int128)1 << (w - 1)) - 1 : ((__int128)1 << w) - 1; if (r < lo) r = lo; if (r > hi) r = hi; return VI((u64)r, w); }
            if (x[0].k != V_BV && x[1].k != V_BV) return VU(w);
            expr p = bvOf(x[0]), q = bvOf(x[1]); if (id == Intrinsic::usub_sat) return VB(z3::ite(z3::ult(p, q), ZC.bv_val(0, w), p - q), w); throw Unsupported("saturating op on symbolic value"); return VU(w); }); return true; }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: throw Unsupported("fptosi.sat");
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: c.ret = a[0]; return true;
    case Intrinsic::objectsize: c.ret = VI(~0ULL, w); return true;
    case Intrinsic::is_constant: c.ret = VI(0, 1); return true;
    case Intrinsic::eh_typeid_for: c.ret = VI(addrOfGlobal(cast<GlobalValue>(ii->getArgOperand(0)->stripPointerCasts())) & 0x7fffffff, 32); return true;
    case Intrinsic::stacksave: c.ret = VI(0, 64); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: throw MemErr{"trap"};
    case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: c.ret = VI(0, 64); return true;
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: throw Unsupported("varargs");
    case Intrinsic::is_fpclass: { u64 mask = cast<ConstantInt>(ii->getArgOperand(1))->getZExtValue(); 
        c.ret = each(nv, {a[0]}, [&](const std::vector<Val> &x) {
            if (x[0].k == V_FP) { double d = x[0].d; int cl = std::fpclassify(d); bool ng = std::signbit(d); unsigned bit = cl == FP_NAN ? 3 : cl == FP_INFINITE ? (ng ? 4 : 0x200) : cl == FP_NORMAL ? (ng ? 8 : 0x100) : cl == FP_SUBNORMAL ? (ng ? 0x10 : 0x80) : (ng ? 0x20 : 0x40); return VI((mask & bit) != 0, 1); }
            if (x[0].k != V_FS) return VU(1);
            if (g_fp) { expr f = F(x[0].n); expr r = ZC.bool_val(false); if ((mask & 3) == 3) r = r || expr(ZC, Z3_mk_fpa_is_nan(ZC, f)); if (mask & ~3u & ~0x204u) throw Unsupported("fpclass"); if (mask & 0x204) r = r || expr(ZC, Z3_mk_fpa_is_infinite(ZC, f)); return VB(r, 1); }
            if (!(mask & 0x1f8)) return VI(0, 1); if ((mask & 0x1f8) == 0x1f8) return VI(1, 1); if (mask == 0x60) return fcmp(s, CmpInst::FCMP_OEQ, x[0], VF(0, x[0].w)); throw Unsupported("fpclass"); }); return true; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_mul: {
        unsigned op = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : Instruction::Xor;
        Val r = a[0].a->v[0]; for (size_t i = 1; i < a[0].a->v.size(); i++) r = ibin(s, op, r, a[0].a->v[i], w); c.ret = r; return true; }
    case Intrinsic::vector_reduce_fadd: { Val r = a[0]; for (auto &x : a[1].a->v) r = fbin(s, Instruction::FAdd, r, x); c.ret = r; return true; }
    case Intrinsic::load_relative: throw Unsupported("load.relative");
    case Intrinsic::threadlocal_address: c.ret = a[0]; return true;
    default: throw Unsupported("intrinsic " + Intrinsic::getBaseName(id).str());
    }
}

// ---------------------------------------------------------------- one instruction
static void doCall(State &s, DI &d) {
    Function *callee = d.callee; std::vector<Val> a; size_t n = d.ops.size(); if (!callee) n--;
    a.reserve(n); for (size_t i = 0; i < n; i++) a.push_back(ev(s, d.ops[i]));
    if (!callee) {
        if (cast<CallBase>(d.I)->isInlineAsm()) { s.st().back().ip++; return; } // empty asm barriers
        Val t = ev(s, d.ops.back()); u64 p = addrOf(s, t); auto it = fnAt.find(p); if (it == fnAt.end()) { if (!p) throw MemErr{"call through null pointer"}; throw MemErr{"call through a pointer that is not a function"}; } callee = it->second; }
    Ctx c{s, d, a, Val()}; c.ret = VU(d.w ? d.w : 64);
    const Handler *h = 0; bool isIntr = callee->isIntrinsic();
    if (!isIntr) { auto it = hcache.find(callee); if (it != hcache.end()) h = it->second; else { h = (callee->isDeclaration() || H.count(callee->getName().str()) ) ? handlerFor(callee->getName().str()) : 0; hcache[callee] = h; } }
    if (isIntr) intrinsic(c);
    else if (h) { s.schedAfter = false; s.mustSched = false; Function *save = d.callee; d.callee = callee; try { (*h)(c); } catch (...) { d.callee = save; throw; } d.callee = save; }
    else if (callee->isDeclaration()) throw Unsupported("external function " + callee->getName().str());
    else { pushFrame(s, callee, a); return; }
    if (c.handledFlow) return;
    if (c.advance) { Frame &fr = s.st().back(); if (d.dst >= 0) fr.regs[d.dst] = c.ret; if (d.op == Instruction::Invoke) jump(s, d.succ[0]); else fr.ip++; }
    if (h && (s.schedAfter || s.mustSched)) { bool must = s.mustSched; s.schedAfter = s.mustSched = false; if (s.th.size() > 1 || must) reschedule(s, must); }
}
static std::unordered_map<Function *, int> ctorsDone;
static void step(State &s) {
    Frame &fr = s.st().back(); DI &d = fr.f->bbs[fr.bb].ins[fr.ip];
    auto set = [&](const Val &v) { s.st().back().regs[d.dst] = v; s.st().back().ip++; };
    auto vecBin = [&](std::function<Val(Val, Val)> f) { Val a = ev(s, d.ops[0]), b = ev(s, d.ops[1]); if (a.k == V_AGG || b.k == V_AGG) { if (a.k != V_AGG || b.k != V_AGG) { set(VU()); return; } std::vector<Val> r; for (size_t i = 0; i < a.a->v.size(); i++) r.push_back(f(a.a->v[i], b.a->v[i])); set(VAgg(std::move(r))); } else set(f(a, b)); };
    switch (d.op) {
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        if (d.ty->isVectorTy()) { vecBin([&](Val x, Val y) { return fbin(s, d.op, x, y); }); return; }
        if (!d.w) throw Unsupported("long double arithmetic");
        set(fbin(s, d.op, ev(s, d.ops[0]), ev(s, d.ops[1]))); return; }
    case Instruction::FNeg: { Val a = ev(s, d.ops[0]); auto f = [&](const Val &x) { if (x.k == V_FP) return VF(-x.d, x.w); if (x.k == V_FS) return VN(mkNeg(x.n)); return x; }; if (a.k == V_AGG) { std::vector<Val> r; for (auto &x : a.a->v) r.push_back(f(x)); set(VAgg(std::move(r))); } else set(f(a)); return; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        if (d.ty->isVectorTy()) { unsigned w = tyW(cast<VectorType>(d.ty)->getElementType()); vecBin([&](Val x, Val y) { return ibin(s, d.op, x, y, w); }); return; }
        if (d.w > 64) throw Unsupported("wide integer");
        Val a = ev(s, d.ops[0]), b = ev(s, d.ops[1]);
        // short-circuit forms on partly undefined i1
        if (d.w == 1 && d.op == Instruction::And) { if ((a.k == V_INT && !a.i) || (b.k == V_INT && !b.i)) { set(VI(0, 1)); return; } }
        if (d.w == 1 && d.op == Instruction::Or) { if ((a.k == V_INT && a.i) || (b.k == V_INT && b.i)) { set(VI(1, 1)); return; } }
        set(ibin(s, d.op, a, b, d.w)); return; }
    case Instruction::ICmp: {
        if (d.ty->isVectorTy()) { unsigned w = tyW(cast<VectorType>(d.ty)->getElementType()); vecBin([&](Val x, Val y) { return icmp(s, d.pred, x, y, w); }); return; }
        set(icmp(s, d.pred, ev(s, d.ops[0]), ev(s, d.ops[1]), d.w)); return; }
    case Instruction::FCmp: {
        if (d.ty->isVectorTy()) { vecBin([&](Val x, Val y) { return fcmp(s, d.pred, x, y); }); return; }
        set(fcmp(s, d.pred, ev(s, d.ops[0]), ev(s, d.ops[1]))); return; }
    case Instruction::Select: { Val c = ev(s, d.ops[0]), a = ev(s, d.ops[1]), b = ev(s, d.ops[2]); set(selectOp(s, c, a, b)); return; }
    case Instruction::Br: {
        if (d.ops.empty()) { jump(s, d.succ[0]); return; }
        Val c = ev(s, d.ops[0]); bool t; concBool(s, c, t); 
        // successors were recorded as (true,false)
        jump(s, t ? d.succ[0] : d.succ[1]); return; }
    case Instruction::Switch: {
        Val c = ev(s, d.ops[0]); 
        if (c.k == V_BV) { // decide case by case
            u64 w = c.w; for (size_t i = 0; i < d.cases.size(); i++) { Val e = VB(bvOf(c) == ZC.bv_val((uint64_t)maskw(d.cases[i], w), w), 1); if (e.k == V_INT ? e.i : 0) { jump(s, d.succ[i + 1]); return; } if (e.k == V_INT) continue; bool t; concBool(s, e, t); if (t) { jump(s, d.succ[i + 1]); return; } }
            jump(s, d.succ[0]); return; }
        u64 v = addrOf(s, c); for (size_t i = 0; i < d.cases.size(); i++) if (maskw(d.cases[i], c.w) == v) { jump(s, d.succ[i + 1]); return; } jump(s, d.succ[0]); return; }
    case Instruction::Load: {
        u64 p = addrOf(s, ev(s, d.ops[0])), off; Obj &o = access(s, p, d.tsize, false, off); if (gcfg.sharedSched) raceCheck(s, p, d.tsize, false, -1); set(loadOff(o, off, d.ty)); return; }
    case Instruction::Store: {
        Val v = ev(s, d.ops[0]); u64 p = addrOf(s, ev(s, d.ops[1])), off; Obj &o = access(s, p, d.tsize, true, off); if (gcfg.sharedSched) raceCheck(s, p, d.tsize, true, -1); storeOff(o, off, v, d.ty); fr.ip++; return; }
    case Instruction::GetElementPtr: {
        Val b = ev(s, d.ops[0]); i64 off = d.off; bool sym = b.k != V_INT; expr *dummy = 0; (void)dummy;
        if (b.k == V_UNDEF || b.k == V_RAW) { set(VU(64)); return; }
        std::vector<std::pair<Val, i64>> symIdx;
        for (auto &ix : d.idx) { Val v = ev(s, ix.first); if (v.k == V_INT) off += sextw(v.i, v.w) * ix.second; else if (v.k == V_BV) { symIdx.emplace_back(v, ix.second); sym = true; } else { set(VU(64)); return; } }
        if (!sym) { set(VI(b.i + off, 64)); return; }
        expr e = bvOf(b) + ZC.bv_val((int64_t)off, 64);
        for (auto &x : symIdx) { expr v = bvOf(x.first); if (x.first.w < 64) v = z3::sext(v, 64 - x.first.w); e = e + v * ZC.bv_val((int64_t)x.second, 64); }
        set(VB(e, 64)); return; }
    case Instruction::Alloca: { u64 n = d.tsize; Val c = ev(s, d.ops[0]); u64 k = addrOf(s, c); u64 p = alloc(s, n * k, 's', "stack", 16); s.st().back().allocas.push_back(p); set(VI(p, 64)); return; }
    case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
    case Instruction::Ret: {
        Val r; bool has = !d.ops.empty(); if (has) r = ev(s, d.ops[0]); popFrame(s);
        if (s.st().empty()) { threadDone(s); return; }
        Frame &c = s.st().back(); DI &cd = c.f->bbs[c.bb].ins[c.ip]; if (cd.dst >= 0 && has) c.regs[cd.dst] = r;
        if (cd.op == Instruction::Invoke) jump(s, cd.succ[0]); else c.ip++; return; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Val a = ev(s, d.ops[0]); Type *st = d.I->getOperand(0)->getType();
        if (a.k == V_AGG && d.op != Instruction::BitCast) { Type *e1 = cast<VectorType>(st)->getElementType(), *e2 = cast<VectorType>(d.ty)->getElementType(); std::vector<Val> r; for (auto &x : a.a->v) r.push_back(castOp(s, d.op, x, tyW(e1), e2)); set(VAgg(std::move(r))); return; }
        if (d.ty->isX86_FP80Ty() || st->isX86_FP80Ty()) throw Unsupported("long double");
        bool back = d.op == Instruction::FPToSI; if (back) for (auto *u : d.I->users()) if (!isa<SIToFPInst>(u)) back = false;
        set(castOp(s, d.op, a, tyW(st), d.ty, back)); return; }
    case Instruction::ExtractValue: { Val a = ev(s, d.ops[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { if (a.k != V_AGG) { a = VU(); break; } Val t = a.a->v[i]; a = t; } set(a); return; }
    case Instruction::InsertValue: {
        Val a = ev(s, d.ops[0]), v = ev(s, d.ops[1]); auto idx = cast<InsertValueInst>(d.I)->getIndices();
        std::function<Val(Val, Type *, unsigned)> ins = [&](Val x, Type *t, unsigned k) -> Val { if (k == idx.size()) return v; std::vector<Val> r; unsigned n = isa<StructType>(t) ? cast<StructType>(t)->getNumElements() : cast<ArrayType>(t)->getNumElements(); if (x.k == V_AGG) r = x.a->v; else r.assign(n, VU()); Type *et = isa<StructType>(t) ? cast<StructType>(t)->getElementType(idx[k]) : cast<ArrayType>(t)->getElementType(); r[idx[k]] = ins(r[idx[k]], et, k + 1); return VAgg(std::move(r)); };
        set(ins(a, d.ty, 0)); return; }
    case Instruction::ExtractElement: { Val a = ev(s, d.ops[0]); u64 i = addrOf(s, ev(s, d.ops[1])); set(a.k == V_AGG && i < a.a->v.size() ? a.a->v[i] : VU(d.w)); return; }
    case Instruction::InsertElement: { Val a = ev(s, d.ops[0]), v = ev(s, d.ops[1]); u64 i = addrOf(s, ev(s, d.ops[2])); std::vector<Val> r; unsigned n = cast<FixedVectorType>(d.ty)->getNumElements(); if (a.k == V_AGG) r = a.a->v; else r.assign(n, VU()); if (i < n) r[i] = v; set(VAgg(std::move(r))); return; }
    case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(d.I); Val a = ev(s, d.ops[0]), b = ev(s, d.ops[1]); unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); std::vector<Val> r; for (int m : sv->getShuffleMask()) { if (m < 0) r.push_back(VU()); else if ((unsigned)m < n) r.push_back(a.k == V_AGG ? a.a->v[m] : VU()); else r.push_back(b.k == V_AGG ? b.a->v[m - n] : VU()); } set(VAgg(std::move(r))); return; }
    case Instruction::Freeze: { Val a = ev(s, d.ops[0]); set(a); return; }
    case Instruction::Unreachable: throw MemErr{"reached code the compiler assumes unreachable"};
    case Instruction::LandingPad: throw Unsupported("landingpad fallthrough");
    case Instruction::Resume: { Val a = ev(s, d.ops[0]); u64 p = a.k == V_AGG ? a.a->v[0].i : s.excPtr; int i = findObj(s, p); std::string ti = i >= 0 ? s.mem[i].second->name : s.excTi; popFrame(s); unwind(s, p, ti, false); return; }
    case Instruction::Fence: fr.ip++; return;
    case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(d.I); u64 p = addrOf(s, ev(s, d.ops[0])); Val v = ev(s, d.ops[1]); u64 off, n = DL->getTypeStoreSize(r->getType()); Obj &o = access(s, p, n, true, off); Val old = loadOff(o, off, r->getType()); Val nw; switch (r->getOperation()) { case AtomicRMWInst::Add: nw = ibin(s, Instruction::Add, old, v, d.w); break; case AtomicRMWInst::Sub: nw = ibin(s, Instruction::Sub, old, v, d.w); break; case AtomicRMWInst::Xchg: nw = v; break; default: throw Unsupported("atomicrmw"); } storeOff(o, off, nw, r->getType()); set(old); return; }
    case Instruction::AtomicCmpXchg: { u64 p = addrOf(s, ev(s, d.ops[0])); Val cmp = ev(s, d.ops[1]), nw = ev(s, d.ops[2]); Type *t = d.I->getOperand(1)->getType(); u64 off, n = DL->getTypeStoreSize(t); Obj &o = access(s, p, n, true, off); Val old = loadOff(o, off, t); if (old.k != V_INT || cmp.k != V_INT) throw Unsupported("cmpxchg"); bool ok = old.i == cmp.i; if (ok) storeOff(o, off, nw, t); std::vector<Val> r{old, VI(ok, 1)}; set(VAgg(std::move(r))); return; }
    default: throw Unsupported(std::string("instruction ") + d.I->getOpcodeName());
    }
}

// ---------------------------------------------------------------- path loop
static void finish(State &s, const std::string &why) {
    if (why == "assume" || why == "infeasible") { pathsAssume++; return; }
    pathsDone++;
    for (auto &r : s.reached) reach[r]++;
    if (gcfg.concrete) { lastObs = s.obs; concOutcome = why; }
    else if (gcfg.samples > 0 && (int)samplePaths.size() < gcfg.samples && !gcfg.haveSched) {
        // spread samples over the exploration
        if (pathsDone <= 2 || rng() % 4 == 0) { std::vector<double> v; if (inputsFrom(s, ZC.bool_val(true), v)) { samplePaths.push_back(v); sampleScheds.push_back(s.sched); } }
    }
    if (pathsDone > 0) { long n = 0; for (auto &t : s.th) n += t.st.size(); (void)n; }
}
static void runPath(State *sp) {
    State &s = *sp; 
    try {
        if (s.needSched) { s.needSched = false; reschedule(s, s.th[s.cur].s != T_RUN); }
        while (true) {
            step(s); s.instrs++; totalInstr++;
            if ((totalInstr & 0xfff) == 0) {
                if (elapsed() > gcfg.tlimit) { errCount["time limit"]++; pathsLeft++; delete sp; return; }
                if (s.instrs > gcfg.ilimit) { addReport(s, "nontermination", "terminates", where(s), {ZC.bool_val(true)}); labels["terminates"].violated++; pathsViol++; pathsErr++; if (gcfg.concrete) concOutcome = "nontermination"; delete sp; return; }
            }
        }
    } catch (PathEnd &e) {
        if (e.why.compare(0, 8, "uncaught") == 0) { labels["no uncaught exception"].violated++; addReport(s, "exception", e.why, "", {ZC.bool_val(true)}); pathsViol++; if (gcfg.concrete) concOutcome = e.why; }
        else if (e.why == "violated") { pathsErr++; if (gcfg.concrete) { concOutcome = "violated"; lastObs = s.obs; } }
        else { if (e.why == "assume" && gcfg.concrete) concOutcome = "assume"; finish(s, e.why); }
    } catch (MemErr &e) {
        std::string kind = e.what.find("uninit") != std::string::npos ? "uninit" : e.what.find("deadlock") == 0 ? "deadlock" : e.what.find("data race") == 0 ? "race" : e.what.find("integer division") == 0 ? "divzero" : e.what.find("abort") == 0 || e.what.find("library called exit") == 0 || e.what == "trap" || e.what.find("reached code") == 0 ? "abort" : "memory";
        std::string w = s.st().empty() ? "" : where(s); std::string top = s.st().empty() ? "" : s.st().back().f->name;
        labels["no " + kind + " error"].violated++; addReport(s, kind, e.what + " in " + top, w, {ZC.bool_val(true)}); pathsViol++; pathsErr++; if (gcfg.concrete) concOutcome = kind + ": " + e.what;
    } catch (Unsupported &e) {
        errCount[std::string("unsupported: ") + e.what() + (s.st().empty() ? "" : " in " + where(s))]++; pathsErr++; if (gcfg.concrete) concOutcome = e.what();
    } catch (z3::exception &e) { errCount[std::string("z3: ") + e.msg() + (s.st().empty() ? "" : " in " + where(s))]++; pathsErr++; }
    delete sp;
}
static std::string jstr(const std::string &s) { std::string r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r + "\""; }
static std::string jnum(double d) { char b[64]; if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; snprintf(b, 64, "%.17g", d); return b; }
static std::string jhex(double d) { char b[64]; snprintf(b, 64, "\"%a\"", d); return b; }

#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Scalar/LowerExpectIntrinsic.h>
static void optimise(Module &m) {
    // ostream code is replaced by no-op stubs
    for (auto &F : m) { if (!F.isDeclaration() && (ostreamName(F.getName().str()))) { F.deleteBody(); F.setComdat(0); F.setLinkage(GlobalValue::ExternalLinkage); }
        F.removeFnAttr(Attribute::OptimizeNone); }
    for (auto &F : m) if (!F.isDeclaration() && F.getName() != "vp_main") { F.setComdat(0); F.setLinkage(GlobalValue::InternalLinkage); }
    for (auto &G : m.globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setComdat(0); G.setLinkage(GlobalValue::InternalLinkage); }
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false;
    PassBuilder PB(nullptr, pto); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    { ModulePassManager pm; pm.addPass(GlobalDCEPass()); pm.run(m, MAM); }
    ModulePassManager pm = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); pm.addPass(GlobalDCEPass()); pm.run(m, MAM);
}
static std::vector<double> readNums(const char *f) { std::vector<double> r; std::ifstream i(f); std::string t; while (i >> t) r.push_back(strtod(t.c_str(), 0)); return r; }
int main(int argc, char **argv) {
    T0 = std::chrono::steady_clock::now();
    std::string bc, out; std::string saveBc;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--params") { std::stringstream ss(nx()); std::string t; while (std::getline(ss, t, ',')) gcfg.params.push_back(atol(t.c_str())); }
        else if (a == "--fp") g_fp = true; else if (a == "--deltas") g_deltas = true; else if (a == "--precise") g_precise = true; else if (a == "--expand") g_expand = atoi(argv[++i]);
        else if (a == "--time") gcfg.tlimit = atof(argv[++i]); else if (a == "--ilimit") gcfg.ilimit = strtoull(argv[++i], 0, 10); else if (a == "--qtimeout") g_qtimeout = atoi(argv[++i]);
        else if (a == "--inputs") { gcfg.concrete = true; gcfg.conc = readNums(argv[++i]); } else if (a == "--sched") { gcfg.haveSched = true; for (double d : readNums(argv[++i])) gcfg.sched.push_back((int)d); }
        else if (a == "--samples") gcfg.samples = atoi(argv[++i]); else if (a == "--seed") gcfg.seed = atol(argv[++i]); else if (a == "--race") gcfg.sharedSched = true; else if (a == "--preempt") gcfg.maxpreempt = atoi(argv[++i]); else if (a == "--spurious") gcfg.maxspurious = atoi(argv[++i]);
        else if (a == "--maxpaths") gcfg.maxpaths = atol(argv[++i]); else if (a == "--maxcex") gcfg.maxcex = atoi(argv[++i]); else if (a == "--out") out = nx(); else if (a == "--opt-only") saveBc = nx(); else if (a == "--bfs") gcfg.bfs = true;
        else bc = a; }
    rng.seed(gcfg.seed);
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 2; }
    if (!saveBc.empty()) { optimise(*mod); std::error_code ec; raw_fd_ostream o(saveBc, ec); extern void writeBc(Module &, raw_ostream &); writeBc(*mod, o); return 0; }
    M = mod.get(); DL = &M->getDataLayout(); gctx = new z3::context; registerHandlers();
    std::string fatal;
    State *s0 = new State; s0->th.resize(1); s0->th[0].vc = {1};
    try {
        u64 fa = 0x10000; for (auto &F : *M) { if (F.isIntrinsic()) continue; gaddr[&F] = fa; fnAt[fa] = &F; fa += 16; }
        if (s0->next < fa) s0->next = (fa + 0xffff) & ~0xffffULL;
        for (auto &G : M->globals()) { if (G.getName().starts_with("llvm.")) continue; u64 n = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 64; bool ext = G.isDeclaration(); if (ext && n < 512) n = 512; u64 p = alloc(*s0, n, 'g', G.getName().str(), 64); gaddr[&G] = p; gvAt[p] = &G; if (ext) { Obj &o = wr(*s0, findObj(*s0, p)); std::fill(o.data.begin(), o.data.end(), 0); std::fill(o.init.begin(), o.init.end(), 1); } }
        initErrno = alloc(*s0, 16, 'g', "errno"); { Obj &o = wr(*s0, findObj(*s0, initErrno)); std::fill(o.data.begin(), o.data.end(), 0); std::fill(o.init.begin(), o.init.end(), 1); }
        for (auto &G : M->globals()) { if (G.getName().starts_with("llvm.") || G.isDeclaration()) continue; Obj &o = wr(*s0, findObj(*s0, gaddr[&G])); initMem(o, 0, G.getInitializer()); o.ro = G.isConstant(); }
        Function *mainF = M->getFunction("vp_main"); if (!mainF) { fprintf(stderr, "no vp_main\n"); return 2; }
        std::vector<Val> none; pushFrame(*s0, mainF, none);
        if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, Function *>> cs; for (auto &op : ca->operands()) { auto *st = cast<ConstantStruct>(op); if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f); }
            // run constructors first: push in reverse so the first runs first, each returning into a dummy caller
            for (auto &c : cs) { State *t = s0; size_t depth = t->st().size(); pushFrame(*t, c.second, none); Frame &caller = t->st()[depth - 1]; (void)caller; 
                // execute until it returns; the caller frame's ip must not advance
                size_t ipSave = t->st()[depth - 1].ip; int bbSave = t->st()[depth - 1].bb;
                while (t->st().size() > depth) { Frame &f = t->st().back(); DI &d = f.f->bbs[f.bb].ins[f.ip]; if (d.op == Instruction::Ret && t->st().size() == depth + 1) { popFrame(*t); break; } step(*t); }
                t->st()[depth - 1].ip = ipSave; t->st()[depth - 1].bb = bbSave; } }
    } catch (Unsupported &e) { fatal = std::string("setup: ") + e.what(); } catch (MemErr &e) { fatal = "setup: " + e.what; } catch (PathEnd &e) { fatal = "setup: " + e.why; }
    if (fatal.empty()) {
        work.push_back(s0);
        while (!work.empty()) {
            if (elapsed() > gcfg.tlimit) { errCount["time limit"]++; pathsLeft += work.size(); break; }
            if (pathsDone + pathsErr >= gcfg.maxpaths) { errCount["path limit"]++; pathsLeft += work.size(); break; }
            State *s; if (gcfg.bfs && work.size() > 1) { size_t k = rng() % work.size(); s = work[k]; work[k] = work.back(); work.pop_back(); } else { s = work.back(); work.pop_back(); }
            runPath(s);
        }
    } else errCount[fatal]++;
    std::ostringstream j; j << "{\"paths\":" << pathsDone << ",\"paths_assume\":" << pathsAssume << ",\"paths_error\":" << pathsErr << ",\"paths_left\":" << pathsLeft << ",\"forks\":" << forks << ",\"instructions\":" << totalInstr << ",\"nodes\":" << nodeCount << ",\"atoms\":" << atoms.size();
    j << ",\"queries\":" << g_st.queries << ",\"sat\":" << g_st.sat << ",\"unsat\":" << g_st.unsat << ",\"unknown\":" << g_st.unknown << ",\"cached\":" << g_st.cached << ",\"solver_time\":" << g_st.time << ",\"max_query\":" << g_st.maxq << ",\"time\":" << elapsed();
    j << ",\"labels\":{"; bool f = true; for (auto &l : labels) { j << (f ? "" : ",") << jstr(l.first) << ":{\"checked\":" << l.second.checked << ",\"discharged\":" << l.second.discharged << ",\"structural\":" << l.second.structural << ",\"violated\":" << l.second.violated << ",\"unknown\":" << l.second.unknown << "}"; f = false; } j << "}";
    j << ",\"reach\":{"; f = true; for (auto &r : reach) { j << (f ? "" : ",") << jstr(r.first) << ":" << r.second; f = false; } j << "}";
    j << ",\"functions\":["; f = true; std::vector<std::string> fns; for (auto *x : usedFns) fns.push_back(x->name); std::sort(fns.begin(), fns.end()); for (auto &x : fns) { j << (f ? "" : ",") << jstr(x); f = false; } j << "]";
    j << ",\"errors\":{"; f = true; for (auto &e : errCount) { j << (f ? "" : ",") << jstr(e.first) << ":" << e.second; f = false; } j << "}";
    j << ",\"reports\":["; f = true; for (auto &r : reports) { j << (f ? "" : ",") << "{\"kind\":" << jstr(r.kind) << ",\"label\":" << jstr(r.label) << ",\"where\":" << jstr(r.where) << ",\"types\":" << jstr(r.types) << ",\"names\":["; for (size_t i = 0; i < r.names.size(); i++) j << (i ? "," : "") << jstr(r.names[i]); j << "],\"inputs\":["; for (size_t i = 0; i < r.inputs.size(); i++) { j << (i ? ",[" : "["); for (size_t k = 0; k < r.inputs[i].size(); k++) j << (k ? "," : "") << jhex(r.inputs[i][k]); j << "]"; } j << "],\"sched\":["; for (size_t i = 0; i < r.sched.size(); i++) j << (i ? "," : "") << r.sched[i]; j << "]}"; f = false; } j << "]";
    j << ",\"samples\":["; for (size_t i = 0; i < samplePaths.size(); i++) { j << (i ? ",{\"in\":[" : "{\"in\":["); for (size_t k = 0; k < samplePaths[i].size(); k++) j << (k ? "," : "") << jhex(samplePaths[i][k]); j << "],\"sched\":["; for (size_t k = 0; k < sampleScheds[i].size(); k++) j << (k ? "," : "") << sampleScheds[i][k]; j << "]}"; } j << "]";
    j << ",\"outcome\":" << jstr(concOutcome) << ",\"obs\":["; for (size_t i = 0; i < lastObs.size(); i++) j << (i ? "," : "") << "[" << jstr(lastObs[i].first) << "," << jhex(lastObs[i].second) << "]"; j << "]}";
    if (out.empty()) std::cout << j.str() << std::endl; else { std::ofstream o(out); o << j.str() << std::endl; }
    fflush(stdout); _exit(0);
}
#include <llvm/Bitcode/BitcodeWriter.h>
void writeBc(Module &m, raw_ostream &o) { WriteBitcodeToFile(m, o); }
