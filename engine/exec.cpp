// Symbolic executor for LLVM IR. See DESIGN.md.
#include "sym.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/APInt.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <functional>
#include <random>

using namespace llvm;


enum VK : u8 { V_UNDEF, V_INT, V_BV, V_FP, V_FS, V_AGG, V_RAW };
struct Agg; struct Raw;
struct Value_ {
    VK k = V_UNDEF; u16 w = 0;
    union { u64 i; double d; Node *n; u32 e; Agg *a; Raw *r; };
    Value_() : i(0) {}
};
typedef Value_ Val;
struct Agg { std::vector<Val> v; };
struct Cell { u32 size; Val v; };
struct Raw { std::vector<u8> b, init; std::vector<std::pair<u32, Cell>> cells; };

static u64 maskw(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
static i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v = maskw(v, w); return (i64)((v ^ m) - m); }
static Val VI(u64 i, unsigned w) { Val v; v.k = V_INT; v.w = w; v.i = maskw(i, w); return v; }
static Val VF(double d, unsigned w) { Val v; v.k = V_FP; v.w = w; v.d = d; return v; }
static Val VU(unsigned w = 64) { Val v; v.k = V_UNDEF; v.w = w; return v; }
static Val VN(Node *n) {
    if (n->op == N_CONST) return VF(n->cval, n->f32 ? 32 : 64);
    if (!g_fp && n->lo == n->hi && n->err == 0 && n->op != N_VAR) return VF(n->lo, n->f32 ? 32 : 64);
    Val v; v.k = V_FS; v.w = n->f32 ? 32 : 64; v.n = n; return v;
}
static std::unordered_map<unsigned, u32> exprIdx;
static u32 idxOf(const expr &e) { unsigned id = Z3_get_ast_id(ZC, e); auto it = exprIdx.find(id); if (it != exprIdx.end()) return it->second; u32 x = keepAlive.size(); keepAlive.push_back(e); exprIdx[id] = x; return x; }
static Val VB(const expr &e0, unsigned w) {
    expr e = e0.simplify();
    if (w == 1) { if (e.is_true()) return VI(1, 1); if (e.is_false()) return VI(0, 1); }
    else if (e.is_numeral()) { return VI(e.get_numeral_uint64(), w); }
    Val v; v.k = V_BV; v.w = w; v.e = idxOf(e); return v;
}
static Val VAgg(std::vector<Val> &&x) { Val v; v.k = V_AGG; v.a = new Agg{std::move(x)}; return v; }
static expr bvOf(const Val &v) {
    if (v.k == V_INT) return ZC.bv_val((uint64_t)v.i, v.w);
    if (v.k == V_BV) { expr e = keepAlive[v.e]; if (v.w == 1) return z3::ite(e, ZC.bv_val(1, 1), ZC.bv_val(0, 1)); return e; }
    throw Unsupported("bvOf on non-integer");
}
static expr boolOf(const Val &v) { if (v.k == V_INT) return ZC.bool_val(v.i & 1); if (v.k == V_BV && v.w == 1) return keepAlive[v.e]; throw Unsupported("boolOf"); }
static Node *nodeOf(const Val &v) { if (v.k == V_FS) return v.n; if (v.k == V_FP) return mkConst(v.d, v.w == 32); throw Unsupported("nodeOf on non-float"); }

// ---------------------------------------------------------------- memory
struct Obj { u64 base, size; std::vector<u8> data, init; std::unordered_map<u32, Cell> cells; bool ro = false; char kind = 'h'; std::string name; };
typedef std::shared_ptr<Obj> ObjP;

// ---------------------------------------------------------------- decoded code
struct Opnd { bool reg; int idx; Val v; };
struct FnInfo; 
struct DI {
    Instruction *I; unsigned op; int dst = -1; std::vector<Opnd> ops; Type *ty = 0; unsigned w = 0; unsigned pred = 0;
    std::vector<std::pair<int, Opnd>> phis; i64 off = 0; std::vector<std::pair<Opnd, i64>> idx; std::vector<int> succ; std::vector<u64> cases; Function *callee = 0; u64 tsize = 0;
};
struct BBI { std::vector<DI> ins; int nphi = 0; };
struct FnInfo { Function *F; std::vector<BBI> bbs; int nregs = 0; std::string name; bool counted = false; u64 instrs = 0; };
struct Frame { FnInfo *f; std::vector<Val> regs; int bb = 0, prev = -1; size_t ip = 0; std::vector<u64> allocas; };
enum TS { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE };
struct Thread { std::vector<Frame> st; TS s = T_RUN; u64 on = 0, mtx = 0; bool timed = false; bool signalled = false, wakeTimeout = false, acquired = false, joined = false; std::vector<u32> vc; };
struct RaceCell { int w = -1; u32 wc = 0; std::vector<u32> r; };
struct InRec { std::string name; char t; unsigned decl; bool conc; double val; double lo, hi; };
struct State {
    std::vector<Thread> th; int cur = 0;
    std::vector<std::pair<u64, ObjP>> mem; u64 next = 0x100000;
    std::vector<expr> pc;
    std::unordered_map<u32, u64> concr; std::unordered_map<int, double> nodeConst; std::set<std::pair<int, int>> facts;
    std::vector<InRec> in; std::vector<int> sched; std::map<u64, int> mutexOwner; 
    u64 excPtr = 0; std::string excTi; int caught = 0; std::vector<std::pair<u64,std::string>> caughtStack;
    u64 instrs = 0; long rnd = 0; std::set<std::string> reached; std::vector<std::pair<std::string, double>> obs; bool sym = false; bool needSched = false; int preempt = 0; int spurious = 0; Val dlSec, dlNs, nowUs; std::vector<int> pendingChoice; bool schedAfter = false, mustSched = false; std::map<u64, std::vector<u32>> syncVC; std::unordered_map<u64, RaceCell> race;
    std::vector<Frame> &st() { return th[cur].st; }
};

struct Report { std::string kind, label, where; std::vector<std::vector<double>> inputs; std::vector<std::string> names; std::vector<int> sched; std::string types; };
struct Cfg { int job = 0; double tlimit = 300; u64 ilimit = 400000000ULL; long maxpaths = 1000000; int maxcex = 6; bool concrete = false; std::vector<double> conc; std::vector<int> sched; bool haveSched = false; int samples = 4; u64 seed = 1; bool sharedSched = false; int maxpreempt = 3; int maxspurious = 1; bool bfs = false; std::vector<long> params; } gcfg;

struct LabelStat { long checked = 0, discharged = 0, structural = 0, violated = 0, unknown = 0; };
static std::map<std::string, LabelStat> labels;
static std::vector<Report> reports; static std::map<std::string, int> reportCount;
static std::map<std::string, long> reach; static long pathsDone = 0, pathsAssume = 0, pathsErr = 0, pathsLeft = 0, forks = 0, pathsViol = 0; static u64 totalInstr = 0; static long visits = 0;
static std::map<std::string, long> errCount; static std::set<FnInfo *> usedFns; static std::vector<std::vector<double>> samplePaths; static std::vector<std::string> sampleNames; static std::vector<std::vector<int>> sampleScheds; static u64 initErrno;
static std::vector<std::pair<std::string, double>> lastObs; static std::string concOutcome;
static std::vector<State *> work; static std::chrono::steady_clock::time_point T0;
static Module *M; static const DataLayout *DL;
static std::unordered_map<const Function *, FnInfo *> fninfo; static std::map<u64, Function *> fnAt; static std::unordered_map<const GlobalValue *, u64> gaddr; static std::map<u64, std::string> extAt;
static State *initState;
struct PathEnd { std::string why; };
static std::vector<std::pair<u64, u64>> sharedRanges;

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ---------------------------------------------------------------- memory ops
static int findObj(State &s, u64 addr) {
    auto &m = s.mem; size_t lo = 0, hi = m.size();
    while (lo < hi) { size_t mid = (lo + hi) / 2; if (m[mid].first <= addr) lo = mid + 1; else hi = mid; }
    if (!lo) return -1; Obj &o = *m[lo - 1].second;
    if (addr >= o.base && addr < o.base + std::max<u64>(o.size, 1)) return lo - 1; return -1;
}
static u64 alloc(State &s, u64 size, char kind, const std::string &name, u64 align = 16) {
    if (size > (1ULL << 31)) throw Unsupported("huge allocation");
    u64 a = (s.next + 15) & ~15ULL; if (align > 16) a = (a + align - 1) & ~(align - 1);
    ObjP o = std::make_shared<Obj>(); o->base = a; o->size = size; o->data.assign(size, 0xcd); o->init.assign(size, 0); o->kind = kind; o->name = name;
    s.mem.emplace_back(a, o); s.next = a + size + 64 + (size / 4 & ~15ULL);
    return a;
}
static Obj &wr(State &s, int i) { ObjP &p = s.mem[i].second; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
static void freeIdx(State &s, int i) { s.mem.erase(s.mem.begin() + i); }

struct MemErr { std::string what; };
static void clearCells(Obj &o, u64 off, u64 n) {
    if (o.cells.empty()) return;
    u64 a = off >= 16 ? off - 16 : 0;
    if (n > 4096 && o.cells.size() < n / 8) {
        for (auto it = o.cells.begin(); it != o.cells.end();) {
            if (it->first >= off && it->first + it->second.size <= off + n) it = o.cells.erase(it);
            else if (it->first < off + n && it->first + it->second.size > off) throw Unsupported("partial overwrite of symbolic cell");
            else ++it; }
        return;
    }
    for (u64 x = a; x < off + n; x++) {
        auto it = o.cells.find((u32)x); if (it == o.cells.end()) continue;
        u64 e = x + it->second.size; if (e <= off) continue;
        if (x >= off && e <= off + n) { o.cells.erase(it); continue; }
        // partial overwrite: split BV cells into bytes
        Val v = it->second.v; u32 sz = it->second.size; 
        if (v.k != V_BV) throw Unsupported("partial overwrite of symbolic float");
        o.cells.erase(it); expr b = bvOf(v); unsigned W = sz * 8; if (b.get_sort().bv_size() < W) b = z3::zext(b, W - b.get_sort().bv_size());
        for (u32 j = 0; j < sz; j++) { Val bv = VB(b.extract(8 * j + 7, 8 * j), 8); if (bv.k == V_INT) { o.data[x + j] = bv.i; } else o.cells[x + j] = Cell{1, bv}; }
    }
}
static void storeBytes(Obj &o, u64 off, const u8 *d, u64 n) { clearCells(o, off, n); memcpy(&o.data[off], d, n); memset(&o.init[off], 1, n); }
static Obj &access(State &s, u64 addr, u64 n, bool write, u64 &off) {
    int i = findObj(s, addr);
    if (i < 0) throw MemErr{std::string(write ? "write" : "read") + (addr < 4096 ? " through null pointer" : " outside any live object")};
    Obj &o0 = *s.mem[i].second; off = addr - o0.base;
    if (off + n > o0.size) throw MemErr{std::string(write ? "write" : "read") + " past the end of a " + std::to_string(o0.size) + "-byte object" };
    if (write) { if (o0.ro) throw MemErr{"write to constant"}; return wr(s, i); }
    return o0;
}
static Val loadOff(Obj &o, u64 off, Type *ty);
static Val rawLoad(Obj &o, u64 off, u64 n, unsigned w) {
    Val v; v.k = V_RAW; v.w = w; v.r = new Raw; v.r->b.assign(&o.data[off], &o.data[off] + n); v.r->init.assign(&o.init[off], &o.init[off] + n);
    for (u64 x = off; x < off + n; x++) { auto it = o.cells.find((u32)x); if (it != o.cells.end()) { if (x + it->second.size > off + n) throw Unsupported("raw load splits cell"); v.r->cells.emplace_back(x - off, it->second); } }
    return v;
}
static Val loadInt(Obj &o, u64 off, unsigned w) {
    u64 n = (w + 7) / 8;
    bool anyCell = false;
    if (!o.cells.empty()) {
        auto it = o.cells.find((u32)off);
        if (it != o.cells.end() && it->second.size == n) { Val v = it->second.v; if (v.k == V_BV) { if (v.w == w) return v; if (v.w > w) return VB(w == 1 ? bvOf(v).extract(0, 0) == ZC.bv_val(1, 1) : bvOf(v).extract(w - 1, 0), w); return VB(z3::zext(bvOf(v), w - v.w), w); } return v; /* float bits */ }
        for (u64 x = off >= 16 ? off - 16 : 0; x < off + n; x++) { auto it = o.cells.find((u32)x); if (it != o.cells.end() && x + it->second.size > off) { anyCell = true; break; } }
    }
    bool all = true, none = true; for (u64 j = 0; j < n; j++) { if (o.init[off + j]) none = false; else all = false; }
    if (anyCell) {
        // assemble bytes
        std::vector<expr> bytes; bool ok = true;
        for (u64 j = 0; j < n && ok; j++) {
            bool found = false;
            for (u64 x = off + j >= 16 ? off + j - 16 : 0; x <= off + j; x++) { auto it = o.cells.find((u32)x);
                if (it != o.cells.end() && x + it->second.size > off + j) {
                    if (it->second.v.k != V_BV) { ok = false; break; }
                    expr b = bvOf(it->second.v); unsigned W = it->second.size * 8; if (b.get_sort().bv_size() < W) b = z3::zext(b, W - b.get_sort().bv_size());
                    unsigned k = off + j - x; bytes.push_back(b.extract(8 * k + 7, 8 * k)); found = true; break; } }
            if (!found && ok) bytes.push_back(ZC.bv_val(o.data[off + j], 8));
        }
        if (!ok) return rawLoad(o, off, n, w);
        expr r = bytes[0]; for (u64 j = 1; j < n; j++) r = z3::concat(bytes[j], r);
        if (w == 1) return VB(r.extract(0, 0) == ZC.bv_val(1, 1), 1);
        if (w < n * 8) r = r.extract(w - 1, 0);
        return VB(r, w);
    }
    if (none) return VU(w);
    if (!all || n > 8) return rawLoad(o, off, n, w);
    u64 x = 0; memcpy(&x, &o.data[off], n); return VI(x, w);
}
static Val loadOff(Obj &o, u64 off, Type *ty) {
    if (ty->isIntegerTy()) return loadInt(o, off, ty->getIntegerBitWidth());
    if (ty->isPointerTy()) return loadInt(o, off, 64);
    if (ty->isDoubleTy() || ty->isFloatTy()) {
        unsigned n = ty->isDoubleTy() ? 8 : 4;
        if (!o.cells.empty()) { auto it = o.cells.find((u32)off); if (it != o.cells.end() && it->second.size == n) return it->second.v;
            for (u64 x = off >= 16 ? off - 16 : 0; x < off + n; x++) { auto it = o.cells.find((u32)x); if (it != o.cells.end() && x + it->second.size > off) { return rawLoad(o, off, n, n * 8); } } }
        for (unsigned j = 0; j < n; j++) if (!o.init[off + j]) return VU(n * 8);
        if (n == 8) { double d; memcpy(&d, &o.data[off], 8); return VF(d, 64); }
        float f; memcpy(&f, &o.data[off], 4); return VF(f, 32);
    }
    if (auto *vt = dyn_cast<FixedVectorType>(ty)) { std::vector<Val> r; u64 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) r.push_back(loadOff(o, off + i * es, vt->getElementType())); return VAgg(std::move(r)); }
    if (auto *st = dyn_cast<StructType>(ty)) { std::vector<Val> r; auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(loadOff(o, off + sl->getElementOffset(i), st->getElementType(i))); return VAgg(std::move(r)); }
    if (auto *at = dyn_cast<ArrayType>(ty)) { std::vector<Val> r; u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) r.push_back(loadOff(o, off + i * es, at->getElementType())); return VAgg(std::move(r)); }
    throw Unsupported("load of type");
}
static void storeOff(Obj &o, u64 off, const Val &v, Type *ty) {
    if (v.k == V_AGG) {
        if (auto *vt = dyn_cast<FixedVectorType>(ty)) { u64 es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeOff(o, off + i * es, v.a->v[i], vt->getElementType()); return; }
        if (auto *st = dyn_cast<StructType>(ty)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeOff(o, off + sl->getElementOffset(i), v.a->v[i], st->getElementType(i)); return; }
        if (auto *at = dyn_cast<ArrayType>(ty)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeOff(o, off + i * es, v.a->v[i], at->getElementType()); return; }
        throw Unsupported("store of aggregate");
    }
    u64 n = DL->getTypeStoreSize(ty);
    switch (v.k) {
    case V_UNDEF: clearCells(o, off, n); memset(&o.init[off], 0, n); return;
    case V_INT: { u8 b[8] = {0}; memcpy(b, &v.i, 8); if (n > 8) throw Unsupported("wide int store"); storeBytes(o, off, b, n); return; }
    case V_FP: { u8 b[8]; if (v.w == 32) { float f = (float)v.d; memcpy(b, &f, 4); storeBytes(o, off, b, 4); } else { memcpy(b, &v.d, 8); storeBytes(o, off, b, 8); } return; }
    case V_FS: { u64 m = v.w / 8; clearCells(o, off, m); memset(&o.init[off], 1, m); o.cells[off] = Cell{(u32)m, v}; return; }
    case V_BV: { clearCells(o, off, n); memset(&o.init[off], 1, n); o.cells[off] = Cell{(u32)n, v}; return; }
    case V_RAW: { u64 m = v.r->b.size(); if (m > n) m = n; clearCells(o, off, m); memcpy(&o.data[off], v.r->b.data(), m); memcpy(&o.init[off], v.r->init.data(), m); for (auto &c : v.r->cells) o.cells[off + c.first] = c.second; return; }
    default: throw Unsupported("store");
    }
}
static void copyMem(State &s, u64 d, u64 src, u64 n) {
    if (!n || d == src) { if (n) { u64 o; access(s, d, n, false, o); } return; }
    u64 so, dof; Obj &so_ = access(s, src, n, false, so); 
    std::vector<u8> b(&so_.data[so], &so_.data[so] + n), in(&so_.init[so], &so_.init[so] + n); std::vector<std::pair<u32, Cell>> cs;
    if (!so_.cells.empty()) {
        if (n > so_.cells.size()) { for (auto &kv : so_.cells) { u64 x = kv.first, e = x + kv.second.size; if (x >= so && e <= so + n) cs.emplace_back(x - so, kv.second); else if (e > so && x < so + n) throw Unsupported("memcpy splits cell"); } }
        else for (u64 x = so; x < so + n; x++) { auto it = so_.cells.find((u32)x); if (it != so_.cells.end()) cs.emplace_back(x - so, it->second); }
    }
    Obj &D = access(s, d, n, true, dof); clearCells(D, dof, n); memcpy(&D.data[dof], b.data(), n); memcpy(&D.init[dof], in.data(), n);
    for (auto &c : cs) D.cells[dof + c.first] = c.second;
}
static std::string readStr(State &s, u64 a) { std::string r; for (int i = 0; i < 4096; i++) { u64 off; Obj &o = access(s, a + i, 1, false, off); if (!o.data[off]) break; r += (char)o.data[off]; } return r; }

// ---------------------------------------------------------------- constants
static u64 addrOfGlobal(const GlobalValue *g);
static Val constVal(const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) {
        if (auto *st = dyn_cast<StructType>(t)) { std::vector<Val> r; for (unsigned i = 0; i < st->getNumElements(); i++) r.push_back(constVal(UndefValue::get(st->getElementType(i)))); return VAgg(std::move(r)); }
        if (auto *vt = dyn_cast<FixedVectorType>(t)) { std::vector<Val> r(vt->getNumElements(), VU(64)); return VAgg(std::move(r)); }
        return VU(t->isIntegerTy() ? t->getIntegerBitWidth() : 64); }
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() <= 64) { Val v; v.k = V_BV; v.w = ci->getBitWidth(); SmallString<64> s; ci->getValue().toString(s, 10, false); v.e = idxOf(ZC.bv_val(s.c_str(), v.w)); return v; } throw Unsupported("wide const"); } return VI(ci->getZExtValue(), ci->getBitWidth()); }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { if (t->isDoubleTy()) return VF(cf->getValueAPF().convertToDouble(), 64); if (t->isFloatTy()) return VF(cf->getValueAPF().convertToFloat(), 32); return VU(); }
    if (isa<ConstantPointerNull>(c)) return VI(0, 64);
    if (auto *g = dyn_cast<GlobalValue>(c)) return VI(addrOfGlobal(g), 64);
    if (isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c) || isa<ConstantAggregate>(c)) {
        std::vector<Val> r; unsigned n = 0;
        if (auto *st = dyn_cast<StructType>(t)) n = st->getNumElements(); else if (auto *at = dyn_cast<ArrayType>(t)) n = at->getNumElements(); else if (auto *vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
        for (unsigned i = 0; i < n; i++) r.push_back(constVal(c->getAggregateElement(i)));
        return VAgg(std::move(r));
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("const gep"); return VI(constVal(ce->getOperand(0)).i + off.getSExtValue(), 64); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v = constVal(ce->getOperand(0)); if (t->isIntegerTy()) return VI(v.i, t->getIntegerBitWidth()); return v; }
        case Instruction::Sub: return VI(constVal(ce->getOperand(0)).i - constVal(ce->getOperand(1)).i, t->getIntegerBitWidth());
        case Instruction::Add: return VI(constVal(ce->getOperand(0)).i + constVal(ce->getOperand(1)).i, t->getIntegerBitWidth());
        case Instruction::Trunc: return VI(constVal(ce->getOperand(0)).i, t->getIntegerBitWidth());
        case Instruction::ICmp: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); auto p = ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return VI(a.i == b.i, 1); if (p == CmpInst::ICMP_NE) return VI(a.i != b.i, 1); if (p == CmpInst::ICMP_ULT) return VI(a.i < b.i, 1); if (p == CmpInst::ICMP_UGT) return VI(a.i > b.i, 1); throw Unsupported("const icmp"); }
        default: throw Unsupported("constant expression");
        }
    }
    throw Unsupported("constant kind");
}
static void initMem(Obj &o, u64 off, const Constant *c) {
    Type *t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) { u64 n = DL->getTypeAllocSize(t); memset(&o.data[off], 0, n); memset(&o.init[off], 1, n); return; }
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initMem(o, off + i * es, c->getAggregateElement(i)); return; }
    storeOff(o, off, constVal(c), t);
}
static u64 addrOfGlobal(const GlobalValue *g) {
    if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()).i;
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    throw Unsupported("global without address " + g->getName().str());
}
static FnInfo *decode(Function *F);

static Opnd mkOp(Value *v, std::unordered_map<Value *, int> &slot) {
    Opnd o; o.reg = false; o.idx = -1;
    if (auto *c = dyn_cast<Constant>(v)) { o.v = constVal(c); return o; }
    auto it = slot.find(v); if (it == slot.end()) { o.v = VU(); return o; } // metadata etc.
    o.reg = true; o.idx = it->second; return o;
}
static unsigned tyW(Type *t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
static FnInfo *decode(Function *F) {
    auto it = fninfo.find(F); if (it != fninfo.end()) return it->second;
    FnInfo *f = new FnInfo; f->F = F; f->name = demangle(F->getName().str()); fninfo[F] = f;
    std::unordered_map<Value *, int> slot; std::unordered_map<BasicBlock *, int> bbi; int n = 0;
    for (auto &a : F->args()) slot[&a] = n++;
    int b = 0; for (auto &B : *F) { bbi[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
    f->nregs = n; f->bbs.resize(b);
    for (auto &B : *F) { BBI &bb = f->bbs[bbi[&B]];
        for (auto &I : B) {
            if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::dbg_declare || id == Intrinsic::dbg_value || id == Intrinsic::dbg_label || id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) continue; }
            DI d; d.I = &I; d.op = I.getOpcode(); d.ty = I.getType(); d.w = tyW(d.ty); if (!I.getType()->isVoidTy()) d.dst = slot[&I];
            if (auto *p = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) d.phis.emplace_back(bbi[p->getIncomingBlock(i)], mkOp(p->getIncomingValue(i), slot)); bb.nphi++; }
            else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                d.ops.push_back(mkOp(g->getPointerOperand(), slot)); if (g->getType()->isVectorTy()) throw Unsupported("vector gep");
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (auto *st = gi.getStructTypeOrNull()) d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else { i64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) d.off += ci->getSExtValue() * sz; else d.idx.emplace_back(mkOp(ix, slot), sz); }
                }
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                for (auto &a : cb->args()) d.ops.push_back(mkOp(a.get(), slot));
                Value *cv = cb->getCalledOperand()->stripPointerCastsAndAliases();
                if (auto *cf = dyn_cast<Function>(cv)) d.callee = cf; else { if (isa<InlineAsm>(cv)) d.callee = 0; d.ops.push_back(mkOp(cv, slot)); }
                if (auto *inv = dyn_cast<InvokeInst>(&I)) { d.succ.push_back(bbi[inv->getNormalDest()]); d.succ.push_back(bbi[inv->getUnwindDest()]); }
            } else if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) d.ops.push_back(mkOp(br->getCondition(), slot)); for (unsigned i = 0; i < br->getNumSuccessors(); i++) d.succ.push_back(bbi[br->getSuccessor(i)]); }
            else if (auto *sw = dyn_cast<SwitchInst>(&I)) { d.ops.push_back(mkOp(sw->getCondition(), slot)); d.succ.push_back(bbi[sw->getDefaultDest()]); for (auto &c : sw->cases()) { d.cases.push_back(c.getCaseValue()->getZExtValue()); d.succ.push_back(bbi[c.getCaseSuccessor()]); } }
            else {
                for (auto &o : I.operands()) d.ops.push_back(mkOp(o.get(), slot));
                if (auto *c = dyn_cast<CmpInst>(&I)) { d.pred = c->getPredicate(); d.w = tyW(c->getOperand(0)->getType()); d.ty = c->getOperand(0)->getType(); }
                if (auto *l = dyn_cast<LoadInst>(&I)) { d.tsize = DL->getTypeStoreSize(l->getType()); }
                if (auto *s = dyn_cast<StoreInst>(&I)) { d.ty = s->getValueOperand()->getType(); d.tsize = DL->getTypeStoreSize(d.ty); }
                if (auto *a = dyn_cast<AllocaInst>(&I)) { d.tsize = DL->getTypeAllocSize(a->getAllocatedType()); }
            }
            bb.ins.push_back(std::move(d));
        } }
    return f;
}

// ---------------------------------------------------------------- reporting
static std::mt19937_64 rng;
static double decl2double(const InRec &r, const ModelVals &m) {
    if (r.conc) return r.val;
    auto it = m.find(r.decl);
    if (it == m.end()) { // unconstrained by the query: any value will do
        if (r.t == 'i') return r.lo + std::floor((r.hi - r.lo + 1) * ((rng() >> 11) * 0x1p-53));
        double v = r.lo + (r.hi - r.lo) * ((rng() >> 11) * 0x1p-53); if (r.t == 'f') v = (float)v; v = std::round(v * 1024) / 1024; if (v < r.lo || v > r.hi) v = r.lo + (r.hi - r.lo) * 0.375; return v; }
    const std::string &s = it->second; double v;
    if (s.compare(0, 5, "ieee:") == 0) { u64 b = strtoull(s.c_str() + 5, 0, 10); if (r.t == 'f') { u32 x = (u32)b; float f; memcpy(&f, &x, 4); return f; } memcpy(&v, &b, 8); return v; }
    if (r.t == 'i') { return (double)(int32_t)(u32)strtoull(s.c_str(), 0, 10); }
    if (r.t == 'l') { return (double)(i64)strtoull(s.c_str(), 0, 10); }
    std::string q = s; if (!q.empty() && q.back() == '?') q.pop_back();
    v = strtod(q.c_str(), 0); if (r.t == 'f') v = (float)v;
    if (v < r.lo) v = r.lo; if (v > r.hi) v = r.hi; return v;
}
static bool inputsFrom(State &s, const expr &q, std::vector<double> &out) {
    ModelVals m; if (!fullModel(s.pc, q, m, g_qtimeout)) return false;
    for (auto &r : s.in) out.push_back(decl2double(r, m)); return true;
}
static void addReport(State &s, const std::string &kind, const std::string &label, const std::string &where, const std::vector<expr> &qs) {
    std::string key = kind + "|" + label;
    if (reportCount[key] >= gcfg.maxcex) return;
    Report r; r.kind = kind; r.label = label; r.where = where; r.sched = s.sched;
    for (auto &i : s.in) { r.names.push_back(i.name); r.types += i.t; }
    if (gcfg.concrete) { r.inputs.push_back(gcfg.conc); }
    else for (auto &q : qs) { std::vector<double> v; if (inputsFrom(s, q, v)) r.inputs.push_back(v); }
    reportCount[key]++; reports.push_back(r);
}
static std::string where(State &s) { std::string w; int n = 0; for (size_t i = s.st().size(); i-- > 0 && n < 4; n++) { w += (n ? " <- " : "") + s.st()[i].f->name; if (w.size() > 600) break; } return w; }

// ---------------------------------------------------------------- forking helpers
static State *clone(State &s) { forks++; return new State(s); }
static bool feasible(State &s, const expr &e, Res *out = 0) { QRes r = check(s.pc, e); if (out) *out = r.r; return r.r != UNSAT_; }
static void addPC(State &s, const expr &e) { expr x = e; if (x.is_true()) return; keepAlive.push_back(x); s.pc.push_back(x); s.sym = true; }
static bool concBool(State &s, const Val &c, bool &v) { // fork on a boolean; returns value for current state
    if (c.k == V_INT) { v = c.i & 1; return true; }
    if (c.k == V_UNDEF || c.k == V_RAW) throw MemErr{"decision depends on uninitialised value"};
    auto it = s.concr.find(c.e); if (it != s.concr.end()) { v = it->second; return true; }
    expr e = boolOf(c); 
    bool t = feasible(s, e), f = t ? feasible(s, !e) : true;
    if (t && f) { State *o = clone(s); addPC(*o, !e); o->concr[c.e] = 0; work.push_back(o); addPC(s, e); s.concr[c.e] = 1; v = true; }
    else { v = t; s.concr[c.e] = t; }
    return true;
}
static u64 concInt(State &s, const Val &c) {
    if (c.k == V_INT) return c.i;
    if (c.k == V_UNDEF || c.k == V_RAW) throw MemErr{"address or size depends on uninitialised value"};
    if (c.k != V_BV) throw Unsupported("concInt on float bits");
    if (c.w == 1) { bool b; concBool(s, c, b); return b; }
    auto it = s.concr.find(c.e); if (it != s.concr.end()) return it->second;
    expr e = keepAlive[c.e]; 
    std::string nm = "cz!" + std::to_string(c.e); expr z = ZC.bv_const(nm.c_str(), c.w); unsigned zid = Z3_get_func_decl_id(ZC, z.decl()); keepAlive.push_back(z);
    std::vector<u64> vals; expr q = z == e;
    for (int i = 0;; i++) {
        if (i > 3000) throw Unsupported("too many concrete values");
        QRes r = check(s.pc, q, true);
        if (r.r == UNSAT_) break; if (r.r == UNK_) { if (vals.empty()) throw Unsupported("unknown while concretising"); errCount["unknown while enumerating values"]++; break; }
        u64 v = strtoull(r.m[zid].c_str(), 0, 10); vals.push_back(v); q = q && z != ZC.bv_val((uint64_t)v, c.w);
    }
    if (vals.empty()) { errCount["no feasible value where one was expected"]++; throw PathEnd{"infeasible"}; }
    std::sort(vals.begin(), vals.end());
    for (size_t i = 1; i < vals.size(); i++) { State *o = clone(s); addPC(*o, e == ZC.bv_val((uint64_t)vals[i], c.w)); o->concr[c.e] = vals[i]; work.push_back(o); }
    if (vals.size() > 1) addPC(s, e == ZC.bv_val((uint64_t)vals[0], c.w));
    s.concr[c.e] = vals[0]; return vals[0];
}
// integer-valued node -> concrete
static double concNode(State &s, Node *n) {
    if (n->op == N_CONST) return n->cval;
    if (n->lo == n->hi) return n->lo;
    auto it = s.nodeConst.find(n->id); if (it != s.nodeConst.end()) return it->second;
    expr e = R(n); std::vector<double> vals;
    if (n->hi - n->lo <= 40) { for (double v = n->lo; v <= n->hi; v += 1) { if (feasible(s, e == realD(v))) vals.push_back(v); } }
    else {
        expr z = ZC.real_const(("cn!" + std::to_string(n->id)).c_str()); unsigned zid = Z3_get_func_decl_id(ZC, z.decl()); keepAlive.push_back(z); expr q = z == e;
        for (int i = 0;; i++) { if (i > 300) throw Unsupported("too many integer values of float"); QRes r = check(s.pc, q, true); if (r.r == UNSAT_) break; if (r.r == UNK_) throw Unsupported("unknown while concretising float"); double v = strtod(r.m[zid].c_str(), 0); vals.push_back(v); q = q && z != realD(v); }
    }
    if (vals.empty()) { errCount["no feasible value where one was expected"]++; throw PathEnd{"infeasible"}; }
    for (size_t i = 1; i < vals.size(); i++) { State *o = clone(s); addPC(*o, e == realD(vals[i])); o->nodeConst[n->id] = vals[i]; work.push_back(o); }
    if (vals.size() > 1) addPC(s, e == realD(vals[0]));
    s.nodeConst[n->id] = vals[0]; return vals[0];
}
// decide a real-valued fact about a node on this path; forks when both possible
enum Fact { F_ZERO = 1, F_NEG = 2 };
static bool fact(State &s, Node *n, Fact f) {
    if (f == F_ZERO) { if (n->lo > 0 || n->hi < 0) return false; if (n->lo == 0 && n->hi == 0) return true; }
    else { if (n->lo >= 0) return false; if (n->hi < 0) return true; }
    if (s.facts.count({n->id, f})) return true; if (s.facts.count({n->id, -f})) return false;
    linkSign(n); expr e = f == F_ZERO ? R(n) == 0 : R(n) < 0; 
    bool t = feasible(s, e), g = t ? feasible(s, !e) : true;
    if (t && g) { State *o = clone(s); addPC(*o, e); o->facts.insert({n->id, f}); work.push_back(o); addPC(s, !e); s.facts.insert({n->id, -f}); return false; }
    s.facts.insert({n->id, t ? (int)f : -(int)f}); return t;
}

// ---------------------------------------------------------------- float ops
static double f32r(double d, unsigned w) { return w == 32 ? (double)(float)d : d; }
static Val fbin(State &s, unsigned op, Val a, Val b) {
    unsigned w = a.w;
    if (a.k == V_UNDEF || b.k == V_UNDEF || a.k == V_RAW || b.k == V_RAW) return VU(w);
    if (a.k == V_FP && b.k == V_FP) {
        if (w == 32) { volatile float x = (float)a.d, y = (float)b.d, r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmodf(x, y); break; } return VF(r, 32); }
        double x = a.d, y = b.d, r = 0; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } return VF(r, 64);
    }
    bool f32 = w == 32;
    if (!g_fp) {
        auto nonfin = [](const Val &v) { return v.k == V_FP && !std::isfinite(v.d); };
        if (nonfin(a) || nonfin(b)) {
            Val &c = nonfin(a) ? a : b; Node *n = nonfin(a) ? nodeOf(b) : nodeOf(a); bool left = nonfin(a);
            if (std::isnan(c.d)) return VF(NAN, w);
            switch (op) {
            case Instruction::FAdd: return c; case Instruction::FSub: return left ? c : VF(-c.d, w);
            case Instruction::FMul: { if (fact(s, n, F_ZERO)) return VF(NAN, w); return fact(s, n, F_NEG) ? VF(-c.d, w) : c; }
            case Instruction::FDiv: if (!left) return VF(0, w); if (fact(s, n, F_ZERO)) return c; return fact(s, n, F_NEG) ? VF(-c.d, w) : c;
            default: throw Unsupported("frem inf"); }
        }
        if (op == Instruction::FDiv) {
            bool z = b.k == V_FP ? b.d == 0 : fact(s, b.n, F_ZERO);
            if (z) { if (a.k == V_FP) { if (a.d == 0) return VF(NAN, w); return VF(a.d > 0 ? INFINITY : -INFINITY, w); } if (fact(s, a.n, F_ZERO)) return VF(NAN, w); return VF(fact(s, a.n, F_NEG) ? -INFINITY : INFINITY, w); }
        }
    }
    Node *x = nodeOf(a), *y = nodeOf(b);
    switch (op) {
    case Instruction::FAdd: return VN(mkAdd(x, y, f32)); case Instruction::FSub: return VN(mkSub(x, y, f32));
    case Instruction::FMul: return VN(mkMul(x, y, f32)); case Instruction::FDiv: return VN(mkDiv(x, y, f32));
    default: {
        if (g_fp) throw Unsupported("frem");
        // fmod(x,y) = x - y*trunc(x/y), exact in IEEE
        Node *q = mkFloorLike(N_TRUNC, mkDiv(x, y, f32)); return VN(mkSub(x, mkMul(y, q, f32), f32)); } }
}
static Val fcmp(State &s, unsigned pred, Val a, Val b) {
    if (pred == CmpInst::FCMP_TRUE) return VI(1, 1); if (pred == CmpInst::FCMP_FALSE) return VI(0, 1);
    if (a.k == V_UNDEF || b.k == V_UNDEF || a.k == V_RAW || b.k == V_RAW) return VU(1);
    if (a.k == V_FP && b.k == V_FP) {
        double x = a.d, y = b.d; bool un = std::isnan(x) || std::isnan(y); bool r = false;
        switch (pred & 7) { case 0: r = false; break; case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x < y || x > y; break; case 7: r = !un; break; }
        if (pred >= 8) r = un || r; return VI(r, 1);
    }
    if (g_fp) {
        Node *x = nodeOf(a), *y = nodeOf(b); expr un = ZC.bool_val(false), r = ZC.bool_val(false);
        auto isn = [&](Node *n) { return expr(ZC, Z3_mk_fpa_is_nan(ZC, F(n))); };
        if (pred >= 8 || (pred & 7) == 7 || (pred & 7) == 6) un = isn(x) || isn(y);
        switch (pred & 7) { case 0: break; case 1: r = cmpExpr(EQ, x, y); break; case 2: r = cmpExpr(LT, y, x); break; case 3: r = cmpExpr(LE, y, x); break; case 4: r = cmpExpr(LT, x, y); break; case 5: r = cmpExpr(LE, x, y); break; case 6: r = !cmpExpr(EQ, x, y) && !un; break; case 7: r = !un; break; }
        if (pred >= 8) r = r || un; return VB(r, 1);
    }
    if ((a.k == V_FP && std::isnan(a.d)) || (b.k == V_FP && std::isnan(b.d))) return VI(pred >= 8, 1);
    if ((a.k == V_FP && std::isinf(a.d)) || (b.k == V_FP && std::isinf(b.d))) {
        double x = a.k == V_FP ? a.d : 0, y = b.k == V_FP ? b.d : 0; return fcmp(s, pred, VF(x, 64), VF(y, 64)); }
    Node *x = nodeOf(a), *y = nodeOf(b); Cmp c; bool sw = false, neg = false;
    switch (pred & 7) { case 0: return VI(0, 1); case 7: return VI(1, 1); case 1: c = EQ; break; case 2: c = LT; sw = true; break; case 3: c = LE; sw = true; break; case 4: c = LT; break; case 5: c = LE; break; default: c = EQ; neg = true; break; }
    if (pred == CmpInst::FCMP_UNO) return VI(0, 1);
    if (sw) std::swap(x, y);
    int k = cmpConst(c, x, y); if (k >= 0) return VI(neg ? !k : k, 1);
    expr e = cmpExpr(c, x, y); return VB(neg ? !e : e, 1);
}
static double (*libm1(const std::string &n))(double) {
    static std::map<std::string, double (*)(double)> m = {{"sqrt", sqrt}, {"sin", sin}, {"cos", cos}, {"tan", tan}, {"exp", exp}, {"log", log}, {"log10", log10}, {"log2", log2}, {"exp2", exp2}, {"floor", floor}, {"ceil", ceil}, {"fabs", fabs}, {"asin", asin}, {"acos", acos}, {"atan", atan}, {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"round", round}, {"trunc", trunc}, {"rint", rint}, {"nearbyint", nearbyint}, {"cbrt", cbrt}, {"log1p", log1p}, {"expm1", expm1}};
    auto it = m.find(n); return it == m.end() ? 0 : it->second;
}
static double (*libm2(const std::string &n))(double, double) {
    static std::map<std::string, double (*)(double, double)> m = {{"pow", pow}, {"atan2", atan2}, {"fmod", fmod}, {"hypot", hypot}, {"fmax", fmax}, {"fmin", fmin}, {"copysign", copysign}};
    auto it = m.find(n); return it == m.end() ? 0 : it->second;
}
static Val fsqrt(State &s, Val a) {
    if (!g_fp && fact(s, a.n, F_NEG)) return VF(NAN, a.w); return VN(mkSqrt(a.n, a.w == 32)); }
static Val mathCall(State &s, std::string fn, std::vector<Val> a, unsigned w) {
    for (auto &x : a) if (x.k == V_UNDEF || x.k == V_RAW) return VU(w);
    bool conc = true; for (auto &x : a) if (x.k != V_FP) conc = false;
    std::string fnb = fn; if (w == 32 && fnb.size() > 1 && fnb.back() == 'f' && !libm1(fnb) && !libm2(fnb)) fnb.pop_back();
    if (conc) {
        if (w == 32) { // use the float versions natively
            float x = a[0].d, y = a.size() > 1 ? a[1].d : 0; float r;
            if (fnb == "sqrt") r = sqrtf(x); else if (fnb == "sin") r = sinf(x); else if (fnb == "cos") r = cosf(x); else if (fnb == "exp") r = expf(x); else if (fnb == "log") r = logf(x); else if (fnb == "log10") r = log10f(x); else if (fnb == "pow") r = powf(x, y); else if (fnb == "floor") r = floorf(x); else if (fnb == "ceil") r = ceilf(x); else if (fnb == "fabs") r = fabsf(x); else if (fnb == "atan2") r = atan2f(x, y); else if (fnb == "fmod") r = fmodf(x, y); else if (fnb == "round") r = roundf(x); else if (fnb == "rint") r = rintf(x); else if (fnb == "log2") r = log2f(x); else if (fnb == "exp2") r = exp2f(x); else throw Unsupported("libm float " + fn);
            return VF(r, 32);
        }
        if (a.size() == 1) return VF(libm1(fnb)(a[0].d), 64); return VF(libm2(fnb)(a[0].d, a[1].d), 64);
    }
    bool f32 = w == 32;
    if (fnb == "exp2" && !g_fp) { fnb = "pow"; a.insert(a.begin(), VF(2, w)); }
    if (!g_fp) for (auto &x : a) if (x.k == V_FP && !std::isfinite(x.d)) { if (std::isnan(x.d)) return VF(NAN, w); throw Unsupported("libm with infinite constant"); }
    if (fnb == "fabs") return VN(mkAbs(a[0].n));
    if (fnb == "sqrt") return fsqrt(s, a[0]);
    if (fnb == "floor") return VN(mkFloorLike(N_FLOOR, a[0].n)); if (fnb == "ceil") return VN(mkFloorLike(N_CEIL, a[0].n)); if (fnb == "trunc") return VN(mkFloorLike(N_TRUNC, a[0].n)); if (fnb == "round") return VN(mkFloorLike(N_ROUND, a[0].n));
    if (fnb == "fmax" || fnb == "fmin") { Val c = fcmp(s, fnb == "fmax" ? CmpInst::FCMP_OGE : CmpInst::FCMP_OLE, a[0], a[1]); if (c.k == V_INT) return c.i ? a[0] : a[1]; if (g_fp) throw Unsupported("fmax in fp mode"); return VN(mkIte(boolOf(c), nodeOf(a[0]), nodeOf(a[1]))); }
    if (fnb == "fmod") return fbin(s, Instruction::FRem, a[0], a[1]);
    if (fnb == "hypot") { Node *x = nodeOf(a[0]), *y = nodeOf(a[1]); return fsqrt(s, VN(mkAdd(mkMul(x, x, f32), mkMul(y, y, f32), f32))); }
    if (fnb == "pow" && a[1].k == V_FP) {
        double p = a[1].d; if (p == 0) return VF(1, w); if (p == 1) return a[0];
        if (p == 2) return VN(mkMul(a[0].n, a[0].n, f32)); if (p == 3) return VN(mkMul(mkMul(a[0].n, a[0].n, f32), a[0].n, f32)); if (p == 4) { Node *q = mkMul(a[0].n, a[0].n, f32); return VN(mkMul(q, q, f32)); }
        if (p == std::floor(p) && p > 4 && p <= 64 && !g_fp && mag(a[0].n) < 1e4) { Node *q = a[0].n, *r = 0; for (int k = (int)p; k; k >>= 1) { if (k & 1) r = r ? mkMul(r, q, f32) : q; if (k > 1) q = mkMul(q, q, f32); } return VN(r); }
        if (p == 0.5) return fsqrt(s, a[0]);
        if (p == -1) return fbin(s, Instruction::FDiv, VF(1, w), a[0]);
        if (!g_fp) { if (fact(s, a[0].n, F_NEG)) { if (p != std::floor(p)) return VF(NAN, w); throw Unsupported("pow of negative"); } if (fact(s, a[0].n, F_ZERO)) return VF(p > 0 ? 0 : INFINITY, w); }
        return VN(mkFn("pow", a[0].n, nodeOf(a[1]), f32));
    }
    if (fnb == "log" || fnb == "log10" || fnb == "log2") { if (!g_fp) { if (fact(s, a[0].n, F_ZERO)) return VF(-INFINITY, w); if (fact(s, a[0].n, F_NEG)) return VF(NAN, w); } return VN(mkFn(fnb, a[0].n, 0, f32)); }
    if (a.size() == 1) return VN(mkFn(fnb, a[0].n, 0, f32));
    return VN(mkFn(fnb, nodeOf(a[0]), nodeOf(a[1]), f32));
}

// ---------------------------------------------------------------- integer ops
static Val ibin(State &s, unsigned op, Val a, Val b, unsigned w) {
    if (a.k == V_RAW || b.k == V_RAW) {
        if (op == Instruction::LShr && a.k == V_RAW && b.k == V_INT && b.i % 8 == 0) { Val v; v.k = V_RAW; v.w = w; v.r = new Raw; u64 sh = b.i / 8, n = a.r->b.size(); v.r->b.assign(n, 0); v.r->init.assign(n, 1); for (u64 i = sh; i < n; i++) { v.r->b[i - sh] = a.r->b[i]; v.r->init[i - sh] = a.r->init[i]; } for (auto &c : a.r->cells) if (c.first >= sh) v.r->cells.emplace_back(c.first - sh, c.second); return v; }
        return VU(w); }
    if (a.k == V_UNDEF || b.k == V_UNDEF) return VU(w);
    if (a.k == V_INT && b.k == V_INT) {
        u64 x = a.i, y = b.i; i64 sx = sextw(x, w), sy = sextw(y, w);
        switch (op) {
        case Instruction::Add: return VI(x + y, w); case Instruction::Sub: return VI(x - y, w); case Instruction::Mul: return VI(x * y, w);
        case Instruction::And: return VI(x & y, w); case Instruction::Or: return VI(x | y, w); case Instruction::Xor: return VI(x ^ y, w);
        case Instruction::Shl: return y >= w ? VU(w) : VI(x << y, w); case Instruction::LShr: return y >= w ? VU(w) : VI(x >> y, w); case Instruction::AShr: return y >= w ? VU(w) : VI((u64)(sx >> y), w);
        case Instruction::UDiv: if (!y) throw MemErr{"integer division by zero"}; return VI(x / y, w); case Instruction::URem: if (!y) throw MemErr{"integer division by zero"}; return VI(x % y, w);
        case Instruction::SDiv: if (!y) throw MemErr{"integer division by zero"}; if (sy == -1) return VI(-(u64)sx, w); return VI((u64)(sx / sy), w);
        case Instruction::SRem: if (!y) throw MemErr{"integer division by zero"}; if (sy == -1) return VI(0, w); return VI((u64)(sx % sy), w);
        }
    }
    if (a.k == V_FS || b.k == V_FS || a.k == V_FP || b.k == V_FP) {
        // sign-bit manipulation of float bits
        Val f = (a.k == V_FS || a.k == V_FP) ? a : b, c = (a.k == V_FS || a.k == V_FP) ? b : a;
        if (c.k == V_INT) { u64 sign = 1ULL << (w - 1); if (op == Instruction::And && c.i == sign - 1) return VN(mkAbs(nodeOf(f))); if (op == Instruction::Xor && c.i == sign) return VN(mkNeg(nodeOf(f))); }
        throw Unsupported("integer arithmetic on symbolic float bits"); }
    if (w == 1) { expr x = boolOf(a), y = boolOf(b); switch (op) { case Instruction::And: case Instruction::Mul: return VB(x && y, 1); case Instruction::Or: return VB(x || y, 1); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return VB(x != y, 1); default: throw Unsupported("i1 op"); } }
    expr x = bvOf(a), y = bvOf(b);
    switch (op) {
    case Instruction::Add: return VB(x + y, w); case Instruction::Sub: return VB(x - y, w); case Instruction::Mul: return VB(x * y, w);
    case Instruction::And: return VB(x & y, w); case Instruction::Or: return VB(x | y, w); case Instruction::Xor: return VB(x ^ y, w);
    case Instruction::Shl: return VB(z3::shl(x, y), w); case Instruction::LShr: return VB(z3::lshr(x, y), w); case Instruction::AShr: return VB(z3::ashr(x, y), w);
    }
    // division: check zero
    if (b.k == V_BV) { Val z = VB(y == ZC.bv_val(0, w), 1); bool isz; concBool(s, z, isz); if (isz) throw MemErr{"integer division by zero"}; }
    else if (b.i == 0) throw MemErr{"integer division by zero"};
    switch (op) { case Instruction::UDiv: return VB(z3::udiv(x, y), w); case Instruction::URem: return VB(z3::urem(x, y), w); case Instruction::SDiv: return VB(x / y, w); case Instruction::SRem: return VB(z3::srem(x, y), w); }
    throw Unsupported("int op");
}
static Val icmp(State &s, unsigned p, Val a, Val b, unsigned w) {
    if (a.k == V_UNDEF || b.k == V_UNDEF || a.k == V_RAW || b.k == V_RAW) return VU(1);
    if (a.k == V_INT && b.k == V_INT) {
        u64 x = a.i, y = b.i; i64 sx = sextw(x, w), sy = sextw(y, w); bool r = false;
        switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; }
        return VI(r, 1);
    }
    if (a.k == V_FS || b.k == V_FS || a.k == V_FP || b.k == V_FP) { // comparison of float bits: sign test only
        Val f = (a.k == V_FS || a.k == V_FP) ? a : b; Val c = (a.k == V_FS || a.k == V_FP) ? b : a;
        if (c.k == V_INT && a.k != V_INT && p == CmpInst::ICMP_SLT && c.i == 0) return fcmp(s, CmpInst::FCMP_OLT, f, VF(0, f.w));
        if (c.k == V_INT && a.k != V_INT && p == CmpInst::ICMP_SGT && sextw(c.i, w) == -1) return fcmp(s, CmpInst::FCMP_OGE, f, VF(0, f.w));
        throw Unsupported("integer comparison of symbolic float bits"); }
    if (w == 1) { expr x = boolOf(a), y = boolOf(b); if (p == CmpInst::ICMP_EQ) return VB(x == y, 1); if (p == CmpInst::ICMP_NE) return VB(x != y, 1);
        if (p == CmpInst::ICMP_ULT) return VB(!x && y, 1); if (p == CmpInst::ICMP_UGT) return VB(x && !y, 1); if (p == CmpInst::ICMP_ULE) return VB(!x || y, 1); if (p == CmpInst::ICMP_UGE) return VB(x || !y, 1); throw Unsupported("i1 cmp"); }
    expr x = bvOf(a), y = bvOf(b);
    switch (p) { case CmpInst::ICMP_EQ: return VB(x == y, 1); case CmpInst::ICMP_NE: return VB(x != y, 1); case CmpInst::ICMP_ULT: return VB(z3::ult(x, y), 1); case CmpInst::ICMP_ULE: return VB(z3::ule(x, y), 1); case CmpInst::ICMP_UGT: return VB(z3::ugt(x, y), 1); case CmpInst::ICMP_UGE: return VB(z3::uge(x, y), 1); case CmpInst::ICMP_SLT: return VB(x < y, 1); case CmpInst::ICMP_SLE: return VB(x <= y, 1); case CmpInst::ICMP_SGT: return VB(x > y, 1); default: return VB(x >= y, 1); }
}
static std::unordered_map<u32, Node *> f2iNode; // integers converted from a real of wide range, used only to convert back
static Val castOp(State &s, unsigned op, Val a, unsigned sw, Type *dt, bool backOnly = false) {
    unsigned w = tyW(dt);
    switch (op) {
    case Instruction::BitCast: {
        if (a.k == V_INT && dt->isDoubleTy()) { double d; memcpy(&d, &a.i, 8); return VF(d, 64); }
        if (a.k == V_INT && dt->isFloatTy()) { u32 x = a.i; float f; memcpy(&f, &x, 4); return VF(f, 32); }
        if (a.k == V_FP && dt->isIntegerTy()) { if (a.w == 64) { u64 x; memcpy(&x, &a.d, 8); return VI(x, 64); } float f = a.d; u32 x; memcpy(&x, &f, 4); return VI(x, 32); }
        if (a.k == V_AGG || dt->isVectorTy()) throw Unsupported("vector bitcast");
        return a; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (a.k == V_INT) return VI(a.i, w); if (a.k == V_BV) { if (w == a.w) return a; if (w < a.w) return VB(bvOf(a).extract(w - 1, 0), w); return VB(z3::zext(bvOf(a), w - a.w), w); } return a;
    case Instruction::Trunc: if (a.k == V_INT) return VI(a.i, w); if (a.k == V_UNDEF) return VU(w);
        if (a.k == V_RAW) { u64 n = (w + 7) / 8; bool all = true; for (u64 i = 0; i < n; i++) if (!a.r->init[i]) all = false; if (!all) return VU(w); for (auto &c : a.r->cells) if (c.first < n) { if (c.first == 0 && c.second.size == n) { Val v = c.second.v; if (v.k == V_BV && v.w != w) return castOp(s, Instruction::Trunc, v, v.w, dt); return v; } throw Unsupported("trunc raw"); } u64 x = 0; memcpy(&x, a.r->b.data(), std::min<u64>(8, n)); return VI(x, w); }
        if (a.k == V_FS || a.k == V_FP) throw Unsupported("trunc of float bits");
        if (w == 1) return VB(bvOf(a).extract(0, 0) == ZC.bv_val(1, 1), 1); return VB(bvOf(a).extract(w - 1, 0), w);
    case Instruction::ZExt: if (a.k == V_INT) return VI(a.i, w); if (a.k == V_BV) return VB(z3::zext(bvOf(a), w - a.w), w); return VU(w);
    case Instruction::SExt: if (a.k == V_INT) return VI((u64)sextw(a.i, sw), w); if (a.k == V_BV) return VB(z3::sext(bvOf(a), w - a.w), w); return VU(w);
    case Instruction::FPTrunc: if (a.k == V_FP) return VF((double)(float)a.d, 32); if (a.k == V_FS) return VN(mkF32(a.n)); return VU(32);
    case Instruction::FPExt: if (a.k == V_FP) return VF(a.d, 64); if (a.k == V_FS) { if (g_fp) { throw Unsupported("fpext in fp mode"); } return VN(mkF64(a.n)); } return VU(64);
    case Instruction::SIToFP: case Instruction::UIToFP: {
        if (a.k == V_UNDEF || a.k == V_RAW) return VU(w);
        if (a.k == V_BV && g_fp) { bool fresh; Node *n = lookup(N_I2F, 0, 0, 0, a.w == 1 ? (int)idxOf(bvOf(a)) : (int)a.e, w == 32, op == Instruction::UIToFP ? "u" : "s", 0, fresh); return VN(n); }
        if (a.k == V_BV) { auto it = f2iNode.find(a.e); if (it != f2iNode.end()) return VN(w == 32 ? mkF32(it->second) : it->second); }
        u64 v = concInt(s, a); double d = op == Instruction::SIToFP ? (w == 32 ? (double)(float)sextw(v, sw) : (double)sextw(v, sw)) : (w == 32 ? (double)(float)maskw(v, sw) : (double)maskw(v, sw)); return VF(d, w); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        if (a.k == V_UNDEF || a.k == V_RAW) return VU(w);
        if (a.k == V_FP) { if (!(std::fabs(a.d) < 0x1p63)) { if (op == Instruction::FPToUI && a.d < 0x1p64 && a.d > 0) return VI((u64)a.d, w); return VI(w == 32 ? 0x80000000ULL : 0x8000000000000000ULL, w); /* x86 behaviour */ }
            double t = std::trunc(a.d); if (op == Instruction::FPToSI && w == 32 && (t > 2147483647.0 || t < -2147483648.0)) return VI(0x80000000ULL, 32); return VI((u64)(i64)t, w); }
        if (g_fp) { expr rtz = expr(ZC, Z3_mk_fpa_rtz(ZC)); return VB(expr(ZC, op == Instruction::FPToSI ? Z3_mk_fpa_to_sbv(ZC, rtz, F(a.n), w) : Z3_mk_fpa_to_ubv(ZC, rtz, F(a.n), w)), w); }
        Node *k = mkFloorLike(N_TRUNC, a.n);
        if (op == Instruction::FPToSI && (w == 32 || w == 64)) { // out of range: the value x86 delivers
            double top = w == 32 ? 0x1p31 : 0x1p63;
            if (k->hi >= top || k->lo < -top) { bool out; expr e = R(k); concBool(s, VB(e >= realD(top) || e < realD(-top), 1), out); if (out) return VI(w == 32 ? 0x80000000ULL : 0x8000000000000000ULL, w); }
            if (backOnly && k->op != N_CONST && k->hi - k->lo > 40) { Val v = VB(ZC.bv_const(("f2i!" + std::to_string(k->id) + "_" + std::to_string(w)).c_str(), w), w); f2iNode[v.e] = k; return v; }
        }
        double v = concNode(s, k); return VI((u64)(i64)v, w); }
    }
    throw Unsupported("cast");
}
#include "calls.inc"
