// Symbolic doubles: hash-consed IEEE term DAG, each node carrying
//  * a polynomial over real "atoms" (inputs, rounding deltas, nonlinear results),
//  * a sound bound `err` on |IEEE value - polynomial| for all inputs in the box,
//  * an interval [lo,hi] containing the IEEE value.
// In fp mode the nodes are translated to z3 floating-point terms instead.
#pragma once
#include <z3++.h>
#include <gmp.h>
#include <quadmath.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <stdexcept>
#include <deque>

typedef __float128 quad;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16; typedef int64_t i64;
using z3::expr;

struct Unsupported : std::runtime_error { Unsupported(const std::string &s) : std::runtime_error(s) {} };

static z3::context *gctx;
#define ZC (*gctx)
static bool g_fp = false;        // bit-precise floating-point mode
static bool g_deltas = false;    // one rounding atom per operation, propagated linearly
static bool g_precise = false;   // one relative-error atom per operation
static int g_expand = 400;       // expand products up to this many terms
static unsigned g_qtimeout = 20000;

static std::string quadToRat(quad q) {
    if (q == 0) return "0";
    int e; quad m = frexpq(q, &e); // q = m*2^e
    bool neg = m < 0; if (neg) m = -m;
    m = ldexpq(m, 113); e -= 113;
    // m is an integer < 2^113
    unsigned __int128 v = (unsigned __int128)m;
    while (v && !(v & 1) && e < 0) { v >>= 1; e++; }
    mpz_t a, b; mpz_init(a); mpz_init(b);
    mpz_set_ui(a, (unsigned long)(v >> 64)); mpz_mul_2exp(a, a, 64);
    mpz_add_ui(a, a, (unsigned long)(v & 0xffffffffffffffffULL));
    mpz_set_ui(b, 1);
    if (e > 0) mpz_mul_2exp(a, a, e); else if (e < 0) mpz_mul_2exp(b, b, -e);
    char *sa = mpz_get_str(0, 10, a), *sb = mpz_get_str(0, 10, b);
    std::string s = std::string(neg ? "-" : "") + sa;
    if (strcmp(sb, "1")) s += std::string("/") + sb;
    free(sa); free(sb); mpz_clear(a); mpz_clear(b);
    return s;
}
static expr realQ(quad q) { return ZC.real_val(quadToRat(q).c_str()); }
static expr realD(double d) { return realQ((quad)d); }

static double up(double d) { return std::isfinite(d) ? std::nextafter(d, INFINITY) : d; }
static double dn(double d) { return std::isfinite(d) ? std::nextafter(d, -INFINITY) : d; }

struct Node;
struct Atom {
    int id; expr var; double lo, hi; bool isInt = false;
    std::vector<expr> defs; std::string fn; Node *arg = 0; double base = 0; bool flt = false;
    Atom(int i, expr v, double l, double h) : id(i), var(v), lo(l), hi(h) {}
};
static std::deque<Atom> atoms;
static std::unordered_map<unsigned, int> atomOfDecl; // func_decl id -> atom id
static std::vector<expr> keepAlive;

static int newAtom(const char *prefix, double lo, double hi, bool isInt = false) {
    int id = atoms.size();
    std::string nm = std::string(prefix) + "!" + std::to_string(id);
    expr v = isInt ? z3::to_real(ZC.int_const((nm).c_str())) : ZC.real_const(nm.c_str());
    atoms.emplace_back(id, v, lo, hi);
    atoms.back().isInt = isInt;
    z3::func_decl d = isInt ? v.arg(0).decl() : v.decl();
    keepAlive.push_back(v);
    atomOfDecl[Z3_get_func_decl_id(ZC, d)] = id;
    return id;
}

// ---- monomials / polynomials
struct VecHash { size_t operator()(const std::vector<int> &v) const { size_t h = 1469598103u; for (int x : v) h = (h ^ (size_t)x) * 1099511628211ULL; return h; } };
static std::vector<std::vector<int>> monos{std::vector<int>()};
static std::unordered_map<std::vector<int>, int, VecHash> monoId{{std::vector<int>(), 0}};
static int internMono(const std::vector<int> &m) {
    auto it = monoId.find(m); if (it != monoId.end()) return it->second;
    int id = monos.size(); monos.push_back(m); monoId[m] = id; return id;
}
static void imul(double al, double ah, double bl, double bh, double &l, double &h) {
    auto m = [](double x, double y) { if (x == 0 || y == 0) return 0.0; return x * y; };
    double c[4] = {m(al, bl), m(al, bh), m(ah, bl), m(ah, bh)};
    l = dn(*std::min_element(c, c + 4)); h = up(*std::max_element(c, c + 4));
}
static void monoRange(int id, double &lo, double &hi) {
    lo = hi = 1;
    const auto &m = monos[id];
    for (size_t i = 0; i < m.size();) {
        size_t j = i; while (j < m.size() && m[j] == m[i]) j++;
        const Atom &a = atoms[m[i]];
        double l = 1, h = 1;
        for (size_t k = i; k < j; k++) imul(l, h, a.lo, a.hi, l, h);
        if ((j - i) % 2 == 0 && l < 0) l = 0;
        if (m.size() == 1) { lo = a.lo; hi = a.hi; return; }
        imul(lo, hi, l, h, lo, hi);
        i = j;
    }
}
static double monoMag(int id) { double l, h; if (!id) return 1; monoRange(id, l, h); return std::max(std::fabs(l), std::fabs(h)); }

struct Poly { std::vector<std::pair<int, quad>> t; };
static const quad QEPS = 1.0Q / (quad)(1ULL << 55) / (quad)(1ULL << 55); // > 2^-112 with margin (2^-110)

static double qd_up(quad q) { double d = (double)q; if ((quad)d < q) d = up(d); return d; }

// magnitude bound of polynomial
static double polyMag(const Poly &p) {
    double s = 0; for (auto &x : p.t) s += up(std::fabs((double)x.second)) * monoMag(x.first);
    return s * (1 + 1e-12);
}
static void polyRange(const Poly &p, double &lo, double &hi) {
    quad l = 0, h = 0;
    for (auto &x : p.t) {
        double a, b; if (x.first == 0) a = b = 1; else monoRange(x.first, a, b);
        quad u = x.second * (quad)a, v = x.second * (quad)b;
        if (x.second == 0) continue;
        l += u < v ? u : v; h += u < v ? v : u;
    }
    quad s = ((l < 0 ? -l : l) + (h < 0 ? -h : h)) * 1e-25Q;
    l -= s; h += s;
    lo = dn((double)l); hi = up((double)h);
    if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY;
}
// sum; accumulates representation error bound into err
static Poly polyAdd(const Poly &a, quad ca, const Poly &b, quad cb, double &err) {
    Poly r; r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0; quad e = 0;
    auto push = [&](int m, quad c, quad mag) {
        if (c == 0) { if (mag != 0) e += mag * QEPS * (quad)monoMag(m); return; }
        quad mm = monoMag(m);
        e += mag * QEPS * mm;
        quad size = (c < 0 ? -c : c) * mm;
        if (m != 0 && size < 1e-29Q) { e += size; return; }
        r.t.emplace_back(m, c);
    };
    auto ab = [](quad q) { return q < 0 ? -q : q; };
    bool ea = (ca == 1 || ca == -1), eb = (cb == 1 || cb == -1);
    while (i < a.t.size() || j < b.t.size()) {
        if (j >= b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) {
            quad c = ca * a.t[i].second; push(a.t[i].first, c, ea ? (quad)0 : ab(c)); i++;
        } else if (i >= a.t.size() || b.t[j].first < a.t[i].first) {
            quad c = cb * b.t[j].second; push(b.t[j].first, c, eb ? (quad)0 : ab(c)); j++;
        } else {
            quad x = ca * a.t[i].second, y = cb * b.t[j].second;
            push(a.t[i].first, x + y, ab(x) + ab(y)); i++; j++;
        }
    }
    if (e != 0) err = up(err + qd_up(e));
    return r;
}
static Poly polyMul(const Poly &a, const Poly &b, double &err) {
    std::map<int, std::pair<quad, quad>> acc;
    for (auto &x : a.t) for (auto &y : b.t) {
        int m;
        if (!x.first) m = y.first; else if (!y.first) m = x.first;
        else {
            std::vector<int> v; const auto &p = monos[x.first]; const auto &q = monos[y.first];
            v.resize(p.size() + q.size()); std::merge(p.begin(), p.end(), q.begin(), q.end(), v.begin());
            m = internMono(v);
        }
        quad c = x.second * y.second; auto &s = acc[m]; s.first += c; s.second += c < 0 ? -c : c;
    }
    Poly r; quad e = 0;
    for (auto &kv : acc) {
        quad mm = monoMag(kv.first); e += kv.second.second * QEPS * 4 * mm;
        quad c = kv.second.first; quad size = (c < 0 ? -c : c) * mm;
        if (c == 0) continue;
        if (kv.first != 0 && size < 1e-29Q) { e += size; continue; }
        r.t.emplace_back(kv.first, c);
    }
    err = up(err + qd_up(e));
    return r;
}
static expr monoExpr(int id) {
    static std::unordered_map<int, unsigned> cache; 
    auto it = cache.find(id); if (it != cache.end()) return keepAlive[it->second];
    expr e = ZC.real_val(1); bool first = true;
    if (monos[id].size() == 1) e = atoms[monos[id][0]].var;
    else if (monos[id].size() > 1) {
        z3::expr_vector v(ZC); for (int a : monos[id]) v.push_back(atoms[a].var);
        std::vector<Z3_ast> as; for (unsigned i = 0; i < v.size(); i++) as.push_back(v[i]);
        e = expr(ZC, Z3_mk_mul(ZC, as.size(), as.data()));
    }
    (void)first;
    cache[id] = keepAlive.size(); keepAlive.push_back(e); return e;
}
static expr polyExpr(const Poly &p) {
    std::vector<expr> ts; 
    for (auto &x : p.t) {
        if (x.first == 0) ts.push_back(realQ(x.second));
        else if (x.second == 1) ts.push_back(monoExpr(x.first));
        else ts.push_back(realQ(x.second) * monoExpr(x.first));
    }
    if (ts.empty()) return ZC.real_val(0);
    if (ts.size() == 1) return ts[0];
    std::vector<Z3_ast> as; for (auto &e : ts) as.push_back(e);
    return expr(ZC, Z3_mk_add(ZC, as.size(), as.data()));
}

// ---- nodes
enum { NOGR = 9999 };
static int granOf(double d) { // largest g <= 0 such that d is a multiple of 2^g
    if (!std::isfinite(d)) return NOGR; if (d == std::floor(d)) return 0;
    for (int g = -1; g >= -45; g--) { double t = std::ldexp(d, -g); if (t == std::floor(t)) return g; }
    return NOGR; }
enum NOp { N_CONST, N_VAR, N_ADD, N_MUL, N_DIV, N_NEG, N_ABS, N_SQRT, N_FLOOR, N_CEIL, N_TRUNC, N_ROUND, N_F32, N_ITE, N_FN, N_I2F, N_REM, N_COPYSIGN };
struct Node {
    int id; NOp op; Node *k[3] = {0, 0, 0}; double cval = 0; bool f32 = false;
    std::string fn; int cond = -1; // index into keepAlive for ITE / I2F
    double lo = -INFINITY, hi = INFINITY;
    Poly p; double err = 0; bool mat = false, exactScale = false; int gr = NOGR; /* value is always a multiple of 2^gr (gr <= 0); NOGR: not known */ bool iv() const { return gr == 0; } int rexpr = -1; int fexpr = -1; int datom = -1; bool linked = false;
};
struct NKey { int op, a, b, c, cond; bool f32; std::string fn; u64 cv;
    bool operator<(const NKey &o) const { return std::tie(op, a, b, c, cond, f32, cv, fn) < std::tie(o.op, o.a, o.b, o.c, o.cond, o.f32, o.cv, o.fn); } };
struct NKeyHash { size_t operator()(const NKey &k) const { size_t h = k.op; auto mix = [&](u64 x) { h = (h ^ x) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; }; mix(k.a); mix(k.b); mix(k.c); mix(k.cond); mix(k.f32); mix(k.cv); mix(std::hash<std::string>()(k.fn)); return h; } };
static bool operator==(const NKey &x, const NKey &o) { return std::tie(x.op, x.a, x.b, x.c, x.cond, x.f32, x.cv, x.fn) == std::tie(o.op, o.a, o.b, o.c, o.cond, o.f32, o.cv, o.fn); }
static std::unordered_map<NKey, Node *, NKeyHash> nodeTab;
static int nodeCount = 0;

static int kid(Node *n) { return n ? n->id : -1; }
static Node *lookup(NOp op, Node *a, Node *b, Node *c, int cond, bool f32, const std::string &fn, u64 cv, bool &fresh) {
    NKey k{(int)op, kid(a), kid(b), kid(c), cond, f32, fn, cv};
    auto it = nodeTab.find(k);
    if (it != nodeTab.end()) { fresh = false; return it->second; }
    Node *n = new Node; n->id = nodeCount++; n->op = op; n->k[0] = a; n->k[1] = b; n->k[2] = c; n->f32 = f32; n->fn = fn; n->cond = cond;
    nodeTab[k] = n; fresh = true; return n;
}
static Node *mkConst(double d, bool f32) {
    u64 b; memcpy(&b, &d, 8); bool fresh;
    Node *n = lookup(N_CONST, 0, 0, 0, -1, f32, "", b, fresh);
    if (fresh) { n->cval = d; n->lo = n->hi = d; n->gr = granOf(d); if (!g_fp && d != 0) { if (!std::isfinite(d)) throw Unsupported("non-finite constant in symbolic arithmetic"); n->p.t.emplace_back(0, (quad)d); } }
    return n;
}
static Poly atomPoly(int a) { Poly p; p.t.emplace_back(internMono({a}), (quad)1); return p; }
static Node *mkVar(const std::string &name, double lo, double hi, bool f32, int *atomOut) {
    bool fresh; Node *n = lookup(N_VAR, 0, 0, 0, -1, f32, name, 0, fresh);
    if (fresh) {
        if (g_fp) {
            z3::sort s = f32 ? ZC.fpa_sort(8, 24) : ZC.fpa_sort(11, 53);
            n->fexpr = keepAlive.size(); keepAlive.push_back(ZC.constant(name.c_str(), s));
            n->lo = lo; n->hi = hi;
        } else {
            int a = newAtom(name.c_str(), lo, hi); n->p = atomPoly(a); n->lo = lo; n->hi = hi;
            n->cond = a;
        }
    }
    if (atomOut) *atomOut = g_fp ? -1 : n->cond;
    return n;
}
static double U(bool f32) { return f32 ? 0x1p-24 : 0x1p-53; }
static double ETA(bool f32) { return f32 ? 0x1p-149 : 0; } // doubles: inputs assumed away from the subnormal range

// real-valued expression of a node's exact IEEE value
static void materialise(Node *n) {
    if (n->mat) return; n->mat = true;
    // exact operations share the rounding deltas of their operand
    if (n->err > 0 && (n->op == N_NEG || (n->op == N_F32 && n->fn == "ext") || (n->op == N_MUL && n->exactScale))) {
        Node *x = n->op == N_MUL ? (n->k[0]->op == N_CONST ? n->k[1] : n->k[0]) : n->k[0];
        quad c = n->op == N_NEG ? (quad)-1 : n->op == N_MUL ? (quad)(n->k[0]->op == N_CONST ? n->k[0]->cval : n->k[1]->cval) : (quad)1;
        materialise(x); double e = 0; n->p = polyAdd(x->p, c, Poly(), 1, e); n->err = 0; return;
    }
    if (n->err > 0) {
        int a = newAtom("d", -n->err, n->err); n->datom = a;
        double e = 0; Poly one = atomPoly(a);
        n->p = polyAdd(n->p, 1, one, 1, e); n->err = 0;
        if (e > 0) { atoms[a].lo = -(up(atoms[a].hi + e)); atoms[a].hi = -atoms[a].lo; }
    }
}
static expr R(Node *n) {
    materialise(n);
    if (n->rexpr < 0) { expr e = polyExpr(n->p); n->rexpr = keepAlive.size(); keepAlive.push_back(e); }
    return keepAlive[n->rexpr];
}
// name a node by an atom (exact value), so that it can appear as a factor
static std::unordered_map<int, int> nodeAtom;
static int atomOf(Node *n) {
    materialise(n);
    if (n->p.t.size() == 1 && n->p.t[0].second == 1 && monos[n->p.t[0].first].size() == 1) return monos[n->p.t[0].first][0];
    auto it = nodeAtom.find(n->id); if (it != nodeAtom.end()) return it->second;
    int a = newAtom("n", n->lo, n->hi);
    expr e = atoms[a].var == R(n);
    atoms[a].defs.push_back(e); keepAlive.push_back(e);
    nodeAtom[n->id] = a; return a;
}
static void setAtomNode(Node *n, int a) { n->p = atomPoly(a); n->err = 0; n->mat = true; n->lo = std::max(n->lo, atoms[a].lo); n->hi = std::min(n->hi, atoms[a].hi); }
static expr zabs(const expr &e) { return z3::ite(e >= 0, e, -e); }
static void addDef(int a, expr e) { atoms[a].defs.push_back(e); keepAlive.push_back(e); }
// n := value within relative error k*u of the exact expression e
static void relAtom(Node *n, const expr &e, double k = 1) {
    int a = newAtom("r", n->lo, n->hi);
    expr t = atoms[a].var; expr b = realD(U(n->f32) * k) * zabs(e);
    if (n->f32) b = b + realD(ETA(true));
    addDef(a, t - e <= b && e - t <= b);
    // sign is preserved exactly by IEEE rounding
    if (!n->f32) addDef(a, z3::implies(e >= 0, t >= 0) && z3::implies(e <= 0, t <= 0));
    setAtomNode(n, a);
}
static double mag(const Node *n) { return std::max(std::fabs(n->lo), std::fabs(n->hi)); }
static void clampI(Node *n, double lo, double hi) { n->lo = std::max(n->lo, lo); n->hi = std::min(n->hi, hi); if (n->lo > n->hi) { double m = n->lo; n->lo = n->hi; n->hi = m; } }
static bool isC(Node *n) { return n->op == N_CONST; }
static bool pow2(double d) { int e; return std::fabs(std::frexp(d, &e)) == 0.5; }
static const double BIG = 1e120;

// canonical quotients and roots: one atom per pair of polynomials, rounding kept as an error bound
typedef std::vector<std::pair<int, quad>> PTerms; static Node *dl(Node *n);
static std::map<PTerms, PTerms> squareOf;
static std::map<PTerms, int> polyAtoms, rootAtoms; static std::map<std::pair<PTerms, PTerms>, int> quotAtoms;
static std::map<PTerms, int> logAtoms; struct QuotDef { Poly pa, pb; }; static std::unordered_map<int, QuotDef> quotDef; static std::unordered_map<int, Poly> rootDef;
static bool samePoly(const Poly &a, const Poly &b) { return a.t == b.t; }
static int atomOfPoly(const Poly &p, double lo, double hi) {
    if (p.t.size() == 1 && p.t[0].second == 1 && monos[p.t[0].first].size() == 1) return monos[p.t[0].first][0];
    auto it = polyAtoms.find(p.t); if (it != polyAtoms.end()) return it->second;
    int a = newAtom("p", lo, hi); addDef(a, atoms[a].var == polyExpr(p)); polyAtoms[p.t] = a; return a;
}
static Node *mkNeg(Node *a) {
    if (isC(a)) return mkConst(-a->cval, a->f32);
    if (a->op == N_NEG) return a->k[0];
    bool fresh; Node *n = lookup(N_NEG, a, 0, 0, -1, a->f32, "", 0, fresh);
    if (fresh && !g_fp) {
        n->lo = -a->hi; n->hi = -a->lo; double e = 0; n->p = polyAdd(a->p, -1, Poly(), 1, e); n->err = a->err; n->mat = a->mat; n->gr = a->gr;
    }
    return n;
}
static Node *mkAdd0(Node *a, Node *b, bool f32);
static Node *dl(Node *n) { if (g_deltas && !n->mat && n->err > 0 && n->op != N_CONST) materialise(n); return n; }
static Node *mkAdd(Node *a, Node *b, bool f32) { return dl(mkAdd0(a, b, f32)); }
static Node *mkAdd0(Node *a, Node *b, bool f32) {
    if (a->id > b->id) std::swap(a, b);
    if (!g_fp) {
        if (isC(a) && a->cval == 0) return b;
        if (isC(b) && b->cval == 0) return a;
        if (isC(a) && isC(b)) return mkConst(f32 ? (double)((float)a->cval + (float)b->cval) : a->cval + b->cval, f32);
        if ((b->op == N_NEG && b->k[0] == a) || (a->op == N_NEG && a->k[0] == b)) return mkConst(0, f32);
    }
    bool fresh; Node *n = lookup(N_ADD, a, b, 0, -1, f32, "", 0, fresh);
    if (fresh && !g_fp) {
        n->lo = dn(a->lo + b->lo); n->hi = up(a->hi + b->hi);
        if (std::isnan(n->lo)) n->lo = -INFINITY; if (std::isnan(n->hi)) n->hi = INFINITY;
        if (a->lo >= 0 && b->lo >= 0) n->lo = std::max(n->lo, 0.0);
        if (a->hi <= 0 && b->hi <= 0) n->hi = std::min(n->hi, 0.0);
        if (g_precise || !(mag(n) < BIG)) {
            double e = 0; materialise(a); materialise(b); Poly s = polyAdd(a->p, 1, b->p, 1, e);
            relAtom(n, polyExpr(s));
        } else {
            double e = up(a->err + b->err);
            n->p = polyAdd(a->p, 1, b->p, 1, e);
            double l, h; polyRange(n->p, l, h);
            clampI(n, dn(l - e), up(h + e));
            double m = mag(n);
            if (int g = std::min(a->gr, b->gr); a->gr != NOGR && b->gr != NOGR && m < std::ldexp(1.0, (f32 ? 23 : 52) + g)) { n->gr = g; n->err = a->err == 0 && b->err == 0 ? 0 : e; return n; } // whole numbers add exactly
            n->err = up(e + up(U(f32) * m)) + ETA(f32);
            if (f32) { n->lo = n->lo - up(U(true) * m); n->hi += up(U(true) * m); if (a->lo >= 0 && b->lo >= 0) n->lo = std::max(n->lo, 0.0); }
            else { n->lo = dn(n->lo); n->hi = up(n->hi); if (a->lo >= 0 && b->lo >= 0) n->lo = std::max(n->lo, 0.0); }
        }
    }
    return n;
}
static Node *mkSub(Node *a, Node *b, bool f32) { return mkAdd(a, mkNeg(b), f32); }
static Node *mkMul0(Node *a, Node *b, bool f32);
static Node *mkMul(Node *a, Node *b, bool f32) { return dl(mkMul0(a, b, f32)); }
static Node *mkMul0(Node *a, Node *b, bool f32) {
    if (a->id > b->id) std::swap(a, b);
    if (!g_fp) {
        if (isC(b) && !isC(a)) std::swap(a, b);
        if (isC(a)) {
            if (a->cval == 0) return mkConst(0, f32);
            if (a->cval == 1) return b;
            if (a->cval == -1) return mkNeg(b);
            if (isC(b)) return mkConst(f32 ? (double)((float)a->cval * (float)b->cval) : a->cval * b->cval, f32);
        } else {
            if (b->op == N_NEG && a->op == N_NEG) return mkMul(a->k[0], b->k[0], f32);
            if (a->op == N_NEG) return mkNeg(mkMul(a->k[0], b, f32));
            if (b->op == N_NEG) return mkNeg(mkMul(a, b->k[0], f32));
        }
        if (a->id > b->id) std::swap(a, b);
    }
    bool fresh; Node *n = lookup(N_MUL, a, b, 0, -1, f32, "", 0, fresh);
    if (fresh && !g_fp) {
        imul(a->lo, a->hi, b->lo, b->hi, n->lo, n->hi);
        if (std::isnan(n->lo)) n->lo = -INFINITY; if (std::isnan(n->hi)) n->hi = INFINITY;
        bool nn = (a == b) || (a->lo >= 0 && b->lo >= 0) || (a->hi <= 0 && b->hi <= 0);
        if (nn) n->lo = std::max(n->lo, 0.0);
        Node *c = isC(a) ? a : isC(b) ? b : 0; Node *x = c == a ? b : a;
        bool finite = mag(n) < BIG;
        if (a->gr != NOGR && b->gr != NOGR && a->gr + b->gr >= -45 && mag(n) < std::ldexp(1.0, (f32 ? 23 : 52) + a->gr + b->gr)) n->gr = a->gr + b->gr;
        if (a == b && a->op == N_SQRT && finite && !g_precise && (mag(a->k[0]) < BIG)) { // sqrt(x)^2 is x up to rounding
            Node *q = a->k[0]; double mq = mag(q); n->p = q->p; n->err = up(q->err + up(6 * U(f32) * mq)) + ETA(f32);
            n->lo = std::max(0.0, dn(q->lo - n->err)); n->hi = up(q->hi + n->err); return n;
        }
        if (c && !(g_precise && !pow2(c->cval)) && finite) {
            double e = up(std::fabs(c->cval) * x->err);
            n->p = polyAdd(x->p, (quad)c->cval, Poly(), 1, e);
            double l, h; polyRange(n->p, l, h); clampI(n, dn(l - e), up(h + e));
            n->exactScale = pow2(c->cval) && !f32;
            n->err = n->gr != NOGR && x->err == 0 ? 0 : pow2(c->cval) ? e : up(e + up(U(f32) * mag(n))) + ETA(f32);
            if (!pow2(c->cval) && n->gr == NOGR) { double m = up(U(f32) * mag(n)); n->lo = dn(n->lo - m); n->hi = up(n->hi + m); }
        } else if (c) {
            materialise(x); double e = 0; Poly s = polyAdd(x->p, (quad)c->cval, Poly(), 1, e);
            relAtom(n, polyExpr(s));
        } else {
            Poly pa, pb; double ea = a->err, eb = b->err;
            if (!finite || g_precise || (long)a->p.t.size() * (long)b->p.t.size() > g_expand) {
                int x1 = atomOf(a), x2 = atomOf(b); pa = atomPoly(x1); pb = atomPoly(x2); ea = eb = 0;
            } else { pa = a->p; pb = b->p; }
            if (!finite || g_precise) { materialise(a); materialise(b); relAtom(n, atoms[monos[pa.t[0].first][0]].var * atoms[monos[pb.t[0].first][0]].var); }
            else {
                double e = up(up(mag(a) * eb) + up(mag(b) * ea) + up(ea * eb));
                n->p = polyMul(pa, pb, e); if (samePoly(pa, pb)) squareOf[n->p.t] = pa.t;
                double l, h; polyRange(n->p, l, h); clampI(n, dn(l - e), up(h + e));
                double m = up(U(f32) * mag(n));
                n->err = up(e + m) + ETA(f32);
                n->lo = dn(n->lo - m); n->hi = up(n->hi + m);
                if (nn) n->lo = std::max(n->lo, 0.0);
            }
        }
    }
    return n;
}
static bool canonQuot(Node *n, Node *a, Node *b) {
    if (g_precise || isC(b) || !(b->lo > 0 || b->hi < 0)) return false;
    double m = std::min(std::fabs(b->lo), std::fabs(b->hi)), q = mag(n); if (!(m > 2 * b->err) || !(q < 1e9) || !(mag(a) < 1e12)) return false;
    double ea = a->err, eb = b->err; if (a->mat) ea = 0; if (b->mat) eb = 0;
    double qe = up((ea + q * 1.001 * eb) / (m - eb) * 1.001), m2 = up(U(n->f32) * q) + ETA(n->f32); if (!(qe < 2e-11 * std::max(1.0, q) && qe < 5e-9) || !(m2 < (n->f32 ? 1e-4 : 1e-11))) return false;
    if (a->p.t.size() == b->p.t.size() && !a->p.t.empty()) { // proportional polynomials
        quad c = a->p.t[0].second / b->p.t[0].second; bool prop = c == 1 || c == -1 || c == 2 || c == -2 || c == 0.5Q || c == -0.5Q; for (size_t i = 0; prop && i < a->p.t.size(); i++) if (a->p.t[i].first != b->p.t[i].first || a->p.t[i].second != c * b->p.t[i].second) prop = false;
        if (prop) { n->p = Poly(); n->p.t.emplace_back(0, c); n->err = up(qe + m2); clampI(n, dn((double)c - n->err), up((double)c + n->err)); return true; } }
    if (a->p.t.size() == b->p.t.size() && !a->p.t.empty()) { // proportional up to rounding of the coefficients
        quad c = a->p.t[0].second / b->p.t[0].second, dev = 0; bool same = true; for (size_t i = 0; same && i < a->p.t.size(); i++) { if (a->p.t[i].first != b->p.t[i].first) same = false; else { quad z = a->p.t[i].second - c * b->p.t[i].second; dev += (z < 0 ? -z : z) * (quad)(a->p.t[i].first ? monoMag(a->p.t[i].first) : 1.0); } }
        double dv = qd_up(dev * 1.0001Q) / m * 1.001; if (same && dv < 1e-14 * std::max(1.0, q)) { n->p = Poly(); n->p.t.emplace_back(0, c); n->err = up(up(qe + m2 + dv) + q * 1e-30); clampI(n, dn((double)c - n->err), up((double)c + n->err)); return true; } }
    Poly pa = a->p, pb = b->p; quad ca = 1; // a single-term numerator or denominator is scaled to coefficient 1
    if (pa.t.size() == 1) { ca = pa.t[0].second; pa.t[0].second = 1; } if (pb.t.size() == 1) { ca = ca / pb.t[0].second; pb.t[0].second = 1; }
    auto key = std::make_pair(pa.t, pb.t); auto it = quotAtoms.find(key); int r;
    if (it != quotAtoms.end()) r = it->second; else {
        double l1, h1, l2, h2, l, h; polyRange(pa, l1, h1); polyRange(pb, l2, h2); double cad = (double)ca; l = dn(n->lo - qe) / cad; h = up(n->hi + qe) / cad; if (l > h) std::swap(l, h); l -= std::fabs(l) * 1e-15; h += std::fabs(h) * 1e-15; (void)l1; (void)h1;
        r = newAtom("q", dn(l), up(h)); if (l2 > h2) std::swap(l2, h2);
        int y = atomOfPoly(pb, l2, h2); addDef(r, atoms[r].var * atoms[y].var == polyExpr(pa)); quotAtoms[key] = r; quotDef[r] = QuotDef{pa, pb}; }
    n->p = atomPoly(r); n->p.t[0].second = ca; n->err = up(qe + m2 + q * 1e-30); n->lo = dn(n->lo - m2); n->hi = up(n->hi + m2); if ((a->lo >= 0 && b->lo >= 0) || (a->hi <= 0 && b->hi <= 0)) n->lo = std::max(n->lo, 0.0); if ((a->lo >= 0 && b->hi <= 0) || (a->hi <= 0 && b->lo >= 0)) n->hi = std::min(n->hi, 0.0); 
    dl(n); return true;
}
static bool canonRoot(Node *n, Node *a) {
    double ea = a->mat ? 0 : a->err, lo = a->lo - ea; if (g_precise || !(lo > 0) || !(n->hi < 1e9)) return false;
    double rl = std::sqrt(lo) * 0.999999, se = up(ea / rl), m2 = up(2.5 * U(n->f32) * n->hi) + ETA(n->f32); if (!(se < 2e-11 * std::max(1.0, n->hi) && se < 5e-9) || !(m2 < (n->f32 ? 1e-4 : 1e-11))) return false;
    auto sq = squareOf.find(a->p.t);
    if (sq != squareOf.end()) { Poly r; r.t = sq->second; double l, h; polyRange(r, l, h); if (l >= 0 || h <= 0) { double e = 0; n->p = l >= 0 ? r : polyAdd(r, -1, Poly(), 1, e); n->err = up(se + m2 + e); n->lo = std::max(0.0, dn(n->lo - m2)); n->hi = up(n->hi + m2); dl(n); return true; } }
    if (a->p.t.size() == 1 && a->p.t[0].first && a->p.t[0].second > 0) { // c times a square of known sign
        std::vector<int> h; const std::vector<int> m = monos[a->p.t[0].first]; bool ev = m.size() % 2 == 0; for (size_t i = 0; ev && i < m.size(); i += 2) { if (m[i] != m[i + 1]) ev = false; h.push_back(m[i]); }
        if (ev) { Poly r; quad q = a->p.t[0].second; double s0 = std::sqrt((double)q); quad sq2 = s0; sq2 = (sq2 + q / sq2) / 2; r.t.emplace_back(internMono(h), sq2); double l, u; polyRange(r, l, u); if (u <= 0) r.t[0].second = -sq2; if (l >= 0 || u <= 0) { n->p = r; n->err = up(se + m2 + n->hi * 1e-28); n->lo = std::max(0.0, dn(n->lo - m2)); n->hi = up(n->hi + m2); dl(n); return true; } } }
    auto it = rootAtoms.find(a->p.t); int r; static std::map<std::vector<int>, std::vector<std::pair<PTerms, int>>> rootsByMonos; std::vector<int> mk; for (auto &t : a->p.t) mk.push_back(t.first);
    if (it == rootAtoms.end()) for (auto &c : rootsByMonos[mk]) { quad q = a->p.t[0].second / c.first[0].second; if (!(q > 0)) continue; quad dev = 0; for (size_t i = 0; i < mk.size(); i++) { quad z = a->p.t[i].second - q * c.first[i].second; dev += (z < 0 ? -z : z) * (quad)(mk[i] ? monoMag(mk[i]) : 1.0); } // the same up to a factor
        double dv = qd_up(dev * 1.0001Q); if (!(dv < 1e-11 * lo)) continue; double s0 = std::sqrt((double)q); quad sq2 = s0; sq2 = (sq2 + q / sq2) / 2; double e = up(se + m2 + dv / rl + n->hi * 1e-28); if (!(e < 2e-8)) continue;
        n->p = atomPoly(c.second); n->p.t[0].second = sq2; n->err = e; n->lo = std::max(0.0, dn(n->lo - m2)); n->hi = up(n->hi + m2); dl(n); return true; }
    if (it != rootAtoms.end()) r = it->second; else {
        r = newAtom("s", std::max(0.0, dn(std::sqrt(lo) - m2)), up(std::sqrt(a->hi + ea) + m2));
        addDef(r, atoms[r].var * atoms[r].var == polyExpr(a->p)); rootAtoms[a->p.t] = r; rootDef[r] = a->p; rootsByMonos[mk].push_back({a->p.t, r}); }
    n->p = atomPoly(r); n->err = up(se + m2); n->lo = std::max(0.0, dn(n->lo - m2)); n->hi = up(n->hi + m2); dl(n); return true;
}
// bound on |d| after clearing canonical denominators and reducing even powers of canonical roots
static bool clearBound(const Poly &d0, double &bound) {
    Poly cur = d0; double F = 1, acc = 0; bool any = false;
    for (int it = 0; it < 300; it++) {
        int r = -1; for (auto &t : cur.t) { const auto &m = monos[t.first]; if (!t.first) continue; for (size_t i = 0; i < m.size(); i++) if (m[i] > r && (quotDef.count(m[i]) || (rootDef.count(m[i]) && i + 1 < m.size() && m[i + 1] == m[i]))) r = m[i]; }
        if (r < 0) break; any = true; bool quot = quotDef.count(r);
        std::map<int, Poly> G; int deg = 0;
        for (auto &t : cur.t) { std::vector<int> rest; int k = 0; if (t.first) for (int x : monos[t.first]) if (x == r) k++; else rest.push_back(x); int put = k; if (!quot && k % 2) { rest.insert(std::upper_bound(rest.begin(), rest.end(), r), r); } if (!quot) put = k / 2; G[put].t.emplace_back(rest.empty() ? 0 : internMono(rest), t.second); deg = std::max(deg, put); }
        double e = 0; Poly nx; std::vector<Poly> pw(1); pw[0].t.emplace_back(0, (quad)1);
        const Poly &num = quot ? quotDef[r].pa : rootDef[r]; Poly den; if (quot) den = quotDef[r].pb;
        std::vector<Poly> pn = pw, pd = pw; for (int i = 0; i < deg; i++) { if (pn.back().t.size() * num.t.size() > 200000) return false; pn.push_back(polyMul(pn.back(), num, e)); if (quot) { if (pd.back().t.size() * den.t.size() > 200000) return false; pd.push_back(polyMul(pd.back(), den, e)); } }
        for (auto &g : G) { std::sort(g.second.t.begin(), g.second.t.end(), [](const std::pair<int, quad> &x, const std::pair<int, quad> &y) { return x.first < y.first; }); Poly q = g.second; double gm = polyMag(q), e1 = 0; if (q.t.size() * pn[g.first].t.size() > 400000) return false; q = polyMul(q, pn[g.first], e1); if (quot) { if (q.t.size() * pd[deg - g.first].t.size() > 400000) return false; double m1 = e1 * polyMag(pd[deg - g.first]); q = polyMul(q, pd[deg - g.first], e1); e1 = up(e1 + m1); } e = up(e * (1 + gm) + e1); nx = polyAdd(nx, 1, q, 1, e); if (nx.t.size() > 30000) return false; }
        if (quot) { double l, h; polyRange(den, l, h); double mn = l > 0 ? l : h < 0 ? -h : 0; if (!(mn > 0)) return false; for (int i = 0; i < deg; i++) F = dn(F * mn); if (!(F > 1e-200)) return false; }
        acc = up(acc + up(e / F)); cur = nx;
    }
    if (!any) return false;
    double l, h; polyRange(cur, l, h); bound = up(acc + up(std::max(std::fabs(l), std::fabs(h)) / F)); return std::isfinite(bound);
}
// precondition (real mode): b cannot be zero on this path
static Node *mkDiv(Node *a, Node *b, bool f32) {
    if (!g_fp) {
        if (a == b) return mkConst(1, f32);
        if (isC(a) && a->cval == 0) return a;
        if (isC(b)) {
            if (b->cval == 1) return a;
            if (b->cval == -1) return mkNeg(a);
            if (pow2(b->cval) && std::fabs(b->cval) < 1e30 && std::fabs(b->cval) > 1e-30) return mkMul(a, mkConst(1 / b->cval, f32), f32);
        }
        if (b->op == N_NEG) return mkNeg(mkDiv(a, b->k[0], f32));
        if (a->op == N_NEG) return mkNeg(mkDiv(a->k[0], b, f32));
    }
    bool fresh; Node *n = lookup(N_DIV, a, b, 0, -1, f32, "", 0, fresh);
    if (fresh && !g_fp) {
        if (b->lo > 0 || b->hi < 0) {
            double il = 1 / b->hi, ih = 1 / b->lo; if (il > ih) std::swap(il, ih);
            imul(a->lo, a->hi, dn(il), up(ih), n->lo, n->hi);
            if (std::isnan(n->lo)) n->lo = -INFINITY; if (std::isnan(n->hi)) n->hi = INFINITY;
        } else { n->lo = -INFINITY; n->hi = INFINITY; }
        if ((a->lo >= 0 && b->lo >= 0) || (a->hi <= 0 && b->hi <= 0)) n->lo = std::max(n->lo, 0.0);
        if ((a->lo >= 0 && b->hi <= 0) || (a->hi <= 0 && b->lo >= 0)) n->hi = std::min(n->hi, 0.0);
        if (isC(b) && mag(n) < BIG && !g_precise) {
            quad inv = (quad)1 / (quad)b->cval;
            double e = up(std::fabs((double)inv) * a->err * (1 + 1e-15));
            n->p = polyAdd(a->p, inv, Poly(), 1, e);
            e = up(e + 4 * (double)QEPS * polyMag(n->p));
            double l, h; polyRange(n->p, l, h); clampI(n, dn(l - e), up(h + e));
            double m = up(U(f32) * mag(n)); n->err = up(e + m) + ETA(f32); n->lo = dn(n->lo - m); n->hi = up(n->hi + m);
            if (a->lo >= 0 && b->lo > 0) n->lo = std::max(n->lo, 0.0);
        } else if (canonQuot(n, a, b)) {
        } else {
            // r*b within u*|a| of a
            int r = newAtom("q", n->lo, n->hi);
            expr ea = R(a), eb = isC(b) ? realD(b->cval) : atoms[atomOf(b)].var, t = atoms[r].var;
            expr bd = realD(U(f32) * 1.0000001) * zabs(ea);
            addDef(r, t * eb - ea <= bd && ea - t * eb <= bd);
            setAtomNode(n, r);
        }
    }
    return n;
}
static Node *mkIte(const expr &cond, Node *a, Node *b) {
    if (a == b) return a;
    // key on the condition's ast id (kept alive)
    static std::unordered_map<unsigned, int> condIdx;
    unsigned cid = Z3_get_ast_id(ZC, cond);
    auto it = condIdx.find(cid); int ci;
    if (it == condIdx.end()) { ci = keepAlive.size(); keepAlive.push_back(cond); condIdx[cid] = ci; } else ci = it->second;
    bool fresh; Node *n = lookup(N_ITE, a, b, 0, ci, a->f32, "", 0, fresh);
    if (fresh && !g_fp) {
        n->lo = std::min(a->lo, b->lo); n->hi = std::max(a->hi, b->hi); n->gr = a->gr == NOGR || b->gr == NOGR ? NOGR : std::min(a->gr, b->gr);
        int t = newAtom("i", n->lo, n->hi);
        addDef(t, z3::implies(cond, atoms[t].var == R(a)) && z3::implies(!cond, atoms[t].var == R(b)));
        setAtomNode(n, t);
    }
    return n;
}
static Node *mkAbs(Node *a) {
    if (isC(a)) return mkConst(std::fabs(a->cval), a->f32);
    if (!g_fp) {
        if (a->op == N_NEG) a = a->k[0];
        if (a->lo >= 0) return a;
        if (a->hi <= 0) return mkNeg(a);
    }
    bool fresh; Node *n = lookup(N_ABS, a, 0, 0, -1, a->f32, "", 0, fresh);
    if (fresh && !g_fp) {
        n->lo = 0; n->hi = mag(a); n->gr = a->gr;
        int t = newAtom("a", n->lo, n->hi); expr e = R(a), v = atoms[t].var;
        addDef(t, v >= 0 && (v == e || v == -e) && v >= e && v >= -e);
        setAtomNode(n, t);
    }
    return n;
}
// precondition (real mode): a >= 0 on this path
static Node *mkSqrt(Node *a, bool f32) {
    if (isC(a)) return mkConst(f32 ? (double)sqrtf((float)a->cval) : std::sqrt(a->cval), f32);
    if (!g_fp && a->op == N_MUL && a->k[0] == a->k[1] && !f32) {
        // sqrt(x*x) is not folded: keep exact IEEE identity
    }
    bool fresh; Node *n = lookup(N_SQRT, a, 0, 0, -1, f32, "", 0, fresh);
    if (fresh && !g_fp) {
        n->lo = dn(std::sqrt(std::max(0.0, a->lo))); if (n->lo < 0) n->lo = 0; n->hi = up(std::sqrt(std::max(0.0, a->hi))); if (canonRoot(n, a)) return n;
        int t = newAtom("s", n->lo, n->hi); expr e = R(a), v = atoms[t].var;
        expr bd = realD(2.5 * U(f32)) * e;
        addDef(t, v >= 0 && v * v - e <= bd && e - v * v <= bd);
        setAtomNode(n, t);
    }
    return n;
}
static Node *mkFloorLike(NOp op, Node *a) { // N_FLOOR N_CEIL N_TRUNC N_ROUND(half away)
    if (!g_fp && a->iv()) return a;
    if (!g_fp && a->gr != NOGR && a->err == 0) { // exact: split off the part that is a whole number by construction
        bool whole = true; for (auto &x : a->p.t) { if (x.second != (quad)(long long)x.second) { whole = false; break; } for (int at : monos[x.first]) if (!atoms[at].isInt) { whole = false; break; } if (!whole) break; }
        if (whole) { a->gr = 0; return a; }
    }
    bool fresh; Node *n = lookup(op, a, 0, 0, -1, a->f32, "", 0, fresh);
    if (fresh && !g_fp) {
        double l, h;
        auto f = [&](double x) { return op == N_FLOOR ? std::floor(x) : op == N_CEIL ? std::ceil(x) : op == N_TRUNC ? std::trunc(x) : std::round(x); };
        l = f(a->lo); h = f(a->hi); n->lo = l; n->hi = h; n->gr = 0;
        if (l == h) { n->p = mkConst(l, a->f32)->p; n->err = 0; n->mat = true; return n; }
        int t = newAtom("k", l, h, true); expr e = R(a), k = atoms[t].var;
        if (op == N_FLOOR) addDef(t, k <= e && e < k + 1);
        else if (op == N_CEIL) addDef(t, k >= e && e > k - 1);
        else if (op == N_TRUNC) addDef(t, z3::ite(e >= 0, k <= e && e < k + 1, k >= e && e > k - 1));
        else { expr hf = ZC.real_val("1/2"); addDef(t, z3::ite(e >= 0, k <= e + hf && e + hf < k + 1, k >= e - hf && e - hf > k - 1)); }
        setAtomNode(n, t);
    }
    return n;
}
static Node *mkF32(Node *a) { // fptrunc double->float
    if (isC(a)) return mkConst((double)(float)a->cval, true);
    bool fresh; Node *n = lookup(N_F32, a, 0, 0, -1, true, "", 0, fresh);
    if (fresh && !g_fp) {
        double m = up(U(true) * mag(a));
        n->p = a->p; n->mat = false; n->err = up(a->err + m) + ETA(true); n->lo = dn(a->lo - m); n->hi = up(a->hi + m);
        if (a->lo >= 0) n->lo = std::max(0.0, n->lo);
    }
    return n;
}
static Node *mkF64(Node *a) { // fpext float->double (exact)
    if (isC(a)) return mkConst(a->cval, false);
    bool fresh; Node *n = lookup(N_F32, a, 0, 0, -1, false, "ext", 0, fresh);
    if (fresh && !g_fp) { n->p = a->p; n->err = a->err; n->mat = a->mat; n->lo = a->lo; n->hi = a->hi; n->gr = a->gr; }
    return n;
}
static std::map<std::string, std::vector<int>> fnAtoms;
static Node *mkFn(const std::string &fn, Node *a, Node *b, bool f32);
// log of a canonical polynomial as a sum: common factors split off, log(p/q) = log p - log q; one atom per polynomial
static bool logOfPoly(Poly P, Poly &out, double sgn, double &err, int depth) {
    if (depth > 40 || P.t.empty()) return false;
    if (P.t[0].first) { std::vector<int> common = monos[P.t[0].first];
        for (auto &t : P.t) { if (!t.first) { common.clear(); break; } std::vector<int> k; std::set_intersection(common.begin(), common.end(), monos[t.first].begin(), monos[t.first].end(), std::back_inserter(k)); common = k; }
        bool ok = true; for (int r : common) if (!(atoms[r].lo > 0)) ok = false;
        if (ok && !common.empty()) { Poly Q; for (auto &t : P.t) { std::vector<int> k; std::set_difference(monos[t.first].begin(), monos[t.first].end(), common.begin(), common.end(), std::back_inserter(k)); Q.t.emplace_back(k.empty() ? 0 : internMono(k), t.second); }
            std::sort(Q.t.begin(), Q.t.end(), [](const std::pair<int, quad> &x, const std::pair<int, quad> &y) { return x.first < y.first; });
            for (int r : common) { auto q = quotDef.find(r);
                if (q != quotDef.end()) { Poly pa = q->second.pa, pb = q->second.pb; double l, h; polyRange(pb, l, h); if (h < 0) { double e = 0; pa = polyAdd(pa, -1, Poly(), 1, e); pb = polyAdd(pb, -1, Poly(), 1, e); } if (!logOfPoly(pa, out, sgn, err, depth + 1) || !logOfPoly(pb, out, -sgn, err, depth + 1)) return false; }
                else if (P.t.size() == 1 && common.size() == 1 && P.t[0].second == 1) { goto atom; }
                else if (!logOfPoly(atomPoly(r), out, sgn, err, depth + 1)) return false; }
            return logOfPoly(Q, out, sgn, err, depth + 1); } }
atom:
    double l, h; polyRange(P, l, h); if (!(l > 0)) return false;
    if (P.t.size() == 1 && !P.t[0].first) { double v = (double)P.t[0].second; if (v == 1) return true; Poly c; c.t.emplace_back(0, (quad)std::log(v)); err = up(err + std::fabs(std::log(v)) * 1e-15 + 1e-15); out = polyAdd(out, 1, c, sgn, err); return true; }
    static std::map<std::vector<int>, std::vector<std::pair<PTerms, int>>> byMonos; std::vector<int> mk; for (auto &t : P.t) mk.push_back(t.first);
    for (auto &c : byMonos[mk]) { quad q = P.t[0].second / c.first[0].second; if (!(q > 0)) continue; quad dev = 0; for (size_t i = 0; i < P.t.size(); i++) { quad z = P.t[i].second - q * c.first[i].second; dev += (z < 0 ? -z : z) * (quad)(P.t[i].first ? monoMag(P.t[i].first) : 1.0); } // the same up to a factor
        double dv = qd_up(dev * 1.0001Q) + l * 1e-28; if (!(dv < 1e-11 * l)) continue; double lq = std::log((double)q); if (q != 1) { Poly k; k.t.emplace_back(0, (quad)lq); if (lq != 0) out = polyAdd(out, 1, k, sgn, err); } err = up(err + up(dv / (l - dv)) + 1e-15 * (1 + std::fabs(lq))); out = polyAdd(out, 1, atomPoly(c.second), sgn, err); return true; }
    auto it = logAtoms.find(P.t); int r;
    if (it != logAtoms.end()) r = it->second; else {
        static int cnt = 0; bool fresh; Node *k = lookup(N_VAR, 0, 0, 0, -1, false, "lg#" + std::to_string(cnt++), 0, fresh); k->p = P; k->lo = l; k->hi = h; k->cond = -1;
        logAtoms[P.t] = -1; Node *m = mkFn("log", k, 0, false); r = monos[m->p.t[0].first][0]; logAtoms[P.t] = r; }
    if (r < 0) return false;
    byMonos[mk].push_back({P.t, r});
    out = polyAdd(out, 1, atomPoly(r), sgn, err); return true;
}
static std::vector<double> logPoints; // a computed logarithm is on the right side of its value at each of these
static bool canonLog(Node *n, Node *a, quad c) {
    if (!logPoints.empty()) return false; // the points are given for the arguments as written
    if (g_precise || a->op == N_VAR) { return false; }
    double ea = a->mat ? 0 : a->err; if (!(a->lo > 0) || !(ea < 1e-9 * a->lo)) return false;
    Poly out; double err = 0; if (!logOfPoly(a->p, out, 1, err, 0)) return false;
    if (c != 1) { double e2 = 0; out = polyAdd(out, c, Poly(), 1, e2); err = up(err * (double)c * 1.0000001 + e2); } // log10, log2
    err = up(err + up((double)c * 1.0000001 * ea / (a->lo - ea)) + up(1e-14 * (1 + std::max(std::fabs(n->lo), std::fabs(n->hi)))));
    double l, h; polyRange(out, l, h); n->p = out; n->err = err; clampI(n, dn(l - err), up(h + err)); dl(n); return true;
}
static Node *mkFn(const std::string &fn, Node *a, Node *b, bool f32) {
    bool fresh; Node *n = lookup(N_FN, a, b, 0, -1, f32, fn, 0, fresh);
    if (fresh) {
        if (g_fp) throw Unsupported("libm call " + fn + " on symbolic argument in fp mode");
        double lo = -INFINITY, hi = INFINITY; const double w = f32 ? 1e-6 : 1e-14;
        auto wid = [&](double x, int s) { return s < 0 ? x - std::fabs(x) * w - 1e-300 : x + std::fabs(x) * w + 1e-300; };
        std::string f = fn;
        if (f == "exp") { lo = std::max(0.0, wid(std::exp(a->lo), -1)); hi = wid(std::exp(a->hi), 1); }
        else if (f == "log" || f == "log10" || f == "log2") {
            auto L = [&](double x) { return f == "log" ? std::log(x) : f == "log10" ? std::log10(x) : std::log2(x); };
            lo = a->lo > 0 ? wid(L(a->lo), -1) : -INFINITY; hi = a->hi > 0 ? wid(L(a->hi), 1) : INFINITY;
            if (lo == -INFINITY) lo = -800; // double range
            if (hi == INFINITY) hi = 800;
        }
        else if (f == "sin" || f == "cos") { lo = -1; hi = 1; }
        else if (f == "atan2") { lo = -3.1415926535897936; hi = 3.1415926535897936; if (a->lo >= 0) lo = 0; if (a->hi <= 0) hi = 0; }
        else if (f == "atan") { lo = -1.5707963267948968; hi = 1.5707963267948968; }
        else if (f == "pow") { double al = a->lo; if (isC(b) && b->cval != std::floor(b->cval)) al = std::max(al, 0.0); /* the caller has excluded negative bases */ if (al >= 0) lo = 0;
            if (al >= 0 && isC(b) && b->cval > 0) { lo = std::max(0.0, wid(std::pow(al, b->cval), -1)); hi = wid(std::pow(a->hi, b->cval), 1); }
            if (isC(a) && a->cval > 1) { lo = std::max(0.0, wid(std::pow(a->cval, b->lo), -1)); hi = wid(std::pow(a->cval, b->hi), 1); } }
        else if (f == "tanh") { lo = -1; hi = 1; }
        n->lo = lo; n->hi = hi;
        if (!b && !f32 && (f == "log" ? canonLog(n, a, 1) : f == "log10" ? canonLog(n, a, 0.43429448190325182765112891891660508Q) : f == "log2" ? canonLog(n, a, 1.44269504088896340735992468100189214Q) : false)) return n;
        int t = newAtom(f.c_str(), lo, hi); expr v = atoms[t].var;
        atoms[t].fn = f; atoms[t].arg = isC(a) && b ? b : a;
        expr e = R(a); expr tol = ZC.real_val(f32 ? "1/1000000" : "1/100000000000000"); if (isC(a) && b) atoms[t].base = a->cval; atoms[t].flt = f32;
        if (f == "exp") addDef(t, v >= 0 && v + tol >= (1 + e) * ZC.real_val(1) - zabs(e) * tol);
        if (f == "pow" && isC(b) && b->cval > 0 && b->cval < 1 && a->lo >= 0) { // k-th root
            int k = (int)std::floor(1 / b->cval + 0.5); if (k >= 2 && k <= 6 && std::fabs(k * b->cval - 1) < 1e-15) { expr q = v; for (int i = 1; i < k; i++) q = q * v; expr d = e * ZC.real_val(f32 ? "1/100000" : "1/1000000000000") + ZC.real_val("1/1000000000000000000"); addDef(t, q <= e + d && q >= e - d && v >= 0); } }
        if (f == "log10" || f == "log2") { expr c = realD(f == "log10" ? 2.302585092994046 : 0.6931471805599453), u = v * c; expr x = (1 + zabs(e)) * tol; addDef(t, u <= e - 1 + x && e * u >= e - 1 - x && z3::implies(e >= 1, v >= 0) && z3::implies(e <= 1, v <= 0)); }
        if (f == "log") addDef(t, z3::implies(e >= 1, v >= 0) && z3::implies(e <= 1, v <= 0) && v <= e - 1 + (1 + zabs(e)) * tol && e * v >= e - 1 - (1 + zabs(e)) * tol);
        if (f == "atan2") { expr y = R(a), x = R(b); expr hp = realD(M_PI / 2);
            addDef(t, z3::implies(y > 0, v >= 0) && z3::implies(y < 0, v <= 0) && z3::implies(y == 0 && x > 0, v == 0)
                   && z3::implies(x > 0, v <= hp && v >= -hp) && z3::implies(x < 0 && y >= 0, v >= hp) && z3::implies(x < 0 && y < 0, v <= -hp)); }
        bool mono = f == "exp" || f == "log" || f == "log10" || f == "log2" || f == "atan";
        if (f == "pow" && ((isC(b) && b->cval > 0 && a->lo >= 0) || (isC(a) && a->cval > 1))) { mono = true; f = "pow@" + std::to_string(isC(a) ? a->id : b->id); atoms[t].fn = f; }
        if (mono || f == "sin" || f == "cos") { fnAtoms[f].push_back(t); } else atoms[t].fn = "";
        setAtomNode(n, t);
    }
    return n;
}
static Node *mkRemLike(Node *a, Node *b, bool f32) { (void)a; (void)b; (void)f32; throw Unsupported("frem on symbolic operand"); }

// ---- fp mode translation
static expr F(Node *n) {
    if (n->fexpr >= 0) return keepAlive[n->fexpr];
    z3::sort s = n->f32 ? ZC.fpa_sort(8, 24) : ZC.fpa_sort(11, 53);
    expr rm = expr(ZC, Z3_mk_fpa_rne(ZC));
    expr e(ZC);
    switch (n->op) {
    case N_CONST: e = n->f32 ? ZC.fpa_val((float)n->cval) : ZC.fpa_val(n->cval); break;
    case N_ADD: e = expr(ZC, Z3_mk_fpa_add(ZC, rm, F(n->k[0]), F(n->k[1]))); break;
    case N_MUL: e = expr(ZC, Z3_mk_fpa_mul(ZC, rm, F(n->k[0]), F(n->k[1]))); break;
    case N_DIV: e = expr(ZC, Z3_mk_fpa_div(ZC, rm, F(n->k[0]), F(n->k[1]))); break;
    case N_NEG: e = expr(ZC, Z3_mk_fpa_neg(ZC, F(n->k[0]))); break;
    case N_ABS: e = expr(ZC, Z3_mk_fpa_abs(ZC, F(n->k[0]))); break;
    case N_SQRT: e = expr(ZC, Z3_mk_fpa_sqrt(ZC, rm, F(n->k[0]))); break;
    case N_FLOOR: e = expr(ZC, Z3_mk_fpa_round_to_integral(ZC, expr(ZC, Z3_mk_fpa_rtn(ZC)), F(n->k[0]))); break;
    case N_CEIL: e = expr(ZC, Z3_mk_fpa_round_to_integral(ZC, expr(ZC, Z3_mk_fpa_rtp(ZC)), F(n->k[0]))); break;
    case N_TRUNC: e = expr(ZC, Z3_mk_fpa_round_to_integral(ZC, expr(ZC, Z3_mk_fpa_rtz(ZC)), F(n->k[0]))); break;
    case N_ROUND: e = expr(ZC, Z3_mk_fpa_round_to_integral(ZC, expr(ZC, Z3_mk_fpa_rna(ZC)), F(n->k[0]))); break;
    case N_F32: e = expr(ZC, Z3_mk_fpa_to_fp_float(ZC, rm, F(n->k[0]), s)); break;
    case N_ITE: e = z3::ite(keepAlive[n->cond], F(n->k[0]), F(n->k[1])); break;
    case N_I2F: e = n->fn == "u" ? expr(ZC, Z3_mk_fpa_to_fp_unsigned(ZC, rm, keepAlive[n->cond], s)) : expr(ZC, Z3_mk_fpa_to_fp_signed(ZC, rm, keepAlive[n->cond], s)); break;
    default: throw Unsupported("fp translation");
    }
    n->fexpr = keepAlive.size(); keepAlive.push_back(e); return e;
}

// comparison predicates, LLVM order encoded by caller: returns tri-state via out
enum Cmp { EQ, LT, LE };
// real mode: constant result by interval, or z3 Bool
static int cmpConst(Cmp c, Node *a, Node *b) { // 1 true, 0 false, -1 unknown
    if (a == b) return c == LT ? 0 : 1;
    switch (c) {
    case LT: if (a->hi < b->lo) return 1; if (a->lo >= b->hi) return 0; break;
    case LE: if (a->hi <= b->lo) return 1; if (a->lo > b->hi) return 0; break;
    case EQ: if (a->hi < b->lo || a->lo > b->hi) return 0; break;
    }
    if (!g_fp && !g_precise && !isC(a) && !isC(b) && a->p.t.size() + b->p.t.size() < 4000 && a->p.t.size() && b->p.t.size()) { // sign of the difference of the polynomials, outside the accumulated rounding error
        double e = (a->mat ? 0 : a->err), l, h; e = up(e + (b->mat ? 0 : b->err)); if (!(e < 1e3)) return -1; Poly d = polyAdd(a->p, 1, b->p, -1, e); polyRange(d, l, h); l = dn(l - e); h = up(h + e);
        if (h < 0) return c != EQ; if (l > 0) return 0; }
    return -1;
}
// IEEE addition never changes the sign of the exact sum: tie the rounding delta of a sum to it
static void linkSign(Node *n, int depth = 0) {
    if (g_fp || n->linked || depth > 3) return; n->linked = true;
    if (n->op == N_NEG || n->op == N_MUL) { for (int i = 0; i < 2; i++) if (n->k[i]) linkSign(n->k[i], depth + 1); }
    if (n->op != N_ADD || n->f32) return;
    expr r = R(n); if (n->datom < 0) return;
    expr x = R(n->k[0]) + R(n->k[1]);
    addDef(n->datom, z3::implies(x >= 0, r >= 0) && z3::implies(x <= 0, r <= 0));
}
static expr cmpExpr(Cmp c, Node *a, Node *b) {
    if (g_fp) {
        expr x = F(a), y = F(b);
        if (c == EQ) return expr(ZC, Z3_mk_fpa_eq(ZC, x, y));
        if (c == LT) return expr(ZC, Z3_mk_fpa_lt(ZC, x, y));
        return expr(ZC, Z3_mk_fpa_leq(ZC, x, y));
    }
    if (isC(a) && a->cval == 0) linkSign(b); if (isC(b) && b->cval == 0) linkSign(a);
    materialise(a); materialise(b);
    double e = 0; Poly d = polyAdd(a->p, 1, b->p, -1, e); // representation error ~1e-33: covered by exact deltas below
    expr x = polyExpr(d);
    if (e > 1e-25) { // keep it exact: compare the two separately
        expr ra = R(a), rb = R(b);
        return c == EQ ? ra == rb : c == LT ? ra < rb : ra <= rb;
    }
    return c == EQ ? x == 0 : c == LT ? x < 0 : x <= 0;
}

// ---- solver
struct Stats { long queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0; double time = 0, maxq = 0; } g_st;

static std::unordered_map<unsigned, std::vector<unsigned>> constsCache; // ast id -> const decl ids
static const std::vector<unsigned> &constsOf(const expr &e) {
    unsigned id = Z3_get_ast_id(ZC, e);
    auto it = constsCache.find(id); if (it != constsCache.end()) return it->second;
    std::set<unsigned> s;
    if (e.is_app()) {
        if (e.num_args() == 0) {
            if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) s.insert(Z3_get_func_decl_id(ZC, e.decl()));
        } else for (unsigned i = 0; i < e.num_args(); i++) { auto &v = constsOf(e.arg(i)); s.insert(v.begin(), v.end()); }
    }
    keepAlive.push_back(e);
    return constsCache[id] = std::vector<unsigned>(s.begin(), s.end());
}
// closure over atom definitions
static std::unordered_map<unsigned, std::vector<unsigned>> closedCache;
static const std::vector<unsigned> &closedOf(const expr &e) {
    unsigned id = Z3_get_ast_id(ZC, e);
    auto it = closedCache.find(id); if (it != closedCache.end()) return it->second;
    std::set<unsigned> s; std::vector<unsigned> work(constsOf(e));
    while (!work.empty()) {
        unsigned c = work.back(); work.pop_back();
        if (!s.insert(c).second) continue;
        auto a = atomOfDecl.find(c);
        if (a != atomOfDecl.end()) for (auto &d : atoms[a->second].defs) for (unsigned k : constsOf(d)) if (!s.count(k)) work.push_back(k);
        if (a != atomOfDecl.end() && atoms[a->second].arg && !atoms[a->second].fn.empty()) { expr ra = R(atoms[a->second].arg); for (unsigned k : constsOf(ra)) if (!s.count(k)) work.push_back(k); }
    }
    return closedCache[id] = std::vector<unsigned>(s.begin(), s.end());
}
enum Res { UNSAT_, SAT_, UNK_ };
typedef std::map<unsigned, std::string> ModelVals; // decl id -> string value
struct QRes { Res r; ModelVals m; };
static std::map<std::vector<unsigned>, QRes> qcache;

static expr atomBox(int a) {
    Atom &A = atoms[a]; expr e = ZC.bool_val(true);
    if (std::isfinite(A.lo)) e = A.var >= realD(A.lo);
    if (std::isfinite(A.hi)) { expr h = A.var <= realD(A.hi); e = std::isfinite(A.lo) ? (e && h) : h; }
    return e;
}
static QRes rawCheck(const std::vector<expr> &as, bool wantModel, unsigned timeout) {
    auto t0 = std::chrono::steady_clock::now();
    QRes q; q.r = UNK_;
    g_st.queries++;
    try {
        z3::solver s(ZC);
        z3::params p(ZC); p.set("timeout", timeout); s.set(p);
        for (auto &e : as) s.add(e);
        z3::check_result r = s.check();
        if (getenv("VP_TRACEQ")) { double dt0 = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); fprintf(stderr, "Q %zu asserts %.3fs %d\n", as.size(), dt0, (int)r); if (dt0 > atof(getenv("VP_TRACEQ"))) fprintf(stderr, "%s\n", s.to_smt2().c_str()); }
        if (r == z3::sat) {
            q.r = SAT_;
            if (wantModel) {
                z3::model m = s.get_model();
                for (unsigned i = 0; i < m.num_consts(); i++) {
                    z3::func_decl d = m.get_const_decl(i); expr v = m.get_const_interp(d);
                    std::string str;
                    if (v.is_real() || v.is_int()) str = v.is_algebraic() ? v.get_decimal_string(25) : v.is_numeral() ? v.get_decimal_string(40) : v.to_string();
                    else if (v.is_bv() && v.is_numeral()) str = v.get_decimal_string(0);
                    else if (v.is_fpa()) { expr b = ZC.bool_val(true); b = expr(ZC, Z3_mk_fpa_to_ieee_bv(ZC, v)).simplify(); str = "ieee:" + b.get_decimal_string(0); if (!b.is_numeral()) str = "ieee:9221120237041090560"; }
                    else if (v.is_bool()) str = v.is_true() ? "true" : "false";
                    else str = v.to_string();
                    q.m[Z3_get_func_decl_id(ZC, d)] = str;
                }
            }
        } else if (r == z3::unsat) q.r = UNSAT_;
    } catch (z3::exception &ex) { if (getenv("VP_TRACEQ")) fprintf(stderr, "z3 exception %s\n", ex.msg()); q.r = UNK_; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_st.time += dt; g_st.maxq = std::max(g_st.maxq, dt);
    if (q.r == SAT_) g_st.sat++; else if (q.r == UNSAT_) g_st.unsat++; else g_st.unknown++;
    return q;
}
// ---- linear relaxation: every product becomes an unknown with interval bounds; UNSAT of the relaxation is UNSAT of the query
struct ProdVar { expr v, bound; };
static std::map<std::vector<unsigned>, int> prodId; static std::vector<ProdVar> prods;
static bool rangeOfFactor(const expr &x, double &lo, double &hi) {
    lo = -INFINITY; hi = INFINITY; if (x.num_args() == 1 && x.decl().decl_kind() == Z3_OP_TO_REAL) return rangeOfFactor(x.arg(0), lo, hi);
    if (x.is_const()) { auto a = atomOfDecl.find(Z3_get_func_decl_id(ZC, x.decl())); if (a != atomOfDecl.end()) { lo = atoms[a->second].lo; hi = atoms[a->second].hi; return true; } }
    return false; }
static expr relaxTerm(const expr &e, std::unordered_map<unsigned, expr> &memo, std::set<int> &used) {
    unsigned id = Z3_get_ast_id(ZC, e); auto it = memo.find(id); if (it != memo.end()) return it->second;
    expr r = e;
    if (e.is_app() && e.num_args() > 0) {
        Z3_decl_kind k = e.decl().decl_kind();
        if (k == Z3_OP_MUL || k == Z3_OP_POWER) {
            std::vector<expr> fs, nums; bool ok = true;
            if (k == Z3_OP_POWER) { int pw = 0; if (e.arg(1).is_numeral() && Z3_get_numeral_int(ZC, e.arg(1), &pw) && pw >= 2 && pw <= 8) for (int i = 0; i < pw; i++) fs.push_back(e.arg(0)); else ok = false; }
            else for (unsigned i = 0; i < e.num_args(); i++) { expr a = e.arg(i); int pw = 0;
                if (a.is_numeral()) nums.push_back(a);
                else if (a.is_app() && a.decl().decl_kind() == Z3_OP_POWER && a.arg(1).is_numeral() && Z3_get_numeral_int(ZC, a.arg(1), &pw) && pw >= 2 && pw <= 8) for (int q = 0; q < pw; q++) fs.push_back(a.arg(0));
                else fs.push_back(a); }
            if (!ok) throw Unsupported("lin");
            if (fs.size() >= 2) {
                std::vector<unsigned> key; for (auto &f : fs) key.push_back(Z3_get_ast_id(ZC, f)); std::sort(key.begin(), key.end());
                auto pi = prodId.find(key); int pid;
                if (pi == prodId.end()) { pid = prods.size(); prodId[key] = pid; expr v = ZC.real_const(("relaxed-product!" + std::to_string(pid)).c_str()); for (auto &f : fs) keepAlive.push_back(f);
                    double lo = 1, hi = 1; bool sq = true; for (size_t i = 0; i < key.size(); i++) { double l, h; rangeOfFactor(fs[i], l, h); imul(lo, hi, l, h, lo, hi); if (std::isnan(lo)) lo = -INFINITY; if (std::isnan(hi)) hi = INFINITY; }
                    for (size_t i = 0; i < key.size(); i += 2) if (key.size() % 2 || key[i] != key[i + 1]) { sq = false; break; }
                    if (sq && lo < 0) lo = 0; expr b = ZC.bool_val(true); if (std::isfinite(lo)) b = b && v >= realD(lo); if (std::isfinite(hi)) b = b && v <= realD(hi); keepAlive.push_back(v); keepAlive.push_back(b); prods.push_back(ProdVar{v, b}); }
                else pid = pi->second;
                used.insert(pid); r = prods[pid].v; for (auto &n : nums) r = n * r;
                memo.emplace(id, r); keepAlive.push_back(e); keepAlive.push_back(r); return r;
            }
        }
        Z3_decl_kind k2 = e.decl().decl_kind(); if (k2 == Z3_OP_DIV || k2 == Z3_OP_IDIV || k2 == Z3_OP_MOD) if (!e.arg(1).is_numeral()) throw Unsupported("lin");
        std::vector<Z3_ast> as; bool ch = false; std::vector<expr> hold; for (unsigned i = 0; i < e.num_args(); i++) { expr a = relaxTerm(e.arg(i), memo, used); hold.push_back(a); if (!z3::eq(a, e.arg(i))) ch = true; }
        if (ch) { for (auto &h : hold) as.push_back(h); r = expr(ZC, Z3_update_term(ZC, e, as.size(), as.data())); }
    }
    memo.emplace(id, r); keepAlive.push_back(e); keepAlive.push_back(r); return r;
}
static long g_linUnsat = 0;
static bool relaxedUnsat(const std::vector<expr> &as) {
    static std::unordered_map<unsigned, expr> memo; static std::map<unsigned, std::pair<expr, std::set<int>>> cache;
    try {
        std::set<int> used; std::vector<expr> out;
        for (auto &a : as) { unsigned id = Z3_get_ast_id(ZC, a); auto it = cache.find(id);
            if (it == cache.end()) { z3::params p(ZC); p.set("som", true); p.set("flat", true); expr sp = a.simplify(p); keepAlive.push_back(a); keepAlive.push_back(sp); memo.clear(); std::set<int> u; expr r = relaxTerm(sp, memo, u); it = cache.emplace(id, std::make_pair(r, u)).first; }
            out.push_back(it->second.first); used.insert(it->second.second.begin(), it->second.second.end()); }
        if (used.empty()) return false;
        for (int u : used) if (!prods[u].bound.is_true()) out.push_back(prods[u].bound);
        auto t0 = std::chrono::steady_clock::now();
        z3::solver s(ZC); z3::params p(ZC); p.set("timeout", 3000u); s.set(p); for (auto &e : out) s.add(e);
        z3::check_result r = s.check(); double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_st.time += dt;
        if (r == z3::unsat) { g_linUnsat++; g_st.queries++; g_st.unsat++; g_st.maxq = std::max(g_st.maxq, dt); return true; }
    } catch (z3::exception &) {} catch (Unsupported &) {}
    return false;
}
// gather definitions, boxes and monotonicity axioms for a set of constants
static void supportFor(const std::set<unsigned> &cs, std::vector<expr> &out) {
    std::map<std::string, std::vector<int>> byFn;
    for (unsigned c : cs) {
        auto a = atomOfDecl.find(c); if (a == atomOfDecl.end()) continue;
        Atom &A = atoms[a->second];
        expr b = atomBox(A.id); if (!b.is_true()) out.push_back(b);
        for (auto &d : A.defs) out.push_back(d);
        if (!A.fn.empty()) byFn[A.fn].push_back(A.id);
    }
    for (auto &kv : byFn) if (kv.first == "log" || kv.first == "log10" || kv.first == "log2") for (int i : kv.second) for (double x0 : logPoints) { double L0 = kv.first == "log" ? std::log(x0) : kv.first == "log10" ? std::log10(x0) : std::log2(x0), w = (atoms[i].flt ? 1e-6 : 1e-13) * (1 + std::fabs(L0)); expr x = R(atoms[i].arg), v = atoms[i].var;
            out.push_back(z3::implies(x >= realD(x0), v >= realD(L0 - w)) && z3::implies(x <= realD(x0), v <= realD(L0 + w))); }
    for (auto &kv : byFn) if (kv.first == "log" || kv.first == "log10" || kv.first == "log2") // ln x against a power b^y: ln(x / (c b^y)) between 1 - c b^y / x and x / (c b^y) - 1
        for (auto &kw : byFn) if (kw.first.compare(0, 4, "pow@") == 0) for (size_t i = 0; i < kv.second.size() && i < 4; i++) for (size_t j = 0; j < kw.second.size() && j < 4; j++) {
            Atom &L = atoms[kv.second[i]], &W = atoms[kw.second[j]]; if (!(W.base > 1)) continue; expr x = R(L.arg), y = R(W.arg), l = L.var * realD(kv.first == "log" ? 1 : kv.first == "log10" ? 2.302585092994046 : 0.6931471805599453);
            for (int k = -1; k <= 1; k++) { expr z = l - y * realD(std::log(W.base)) - realD(k * 0.6931471805599453), pc = W.var * realD(k < 0 ? 0.5 : k == 0 ? 1 : 2); expr tol = (pc + zabs(x)) * (1 + zabs(z)) * ZC.real_val("1/2000000");
                out.push_back(z * pc <= x - pc + tol && z * x >= x - pc - tol); } }
    for (auto &kv : byFn) for (size_t i = 0; i < kv.second.size() && i < 12; i++) for (size_t j = i + 1; j < kv.second.size() && j < 12; j++) {
        Atom &A = atoms[kv.second[i]], &B = atoms[kv.second[j]]; expr x = R(A.arg), y = R(B.arg);
        if (kv.first == "sin" || kv.first == "cos") { expr d = zabs(x - y) + ZC.real_val("1/1000000000000000"), v = A.var - B.var; out.push_back(v <= d && v >= -d); continue; }
        if (A.base > 1 && B.base == A.base && kv.first.compare(0, 4, "pow@") == 0) for (int k = -1; k <= 1; k++) { // b^y >= 2^k b^x (1 + ln(b^(y-x) / 2^k)), both ways
            expr lb = realD(std::log(A.base)), c = realD(k < 0 ? 0.5 : k == 0 ? 1 : 2), kl = realD(k * 0.6931471805599453), tol = (A.var + B.var) * ZC.real_val(A.flt || B.flt ? "1/1000000" : "1/10000000000000");
            out.push_back(B.var + tol >= c * A.var * (1 + (y - x) * lb - kl) && A.var + tol >= c * B.var * (1 + (x - y) * lb - kl)); }
        // computed libm functions are taken to be monotone (stated assumption)
        out.push_back(z3::implies(x <= y, A.var <= B.var) && z3::implies(y <= x, B.var <= A.var));
    }
}
// check pc (sliced) together with q
static QRes check(const std::vector<expr> &pc, const expr &q, bool wantModel = false, unsigned timeout = 0) {
    if (q.is_true() && !wantModel) return QRes{SAT_, {}};
    if (q.is_false()) return QRes{UNSAT_, {}};
    if (!timeout) timeout = g_qtimeout;
    std::set<unsigned> cs; for (unsigned c : closedOf(q)) cs.insert(c);
    std::vector<bool> used(pc.size(), false);
    std::vector<expr> as; as.push_back(q);
    bool ch = true;
    while (ch) { ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
            auto &v = closedOf(pc[i]); bool hit = false;
            for (unsigned c : v) if (cs.count(c)) { hit = true; break; }
            if (hit) { used[i] = true; as.push_back(pc[i]); for (unsigned c : v) if (cs.insert(c).second) ch = true; }
        } }
    std::vector<unsigned> key; for (auto &e : as) key.push_back(Z3_get_ast_id(ZC, e));
    std::sort(key.begin(), key.end());
    auto it = qcache.find(key);
    if (it != qcache.end() && (!wantModel || it->second.r != SAT_ || !it->second.m.empty())) { g_st.cached++; return it->second; }
    for (auto &e : as) keepAlive.push_back(e);
    supportFor(cs, as);
    if (!g_fp && relaxedUnsat(as)) { QRes u{UNSAT_, {}}; qcache[key] = u; return u; }
    QRes r = rawCheck(as, wantModel, timeout);
    if (r.r != UNK_) qcache[key] = r;
    return r;
}
// model of a whole path condition (+ q), component by component
static bool fullModel(const std::vector<expr> &pc, const expr &q, ModelVals &m, unsigned timeout) {
    std::vector<expr> all(pc); if (!q.is_true()) all.push_back(q);
    std::vector<bool> done(all.size(), false);
    for (size_t i = all.size(); i-- > 0;) if (!done[i]) {
        std::set<unsigned> cs; for (unsigned c : closedOf(all[i])) cs.insert(c);
        std::vector<expr> as{all[i]}; done[i] = true; bool ch = true;
        while (ch) { ch = false;
            for (size_t j = 0; j < all.size(); j++) if (!done[j]) {
                auto &v = closedOf(all[j]); bool hit = false; for (unsigned c : v) if (cs.count(c)) { hit = true; break; }
                if (hit) { done[j] = true; as.push_back(all[j]); for (unsigned c : v) if (cs.insert(c).second) ch = true; }
            } }
        if (as.size() == 1 && as[0].is_true()) continue;
        supportFor(cs, as);
        QRes r = rawCheck(as, true, timeout);
        if (r.r != SAT_) return false;
        for (auto &kv : r.m) m[kv.first] = kv.second;
    }
    return true;
}
