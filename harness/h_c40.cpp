#include "util.h"
#include <stdint.h>
#include <deque>
#include "thread/BlockAllocator.h"
/* params: mode, element size, concrete allocations before, symbolic operations, how the concrete history frees (0 none, 1 every other, 2 all, 3 all but the first of each block, in reverse) */
struct Live { unsigned char *p; int key; };
static int SZ, keys; static V *vals;
static void fill(Live &l) { l.key = keys % (int)vals->size(); keys++; double *d = (double *)l.p; for (int i = 0; i + 8 <= SZ; i += 8) *d++ = (*vals)[(l.key + i) % (int)vals->size()]; for (int i = SZ & ~7; i < SZ; i++) l.p[i] = (unsigned char)(l.key + i); }
static void check(const Live &l) { double *d = (double *)l.p; for (int i = 0; i + 8 <= SZ; i += 8) vp_same(*d++, (*vals)[(l.key + i) % (int)vals->size()], "contents of a live object undisturbed"); for (int i = SZ & ~7; i < SZ; i++) vp_assert(l.p[i] == (unsigned char)(l.key + i), "trailing bytes of a live object undisturbed"); }
static bool overlaps(const Live &a, const Live &b) { uintptr_t x = (uintptr_t)a.p, y = (uintptr_t)b.p; return x < y + (uintptr_t)SZ && y < x + (uintptr_t)SZ; }
static Live get(BlockAllocator &a, std::vector<Live> &live, bool cmp) { Live l; l.p = (unsigned char *)a.allocate(); vp_assert(l.p != 0, "an object is handed out"); vp_assert((uintptr_t)l.p % (SZ >= 8 ? 8 : 1) == 0, "aligned"); if (cmp) for (size_t i = 0; i < live.size(); i++) vp_assert(!overlaps(l, live[i]), "no overlap with a live object"); fill(l); live.push_back(l); return l; }
static void put(BlockAllocator &a, std::vector<Live> &live, size_t i) { check(live[i]); a.deallocate(live[i].p); live.erase(live.begin() + i); }
void vp_main() {
    int mode = vp_param(0); SZ = vp_param(1); int pre = vp_param(2), nops = vp_param(3), fr = vp_param(4); V v(37); vals = &v; for (int i = 0; i < 37; i++) v[i] = i % 3 ? vp_double("v", -1e6, 1e6) : det(i); keys = 0;
    if (mode == 0) { BlockAllocator a(SZ); std::vector<Live> live; a.deallocate(0);
        for (int i = 0; i < pre; i++) get(a, live, i < 4);
        if (fr == 1) for (size_t i = 0; i < live.size(); i++) put(a, live, i); else if (fr == 2) while (!live.empty()) put(a, live, live.size() / 2); else if (fr == 3) for (int i = (int)live.size() - 1; i >= 0; i--) if (i % 512) put(a, live, i);
        for (int k = 0; k < nops; k++) { int n = live.size(), op = vp_int("op", -1, n - 1); if (n > 8) vp_assume(op < 3 || op == n - 1 || op == n / 2); if (op < 0) { get(a, live, true); continue; } for (int i = 0; i < n; i++) if (op == i) { put(a, live, i); break; } }
        for (size_t i = 0; i < live.size(); i++) check(live[i]);
        for (int k = 0; k < 3; k++) get(a, live, true); for (size_t i = 0; i < live.size(); i++) check(live[i]); while (!live.empty()) put(a, live, live.size() - 1); }
    else if (mode == 1) { /* reuse: one object pinned per block, then fewer live objects than before never need new storage */ BlockAllocator a(SZ); std::vector<Live> live; std::vector<unsigned char *> seen; for (int i = 0; i < pre; i++) seen.push_back(get(a, live, false).p); std::vector<Live> pin, rest; for (size_t i = 0; i < live.size(); i++) (i % 512 == 0 ? pin : rest).push_back(live[i]);
        for (int k = 0; k < nops && !rest.empty(); k++) { int c = vp_choice("victim", 0, 2); size_t i = c == 0 ? 0 : c == 1 ? rest.size() - 1 : rest.size() / 2; put(a, rest, i); }
        for (int k = 0; k < nops; k++) { Live l = get(a, rest, true); bool known = false; for (size_t i = 0; i < seen.size(); i++) known = known || seen[i] == l.p; vp_assert(known, "freed storage is reused"); }
        for (size_t i = 0; i < rest.size(); i++) check(rest[i]); for (size_t i = 0; i < pin.size(); i++) check(pin[i]); }
    else { /* very many live objects */ BlockAllocator a(SZ); std::vector<unsigned char *> p(pre); for (int i = 0; i < pre; i++) { p[i] = (unsigned char *)a.allocate(); *(int *)p[i] = i; if (i % 4099 == 0) *(double *)p[i] = v[i % 37]; }
        for (int i = 0; i < pre; i++) { if (i % 4099 == 0) vp_same(*(double *)p[i], v[i % 37], "contents survive growth"); else vp_assert(*(int *)p[i] == i, "contents survive growth"); }
        int c = vp_choice("victim", 0, 2); int i = c == 0 ? 0 : c == 1 ? pre / 2 : pre - 1; a.deallocate(p[i]); unsigned char *q = (unsigned char *)a.allocate(); *(double *)q = 1; for (int k = 0; k < pre; k += 511) if (k != i && k % 4099) vp_assert(*(int *)p[k] == k, "contents survive reuse"); }
    vp_reach("end");
}
