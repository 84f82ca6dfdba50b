// C02: iterating a sub-box visits every cell once, in order, then stops.
#include "vf.h"
#include "lib/range.h"
#include "lib/indexer.h"
#include "lib/exception.h"
using namespace vf;
typedef std::vector<int> V;

struct Ref { // independent enumeration
    V lo, up, slo, sup; int nd() const { return (int)lo.size(); }
    bool nonempty() const { if (slo.size() != lo.size() || lo.empty()) return false; for (int d = 0; d < nd(); ++d) if (slo[d] < lo[d] || sup[d] > up[d] || sup[d] <= slo[d]) return false; return true; }
    int64_t lin(const V &x) const { int64_t p = 0; for (int d = 0; d < nd(); ++d) p = p * (up[d] - lo[d]) + (x[d] - lo[d]); return p; }
    int64_t count() const { int64_t n = 1; for (int d = 0; d < nd(); ++d) n *= sup[d] - slo[d]; return n; }
    V cell(int64_t k) const { V x(nd()); for (int d = nd() - 1; d >= 0; --d) { int L = sup[d] - slo[d]; x[d] = slo[d] + (int)(k % L); k /= L; } return x; }
    std::string str() const { std::string s = "sub"; for (size_t d = 0; d < slo.size(); ++d) s += fmt("[%d,%d)", slo[d], sup[d]); s += " in "; for (size_t d = 0; d < lo.size(); ++d) s += fmt("[%d,%d)", lo[d], up[d]); return s; }
};

static void check_at(const qk::indexer &it, const Ref &r, const V &x, const char *what, Ctx &ctx) {
    ctx.count("positions checked");
    for (int d = 0; d < r.nd(); ++d) {
        VF_CHECK(it.index(d) == x[d], "index", "%s: %s: index(%d)=%d expected %d", what, r.str().c_str(), d, it.index(d), x[d]);
        VF_CHECK(it[d] == x[d], "index", "%s: %s: [%d]=%d expected %d", what, r.str().c_str(), d, it[d], x[d]);
    }
    VF_CHECK(it.linear_index() == r.lin(x), "linear-index", "%s: %s: linear_index %d expected %lld", what, r.str().c_str(), it.linear_index(), (long long)r.lin(x));
}

void vf_case(Rng &g, Ctx &ctx) {
    Ref r; int nd = g.chance(0.1) ? g.i(5, 6) : g.i(1, 4);
    int maxlen = nd == 1 ? 60 : nd == 2 ? 12 : nd == 3 ? 6 : nd == 4 ? 4 : 3;
    bool strictly_inside = g.chance(0.8), large = g.chance(0.004); int axis = g.i(0, nd - 1); // large: one long axis
    for (int d = 0; d < nd; ++d) {
        int lo = g.chance(0.3) ? 0 : g.i(-20, 20), L = g.i(g.chance(0.9) ? 1 : 0, maxlen); if (large) L = d == axis ? (int)g.logd(100, nd == 1 && g.chance(0.1) ? 80000 : 3000) : g.i(1, 3); if (g.chance(0.02)) lo = g.i(-2000000000, 2000000000);
        r.lo.push_back(lo); r.up.push_back(lo + L);
        if (strictly_inside) { int a = g.i(0, L), b = g.i(0, L); if (a > b) std::swap(a, b); if (g.chance(0.6) && a == b && L > 0) { a = g.i(0, L - 1); b = a + 1; } if (g.chance(0.25)) { a = 0; b = L; } r.slo.push_back(lo + a); r.sup.push_back(lo + b); }
        else { int a = g.i(-1, L + 1), b = a + g.i(0, L + 1); r.slo.push_back(lo + a); r.sup.push_back(lo + b); }
    }
    if (g.chance(0.03)) { if (g.chance(0.5) && r.slo.size() > 1) { r.slo.pop_back(); r.sup.pop_back(); } else { r.slo.push_back(0); r.sup.push_back(1); } }
    qk::range sup(nd, r.lo.data(), r.up.data()), sub((int)r.slo.size(), r.slo.data(), r.sup.data());
    { // an iterator over nothing points nowhere, whatever its memory held before
        alignas(qk::indexer) unsigned char mem[sizeof(qk::indexer)]; memset(mem, g.i(0, 255), sizeof mem); asm volatile("" : : "r"(mem) : "memory");
        qk::indexer *e = new (mem) qk::indexer(); VF_CHECK(!e->exists(), "empty-iterator", "an iterator over nothing claims to be at a cell"); e->~indexer(); ctx.count("iterators over nothing"); }
    if (g.chance(0.05)) { // boxes without dimensions hold no cell either
        qk::range z; qk::indexer a(z, z), b(sub, z), c(z, sup), d; d = a; VF_CHECK(!a.exists() && !b.exists() && !c.exists() && !d.exists() && !qk::indexer(a).exists(), "no-cells", "an iterator over or inside a box without dimensions claims to be at a cell"); ctx.count("boxes without dimensions"); }
    qk::indexer it(sub, sup);
    std::string cls = r.nonempty() ? "iterated boxes" : "boxes without cells";
    ctx.count(cls); if (large) ctx.count("long boxes");
    ctx.seen(r.str());
    ctx.sample(r.str());
    if (!r.nonempty()) {
        VF_CHECK(!it.exists(), "no-cells", "%s has no cell inside the enclosing box but the iterator claims to be at one", r.str().c_str());
        qk::indexer c(it); VF_CHECK(!c.exists(), "no-cells", "copy of a cell-less iterator exists");
        qk::indexer e; e = it; VF_CHECK(!e.exists(), "no-cells", "assigned cell-less iterator exists");
        return;
    }
    const int64_t n = r.count();
    // the iterator also reports the enclosing box
    for (int d = 0; d < nd; ++d) VF_CHECK(it.lower(d) == r.lo[d] && it.upper(d) == r.up[d], "enclosing", "enclosing box not reported");
    const int64_t last = r.lin(r.cell(n - 1));
    std::vector<std::pair<qk::indexer, int64_t>> kept; // copies taken on the way, resumed later
    for (int64_t k = 0;; ++k) {
        VF_CHECK(it.exists() == (k < n), "termination", "%s: after %lld steps exists()=%d, the box has %lld cells", r.str().c_str(), (long long)k, (int)it.exists(), (long long)n);
        if (k == n) break;
        check_at(it, r, r.cell(k), "iterating", ctx);
        VF_CHECK(it.final_linear_index() == last + 1, "final-index", "%s: final_linear_index %d expected %lld", r.str().c_str(), it.final_linear_index(), (long long)last + 1);
        if (g.chance(3.0 / (n + 1)) && kept.size() < 3) {
            if (g.chance(0.5)) kept.push_back({qk::indexer(it), k});
            else { int one = 1; qk::indexer o = g.chance(0.5) ? qk::indexer() : qk::indexer(qk::range(1, &one), qk::range(1, &one)); o = it; kept.push_back({o, k}); }
        }
        if (g.chance(0.1)) { // single steps and back
            int d = g.i(0, nd - 1); V x = r.cell(k);
            qk::indexer s(it);
            int m = g.i(1, 3), dir = g.chance(0.5) ? 1 : -1;
            for (int q = 0; q < m; ++q) {
                if (dir > 0) s.increment(d); else s.decrement(d);
                x[d] += dir;
                // positions outside the enclosing box are formed, not dereferenced: formula still applies
                int64_t lin = 0; int64_t st = 1; for (int e = nd - 1; e >= 0; --e) { lin += (int64_t)(x[e] - r.lo[e]) * st; st *= r.up[e] - r.lo[e]; }
                VF_CHECK(s.linear_index() == lin, "step-linear", "%s: stepping dim %d by %d: linear_index %d expected %lld", r.str().c_str(), d, dir, s.linear_index(), (long long)lin);
                for (int e = 0; e < nd; ++e) VF_CHECK(s.index(e) == x[e], "step-index", "%s: stepping dim %d: index(%d)=%d expected %d", r.str().c_str(), d, e, s.index(e), x[e]);
                ctx.count("single steps");
            }
            for (int q = 0; q < m; ++q) { if (dir > 0) s.decrement(d); else s.increment(d); }
            check_at(s, r, r.cell(k), "stepped and back", ctx);
        }
        if (g.chance(0.5)) ++it; else it.next();
    }
    for (auto &kv : kept) { // the copies were not disturbed and run to the same end
        ctx.count("copies resumed");
        qk::indexer &c = kv.first;
        for (int64_t k = kv.second;; ++k) {
            VF_CHECK(c.exists() == (k < n), "copy-termination", "%s: copy taken at %lld: exists()=%d after reaching step %lld of %lld", r.str().c_str(), (long long)kv.second, (int)c.exists(), (long long)k, (long long)n);
            if (k == n) break;
            check_at(c, r, r.cell(k), "resumed copy", ctx);
            qk::indexer &ret = ++c; VF_CHECK(&ret == &c, "preinc", "pre-increment does not return the iterator");
        }
    }
}
