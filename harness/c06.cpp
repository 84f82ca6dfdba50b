// C06: ghost layers surround the interior exactly.
#include "qkw.h"
using namespace vf;
typedef std::vector<int> V;

static void same(const qk::range &r, const V &lo, const V &up, const char *what, const std::string &d) {
    VF_CHECK(r.num_dims() == (int)lo.size(), "dims", "%s of %s has %d dims, expected %zu", what, d.c_str(), r.num_dims(), lo.size());
    for (size_t k = 0; k < lo.size(); ++k) VF_CHECK(r.lower(k) == lo[k] && r.upper(k) == up[k], what, "%s of %s along %zu is [%d,%d), expected [%d,%d)", what, d.c_str(), k, r.lower(k), r.upper(k), lo[k], up[k]);
    int64_t st = 1; for (int k = (int)lo.size() - 1; k >= 0; --k) { VF_CHECK(r.stride(k) == st, "stride", "%s of %s stride", what, d.c_str()); st *= up[k] - lo[k]; }
}
struct Geo { V mlo, mup, dlo, dup; int g; std::string str() const { std::string s = "mesh "; for (size_t d = 0; d < mlo.size(); ++d) s += fmt("[%d,%d)", mlo[d], mup[d]); s += " data "; for (size_t d = 0; d < dlo.size(); ++d) s += fmt("[%d,%d)", dlo[d], dup[d]); return s + fmt(" ghosts %d", g); } };

static void check(const qk::data::extended_datachunk &c, const Geo &G, Ctx &ctx) {
    std::string d = G.str(); ctx.count("chunks checked");
    V lo, up, il, iu;
    for (size_t k = 0; k < G.mlo.size(); ++k) { lo.push_back(G.mlo[k] - G.g); up.push_back(G.mup[k] + G.g); il.push_back(G.mlo[k]); iu.push_back(G.mup[k]); }
    for (size_t k = 0; k < G.dlo.size(); ++k) { lo.push_back(G.dlo[k]); up.push_back(G.dup[k]); il.push_back(G.dlo[k]); iu.push_back(G.dup[k]); }
    same(c, lo, up, "storage", d); same(c.range(), lo, up, "storage", d); same(c.internal_range(), il, iu, "interior", d);
    VF_CHECK(c.num_ghost_layers() == G.g, "ghost-depth", "%s reports %d ghost layers", d.c_str(), c.num_ghost_layers());
    int64_t vol = 1; for (size_t k = 0; k < lo.size(); ++k) vol *= up[k] - lo[k];
    VF_CHECK(c.volume() == vol, "volume", "%s: volume %d", d.c_str(), c.volume());
    if (vol > 0) { VF_CHECK(c.data() + 0 != nullptr, "storage", "no storage"); // touch both ends (ASan watches)
        volatile double a = c.data()[0], b = c.data()[vol - 1]; (void)a; (void)b; }
    for (size_t k = 0; k < G.mlo.size(); ++k) {
        V l = il, u = iu;
        l[k] = G.mlo[k] - G.g; u[k] = G.mlo[k]; same(c.lower_external_range(k), l, u, "lower outer slab", d);
        l[k] = G.mlo[k]; u[k] = G.mlo[k] + G.g; same(c.lower_internal_range(k), l, u, "lower inner slab", d);
        l[k] = G.mup[k] - G.g; u[k] = G.mup[k]; same(c.upper_internal_range(k), l, u, "upper inner slab", d);
        l[k] = G.mup[k]; u[k] = G.mup[k] + G.g; same(c.upper_external_range(k), l, u, "upper outer slab", d);
        ctx.count("slabs checked", 4);
    }
}
static Geo random_geo(Rng &g) {
    Geo G; int nd = g.i(1, 4), dd = g.i(1, 3); G.g = g.chance(0.5) ? 2 : g.chance(0.1) && nd <= 2 ? g.i(5, 12) : g.i(0, 4);
    int ml = nd == 1 ? (g.chance(0.2) ? 3000 : 20) : nd == 2 ? (g.chance(0.1) ? 80 : 12) : nd == 3 ? (g.chance(0.05) ? 20 : 6) : 4; int mn = g.chance(0.3) ? 1 : std::max(1, G.g); // also meshes shorter than the ghost layers are deep
    for (int d = 0; d < nd; ++d) { int lo = g.chance(0.5) ? 0 : g.i(-9, 9); G.mlo.push_back(lo); G.mup.push_back(lo + g.i(mn, std::max(ml, mn))); }
    for (int d = 0; d < dd; ++d) { int lo = g.chance(0.8) ? 0 : g.i(-2, 2); G.dlo.push_back(lo); G.dup.push_back(lo + g.i(1, 4)); }
    return G; }
static qk::range rg(const V &lo, const V &up) { return qk::range((int)lo.size(), lo.data(), up.data()); }
static void apply(qk::data::extended_datachunk &c, const Geo &G) { if (G.g == 2) c.resize(rg(G.mlo, G.mup), rg(G.dlo, G.dup)); else c.resize(rg(G.mlo, G.mup), rg(G.dlo, G.dup), G.g); }
static std::vector<double> contents(const qk::data::extended_datachunk &c) { return std::vector<double>(c.data(), c.data() + c.volume()); }
static bool bits(const std::vector<double> &a, const std::vector<double> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }

void vf_case(Rng &g, Ctx &ctx) {
    qk::data::extended_datachunk c; Geo G = random_geo(g); apply(c, G); check(c, G, ctx);
    std::string hist = G.str();
    for (int s = g.i(1, 5); s > 0; --s) {
        switch (g.i(0, 3)) {
        case 0: G = random_geo(g); apply(c, G); check(c, G, ctx); ctx.count("resizes"); break;
        case 1: { for (int k = 0; k < c.volume(); ++k) c.data()[k] = qkw::any_value(g); std::vector<double> w = contents(c);
            qk::data::extended_datachunk d(c); check(d, G, ctx); VF_CHECK(bits(contents(d), w), "copy-contents", "copy of a chunk (%s) differs from it", G.str().c_str()); d.fill(1.25); VF_CHECK(bits(contents(c), w), "copy-alias", "copy shares storage"); ctx.count("copies"); break; }
        case 2: { qk::data::extended_datachunk d; Geo H = random_geo(g); if (g.chance(0.7)) apply(d, H); for (int k = 0; k < c.volume(); ++k) c.data()[k] = qkw::any_value(g); std::vector<double> w = contents(c);
            d = c; check(d, G, ctx); VF_CHECK(bits(contents(d), w), "assign-contents", "assigned chunk (%s) differs from its source", G.str().c_str()); d.fill(1.25); VF_CHECK(bits(contents(c), w), "assign-alias", "assigned chunk shares storage"); check(c, G, ctx); ctx.count("assignments"); break; }
        case 3: { // a variable over a mesh
            int nd = g.i(1, 3), np = g.i(1, 4), nc = g.i(1, 7), gl = g.chance(0.5) ? 2 : g.i(0, 3); Geo W; W.g = gl;
            for (int d = 0; d < nd; ++d) { int lo = g.i(-4, 4); W.mlo.push_back(lo); W.mup.push_back(lo + g.i(g.chance(0.7) ? std::max(1, gl) : 1, 8)); }
            W.dlo = {0, 0}; W.dup = {np, nc};
            qk::basis::basis b("some_basis", np);
            qk::variable::variable v("v", qkw::comps(nc), b, rg(W.mlo, W.mup), gl);
            int chunks = 0; for (qk::indexer i = v.indexer(); i.exists(); i.next()) { check(v[i], W, ctx); for (int k = 0; k < v[i].volume(); ++k) VF_CHECK(same_bits(v[i].data()[k], 0.), "zero", "new variable is not zero-filled"); ++chunks; }
            VF_CHECK(chunks == 1, "chunks", "%d chunks", chunks); VF_CHECK(v.name() == "v" && v.component_names() == qkw::comps(nc) && v.basis() == b, "identity", "variable does not report its name, components or basis");
            qk::variable::variable v2(v); for (qk::indexer i = v2.indexer(); i.exists(); i.next()) check(v2[i], W, ctx);
            ctx.count("variables"); hist += " | " + W.str(); break; }
        }
        hist += " | " + G.str();
    }
    ctx.sample(hist.substr(0, 300)); ctx.seen(hist);
}
