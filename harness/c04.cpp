// C04: subdividing a range gives an exact partition.
#include "vf.h"
#include "lib/range_set.h"
using namespace vf;

void vf_case(Rng &g, Ctx &ctx) {
    int nd = g.chance(0.04) ? g.i(5, 6) : g.i(1, 4); bool many = g.chance(0.01); if (many) { nd = 1; ctx.count("very many pieces"); } // also fewer cells than pieces
    std::vector<int> lo(nd), up(nd), nsub(nd);
    bool huge = g.chance(0.15);
    if (huge) nd = 1, lo.resize(1), up.resize(1), nsub.resize(1);
    for (int d = 0; d < nd; ++d) {
        int L = huge ? (g.chance(0.5) ? g.i(1 << 24, 2000000000) : (1 << g.i(20, 30)) + g.i(-3, 3)) : g.i(g.chance(0.9) ? 1 : 0, many ? 4000 : nd == 1 ? 60 : nd == 2 ? (g.chance(0.05) ? 60 : 20) : nd < 5 ? 9 : 4);
        lo[d] = huge ? g.i(-1000, 1000) : g.i(-15, 15); if (g.chance(0.3)) lo[d] = 0;
        if (huge && lo[d] > 0 && L > 2000000000 - 1000) L -= 2000;
        up[d] = lo[d] + L;
        nsub[d] = g.chance(0.2) ? 1 : g.i(1, many ? 3000 : nd == 1 ? 70 : nd == 2 ? (g.chance(0.05) ? 60 : 12) : nd < 5 ? 5 : 3);
    }
    std::string desc; for (int d = 0; d < nd; ++d) desc += fmt("[%d,%d)/%d ", lo[d], up[d], nsub[d]);
    ctx.sample(desc); ctx.seen(desc);
    qk::range sup(nd, lo.data(), up.data());
    qk::range_set s;
    if (g.chance(0.6)) { // the set was used for something else before: other pieces, the same number of pieces arranged differently, another range
        std::vector<int> n2(nsub), l2(lo), u2(up);
        switch (g.i(0, 3)) {
        case 0: for (int &k : n2) k = g.i(1, 5); break;
        case 1: g.shuffle(n2); break;
        case 2: { int64_t n = 1; for (int k : n2) n *= k; for (int &k : n2) { k = 1; } n2[g.i(0, nd - 1)] = (int)n; break; }
        case 3: { int m = g.i(1, 4); n2.assign(m, 1); l2.assign(m, 0); u2.assign(m, 0); for (int d = 0; d < m; ++d) { n2[d] = g.i(1, 4); l2[d] = g.i(-5, 5); u2[d] = l2[d] + g.i(0, 9); } break; }
        }
        if (g.chance(0.3)) for (size_t d = 0; d < l2.size(); ++d) if (u2[d] - l2[d] < 100) { int k = g.i(-3, 3); l2[d] += k; u2[d] += k; }
        s.setup(qk::range((int)l2.size(), l2.data(), u2.data()), n2.data()); ctx.count("set up twice"); }
    switch (g.i(0, 2)) {
    case 0: s = qk::range_set(sup, nsub.data()); break;
    case 1: s.setup(sup, nsub.data()); break;
    case 2: { qk::range_set t(sup, nsub.data()); qk::range_set c(t); s = c; int one[6] = {1, 1, 1, 1, 1, 1}; t.setup(sup, one); ctx.count("copied sets"); break; } }
    int64_t np = 1; for (int d = 0; d < nd; ++d) np *= nsub[d];
    VF_CHECK(s.num_dims() == nd && s.volume() == np, "piece-count", "%s: %d pieces in %d dims, expected %lld", desc.c_str(), s.volume(), s.num_dims(), (long long)np);
    for (int d = 0; d < nd; ++d) VF_CHECK(s.lower(d) == 0 && s.upper(d) == nsub[d], "piece-layout", "%s: piece coordinates along %d are [%d,%d)", desc.c_str(), d, s.lower(d), s.upper(d));
    // per dimension the pieces of equal coordinate must agree, be ordered, abut and cover
    std::vector<std::vector<std::pair<int64_t, int64_t>>> cut(nd);
    for (int d = 0; d < nd; ++d) cut[d].assign(nsub[d], {1, 0});
    std::vector<std::vector<char>> have(nd); for (int d = 0; d < nd; ++d) have[d].assign(nsub[d], 0);
    int64_t visited = 0, cells = 0;
    bool small = true; int64_t vol = 1; for (int d = 0; d < nd; ++d) vol *= up[d] - lo[d]; small = vol <= 5000;
    std::vector<int> owner(small ? vol : 0, 0);
    for (qk::indexer it = s.indexer(); it.exists(); it.next()) {
        const qk::range &p = s[it];
        VF_CHECK(++visited <= np, "piece-count", "%s: more pieces than requested", desc.c_str());
        VF_CHECK(p.num_dims() == nd, "piece-dims", "%s: piece has %d dims", desc.c_str(), p.num_dims());
        int64_t pv = 1;
        for (int d = 0; d < nd; ++d) {
            VF_CHECK(p.lower(d) <= p.upper(d), "inverted", "%s: piece %d along %d is [%d,%d)", desc.c_str(), it[d], d, p.lower(d), p.upper(d));
            VF_CHECK(p.lower(d) >= lo[d] && p.upper(d) <= up[d], "outside", "%s: piece %d along %d is [%d,%d)", desc.c_str(), it[d], d, p.lower(d), p.upper(d));
            pv *= (int64_t)p.upper(d) - p.lower(d);
        }
        cells += pv; ctx.count(pv ? "non-empty pieces" : "empty pieces");
        if (small && pv) { // mark cells
            std::vector<int> x(nd); for (int d = 0; d < nd; ++d) x[d] = p.lower(d);
            for (;;) {
                int64_t q = 0; for (int d = 0; d < nd; ++d) q = q * (up[d] - lo[d]) + (x[d] - lo[d]);
                VF_CHECK(owner[q]++ == 0, "overlap", "%s: a cell belongs to two pieces", desc.c_str());
                int d = nd - 1; while (d >= 0 && ++x[d] >= p.upper(d)) { x[d] = p.lower(d); --d; }
                if (d < 0) break;
            }
        }
        if (pv) for (int d = 0; d < nd; ++d) { // order: larger piece coordinate at larger cells
            if (!have[d][it[d]]) { cut[d][it[d]] = {p.lower(d), p.upper(d)}; have[d][it[d]] = 1; }
            else VF_CHECK(cut[d][it[d]].first == p.lower(d) && cut[d][it[d]].second == p.upper(d), "not-a-grid", "%s: pieces with the same coordinate along %d differ", desc.c_str(), d);
        }
    }
    VF_CHECK(visited == np, "piece-count", "%s: %lld pieces listed, expected %lld", desc.c_str(), (long long)visited, (long long)np);
    VF_CHECK(cells == vol, "cover", "%s: pieces hold %lld cells, the range %lld", desc.c_str(), (long long)cells, (long long)vol);
    if (small) for (char c : owner) VF_CHECK(c == 1, "cover", "%s: a cell is in %d pieces", desc.c_str(), c);
    for (int d = 0; d < nd && vol; ++d) {
        int64_t at = lo[d];
        for (int k = 0; k < nsub[d]; ++k) if (have[d][k]) { VF_CHECK(cut[d][k].first == at, "order", "%s: along %d piece %d starts at %lld, expected %lld", desc.c_str(), d, k, (long long)cut[d][k].first, (long long)at); at = cut[d][k].second; }
        VF_CHECK(at == up[d], "order", "%s: along %d pieces end at %lld", desc.c_str(), d, (long long)at);
    }
    ctx.count(huge ? "long ranges" : "short ranges"); ctx.count("cells assigned to pieces", small ? cells : 0);
}
