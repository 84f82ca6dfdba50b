// C09: grid cells tile the domain.
#include "qkw.h"
#include "grid/structured.h"
using namespace vf; using namespace qkw;
struct Stretched : qk::grid::structured { using qk::grid::structured::structured; void write_vtk(std::ofstream &, const qk::basis::basis &) const {} void xc(const qk::indexer &, double *) const {} };

static void uniform(Rng &g, Ctx &ctx) {
    int nd = g.i(1, 4); std::vector<int> L(nd); std::vector<double> s(nd), W(nd); std::string d;
    for (int k = 0; k < nd; ++k) { L[k] = g.chance(0.1) ? 1 : g.i(1, nd == 1 ? (g.chance(0.1) ? 5000 : 400) : g.chance(0.02) ? 60 : 12); s[k] = g.chance(0.3) ? 0. : g.sgn() * g.logd(1e-9, 1e9); W[k] = g.chance(0.3) ? (double)g.i(1, 50) : g.logd(1e-9, 1e9); d += fmt("%d cells [%g,+%g] ", L[k], s[k], W[k]); }
    std::vector<double> s0 = s, W0 = W; std::unique_ptr<qk::range> rr(new qk::range(nd, L.data()));
    std::unique_ptr<qk::grid::rectilinear> own(new qk::grid::rectilinear(*rr, s0.data(), W0.data()));
    if (g.chance(0.5)) { for (int k = 0; k < nd; ++k) { s0[k] = -5e55; W0[k] = 3e33; rr->shift(k, 7); } rr.reset(); ctx.count("arguments changed after construction"); } // the grid keeps what it was given
    int via = g.i(0, 5);
    if (via == 0) { own.reset(new qk::grid::rectilinear(qk::grid::rectilinear(*own))); ctx.count("copied grids"); }
    else if (via == 1) { std::unique_ptr<qk::grid::rectilinear> t; if (g.chance(0.3)) t.reset(new qk::grid::rectilinear); else { int nd2 = g.i(1, 4), L2[4]; double s2[4], W2[4]; for (int k = 0; k < 4; ++k) { L2[k] = g.i(1, 30); s2[k] = g.d(-9, 9); W2[k] = g.d(0.1, 9); } t.reset(new qk::grid::rectilinear(qk::range(nd2, L2), s2, W2)); } *t = *own; own = std::move(t); ctx.count("assigned grids"); }
    else if (via == 2) { qk::grid::rectilinear &self = *own; *own = self; ctx.count("assigned grids"); }
    qk::grid::rectilinear &gr = *own; const qk::grid::grid &b = gr;
    VF_CHECK(b.range() == qk::range(nd, L.data()) && gr.num_dims() == nd, "cells", "grid does not report its cells");
    for (int k = 0; k < nd; ++k) {
        double dx = W[k] / L[k], tol = 1e-13 * (std::fabs(s[k]) + 3 * W[k] + 4 * dx);
        VF_CHECK(b.start(k) == s[k] && b.width(k) == W[k], "domain", "%s: start/width along %d", d.c_str(), k);
        VF_CHECK(std::fabs(gr.dx(k) * L[k] - W[k]) <= 1e-13 * W[k], "dx", "%s: dx(%d)=%.17g", d.c_str(), k, gr.dx(k));
        for (int i = 0; i < L[k]; ++i) { double c = gr.centroid(k, i); VF_CHECK(std::fabs(c - (s[k] + (i + 0.5) * dx)) <= tol, "centroid", "%s: centre of cell %d along %d is %.17g, expected %.17g", d.c_str(), i, k, c, s[k] + (i + 0.5) * dx); ctx.count("cell centres checked"); }
    }
    // every cell including two ghost layers, with extra trailing data dimensions, through the iterator query
    if (nd <= 3) {
        qk::data::extended_datachunk c; int gh = g.i(0, 3); c.resize(b.range(), [&] { qk::range r; r.extrude(0, g.i(1, 2)); r.extrude(0, g.i(1, 3)); return r; }(), gh);
        long n = 0;
        for (qk::indexer it = c.indexer(); it.exists(); it.next()) {
            if (c.volume() > 4000 && g.chance(0.7)) continue;
            double x[3] = {-7e77, -7e77, -7e77}; b.xc(it, x); ++n;
            for (int k = 0; k < 3; ++k) if (k >= nd) VF_CHECK(x[k] == -7e77, "xc-overrun", "%s: coordinate %d written on a %d-dimensional grid", d.c_str(), k, nd);
                else { double dx = W[k] / L[k], e = s[k] + (it[k] + 0.5) * dx; VF_CHECK(std::fabs(x[k] - e) <= 1e-13 * (std::fabs(s[k]) + 3 * W[k] + 8 * dx), "xc", "%s: centre of cell %d along %d is %.17g, expected %.17g", d.c_str(), it[k], k, x[k], e); }
        }
        ctx.count("cell centres checked", n);
    }
    ctx.count("uniform grids"); ctx.seen(d); ctx.sample(d);
}
static void stretched(Rng &g, Ctx &ctx) {
    int nd = g.i(1, 3); std::vector<int> lo(nd), up(nd); std::vector<double> s(nd), W(nd); std::string d;
    for (int k = 0; k < nd; ++k) { lo[k] = g.chance(0.6) ? 0 : g.i(-8, 8); up[k] = lo[k] + (g.chance(0.6) ? 2 * g.i(1, g.chance(0.1) ? 600 : 30) : g.i(1, g.chance(0.1) ? 1200 : 60)); W[k] = g.chance(0.3) ? (double)g.i(1, 20) : g.chance(0.2) ? g.logd(1e-9, 1e9) : g.logd(1e-3, 1e3); s[k] = g.chance(0.3) ? 0. : g.chance(0.3) ? g.d(-3, 3) * W[k] : g.d(-5, 5); d += fmt("[%d,%d) on [%g,+%g] ", lo[k], up[k], s[k], W[k]); }
    std::unique_ptr<Stretched> cur(new Stretched(qk::range(nd, lo.data(), up.data()), s.data(), W.data())), other;
    std::vector<std::vector<double>> ref(nd); // cell widths expected
    for (int k = 0; k < nd; ++k) ref[k].assign(up[k] - lo[k], W[k] / (up[k] - lo[k]));
    auto verify_one = [&](const Stretched &gr, const std::vector<std::vector<double>> &ref, const std::string &after) {
        for (int k = 0; k < nd; ++k) {
            long double face = s[k], sum = 0; int N = up[k] - lo[k]; double tol = 1e-9 * W[k] + 1e-13 * std::fabs(s[k]);
            for (int i = 0; i < N; ++i) {
                double dx = gr.dx(k, lo[k] + i), c = gr.centroid(k, lo[k] + i);
                VF_CHECK(dx > 0, "positive", "%s after %s: cell %d along %d has width %g", d.c_str(), after.c_str(), i, k, dx);
                VF_CHECK(std::fabs(dx - ref[k][i]) <= tol, "width", "%s after %s: cell #%d along %d has width %.15g, expected %.15g", d.c_str(), after.c_str(), i, k, dx, ref[k][i]);
                VF_CHECK(std::fabs((double)(face + 0.5L * dx) - c) <= 1e-12 * (N + 1) * (W[k] + std::fabs(s[k])), "midpoint", "%s after %s: centre of cell #%d along %d is %.15g, expected %.15g", d.c_str(), after.c_str(), i, k, c, (double)(face + 0.5L * dx));
                face += dx; sum += dx; ctx.count("stretched cells checked");
            }
            VF_CHECK(std::fabs((double)sum - W[k]) <= tol, "sum", "%s after %s: widths along %d sum to %.15g", d.c_str(), after.c_str(), k, (double)sum);
            VF_CHECK(gr.start(k) == s[k] && gr.width(k) == W[k] && gr.lower(k) == lo[k] && gr.upper(k) == up[k], "domain", "%s after %s: domain changed", d.c_str(), after.c_str());
        } };
    std::vector<std::vector<double>> oref; auto verify = [&](const std::string &after) { verify_one(*cur, ref, after); if (other) { verify_one(*other, oref, after + " of its copy"); ctx.count("copies of stretched grids followed"); } };
    verify("construction"); std::string hist;
    for (int st = g.i(1, 4); st > 0; --st) {
        if (g.chance(0.2)) { if (g.chance(0.5)) other.reset(new Stretched(*cur)); else { std::unique_ptr<Stretched> t(new Stretched(qk::range(nd, lo.data(), up.data()), W.data(), W.data())); if (g.chance(0.5)) t->apply_bias_linear(0, 2.); *t = *cur; other = std::move(t); } oref = ref; if (g.chance(0.5)) std::swap(cur, other); hist += "copied "; verify(hist); }
        Stretched &gr = *cur; int k = g.i(0, nd - 1), N = up[k] - lo[k]; double p = g.chance(0.25) ? 1. : g.chance(0.3) ? (double)g.i(2, 5) : g.chance(0.2) ? g.logd(0.08, 40.) : g.chance(0.5) ? g.d(0.3, 1.) : g.d(1., 5.); std::string op;
        auto face = [&](int i, int n) { return std::pow((double)i / n, 1. / p); };
        if (g.chance(0.5)) { // linear: fine cells are counted from the upper end
            gr.apply_bias_linear(k, p); for (int i = 0; i < N; ++i) ref[k][i] = W[k] * (face(N - i, N) - face(N - 1 - i, N)); op = fmt("linear(%d,%g)", k, p); ctx.count("linear stretchings");
        } else if (N % 2) { bool t = throws_qk([&] { gr.apply_bias_symmetric(k, p); }); VF_CHECK(t, "odd", "symmetric stretching of %d cells accepted", N); op = "rejected symmetric"; ctx.count("odd symmetric rejected"); }
        else { gr.apply_bias_symmetric(k, p); int n = N / 2; for (int i = 0; i < n; ++i) ref[k][i] = ref[k][N - 1 - i] = 0.5 * W[k] * (face(i + 1, n) - face(i, n)); op = fmt("symmetric(%d,%g)", k, p); ctx.count("symmetric stretchings");
            for (int i = 0; i < N; ++i) VF_CHECK(std::fabs(gr.dx(k, lo[k] + i) - gr.dx(k, up[k] - 1 - i)) <= 1e-12 * W[k], "mirror", "%s: symmetric stretching is not symmetric", d.c_str()); }
        hist += op + " "; verify(hist);
    }
    ctx.count("stretched grids"); ctx.seen(d + hist); ctx.sample(d + ": " + hist);
}
void vf_case(Rng &g, Ctx &ctx) { if (g.chance(0.5)) uniform(g, ctx); else stretched(g, ctx); }
