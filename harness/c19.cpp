// C19: initial conditions set every cell to the documented profile.
#define QKW_HUGE 0.0005
#include "sim.h"
using namespace vf; using namespace qkw; using namespace ref;
typedef std::vector<variable_id> Ids;
typedef std::function<void(const LD *x, LD *v, LD *tol, bool &skip)> Profile; // x: centre, v/tol: one per component
struct Case { std::string name; std::unique_ptr<qk::solver::solver> s; Ids out; std::vector<Profile> prof; };

void vf_case(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, g.chance(0.1) ? 2000 : 220, 1);
    if (g.chance(0.5)) { for (int d = 0; d < 3; ++d) w.start[d] = -0.5 * w.width[d]; w.build(); }
    Case C; LD reach = 0; for (int d = 0; d < w.nd; ++d) reach = std::max<LD>(reach, std::fabs(w.start[d]) + 2 * w.width[d] + 4 * w.dx(d)); const LD dxe = 8 * UEPS * reach; // error of a centre
    auto cut = [dxe](LD x, bool &skip) { if (std::fabs(x) <= 4 * dxe) skip = true; return x < 0; };
    const double U = g.chance(0.7) ? std::max({w.width[0], w.nd > 1 ? w.width[1] : 0., w.nd > 2 ? w.width[2] : 0.}) : g.chance(0.5) ? 1. : g.logd(1e-9, 1e9); // unit of length of the profile
    int kind = g.i(0, 8);
    if (kind == 0) { // gaussian
        double amp = g.chance(0.2) ? 1. : g.sgn() * g.logd(1e-3, 1e3), sd = U * (g.chance(0.8) ? g.logd(0.05, 2) : g.logd(1e-5, 1e5)); std::vector<double> av; int n = g.i(0, 3); for (int k = 0; k < n; ++k) av.push_back(U * g.d(-1, 1));
        auto *p = new qk::solver::gaussian; p->setup(amp, av, sd); C.s.reset(p); C.name = fmt("gaussian (%d averages)", n); av.resize(3, 0.);
        for (int k = g.i(1, 3); k > 0; --k) { int nc = g.i(1, 4); C.out.push_back(vid(fmt("o%d", k), comps(nc))); C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &) { LD w2 = 0, w1 = 0; for (int d = 0; d < 3; ++d) { LD t = (x[d] - av[d]) / sd; w2 += t * t; LD ue = (dxe + UEPS * std::fabs(av[d])) / sd; w1 += (std::fabs(t) + ue) * ue; } for (int c = 0; c < nc; ++c) { v[c] = amp * std::exp(-w2); tol[c] = std::fabs(v[c]) * (1e-14L * (1 + w2) + 4 * w1) + 1e-300L; } }); }
    } else if (kind == 1) { // magnetic pulse
        double amp = g.sgn() * g.logd(1e-2, 1e2), sd = U * U * (g.chance(0.8) ? g.logd(0.05, 2) : g.logd(1e-5, 1e5)); auto *p = new qk::solver::magnetic_pulse; p->setup(amp, sd); C.s.reset(p); C.name = "magnetic pulse";
        for (int k = g.i(1, 2); k > 0; --k) { C.out.push_back(field_id(fmt("f%d", k))); C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &) { LD r2 = 0.5L * (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) / sd, er = (std::fabs(x[0]) + std::fabs(x[1]) + std::fabs(x[2]) + 3 * dxe) * dxe / sd; for (int c = 0; c < 6; ++c) v[c] = tol[c] = 0; v[5] = amp * std::exp(-r2); tol[5] = std::fabs(v[5]) * (1e-14L * (1 + r2) + 4 * er) + 1e-300L; }); }
    } else if (kind == 2) { // planar shock tube
        bool def = g.chance(0.3); double rj = def ? 0.125 : g.logd(0.01, 10), pj = def ? 0.1 : g.logd(0.01, 10), ga = def ? 1.4 : g.d(1.1, 3); auto *p = new qk::solver::shock_tube; if (!def) p->setup(rj, pj, ga); C.s.reset(p); C.name = def ? "shock tube (default)" : "shock tube";
        for (int k = g.i(1, 3); k > 0; --k) { C.out.push_back(fluid_id(fmt("q%d", k))); C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &skip) { bool l = cut(x[0], skip); for (int c = 0; c < 5; ++c) v[c] = 0; v[0] = l ? 1 : rj; v[4] = (l ? 1.L : (LD)pj) / (ga - 1.L); for (int c = 0; c < 5; ++c) tol[c] = 1e-14L * std::fabs(v[c]) * (1 + 1 / (ga - 1.L)); }); }
    } else if (kind == 3) { // radial shock tube
        double R = U * g.logd(0.05, 5), rj = g.logd(0.01, 10), pj = g.logd(0.01, 10), ga = g.d(1.1, 3); std::vector<double> ce; int n = g.i(0, 3); for (int k = 0; k < n; ++k) ce.push_back(U * g.d(-1, 1));
        auto *p = new qk::solver::radial_shock_tube; if (n == 0 && g.chance(0.5)) p->setup(R, rj, pj, ga); else p->setup(R, rj, pj, ga, ce); C.s.reset(p); C.name = fmt("radial shock tube (%d centre coordinates)", n); ce.resize(3, 0.);
        for (int k = g.i(1, 2); k > 0; --k) { C.out.push_back(fluid_id(fmt("q%d", k))); C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &skip) { LD r2 = 0; for (int d = 0; d < 3; ++d) r2 += (x[d] - ce[d]) * (x[d] - ce[d]); LD r = std::sqrt(r2); if (std::fabs(r - R) <= 100 * (dxe + UEPS * R + UEPS * U)) skip = true; bool l = r < R; for (int c = 0; c < 5; ++c) v[c] = 0; v[0] = l ? 1 : rj; v[4] = (l ? 1.L : (LD)pj) / (ga - 1.L); for (int c = 0; c < 5; ++c) tol[c] = 1e-14L * std::fabs(v[c]) * (1 + 1 / (ga - 1.L)); }); }
    } else if (kind == 4 || kind == 5) { // plane wave
        int dim = g.i(0, w.nd - 1); double c = g.sgn() * g.logd(0.1, 1e3), k = g.sgn() * g.logd(0.2, 50) / U, B[3]; for (double &b : B) b = g.chance(0.2) ? 0. : g.sgn() * g.logd(0.01, 10);
        auto *p = new qk::solver::electromagnetic_wave_1D; p->setup(dim, c, k, B[0], B[1], B[2]); C.s.reset(p); C.name = fmt("plane wave along %d", dim); LD b0 = B[0], b1 = B[1], b2 = B[2]; LD Bv[3] = {b0, b1, b2};
        for (int q = g.i(1, 2); q > 0; --q) { C.out.push_back(field_id(fmt("f%d", q))); C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &) {
            LD s = std::sin((LD)k * x[dim]); int a = (dim + 1) % 3, b = (dim + 2) % 3; LD se = 4 * UEPS + 2 * std::fabs(k) * (dxe + UEPS * std::fabs(x[dim]));
            // travelling along +dim: E = c B x n, with the transverse B oscillating and the longitudinal B constant
            v[dim] = 0; tol[dim] = 0; v[3 + dim] = Bv[dim]; tol[3 + dim] = 0;
            v[a] = c * Bv[b] * s; v[b] = -c * Bv[a] * s; v[3 + a] = Bv[a] * s; v[3 + b] = Bv[b] * s;
            tol[a] = std::fabs(c * Bv[b]) * se; tol[b] = std::fabs(c * Bv[a]) * se; tol[3 + a] = std::fabs(Bv[a]) * se; tol[3 + b] = std::fabs(Bv[b]) * se; }); }
    } else if (kind == 6) { // Brio-Wu
        bool def = g.chance(0.3); double ga = def ? 2. : g.d(1.1, 3), me = def ? .04 : g.logd(1e-4, 1), mi = def ? 1. : g.logd(0.1, 100), nl = def ? 1. : g.logd(0.01, 10), nr = def ? .125 : g.logd(0.01, 10), Pl = def ? 1. : g.logd(0.01, 10), Pr = def ? .1 : g.logd(.01, 10), Bx = def ? .75 : g.d(-2, 2), By = def ? 1. : g.d(-2, 2);
        auto *p = new qk::solver::brio_wu_shock_tube; if (!def) p->setup(ga, me, mi, nl, nr, Pl, Pr, Bx, By); C.s.reset(p); C.name = def ? "two-fluid shock tube (default)" : "two-fluid shock tube";
        C.out = {fluid_id("e"), fluid_id("i"), field_id("f")};
        for (int sp = 0; sp < 2; ++sp) C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &skip) { bool l = cut(x[0], skip); for (int c = 0; c < 5; ++c) v[c] = 0; v[0] = (sp ? (LD)mi : (LD)me) * (l ? nl : nr); v[4] = (l ? Pl : Pr) / (ga - 1.L); for (int c = 0; c < 5; ++c) tol[c] = 1e-14L * std::fabs(v[c]) * (1 + 1 / (ga - 1.L)); });
        C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &skip) { bool l = cut(x[0], skip); for (int c = 0; c < 6; ++c) v[c] = tol[c] = 0; v[3] = Bx; v[4] = l ? By : -By; });
    } else if (kind == 7) { // GEM current sheet
        LD big = reach; double lam = (double)big * g.d(0.05, 1), Lx = g.logd(0.3, 3) * w.width[0], n0 = g.logd(0.1, 10), n1 = n0 * g.logd(0.01, 1), ga = g.d(1.1, 3), qe = -g.logd(0.1, 10), me = g.logd(1e-3, 1), Te = g.logd(0.01, 10), qi = g.logd(0.1, 10), mi = g.logd(0.1, 10), Ti = g.logd(0.01, 10), B0 = g.sgn() * g.logd(0.1, 10);
        auto *p = new qk::solver::gem_challenge; p->setup(lam, Lx, n0, n1, ga, qe, me, g.d(-1, 1), Te, qi, mi, g.d(-1, 1), Ti, B0); C.s.reset(p); C.name = "current sheet"; C.out = {fluid_id("e"), fluid_id("i"), field_id("f")};
        for (int sp = 0; sp < 2; ++sp) C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &) { LD ch = std::cosh(x[0] / lam), s2 = 1 / (ch * ch), n = n0 * s2 + n1, m = sp ? mi : me, T = sp ? Ti : Te, u = 2 * T / ((sp ? (LD)qi : (LD)qe) * lam * B0);
            for (int c = 0; c < 5; ++c) v[c] = 0; v[0] = m * n; v[3] = v[0] * u * s2 / (s2 + (LD)n1 / n0); v[4] = n * T / (ga - 1.L) + 0.5L * v[3] * v[3] / v[0];
            LD e = 1e-13L * (1 + std::fabs(x[0]) / lam); for (int c = 0; c < 5; ++c) tol[c] = std::fabs(v[c]) * e * (1 + 1 / (ga - 1.L)); });
        C.prof.push_back([=](const LD *x, LD *v, LD *tol, bool &) { const LD pi = 3.14159265358979323846L; LD kx = pi / Lx, ky = kx, B1 = 0.1L * B0; for (int c = 0; c < 6; ++c) v[c] = tol[c] = 0; // Ly = 2 Lx, ky = 2 pi / Ly
            v[3] = B1 * ky * std::cos(kx * x[0]) * std::sin(ky * x[1]); v[4] = B0 * std::tanh(x[0] / lam) - B1 * kx * std::sin(kx * x[0]) * std::cos(ky * x[1]);
            LD e = 1e-7L * (1 + kx * std::fabs(x[0]) + ky * std::fabs(x[1])); tol[3] = std::fabs(B1) * ky * e; tol[4] = std::fabs(B0) * 1e-13L * (1 + std::fabs(x[0]) / lam) + std::fabs(B1) * kx * e; });
    } else { double v0 = weird_value(g); auto *p = new qk::solver::fill; p->setup(v0); C.s.reset(p); C.name = "constant";
        for (int k = g.i(1, 3); k > 0; --k) { int nc = g.i(1, 4); C.out.push_back(vid(fmt("o%d", k), comps(nc))); C.prof.push_back([=](const LD *, LD *v, LD *tol, bool &) { for (int c = 0; c < nc; ++c) { v[c] = v0; tol[c] = 0; } }); } }
    C.s->set_output_variables(C.out);
    if (kind != 8) warm(g, w, *C.s, {}, 0, ctx, 0.25, kind != 4 && kind != 5);
    // run twice with different earlier contents (or none)
    std::string d = fmt("%s on %s", C.name.c_str(), w.str().c_str()); std::vector<Arr> first;
    variable_id by = vid("bystander", comps(2)); Arr o(w.shape(by)); randomise(o, g, weird_value); w.put(by, o); Snap sn(w, {by}); bool fresh = g.chance(0.3);
    for (int run = 0; run < 2; ++run) {
        if (run || !fresh) for (auto &i : C.out) { Arr a(w.shape(i)); randomise(a, g, weird_value); w.put(i, a); }
        w.vm->set_time(g.d(0, 3)); w.vm->set_dt(g.d(0, 1)); C.s->solve(*w.vm, 0); sn.same("bystander", d);
        for (size_t k = 0; k < C.out.size(); ++k) {
            Arr a = w.get(C.out[k]); long cells = 0;
            a.each_interior([&](const int *x) {
                LD xc[3] = {0, 0, 0}, v[8], tol[8]; bool skip = false; for (int q = 0; q < w.nd; ++q) xc[q] = (LD)w.start[q] + (x[q] + 0.5L) * ((LD)w.width[q] / w.L[q]);
                C.prof[k](xc, v, tol, skip);
                for (int c = 0; c < a.nc; ++c) {
                    if (run) VF_CHECK(same_val(a.at(x, c), first[k].at(x, c)), "history", "%s: component %d of '%s' in cell %s depends on earlier contents: %.17g vs %.17g", d.c_str(), c, C.out[k].name().c_str(), cell_str(a, x).c_str(), a.at(x, c), first[k].at(x, c));
                    if (skip) { ctx.count("cells skipped (on a discontinuity)"); continue; }
                    double got = a.at(x, c); VF_CHECK(same_val(got, (double)v[c]) || std::fabs((LD)got - v[c]) <= tol[c], "profile", "%s: component %d of '%s' (output %zu) in cell %s at (%.6g,%.6g,%.6g) is %.17g, expected %.17g", d.c_str(), c, C.out[k].name().c_str(), k, cell_str(a, x).c_str(), (double)xc[0], (double)xc[1], (double)xc[2], got, (double)v[c]);
                }
                ++cells; });
            if (!run) first.push_back(a); ctx.count("cells compared", cells);
        }
    }
    ctx.count("profile " + C.name.substr(0, C.name.find(" ("))); ctx.count(fmt("%d-D grids", w.nd)); ctx.seen(hash_bytes(first[0].v.data(), first[0].v.size() * 8, hash_str(d))); ctx.sample(d);
}
