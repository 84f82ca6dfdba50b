// C20: a complete simulation matches an independent model of the method.
#include "program.h"
using namespace vf; using namespace qkw; using namespace ref; using namespace sim;
static void worst(Ctx &ctx, const char *k, LD e) { std::string n = std::string(k) + ", worst relative error in 1e-15 (max)"; ctx.cov[n] = std::max<uint64_t>(ctx.cov[n], (uint64_t)(e * 1e15L)); }

static void simulation(Rng &g, Ctx &ctx) {
    bool lng = g.chance(0.05); World w; random_grid(g, w, lng ? 8 : 120, 2, 0, 0.2); System S(w); int kind = g.i(0, 3); // fluid, field, two fluids and field, one fluid and field
    static const char *names[] = {"fluid", "field", "two-fluid plasma", "one-fluid plasma"};
    int nf = kind == 0 ? 1 : kind == 1 ? 0 : kind == 2 ? 2 : 1; bool field = kind != 0; S.coupled = kind >= 2; S.one_stage = g.chance(0.25);
    // boundaries: one kind per dimension
    auto bcs = [&](bool fluid) { std::vector<BcSpec> b; std::vector<Bc> of(w.nd); for (int d = 0; d < w.nd; ++d) { int r = g.i(0, 4); of[d] = r < 2 ? PERIODIC : r == 2 ? OUTFLOW : fluid ? (r == 3 ? NOSLIP : FREESLIP) : (d == 0 ? CONDUCTING : PERIODIC); }
        for (Bc k : {PERIODIC, OUTFLOW, NOSLIP, FREESLIP, CONDUCTING}) { Dims ds; for (int d = 0; d < w.nd; ++d) if (of[d] == k) ds.push_back(d); if (!ds.empty()) b.push_back({k, ds}); } g.shuffle(b); return b; };
    S.c = g.chance(0.3) ? 1. : g.sgn() * g.logd(0.3, 20); S.eps0 = g.logd(0.05, 2); double rate = field ? field_rate(w, S.c) : 0; std::vector<Arr> init; std::string d = w.str() + ", " + names[kind];
    for (int k = 0; k < nf; ++k) { double ga = g.chance(0.5) ? 5. / 3 : g.d(1.2, 2.2); Species s{true, ga, S.coupled ? (k ? 1. : -1.) * g.logd(0.2, 2) : 0., g.logd(0.1, 2), bcs(true)}; S.sp.push_back(s);
        variable_id q = fluid_id("tmp"); Arr a(w.shape(q)); static const int ks[] = {0, 1, 2, 3, 4, 6}; FluidGen G = fluid_state(g, a, ga, ks[g.i(0, 5)], kind == 0); d += " " + G.name; rate += fluid_rate(a, w, ga); if (S.coupled) rate += 3 * std::fabs(s.q / s.m) * (std::sqrt(2 / S.eps0) + 2); init.push_back(a); }
    if (field) { Species s{false, 0, 0, 1, bcs(false)}; S.sp.push_back(s); variable_id q = field_id("tmpf"); Arr a(w.shape(q)); d += " " + field_state(g, a, S.c, S.coupled ? g.i(0, 3) : g.i(0, 5)); if (S.coupled) { double mx = 0; for (double v : a.v) mx = std::max(mx, std::fabs(v)); for (double &v : a.v) v /= mx; } init.push_back(a); }
    for (auto &s : S.sp) for (auto &b : s.bc) ctx.count(fmt("boundary %d on a %s", (int)b.kind, s.fluid ? "fluid" : "field"));
    double dt = g.d(0.05, S.one_stage ? 0.1 : 0.25) / rate; w.vm->set_dt(dt); d += fmt(", dt %.3g%s", dt, S.one_stage ? ", one-stage" : "");
    Program A(w, S, g, "a_"); A.start(init, g, g.chance(0.5)); int n = lng ? g.i(20, ctx.thorough ? 200 : 70) : g.i(1, ctx.thorough ? 20 : 6), done = 0; if (lng) ctx.count("long histories");
    if (g.chance(0.15)) { // the same operators drove another simulation before
        World z; random_grid(g, z, 30, 2, w.nd, 0.3); for (size_t k = 0; k < A.u.size(); ++k) for (auto &i : A.u[k]) { Arr a(z.shape(i)); a.each_all([&](const int *x) { int y[3]; for (int q = 0; q < 3; ++q) y[q] = g.i(0, init[k].L[q] - 1); for (int c = 0; c < a.nc; ++c) a.at(x, c) = init[k].at(y, c); }); z.put(i, a); }
        z.vm->set_time(g.d(0, 5)); z.vm->set_dt(dt * 0.01); for (size_t s = 0; s < A.stage.size(); ++s) for (auto &o : A.stage[s]) o->solve(*z.vm, (int)s); A.sw->solve(*z.vm, 0); ctx.count("operators used before elsewhere"); }
    std::vector<LArr> m; for (auto &a : init) m.push_back(LArr(a));
    for (int t = 0; t < n; ++t) {
        if (t && t % 10 == 0) { m.clear(); for (auto &v : A.u) m.push_back(LArr(w.get(v[0]))); } // long histories: follow the program again from here, so that amplified rounding stays small
        if (!S.step(m, dt)) { ctx.count("steps skipped (the scheme loses positivity)"); break; }
        A.step(); ++done; ctx.count(std::string(names[kind]) + " steps");
        for (size_t k = 0; k < S.sp.size(); ++k) { Arr o = w.get(A.u[k][0]), ref0(o); for (size_t i = 0; i < ref0.v.size(); ++i) ref0.v[i] = (double)m[k].v[i]; std::vector<LD> sc = scales(ref0, S.sp[k].fluid, S.c), si = scales(init[k], S.sp[k].fluid, S.c); LD w1 = 0;
            o.each_interior([&](const int *x) { for (int c = 0; c < o.nc; ++c) { LD s = std::max(sc[c], si[c]), e = std::fabs((LD)o.at(x, c) - m[k].at(x, c)); if (s > 0) w1 = std::max(w1, e / s);
                VF_CHECK(e <= 1e-10L * s + 1e-300L, "state", "%s: after %d steps component %d of %s %zu in cell %s is %.17g, the model gives %.17g (scale %.3g)", d.c_str(), done, c, S.sp[k].fluid ? "fluid" : "field", k, cell_str(o, x).c_str(), o.at(x, c), (double)m[k].at(x, c), (double)s); } ctx.count("cells compared"); });
            worst(ctx, names[kind], w1); }
    }
    if (done && g.chance(0.5)) { // other ghost contents, other operator order, other variables around: same interior up to the order of additions
        Rng gb = g; std::vector<Arr> ra; for (auto &v : A.u) ra.push_back(w.get(v[0])); A.start(init, g, true); for (int t = 0; t < done; ++t) A.step();
        for (size_t k = 0; k < ra.size(); ++k) { Arr o = w.get(A.u[k][0]); o.each_interior([&](const int *x) { for (int c = 0; c < o.nc; ++c) VF_CHECK(same_val(o.at(x, c), ra[k].at(x, c)), "ghosts", "%s: component %d in %s depends on earlier ghost contents or scratch values: %.17g vs %.17g", d.c_str(), c, cell_str(o, x).c_str(), o.at(x, c), ra[k].at(x, c)); }); }
        ctx.count("ghost-independence runs"); }
    if (done) ctx.seen(hash_bytes(init[0].v.data(), init[0].v.size() * 8, hash_str(d))); ctx.sample(d + fmt(", %d steps", done));
}
static void advection(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 200, 2, 0, 0.2); int nc = g.i(1, 3); variable_id a = vid("a", comps(nc)), b = vid("b", comps(nc)), c = vid("c", comps(nc)); std::vector<double> vel; double sp = 0; for (int d = 0; d < w.nd; ++d) { vel.push_back(g.chance(0.1) ? 0. : g.sgn() * g.logd(0.1, 10)); sp += std::fabs(vel[d]) / w.dx(d); }
    double dt = g.d(0.05, 0.5) / (sp > 0 ? sp : 1.); w.vm->set_dt(dt); Bc kind = g.chance(0.6) ? PERIODIC : OUTFLOW; Dims ds = all_dims(w.nd); bool lib_ic = g.chance(0.4);
    Arr s(w.shape(a)); if (lib_ic) { qk::solver::gaussian G; G.setup(1., {0., 0., 0.}, w.width[0] * g.logd(0.1, 1)); G.add_output_variable(a); G.solve(*w.vm); s = w.get(a); } else randomise(s, g, [](Rng &r) { return r.d(-1, 1); });
    s.each_all([&](const int *x) { if (!inside(s, x)) for (int q = 0; q < nc; ++q) s.at(x, q) = g.d(-1e9, 1e9); }); w.put(a, s);
    qk::solver::ssprk2_advection S; S.setup(vel); S.add_input_variable(a); S.set_output_variables({b, c}); auto p0 = make_bc({kind, ds}, {a}), p1 = make_bc({kind, ds}, {b}); qk::solver::swap sw; sw.set_output_variables({a, c});
    LArr m(s); LD amp = 0; s.each_interior([&](const int *x) { for (int q = 0; q < nc; ++q) amp = std::max<LD>(amp, std::fabs(s.at(x, q))); }); int n = g.chance(0.05) ? g.i(20, 80) : g.i(1, ctx.thorough ? 25 : 8); LD w1 = 0;
    for (int t = 0; t < n; ++t) {
        if (t && t % 10 == 0) m = LArr(w.get(a));
        boundary(m, kind, ds); LArr m1 = m; advect(m1, m, w, vel, dt); boundary(m1, kind, ds); LArr m2 = m; for (size_t k = 0; k < m2.v.size(); ++k) m2.v[k] = 0.5L * (m.v[k] + m1.v[k]); advect(m2, m1, w, vel, 0.5L * dt); m = m2;
        p0->solve(*w.vm, 0); S.solve(*w.vm, 0); p1->solve(*w.vm, 0); S.solve(*w.vm, 1); sw.solve(*w.vm, 0); ctx.count("advection steps"); Arr o = w.get(a);
        o.each_interior([&](const int *x) { for (int q = 0; q < nc; ++q) { LD e = std::fabs((LD)o.at(x, q) - m.at(x, q)); w1 = std::max(w1, e / (amp + 1e-30L)); VF_CHECK(e <= 1e-9L * amp + 1e-300L, "state", "%s: advected component %d in %s after %d steps is %.17g, the model gives %.17g", w.str().c_str(), q, cell_str(o, x).c_str(), t + 1, o.at(x, q), (double)m.at(x, q)); } ctx.count("cells compared"); }); }
    worst(ctx, "advection", w1); ctx.seen(hash_bytes(s.v.data(), s.v.size() * 8)); ctx.sample(fmt("advection on %s, %d steps", w.str().c_str(), n));
}
void vf_case(Rng &g, Ctx &ctx) { if (g.chance(0.8)) simulation(g, ctx); else advection(g, ctx); }
