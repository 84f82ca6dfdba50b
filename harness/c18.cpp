// C18: updates conserve totals and keep uniform states steady.
#include "sim.h"
using namespace vf; using namespace qkw; using namespace ref; using namespace sim;

static const char *cn5[] = {"mass", "x momentum", "y momentum", "z momentum", "energy"};
struct Rig { // three-stage stepping of one variable with one operator
    World &w; std::vector<variable_id> u; variable_id rhs; std::vector<std::vector<std::unique_ptr<qk::solver::solver>>> bc; std::vector<std::unique_ptr<qk::solver::solver>> op; qk::solver::ssprk3 rk; qk::solver::fill reset; qk::solver::swap sw;
    Rig(World &w_, bool fluid, double par, const std::vector<BcSpec> &b) : w(w_) {
        for (int k = 0; k < 4; ++k) u.push_back(fluid ? fluid_id(fmt("u%d", k)) : field_id(fmt("u%d", k)));
        rhs = fluid ? fluid_id("rhs") : field_id("rhs");
        for (int k = 0; k < 3; ++k) {
            bc.emplace_back(); for (auto &s : b) bc.back().push_back(make_bc(s, {u[k]}));
            if (fluid) { auto *e = new qk::solver::euler; e->setup(par); op.emplace_back(e); } else { auto *e = new qk::solver::maxwell; e->setup(par); op.emplace_back(e); }
            op.back()->add_input_variable(u[k]); op.back()->add_output_variable(rhs);
        }
        rk.set_input_variables({u[0], rhs}); rk.set_output_variables({u[1], u[2], u[3]}); reset.setup(0.); reset.add_output_variable(rhs); sw.set_output_variables({u[0], u[3]});
    }
    void rate(int k) { for (auto &b : bc[k]) b->solve(*w.vm, 0); reset.solve(*w.vm, 0); op[k]->solve(*w.vm, 0); }
    void step() { for (int k = 0; k < 3; ++k) { rate(k); rk.solve(*w.vm, k); } sw.solve(*w.vm, 0); }
};
static void junk_ghosts(Rng &g, Arr &a) { a.each_all([&](const int *x) { if (!inside(a, x)) for (int c = 0; c < a.nc; ++c) a.at(x, c) = outside_dims(a, x) > 1 ? 1e30 * g.sgn() : g.d(-1e6, 1e6); }); }

static void pde(Rng &g, Ctx &ctx, bool fluid) {
    World w; random_grid(g, w, 200, 2, 0, 0.2);
    double gamma = g.chance(0.5) ? 1.4 : g.d(1.1, 2.5); bool sonic = g.chance(0.1); if (sonic) gamma = 2; double c = g.chance(0.2) ? 299792458. : g.sgn() * g.logd(0.1, 10), par = fluid ? gamma : c;
    std::vector<BcSpec> b; std::string bcs; bool walls = fluid && g.chance(0.5);
    if (!walls) b.push_back({PERIODIC, all_dims(w.nd)});
    else { Dims per, wl; for (int d = 0; d < w.nd; ++d) (g.chance(0.6) || (d == w.nd - 1 && wl.empty()) ? wl : per).push_back(d); b.push_back({g.chance(0.5) ? NOSLIP : FREESLIP, wl}); if (!per.empty()) b.push_back({PERIODIC, per}); bcs = b[0].kind == NOSLIP ? "no-slip walls" : "free-slip walls"; }
    if (!walls) bcs = "periodic";
    Rig R(w, fluid, par, b); variable_id q = R.u[0]; int nc = fluid ? 5 : 6;
    bool uniform = !walls && g.chance(0.25); static const int kinds[] = {1, 2, 3, 4, 5, 6};
    Arr a(w.shape(q)); std::string sn; FluidGen G;
    if (fluid) { int fk = uniform ? (g.chance(0.3) ? 9 : sonic ? 10 : 0) : sonic ? 11 : kinds[g.i(0, 5)]; G = fluid_state(g, a, gamma, fk); phys_floor() = fluid && uniform ? 1e-9L : 1e-5L; sn = G.name; } else sn = field_state(g, a, c, uniform ? 0 : g.i(1, 5));
    Arr full = a; for (auto &s : b) boundary(full, s.kind, s.dims); // what the library must see
    junk_ghosts(g, a); w.put(q, a);
    Rates ref; if (fluid) euler_rates(LArr(full), w, gamma, ref); else maxwell_rates(LArr(full), w, c, ref);
    std::string d = fmt("%s, %s, %s %s state", w.str().c_str(), bcs.c_str(), fluid ? "fluid" : "field", sn.c_str());
    long unphys = 0; for (int k = 0; k < 3; ++k) { unphys += ref.faces[k][UNPHYSICAL]; if (ref.faces[k][COLLIDING]) ctx.count("colliding faces", ref.faces[k][COLLIDING]); }
    if (unphys) { ctx.count("cases skipped (face state without pressure)"); return; }
    R.rate(0); Arr r = w.get(R.rhs); std::vector<LD> t = totals(r), m = totals(ref.mag);
    for (int k = 0; k < nc; ++k) {
        if (walls && k != 0 && k != 4) continue;
        VF_CHECK(std::fabs(t[k]) <= 1e-13L * m[k] + 1e-300L, "sum", "%s: rates of component %d sum to %.6g over the grid (sum of term sizes %.3g)", d.c_str(), k, (double)t[k], (double)m[k]);
        ctx.count(fmt("%s sums, %s", fluid ? "fluid" : "field", bcs.c_str())); }
    if (uniform) { r.each_interior([&](const int *x) { for (int k = 0; k < nc; ++k) VF_CHECK(std::fabs(r.at(x, k)) <= 1e-14L * (ref.mag.at(x, k)) + 1e-300L, "uniform", "%s: a uniform state has rate %.6g of component %d in %s (term size %.3g)", d.c_str(), r.at(x, k), k, cell_str(r, x).c_str(), (double)ref.mag.at(x, k)); }); ctx.count(fluid ? "uniform fluids" : "uniform fields"); if (fluid && sn == "sonic uniform") ctx.count("uniform sonic fluids"); }
    // full steps; keep to states the scheme is known to handle
    double speed = fluid ? fluid_rate(full, w, gamma) : field_rate(w, c); double dt = g.d(0.05, 0.2) / speed; w.vm->set_dt(dt);
    int n = g.i(1, ctx.thorough ? 30 : 6); bool ok = true;
    if (fluid && !uniform) { LArr m0(full); for (int k = 0; k < n && ok; ++k) ok = model_step(m0, b, dt, [&](const LArr &u, Rates &R2) { euler_rates(u, w, gamma, R2); }); } // the scheme itself may lose positivity
    if (!ok) ctx.count("histories skipped (the scheme loses positivity)");
    if (ok) {
        Arr s0 = w.get(q); std::vector<LD> t0 = totals(s0), ab = abs_totals(s0); std::vector<LD> sc = ab; for (int k = 0; k < nc; ++k) sc[k] += dt * m[k];
        for (int k = 0; k < n; ++k) { R.step(); ctx.count("full steps"); }
        Arr s1 = w.get(q); std::vector<LD> t1 = totals(s1), ab1 = abs_totals(s1);
        for (int k = 0; k < nc; ++k) {
            if (walls && k != 0 && k != 4) continue;
            VF_CHECK(std::fabs(t1[k] - t0[k]) <= 1e-13L * n * (sc[k] + ab1[k]) + 1e-300L, "total", "%s: total %s went from %.17g to %.17g in %d steps (scale %.3g)", d.c_str(), fluid ? cn5[k] : "field", (double)t0[k], (double)t1[k], n, (double)sc[k]);
            ctx.count("totals compared"); }
        if (uniform) { s1.each_interior([&](const int *x) { for (int k = 0; k < nc; ++k) VF_CHECK(std::fabs(s1.at(x, k) - s0.at(x, k)) <= 1e-14L * n * (std::fabs(s0.at(x, k)) + dt * ref.mag.at(x, k)) + 1e-300L, "steady", "%s: component %d of a uniform state went from %.17g to %.17g", d.c_str(), k, s0.at(x, k), s1.at(x, k)); }); ctx.count("uniform histories"); }
    }
    ctx.seen(hash_bytes(full.v.data(), full.v.size() * 8, hash_str(bcs))); ctx.sample(d);
}
static void advection(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 200, 2, 0, 0.2); int nc = g.i(1, 6); variable_id a = vid("a", comps(nc)), b = vid("b", comps(nc)), c = vid("c", comps(nc));
    std::vector<double> vel; double sp = 0, vu = g.chance(0.2) ? g.logd(1e-12, 1e9) : 1.; for (int d = 0; d < w.nd; ++d) { vel.push_back(g.chance(0.15) ? 0. : g.sgn() * vu * g.logd(0.1, 10)); sp += std::fabs(vel[d]) / w.dx(d); }
    w.vm->set_dt(g.d(0.05, 0.5) / (sp > 0 ? sp : 1.)); bool uni = g.chance(0.3); double base = g.chance(0.4) ? 0. : g.d(-5, 5); Arr s(w.shape(a)); if (uni) { for (size_t k = 0; k < s.v.size(); ++k) s.v[k] = base + 1 + k % nc; } else randomise(s, g, [&](Rng &r) { return base + (r.chance(0.7) ? r.d(-1, 1) : 0.); });
    junk_ghosts(g, s); w.put(a, s); qk::solver::ssprk2_advection S; S.setup(vel); S.add_input_variable(a); S.set_output_variables({b, c});
    auto p0 = make_bc({PERIODIC, all_dims(w.nd)}, {a}), p1 = make_bc({PERIODIC, all_dims(w.nd)}, {b}); qk::solver::swap sw; sw.set_output_variables({a, c});
    int n = g.i(1, ctx.thorough ? 30 : 6); std::vector<LD> t0 = totals(s), ab = abs_totals(s);
    for (int k = 0; k < n; ++k) { p0->solve(*w.vm, 0); S.solve(*w.vm, 0); { std::vector<LD> t = totals(w.get(b)); for (int q = 0; q < nc; ++q) VF_CHECK(std::fabs(t[q] - totals(w.get(a))[q]) <= 1e-13L * (ab[q] + s.cells()) * (n + 1), "sum", "%s: first advection stage changed the total of component %d", w.str().c_str(), q); } p1->solve(*w.vm, 0); S.solve(*w.vm, 1); sw.solve(*w.vm, 0); ctx.count("advection steps"); }
    Arr s1 = w.get(a); std::vector<LD> t1 = totals(s1);
    for (int q = 0; q < nc; ++q) VF_CHECK(std::fabs(t1[q] - t0[q]) <= 1e-13L * (n + 1) * (ab[q] + s.cells()), "total", "%s: advected total went from %.17g to %.17g", w.str().c_str(), (double)t0[q], (double)t1[q]);
    if (uni) { s1.each_interior([&](const int *x) { for (int q = 0; q < nc; ++q) VF_CHECK(std::fabs(s1.at(x, q) - s.at(x, q)) <= 1e-14 * (n + 1) * std::fabs(s.at(x, q)) + 1e-300, "steady", "%s: uniform advected state went from %.17g to %.17g", w.str().c_str(), s.at(x, q), s1.at(x, q)); }); ctx.count("uniform advected states"); }
    ctx.seen(hash_bytes(s.v.data(), s.v.size() * 8)); ctx.sample(fmt("advection %s, %d steps, %d components%s", w.str().c_str(), n, nc, uni ? ", uniform" : ""));
}
void vf_case(Rng &g, Ctx &ctx) { int k = g.i(0, 9); if (k < 5) pde(g, ctx, true); else if (k < 8) pde(g, ctx, false); else advection(g, ctx); }
