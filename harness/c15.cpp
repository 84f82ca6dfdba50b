// C15: plasma coupling follows the Lorentz force and Ampere's current.
#define QKW_HUGE 0.0005
#include "ref.h"
using namespace vf; using namespace qkw; using namespace ref;
static double mag_value(Rng &g) { return g.chance(0.1) ? 0. : g.sgn() * (g.chance(0.7) ? g.d(0.01, 2) : g.logd(1e-8, 1e8)); }
void vf_case(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 150, 1, 0, 0.2);
    int ns = g.chance(0.07) ? g.i(5, 14) : g.i(1, 4); bool si = g.chance(0.15); std::vector<variable_id> fl, rh; std::vector<double> Q, M; std::vector<Arr> fa;
    variable_id f = field_id("field"), rf = field_id("field_rhs"), by = vid("other", comps(3));
    for (int k = 0; k < ns; ++k) { fl.push_back(fluid_id(fmt("fluid%d", k))); rh.push_back(fluid_id(fmt("rhs%d", k))); Q.push_back(g.sgn() * (si ? 1.602176634e-19 * g.i(1, 3) : g.logd(0.01, 100))); M.push_back(si ? g.logd(9.1e-31, 3e-25) : g.logd(1e-4, 100)); }
    if (g.chance(0.15)) { Q[g.i(0, ns - 1)] = 0.; ctx.count("neutral species"); }
    double eps0 = si ? 8.8541878128e-12 : g.chance(0.3) ? 1. : g.logd(1e-12, 10);
    Arr fa0(w.shape(f)); randomise(fa0, g, mag_value); bool wild = g.chance(0.3);
    auto wild_ghosts = [&](Arr &a) { a.each_all([&](const int *x) { if (!inside(a, x)) for (int c = 0; c < a.nc; ++c) a.at(x, c) = weird_value(g); }); };
    if (wild) wild_ghosts(fa0);
    w.put(f, fa0);
    for (int k = 0; k < ns; ++k) { Arr a(w.shape(fl[k])); randomise(a, g, mag_value); if (wild) wild_ghosts(a); fa.push_back(a); w.put(fl[k], a); }
    Arr oth(w.shape(by)); randomise(oth, g, weird_value); w.put(by, oth);
    std::vector<Arr> pr; bool zero = g.chance(0.4);
    for (int k = 0; k < ns; ++k) { Arr a(w.shape(rh[k])); randomise(a, g, [&](Rng &r) { return zero ? 0. : mag_value(r); }); pr.push_back(a); w.put(rh[k], a); }
    Arr prf(w.shape(rf)); randomise(prf, g, [&](Rng &r) { return zero ? 0. : mag_value(r); }); w.put(rf, prf);
    std::vector<variable_id> ro = fl; ro.push_back(f); ro.push_back(by); Snap snap(w, ro);
    for (int k = 0; k < ns; ++k) { qk::solver::lorentz_force s; if (g.chance(0.2)) s.setup(g.d(-2, 2), g.d(.1, 3)); s.setup(Q[k], M[k]); s.set_input_variables({fl[k], f}); s.add_output_variable(rh[k]); warm(g, w, s, {fl[k], f, rh[k]}, 0, ctx, 0.15, true); s.solve(*w.vm); }
    { qk::solver::current_source s; if (g.chance(0.25)) { int n0 = g.i(1, 5); std::vector<double> Q0(n0, 1.5), M0(n0, 0.7); s.setup(g.logd(0.1, 10), Q0, M0); ctx.count("set up twice"); } s.setup(eps0, Q, M); s.set_input_variables(fl); s.add_output_variable(rf); { std::vector<variable_id> l = fl; l.push_back(rf); warm(g, w, s, l, 0, ctx, 0.25, true); } s.solve(*w.vm); }
    snap.same("bystander", "coupling");
    std::string d = fmt("%s, %d species", w.str().c_str(), ns);
    for (int k = 0; k < ns; ++k) {
        Arr o = w.get(rh[k]); LD com = (LD)Q[k] / M[k];
        o.each_all([&](const int *x) {
            if (!inside(o, x)) { for (int c = 0; c < 5; ++c) VF_CHECK(same_bits(o.at(x, c), pr[k].at(x, c)), "ghost", "%s: the Lorentz operator changed ghost cell %s", d.c_str(), cell_str(o, x).c_str()); ctx.count("ghost cells untouched"); return; }
            LD q[5], E[3], B[3]; for (int c = 0; c < 5; ++c) q[c] = fa[k].at(x, c); for (int c = 0; c < 3; ++c) { E[c] = fa0.at(x, c); B[c] = fa0.at(x, 3 + c); }
            for (int c = 0; c < 5; ++c) {
                LD add = 0, mg = 0;
                if (c >= 1 && c <= 3) { int i = c - 1, a = (i + 1) % 3, b = (i + 2) % 3; LD t1 = q[0] * E[i], t2 = q[1 + a] * B[b], t3 = q[1 + b] * B[a]; add = com * (t1 + t2 - t3); mg = std::fabs(com) * (std::fabs(t1) + std::fabs(t2) + std::fabs(t3)); }
                if (c == 4) for (int i = 0; i < 3; ++i) { add += com * q[1 + i] * E[i]; mg += std::fabs(com * q[1 + i] * E[i]); }
                LD want = pr[k].at(x, c) + add; mg += std::fabs(pr[k].at(x, c));
                if (c == 0) VF_CHECK(same_bits(o.at(x, 0), pr[k].at(x, 0)), "density", "%s: the Lorentz operator changed the density rate", d.c_str());
                VF_CHECK(std::fabs((LD)o.at(x, c) - want) <= 16 * UEPS * mg, "lorentz", "%s: rate of component %d of species %d in %s is %.17g, expected %.17g", d.c_str(), c, k, cell_str(o, x).c_str(), o.at(x, c), (double)want);
            }
            ctx.count("cells compared");
        });
    }
    Arr o = w.get(rf);
    o.each_all([&](const int *x) {
        if (!inside(o, x)) { for (int c = 0; c < 6; ++c) VF_CHECK(same_bits(o.at(x, c), prf.at(x, c)), "ghost", "%s: the current operator changed ghost cell %s", d.c_str(), cell_str(o, x).c_str()); return; }
        LD pf = 0, pp = 0, mgp = 0;
        for (int c = 0; c < 6; ++c) {
            if (c >= 3) { VF_CHECK(same_bits(o.at(x, c), prf.at(x, c)), "magnetic", "%s: the current operator changed the magnetic rate", d.c_str()); continue; }
            LD add = 0, mg = std::fabs(prf.at(x, c)); for (int k = 0; k < ns; ++k) { LD t = (LD)Q[k] / M[k] / eps0 * fa[k].at(x, 1 + c); add -= t; mg += std::fabs(t); pp += eps0 * t * fa0.at(x, c); mgp += std::fabs(eps0 * t * fa0.at(x, c)); }
            VF_CHECK(std::fabs((LD)o.at(x, c) - prf.at(x, c) - add) <= 16 * UEPS * mg, "current", "%s: rate of E component %d in %s is %.17g, expected %.17g", d.c_str(), c, cell_str(o, x).c_str(), o.at(x, c), (double)(prf.at(x, c) + add));
            if (zero) pf -= eps0 * (LD)o.at(x, c) * fa0.at(x, c);
        }
        if (zero) { // power balance between fluids and field, and no magnetic work
            LD pw = 0; for (int k = 0; k < ns; ++k) pw += w.raw(rh[k])[o.off(x, 0) / 6 * 5 + 4];
            VF_CHECK(std::fabs(pw - pf) <= 64 * UEPS * mgp, "power", "%s: fluids gain %.17g, the field loses %.17g", d.c_str(), (double)pw, (double)pf); ctx.count("power balances"); }
    });
    ctx.count(fmt("species %s", ns > 4 ? "5 or more" : fmt("%d", ns).c_str())); if (si) ctx.count("SI constants"); ctx.seen(hash_bytes(fa0.v.data(), fa0.v.size() * 8, hash_bytes(fa[0].v.data(), fa[0].v.size() * 8))); ctx.sample(d + fmt(", q/m of the first %.3g, eps0 %.3g%s", Q[0] / M[0], eps0, zero ? ", zero prior rates" : ""));
}
