// C28: the results do not depend on the system of units the problem is stated in.
#include "program.h"
#include "grid/structured.h"
using namespace vf; using namespace qkw; using namespace ref; using namespace sim;
// Units of length, time, mass density and magnetic field; all powers of two, so that changing them is exact.
struct Units { int l = 0, t = 0, r = 0, f = 0; 
    int v() const { return l - t; }
    int fluid(int c) const { return c == 0 ? r : c < 4 ? r + v() : r + 2 * v(); }
    int field(int c) const { return c < 3 ? f + v() : f; }
    int qm() const { return -t - f; }       // charge over mass
    int eps0() const { return r - 2 * f; }
    int lowest(bool fl, bool fi) const { int m = 1 << 20; if (fl) for (int c = 0; c < 5; ++c) m = std::min(m, fluid(c)); if (fi) for (int c = 0; c < 6; ++c) m = std::min(m, field(c)); return m; }
    int highest(bool fl, bool fi) const { int m = -(1 << 20); if (fl) for (int c = 0; c < 5; ++c) m = std::max(m, fluid(c)); if (fi) for (int c = 0; c < 6; ++c) m = std::max(m, field(c)); return m; }
    std::string str() const { return fmt("units of length 2^%d, time 2^%d, density 2^%d, field 2^%d", -l, -t, -r, -f); } };
struct Stretched : qk::grid::structured { using qk::grid::structured::structured; void write_vtk(std::ofstream &, const qk::basis::basis &) const {} void xc(const qk::indexer &, double *) const {} };
static double p2(double v, int e) { return std::ldexp(v, e); }
static int mass_units(Rng &g) { return g.chance(0.3) ? g.i(-150, -60) : g.chance(0.1) ? g.i(60, 150) : g.i(-60, 60); } // particles weigh 1e-27 or 1e-31 kg
static Units draw(Rng &g, int n) { Units U; auto e = [&] { return g.chance(0.25) ? 0 : g.chance(0.5) ? g.i(-n / 4, n / 4) : g.i(-n, n); }; do { U.l = e(); U.t = e(); U.r = e(); U.f = e(); } while (!U.l && !U.t && !U.r && !U.f); return U; }
// units in which no stored value becomes so small that the limiter's constant 1e-12 matters
static Units draw_limited(Rng &g, bool fl, bool fi, int lowest) { for (;;) { Units U = draw(g, 60); if (U.lowest(fl, fi) >= lowest && U.highest(fl, fi) <= 250) return U; } }
static World rescaled(const World &w, int l) { World z; z.nd = w.nd; for (int d = 0; d < 3; ++d) { z.L[d] = w.L[d]; z.lo[d] = w.lo[d]; z.start[d] = p2(w.start[d], l); z.width[d] = p2(w.width[d], l); } z.build(); return z; }
static Arr rescaled(const Arr &a, const std::vector<int> &e) { Arr b(a); b.each_all([&](const int *x) { for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) b.at(x, c, p) = p2(a.at(x, c, p), e[c]); }); return b; }
static std::vector<int> fluid_units(const Units &U) { std::vector<int> e; for (int c = 0; c < 5; ++c) e.push_back(U.fluid(c)); return e; }
static std::vector<int> field_units(const Units &U) { std::vector<int> e; for (int c = 0; c < 6; ++c) e.push_back(U.field(c)); return e; }
static std::vector<int> plus(std::vector<int> e, int k) { for (int &v : e) v += k; return e; }
static void worst(Ctx &ctx, const std::string &k, double e) { std::string n = k + ", worst relative difference in 1e-15 (max)"; ctx.cov[n] = std::max<uint64_t>(ctx.cov[n], (uint64_t)(e * 1e15)); }
// o: result in the first units, r: in the second
static void compare(const Arr &o, const Arr &r, const std::vector<int> &e, const std::vector<LD> &scale, double tol, bool interior, const std::string &what, const std::string &d, Ctx &ctx) {
    double w1 = 0; auto cell = [&](const int *x) { for (int p = 0; p < o.np; ++p) for (int c = 0; c < o.nc; ++c) { double a = o.at(x, c, p), b = p2(r.at(x, c, p), -e[c]), s = (double)scale[c]; if (same_val(a, b)) continue; double df = std::fabs(a - b); if (s > 0) w1 = std::max(w1, df / s);
        VF_CHECK(df <= tol * s + 1e-290 + p2(1e-300, -std::min(0, e[c])), "units", "%s: %s, component %d in cell %s is %.17g, in the other units it is %.17g (converted; scale %.3g)", d.c_str(), what.c_str(), c, cell_str(o, x).c_str(), a, b, s); } };
    if (interior) o.each_interior(cell); else o.each_all(cell);
    ctx.count("values compared", o.v.size()); ctx.count(what); worst(ctx, what, w1); }

static void simulation(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 120, 2, 0, 0.2); System S(w); int kind = g.i(0, 3); static const char *names[] = {"fluid", "field", "two-fluid plasma", "one-fluid plasma"};
    int nf = kind == 0 ? 1 : kind == 1 ? 0 : kind == 2 ? 2 : 1; bool field = kind != 0; S.coupled = kind >= 2; S.one_stage = g.chance(0.25); int low = -6; Units U = draw_limited(g, nf > 0, field, low);
    auto bcs = [&](bool fluid) { std::vector<BcSpec> b; for (int d = 0; d < w.nd; ++d) { int r = g.i(0, 4); b.push_back({r < 2 ? PERIODIC : r == 2 ? OUTFLOW : fluid ? (r == 3 ? NOSLIP : FREESLIP) : (d == 0 ? CONDUCTING : PERIODIC), {d}}); } g.shuffle(b); return b; };
    S.c = g.chance(0.3) ? 1. : g.sgn() * g.logd(0.3, 20); S.eps0 = g.logd(0.05, 2); double rate = field ? field_rate(w, S.c) : 0; std::vector<Arr> init; std::string d = w.str() + ", " + names[kind];
    for (int k = 0; k < nf; ++k) { double ga = g.chance(0.5) ? 5. / 3 : g.d(1.2, 2.2); Species s{true, ga, S.coupled ? (k ? 1. : -1.) * g.logd(0.2, 2) : 0., g.logd(0.1, 2), bcs(true)}; S.sp.push_back(s);
        variable_id q = fluid_id("tmp"); Arr a(w.shape(q)); static const int ks[] = {0, 1, 2, 3, 4, 6}; FluidGen G = fluid_state(g, a, ga, ks[g.i(0, 5)], false); d += " " + G.name; rate += fluid_rate(a, w, ga); if (S.coupled) rate += 3 * std::fabs(s.q / s.m) * (std::sqrt(2 / S.eps0) + 2); init.push_back(a); }
    if (field) { Species s{false, 0, 0, 1, bcs(false)}; S.sp.push_back(s); variable_id q = field_id("tmpf"); Arr a(w.shape(q)); d += " " + field_state(g, a, S.c, S.coupled ? g.i(0, 3) : g.i(0, 4)); if (S.coupled) { double mx = 0; for (double v : a.v) mx = std::max(mx, std::fabs(v)); for (double &v : a.v) v /= mx; } init.push_back(a); }
    double dt = g.d(0.05, S.one_stage ? 0.1 : 0.25) / rate; w.vm->set_dt(dt);
    World z = rescaled(w, U.l); System Z(z); Z.sp = S.sp; Z.coupled = S.coupled; Z.one_stage = S.one_stage; Z.c = p2(S.c, U.v()); Z.eps0 = p2(S.eps0, U.eps0()); int em = mass_units(g); for (auto &s : Z.sp) { s.m = p2(s.m, em); s.q = p2(s.q, em + U.qm()); }
    z.vm->set_dt(p2(dt, U.t)); d += fmt(", dt %.3g, ", dt) + U.str(); std::vector<std::vector<int>> e; for (auto &s : S.sp) e.push_back(s.fluid ? fluid_units(U) : field_units(U));
    std::vector<Arr> init2; for (size_t k = 0; k < init.size(); ++k) init2.push_back(rescaled(init[k], e[k])); Rng ga = g, gb = g; Program A(w, S, ga, "a_"), B(z, Z, gb, "b_"); bool junk = g.chance(0.3); A.start(init, ga, junk); B.start(init2, gb, junk);
    std::vector<LArr> m; for (auto &a : init) m.push_back(LArr(a)); int n = g.i(1, ctx.thorough ? 20 : 5); double tol = 1e-10 + 2e-10 * std::ldexp(1., -std::min(0, U.lowest(nf > 0, field)));
    for (int t = 0; t < n; ++t) {
        if (!S.step(m, dt)) { ctx.count("steps skipped (the scheme loses positivity)"); break; }
        A.step(); B.step(); ctx.count(std::string(names[kind]) + " steps"); VF_CHECK(same_val(p2(z.vm->time(), -U.t), w.vm->time()), "time", "%s: time %.17g, converted %.17g", d.c_str(), w.vm->time(), p2(z.vm->time(), -U.t));
        for (size_t k = 0; k < S.sp.size(); ++k) { Arr o = w.get(A.u[k][0]); std::vector<LD> s = scales(o, S.sp[k].fluid, S.c), si = scales(init[k], S.sp[k].fluid, S.c); for (size_t c = 0; c < s.size(); ++c) s[c] = std::max(s[c], si[c]); compare(o, z.get(B.u[k][0]), e[k], s, tol, true, S.sp[k].fluid ? "simulated fluids" : "simulated fields", d, ctx); } }
    ctx.seen(hash_bytes(init[0].v.data(), init[0].v.size() * 8, hash_str(d))); ctx.sample(d); }
static void advection(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 150, 2, 0, 0.2); int nc = g.i(1, 3), l = g.i(-60, 60), t = g.i(-60, 60); std::vector<int> e; for (int c = 0; c < nc; ++c) e.push_back(g.i(-6, 200)); World z = rescaled(w, l); std::vector<double> vel, vel2; double sp = 0; for (int d = 0; d < w.nd; ++d) { vel.push_back(g.chance(0.1) ? 0. : g.sgn() * g.logd(0.1, 10)); vel2.push_back(p2(vel[d], l - t)); sp += std::fabs(vel[d]) / w.dx(d); }
    double dt = g.d(0.05, 0.5) / (sp > 0 ? sp : 1.); w.vm->set_dt(dt); z.vm->set_dt(p2(dt, t)); variable_id a = vid("a", comps(nc)), b = vid("b", comps(nc)), c = vid("c", comps(nc)); Arr s(w.shape(a)); int k = g.i(0, 2); s.each_all([&](const int *x) { for (int q = 0; q < nc; ++q) s.at(x, q) = k == 0 ? g.d(-1, 1) : k == 1 ? std::sin(0.7 * x[0] + 0.3 * x[1] + 0.9 * x[2] + q) : (g.chance(0.2) ? 1. : 0.); });
    w.put(a, s); z.put(a, rescaled(s, e)); BcSpec bc{g.chance(0.6) ? PERIODIC : OUTFLOW, all_dims(w.nd)}; std::string d = fmt("advection on %s, lengths times 2^%d, times times 2^%d", w.str().c_str(), l, t); std::vector<LD> sc(nc, 1); int n = g.i(1, 5);
    auto step = [&](World &y, const std::vector<double> &v) { qk::solver::ssprk2_advection O; O.setup(v); O.add_input_variable(a); O.set_output_variables({b, c}); qk::solver::swap sw; sw.set_output_variables({a, c}); make_bc(bc, {a})->solve(*y.vm, 0); O.solve(*y.vm, 0); make_bc(bc, {b})->solve(*y.vm, 0); O.solve(*y.vm, 1); sw.solve(*y.vm, 0); };
    for (int i = 0; i < n; ++i) { step(w, vel); step(z, vel2); int lo = *std::min_element(e.begin(), e.end()); compare(w.get(a), z.get(a), e, sc, 1e-10 + 1e-9 * std::ldexp(1., -std::min(0, lo)), true, "advected profiles", d, ctx); }
    ctx.seen(hash_bytes(s.v.data(), s.v.size() * 8, hash_str(d))); ctx.sample(d); }
static void operators(Rng &g, Ctx &ctx) { // those without slopes: any units
    World w; random_grid(g, w, 120, 2, 0, 0.2); Units U = draw(g, 60); World z = rescaled(w, U.l); double dt = g.logd(1e-3, 1); w.vm->set_dt(dt); z.vm->set_dt(p2(dt, U.t)); int k = g.i(0, 4); std::string d = w.str() + ", " + U.str(); auto F = fluid_units(U), M = field_units(U);
    auto any = [&](int nc, double lo, double hi) { Arr a(w.shape(vid("tmp", comps(nc)))); a.each_all([&](const int *x) { for (int c = 0; c < nc; ++c) a.at(x, c) = c ? g.sgn() * g.logd(lo, hi) : g.logd(lo, hi); }); return a; };
    auto both = [&](const variable_id &i, const Arr &a, const std::vector<int> &e) { w.put(i, a); z.put(i, rescaled(a, e)); }; auto mag = [](const Arr &a) { double m = 0; for (double v : a.v) m = std::max(m, std::fabs(v)); return (LD)m; };
    if (k == 0) { variable_id q = fluid_id("q"), f = field_id("f"), r = fluid_id("r"); Arr a = any(5, 0.1, 10), b = any(6, 0.1, 10), c = any(5, 0.1, 10); both(q, a, F); both(f, b, M); both(r, c, plus(F, -U.t)); double qq = g.sgn() * g.logd(0.1, 10), m = g.logd(0.1, 10); int em = mass_units(g);
        qk::solver::lorentz_force A, B; A.setup(qq, m); B.setup(p2(qq, em + U.qm()), p2(m, em)); for (auto *o : {&A, &B}) { o->set_input_variables({q, f}); o->add_output_variable(r); } A.solve(*w.vm, 0); B.solve(*z.vm, 0); compare(w.get(r), z.get(r), plus(F, -U.t), std::vector<LD>(5, 200 * std::fabs(qq / m) + 10), 1e-12, false, "Lorentz forces", d, ctx);
    } else if (k == 1) { int n = g.i(1, 4); std::vector<double> Q, Ms, Q2, M2; std::vector<variable_id> in; LD s = 10; double eps = g.logd(0.05, 5); for (int i = 0; i < n; ++i) { variable_id q = fluid_id(fmt("q%d", i)); both(q, any(5, 0.1, 10), F); in.push_back(q); int em = mass_units(g); Q.push_back(g.chance(0.1) ? 0. : g.sgn() * g.logd(0.1, 10)); Ms.push_back(g.logd(0.1, 10)); Q2.push_back(p2(Q[i], em + U.qm())); M2.push_back(p2(Ms[i], em)); s += 10 * std::fabs(Q[i] / Ms[i]) / eps; }
        variable_id r = field_id("r"); both(r, any(6, 0.1, 10), plus(M, -U.t)); qk::solver::current_source A, B; A.setup(eps, Q, Ms); B.setup(p2(eps, U.eps0()), Q2, M2); for (auto *o : {&A, &B}) { o->set_input_variables(in); o->add_output_variable(r); } A.solve(*w.vm, 0); B.solve(*z.vm, 0); compare(w.get(r), z.get(r), plus(M, -U.t), std::vector<LD>(6, s), 1e-12, false, "currents", d, ctx);
    } else if (k == 2) { int nc = g.i(1, 6); std::vector<int> e; for (int c = 0; c < nc; ++c) e.push_back(g.i(-200, 200)); std::vector<variable_id> v; for (int i = 0; i < 5; ++i) { v.push_back(vid(fmt("v%d", i), comps(nc))); both(v[i], any(nc, 0.1, 10), i == 1 ? plus(e, -U.t) : e); } bool one = g.chance(0.4); int tag = one ? 0 : g.i(0, 2); std::unique_ptr<qk::solver::solver> A; if (one) A.reset(new qk::solver::rk1); else A.reset(new qk::solver::ssprk3);
        A->set_input_variables({v[0], v[1]}); A->add_output_variable(v[2]); if (!one) { A->add_output_variable(v[3]); A->add_output_variable(v[4]); } A->solve(*w.vm, tag); A->solve(*z.vm, tag); compare(w.get(v[2 + tag]), z.get(v[2 + tag]), e, std::vector<LD>(nc, 40), 1e-13, false, "time steps", d, ctx);
    } else if (k == 3) { Bc b = (Bc)g.i(0, 4); Dims ds = b == CONDUCTING ? Dims{0} : Dims(); if (b != CONDUCTING) for (int q = 0; q < w.nd; ++q) if (g.chance(0.7)) ds.push_back(q); std::vector<int> e = b == CONDUCTING ? M : b >= NOSLIP ? F : std::vector<int>(); int nc = (int)e.size(); if (!nc) { nc = g.i(1, 5); for (int c = 0; c < nc; ++c) e.push_back(g.i(-300, 300)); }
        variable_id v = vid("v", comps(nc)); Arr a = any(nc, 1e-3, 1e3); both(v, a, e); auto o = make_bc({b, ds}, {v}); o->solve(*w.vm, 0); o->solve(*z.vm, 0); compare(w.get(v), z.get(v), e, std::vector<LD>(nc, mag(a)), 1e-15, false, "boundary values", d, ctx);
    } else { // positions in the grids
        int n = 0; double o[3], y[3]; const qk::grid::rectilinear &a = *w.grid, &b = *z.grid; variable_id v = vid("v", comps(1)); qk::data::extended_datachunk &c = chunk_of(w.vm->output_variable(v)); qk::range rr = c.range(); for (qk::indexer i = c.indexer(rr); i.exists(); i.next()) { o[0] = o[1] = o[2] = y[0] = y[1] = y[2] = 0; a.xc(i, o); b.xc(i, y); for (int q = 0; q < w.nd; ++q, ++n) { double want = p2(o[q], U.l); VF_CHECK(std::fabs(y[q] - want) <= 1e-14 * p2(std::fabs(w.start[q]) + 4 * w.width[q], U.l), "centres", "%s: centre of cell %d along %d is %.17g, in the other units %.17g", d.c_str(), i[q], q, o[q], y[q]); } }
        std::vector<int> L(w.nd); for (int q = 0; q < w.nd; ++q) L[q] = w.L[q]; qk::range r(w.nd, L.data()); Stretched s(r, w.start, w.width), t(r, z.start, z.width); std::string bs; for (int q = 0; q < w.nd; ++q) if (L[q] > 1 && g.chance(0.7)) { double p = g.d(0.4, 3); bool sym = L[q] % 2 == 0 && g.chance(0.5); if (sym) { s.apply_bias_symmetric(q, p); t.apply_bias_symmetric(q, p); } else { s.apply_bias_linear(q, p); t.apply_bias_linear(q, p); } bs += fmt(" %s %.3g", sym ? "symmetric" : "linear", p); }
        for (int q = 0; q < w.nd; ++q) { VF_CHECK(std::fabs(b.dx(q) - p2(a.dx(q), U.l)) <= 1e-15 * b.dx(q), "widths", "%s: width %.17g, in the other units %.17g", d.c_str(), a.dx(q), b.dx(q)); for (int i = 0; i < L[q]; ++i, ++n) { double s1 = p2(w.width[q], U.l), s0 = p2(std::fabs(w.start[q]), U.l) + s1; VF_CHECK(std::fabs(t.dx(q, i) - p2(s.dx(q, i), U.l)) <= 1e-12 * s1 && std::fabs(t.centroid(q, i) - p2(s.centroid(q, i), U.l)) <= 1e-12 * s0, "stretched", "%s, stretched%s: cell %d along %d has width %.17g and centre %.17g, in the other units %.17g and %.17g", d.c_str(), bs.c_str(), i, q, s.dx(q, i), s.centroid(q, i), t.dx(q, i), t.centroid(q, i)); } }
        ctx.count("positions compared", n); }
    ctx.seen(hash_str(d) + k); ctx.sample(d); }
static void conditions(Rng &g, Ctx &ctx) { // initial conditions
    World w; random_grid(g, w, 150, 2, 0, 0.2); if (g.chance(0.5)) { for (int d = 0; d < 3; ++d) w.start[d] = -0.5 * w.width[d]; w.build(); } int k = g.i(0, 6); Units U = draw(g, 60); if (k == 2 || k == 3) U.r = U.t = 0, U.t = U.l; if (k == 6) U.l = 0; World z = rescaled(w, U.l); int l = U.l; std::string d = w.str() + ", " + U.str(); double W = std::max(w.width[0], std::max(w.nd > 1 ? w.width[1] : 0., w.nd > 2 ? w.width[2] : 0.));
    std::unique_ptr<qk::solver::solver> A, B; std::vector<variable_id> out; std::vector<std::vector<int>> e; const char *what = ""; auto F = fluid_units(U), M = field_units(U);
    if (k == 0) { what = "Gaussians"; int nc = g.i(1, 3), s = g.i(-300, 300); double amp = g.sgn() * g.logd(1e-2, 1e2), sd = W * g.logd(0.05, 2); std::vector<double> av, av2; for (int q = g.i(0, 3); q > 0; --q) { av.push_back(W * g.d(-1, 1)); av2.push_back(p2(av.back(), l)); } auto *a = new qk::solver::gaussian, *b = new qk::solver::gaussian; a->setup(amp, av, sd); b->setup(p2(amp, s), av2, p2(sd, l)); A.reset(a); B.reset(b); out = {vid("o", comps(nc))}; e = {std::vector<int>(nc, s)}; }
    else if (k == 1) { what = "magnetic pulses"; double amp = g.sgn() * g.logd(1e-2, 1e2), sd = W * W * g.logd(0.05, 2); auto *a = new qk::solver::magnetic_pulse, *b = new qk::solver::magnetic_pulse; a->setup(amp, sd); b->setup(p2(amp, U.f), p2(sd, 2 * l)); A.reset(a); B.reset(b); out = {field_id("o")}; e = {M}; }
    else if (k == 2) { what = "shock tubes"; double rj = g.logd(0.01, 10), pj = g.logd(0.01, 10), ga = g.d(1.1, 3); for (auto *p : {&A, &B}) { auto *a = new qk::solver::shock_tube; a->setup(rj, pj, ga); p->reset(a); } out = {fluid_id("o")}; e = {F}; }
    else if (k == 3) { what = "radial shock tubes"; double R = W * g.logd(0.05, 2), rj = g.logd(0.01, 10), pj = g.logd(0.01, 10), ga = g.d(1.1, 3); std::vector<double> ce, c2; for (int q = g.i(0, 3); q > 0; --q) { ce.push_back(W * g.d(-1, 1)); c2.push_back(p2(ce.back(), l)); } auto *a = new qk::solver::radial_shock_tube, *b = new qk::solver::radial_shock_tube; a->setup(R, rj, pj, ga, ce); b->setup(p2(R, l), rj, pj, ga, c2); A.reset(a); B.reset(b); out = {fluid_id("o")}; e = {F}; }
    else if (k == 4) { what = "plane waves"; int dim = g.i(0, w.nd - 1); double c = g.sgn() * g.logd(0.1, 1e3), kk = g.sgn() * g.logd(0.2, 50) / W, b0[3]; for (double &b : b0) b = g.chance(0.2) ? 0. : g.sgn() * g.logd(0.01, 10); auto *a = new qk::solver::electromagnetic_wave_1D, *b = new qk::solver::electromagnetic_wave_1D; a->setup(dim, c, kk, b0[0], b0[1], b0[2]); b->setup(dim, p2(c, U.v()), p2(kk, -l), p2(b0[0], U.f), p2(b0[1], U.f), p2(b0[2], U.f)); A.reset(a); B.reset(b); out = {field_id("o")}; e = {M}; }
    else if (k == 5) { what = "two-fluid shock tubes"; int n = g.i(-40, 40), m = U.r - n; double ga = g.d(1.1, 3), me = g.logd(1e-3, 1), mi = g.logd(0.1, 10), nl = g.logd(0.1, 10), nr = g.logd(0.1, 10), Pl = g.logd(0.1, 10), Pr = g.logd(0.1, 10), Bx = g.d(-2, 2), By = g.d(-2, 2); int pe = U.fluid(4); auto *a = new qk::solver::brio_wu_shock_tube, *b = new qk::solver::brio_wu_shock_tube; a->setup(ga, me, mi, nl, nr, Pl, Pr, Bx, By); b->setup(ga, p2(me, m), p2(mi, m), p2(nl, n), p2(nr, n), p2(Pl, pe), p2(Pr, pe), p2(Bx, U.f), p2(By, U.f)); A.reset(a); B.reset(b); out = {fluid_id("e"), fluid_id("i"), field_id("f")}; e = {F, F, M}; }
    else { what = "current sheets"; int n = g.i(-40, 40), m = U.r - n, T = m + 2 * U.v(), q = T - U.v() - U.f; double lam = W * g.logd(0.1, 2), Lx = W * g.logd(0.3, 3), n0 = g.logd(0.1, 10), n1 = n0 * g.logd(0.01, 1), ga = g.d(1.1, 3), qe = -g.logd(0.1, 10), me = g.logd(0.01, 1), Te = g.logd(0.1, 10), qi = g.logd(0.1, 10), mi = g.logd(0.1, 10), Ti = g.logd(0.1, 10), B0 = g.sgn() * g.logd(0.1, 10); auto *a = new qk::solver::gem_challenge, *b = new qk::solver::gem_challenge;
        a->setup(lam, Lx, n0, n1, ga, qe, me, 0, Te, qi, mi, 0, Ti, B0); b->setup(lam, Lx, p2(n0, n), p2(n1, n), ga, p2(qe, q), p2(me, m), 0, p2(Te, T), p2(qi, q), p2(mi, m), 0, p2(Ti, T), p2(B0, U.f)); A.reset(a); B.reset(b); out = {fluid_id("e"), fluid_id("i"), field_id("f")}; e = {F, F, M}; } // the perturbation's amplitude fixes the unit of length
    A->set_output_variables(out); B->set_output_variables(out); A->solve(*w.vm, 0); B->solve(*z.vm, 0);
    for (size_t i = 0; i < out.size(); ++i) { Arr o = w.get(out[i]); std::vector<LD> s(o.nc, 0); for (int c = 0; c < o.nc; ++c) o.each_interior([&](const int *x) { s[c] = std::max<LD>(s[c], std::fabs(o.at(x, c))); }); compare(o, z.get(out[i]), e[i], s, 1e-12, true, what, d, ctx); }
    ctx.seen(hash_str(d) + k); ctx.sample(std::string(what) + " on " + d); }
void vf_case(Rng &g, Ctx &ctx) { switch (g.i(0, 7)) { case 0: case 1: case 2: simulation(g, ctx); break; case 3: advection(g, ctx); break; case 4: case 5: operators(g, ctx); break; default: conditions(g, ctx); } }
