// C17: advection transports every component upwind with the limited SSPRK2 scheme.
#define QKW_HUGE 0.0005
#include "ref.h"
using namespace vf; using namespace qkw; using namespace ref;
static std::vector<double> velocity(Rng &g, int nd) { std::vector<double> v; double u = g.chance(0.2) ? g.logd(1e-12, 1e9) : 1.; for (int d = 0; d < nd; ++d) v.push_back(g.chance(0.2) ? 0. : g.sgn() * u * g.logd(0.05, 20)); if (g.chance(0.2)) v.push_back(7.); return v; }
static void state(Rng &g, Arr &a) {
    int kind = g.i(0, 5); double sg = g.logd(0.03, 1), ctr = g.d(0, 6); double k[3], base = g.chance(0.5) ? 0. : g.d(-5, 5), sc = g.chance(0.8) ? 1. : g.logd(1e-6, 1e6); for (double &x : k) x = g.d(0.2, 1.5); int ax = g.i(0, a.nd - 1), cut = g.i(-1, a.L[ax]);
    a.each_all([&](const int *x) { for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) { double v = 0; switch (kind) { case 0: v = base + c; break; case 1: v = base + std::sin(k[0] * x[0] + k[1] * x[1] + k[2] * x[2] + c + p); break; case 2: v = g.d(-1, 1); break; case 3: v = x[ax] < cut ? 1 + c : base; break; case 4: v = g.chance(0.2) ? g.d(0, 1) : 0.; break; case 5: { double r2 = 0; for (int d = 0; d < a.nd; ++d) r2 += (x[d] - ctr) * (x[d] - ctr); v = std::exp(-r2 * sg); break; } } a.at(x, c, p) = v * sc; } });
}
struct Solver { World &w; variable_id a, b, c; qk::solver::ssprk2_advection s;
    Solver(World &w_, const variable_id &a_, const variable_id &b_, const variable_id &c_, const std::vector<double> &v) : w(w_), a(a_), b(b_), c(c_) { s.setup(v); s.add_input_variable(a); s.add_output_variable(b); s.add_output_variable(c); } };
// interior of one stage against the model
static void compare(const Arr &o, const LArr &want, const LArr &mag, const char *what, const std::string &d, Ctx &ctx) {
    o.each_interior([&](const int *x) { for (int p = 0; p < o.np; ++p) for (int c = 0; c < o.nc; ++c) {
        LD m = mag.at(x, c, p); VF_CHECK(std::fabs((LD)o.at(x, c, p) - want.at(x, c, p)) <= 1e-13L * m + 1e-300L, what, "%s: %s of component %d in cell %s is %.17g, expected %.17g", d.c_str(), what, c, cell_str(o, x).c_str(), o.at(x, c, p), (double)want.at(x, c, p)); }
        ctx.count("cells compared"); }); }
static LArr absof(const LArr &a) { LArr b = a; for (LD &x : b.v) x = std::fabs(x); return b; }
void vf_case(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 220, 2, 0, 0.2); int nc = g.i(1, 5), np = g.chance(0.15) ? 2 : 1; std::vector<double> vel = velocity(g, w.nd);
    qk::basis::basis bs = np == 1 ? (qk::basis::basis)qk::basis::volume_average() : qk::basis::basis("pts", np);
    variable_id a("n0", comps(nc), bs), b("n1", comps(nc), bs), c("n2", comps(nc), bs);
    double cfl = g.logd(0.01, 0.9), vm = 0; for (int d = 0; d < w.nd; ++d) vm += std::fabs(vel[d]) / w.dx(d); double dt = vm > 0 ? cfl / vm : cfl; w.vm->set_dt(dt); w.vm->set_time(g.d(0, 1));
    std::string d = w.str() + fmt(" %d comps, %d points, velocity", nc, np); for (int k = 0; k < w.nd; ++k) d += fmt(" %.3g", vel[k]);
    Arr s0(w.shape(a)), junk(w.shape(a)); state(g, s0); if (g.chance(0.3)) poison_corners(s0); randomise(junk, g, weird_value);
    bool again = g.chance(0.25); Solver S(w, a, b, c, again ? velocity(g, w.nd) : vel); w.put(a, s0); w.put(b, s0); w.put(c, s0); warm(g, w, S.s, {a, b, c}, g.i(0, 1), ctx); if (again) { S.s.setup(vel); ctx.count("set up twice"); }
    // single stages, arbitrary ghosts
    w.put(a, s0); w.put(b, junk); w.put(c, junk); S.s.solve(*w.vm, 0);
    { LArr want(s0), mg = absof(LArr(s0)); advect(want, LArr(s0), w, vel, dt, &mg); compare(w.get(b), want, mg, "stage 1", d, ctx); }
    VF_CHECK(!std::memcmp(w.get(a).v.data(), s0.v.data(), s0.v.size() * 8), "input", "%s: stage 1 changed its input", d.c_str());
    VF_CHECK(!std::memcmp(w.get(c).v.data(), junk.v.data(), s0.v.size() * 8), "other", "%s: stage 1 changed the final output", d.c_str());
    Arr s1(w.shape(a)); state(g, s1); if (g.chance(0.3)) poison_corners(s1); w.put(b, s1); S.s.solve(*w.vm, 1);
    { LArr want(s0), mg = absof(LArr(s0)); for (size_t k = 0; k < want.v.size(); ++k) { want.v[k] = 0.5L * (want.v[k] + s1.v[k]); mg.v[k] += std::fabs(s1.v[k]); } advect(want, LArr(s1), w, vel, 0.5L * dt, &mg); compare(w.get(c), want, mg, "stage 2", d, ctx); }
    VF_CHECK(!std::memcmp(w.get(a).v.data(), s0.v.data(), s0.v.size() * 8) && !std::memcmp(w.get(b).v.data(), s1.v.data(), s0.v.size() * 8), "input", "%s: stage 2 changed its inputs", d.c_str());
    { Arr x = w.get(c); S.s.solve(*w.vm, 7); VF_CHECK(!std::memcmp(w.get(c).v.data(), x.v.data(), x.v.size() * 8) && !std::memcmp(w.get(b).v.data(), s1.v.data(), x.v.size() * 8), "tag", "%s: an unknown stage changed data", d.c_str()); }
    // mirrored problem
    { int ax = g.i(0, w.nd - 1); if (vel[ax] != 0.) { Arr m = s0; s0.each_all([&](const int *x) { int y[3] = {x[0], x[1], x[2]}; y[ax] = w.L[ax] - 1 - x[ax]; for (int p = 0; p < np; ++p) for (int q = 0; q < nc; ++q) m.at(y, q, p) = s0.at(x, q, p); });
        w.put(a, s0); w.put(b, junk); S.s.solve(*w.vm, 0); Arr o1 = w.get(b); std::vector<double> v2 = vel; v2[ax] = -v2[ax]; Solver M(w, a, b, c, v2); w.put(a, m); w.put(b, junk); M.s.solve(*w.vm, 0); Arr o2 = w.get(b);
        LArr mg = absof(LArr(s0)), dummy(s0); advect(dummy, LArr(s0), w, vel, dt, &mg);
        o1.each_interior([&](const int *x) { int y[3] = {x[0], x[1], x[2]}; y[ax] = w.L[ax] - 1 - x[ax]; for (int p = 0; p < np; ++p) for (int q = 0; q < nc; ++q) VF_CHECK(std::fabs(o1.at(x, q, p) - o2.at(y, q, p)) <= 1e-13 * (double)mg.at(x, q, p) + 1e-300, "mirror", "%s: mirrored along %d: %.17g vs %.17g", d.c_str(), ax, o1.at(x, q, p), o2.at(y, q, p)); });
        ctx.count("mirrored problems"); } }
    // periodic history: conservation, constants, zero velocity
    { std::vector<int> dims; for (int k = 0; k < w.nd; ++k) dims.push_back(k);
      int kind = g.i(0, 3); Arr st(w.shape(a)); if (kind == 0) { for (size_t k = 0; k < st.v.size(); ++k) st.v[k] = 1.7 + (k % nc); } else state(g, st);
      std::vector<double> v = vel; if (kind == 1) std::fill(v.begin(), v.end(), 0.); Solver H(w, a, b, c, v); w.put(a, st); w.put(b, junk); w.put(c, junk);
      qk::solver::bc_periodic p0, p1; p0.setup(dims); p1.setup(dims); p0.add_output_variable(a); p1.add_output_variable(b); qk::solver::swap sw; sw.set_output_variables({a, c});
      int n = g.i(1, ctx.thorough ? 25 : 6);
      for (int k = 0; k < n; ++k) { p0.solve(*w.vm); H.s.solve(*w.vm, 0); p1.solve(*w.vm); H.s.solve(*w.vm, 1); sw.solve(*w.vm, 0); ctx.count("full steps"); }
      Arr f = w.get(a); double amp = 0; st.each_interior([&](const int *x) { for (int p = 0; p < np; ++p) for (int q = 0; q < nc; ++q) amp = std::max(amp, std::fabs(st.at(x, q, p))); });
      for (int p = 0; p < np; ++p) for (int q = 0; q < nc; ++q) { LD s = 0, t = 0; st.each_interior([&](const int *x) { s += st.at(x, q, p); t += f.at(x, q, p); });
          VF_CHECK(std::fabs(s - t) <= 1e-13L * amp * st.cells() * (n + 1) * 4, "conserved", "%s: total of component %d went from %.17g to %.17g in %d steps", d.c_str(), q, (double)s, (double)t, n); ctx.count("totals compared"); }
      if (kind <= 1) { f.each_interior([&](const int *x) { for (int p = 0; p < np; ++p) for (int q = 0; q < nc; ++q) VF_CHECK(std::fabs(f.at(x, q, p) - st.at(x, q, p)) <= 1e-13 * (n + 1) * std::fabs(st.at(x, q, p)), "steady", "%s: %s changed from %.17g to %.17g", d.c_str(), kind ? "zero velocity state" : "constant state", st.at(x, q, p), f.at(x, q, p)); }); ctx.count(kind ? "zero-velocity histories" : "constant histories"); } }
    for (int k = 0; k < w.nd; ++k) ctx.count(fmt("axis %d velocity %s", k, vel[k] > 0 ? "positive" : vel[k] < 0 ? "negative" : "zero"));
    ctx.seen(hash_bytes(s0.v.data(), s0.v.size() * 8, hash_str(d))); ctx.sample(d + fmt(", dt %.3g", dt));
}
