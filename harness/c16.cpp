// C16: time integrators perform the exact SSP Runge-Kutta combinations.
#define QKW_HUGE 0.0005
#include "ref.h"
using namespace vf; using namespace qkw; using namespace ref;
static double val(Rng &g) { return g.chance(0.1) ? 0. : g.chance(0.8) ? g.d(-3, 3) : g.sgn() * g.logd(1e-100, 1e100); }
static void stages(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 120, 1, 0, 0.2); int nc = g.i(1, 7);
    std::vector<variable_id> id; const char *nm[] = {"q0", "q1", "q2", "q3", "rhs", "extra"}; for (auto n : nm) id.push_back(vid(n, comps(nc)));
    qk::basis::basis b2("points", 2); if (g.chance(0.1)) { id.clear(); for (auto n : nm) id.push_back(variable_id(n, comps(nc), b2)); }
    std::vector<Arr> m; for (auto &i : id) { Arr a(w.shape(i)); randomise(a, g, val); w.put(i, a); m.push_back(a); }
    bool three = g.chance(0.7); std::string hist, d = w.str() + fmt(" %d components, %s", nc, three ? "three-stage" : "one-stage");
    std::unique_ptr<qk::solver::solver> s; if (three) s.reset(new qk::solver::ssprk3); else s.reset(new qk::solver::rk1);
    s->set_input_variables({id[0], id[4]}); if (three) s->set_output_variables({id[1], id[2], id[3]}); else s->set_output_variables({id[1]});
    if (g.chance(0.15)) s->add_output_variable(id[5]); // extra outputs are not part of the scheme
    for (int k = g.i(0, 2); k > 0; --k) warm(g, w, *s, id, three ? g.i(0, 2) : 0, ctx, 0.3, true);
    for (int st = g.i(1, 8); st > 0; --st) {
        double dt = g.chance(0.1) ? 0. : g.chance(0.2) ? -g.logd(1e-6, 2) : g.chance(0.1) ? g.logd(1e-40, 1e40) : g.logd(1e-9, 2); w.vm->set_dt(dt); w.vm->set_time(g.d(0, 100));
        if (g.chance(0.4)) { int k = g.chance(0.5) ? 4 : 0; randomise(m[k], g, val); w.put(id[k], m[k]); }
        int tag = three ? g.i(0, 2) : 0; if (g.chance(0.07)) tag = three ? g.pick(std::vector<int>{3, -1, 9}) : g.pick(std::vector<int>{1, 2, -1});
        s->solve(*w.vm, tag); hist += fmt("%d(dt %.3g) ", tag, dt); ctx.count(fmt("%s stage %s", three ? "three-stage" : "one-stage", tag < 0 || tag > (three ? 2 : 0) ? "none" : fmt("%d", tag).c_str()));
        int dst = three ? (tag >= 0 && tag <= 2 ? tag + 1 : -1) : (tag == 0 ? 1 : -1);
        for (size_t v = 0; v < id.size(); ++v) {
            Arr o = w.get(id[v]);
            if ((int)v != dst) { VF_CHECK(!std::memcmp(o.v.data(), m[v].v.data(), o.v.size() * 8), "other-changed", "%s: stage %d changed %s", d.c_str(), tag, nm[v]); continue; }
            for (size_t k = 0; k < o.v.size(); ++k) {
                LD u0 = m[0].v[k], u1 = m[1].v[k], u2 = m[2].v[k], R = (LD)dt * m[4].v[k], want, mg;
                if (tag == 0) { want = u0 + R; mg = std::fabs(u0) + std::fabs(R); }
                else if (tag == 1) { want = 0.75L * u0 + 0.25L * u1 + 0.25L * R; mg = std::fabs(u0) + std::fabs(u1) + std::fabs(R); }
                else { want = (u0 + 2 * (u2 + R)) / 3; mg = std::fabs(u0) + std::fabs(u2) + std::fabs(R); }
                VF_CHECK(std::fabs((LD)o.v[k] - want) <= 4 * UEPS * mg + 1e-300L, "combination", "%s: stage %d, value #%zu is %.17g, expected %.17g (u0 %.6g u1 %.6g u2 %.6g dt %.6g R %.6g)", d.c_str(), tag, k, o.v[k], (double)want, m[0].v[k], m[1].v[k], m[2].v[k], dt, m[4].v[k]);
            }
            m[v] = o; ctx.count("values compared", o.v.size());
        }
    }
    ctx.seen(d + hist); ctx.sample(d + ": stages " + hist);
}
// drive du/dt = A(t) u with the library's integrator and measure the order of accuracy
static void order(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 6, 1, 1); bool three = g.chance(0.6); int nc = 2;
    std::vector<variable_id> id; const char *nm[] = {"u", "u1", "u2", "u3", "R"}; for (auto n : nm) id.push_back(vid(n, comps(nc)));
    double om = g.d(0.5, 2), la = g.d(-1, 1), T = g.d(0.5, 1.5); double x0 = g.d(0.5, 1), y0 = g.d(-1, 1); Shape sh = w.shape(id[0]);
    auto run = [&](int n) {
        Arr u(sh); for (size_t k = 0; k < u.v.size(); k += 2) { u.v[k] = x0; u.v[k + 1] = y0; } w.put(id[0], u); for (int v = 1; v < 5; ++v) w.put(id[v], Arr(sh));
        double t = 0; std::unique_ptr<qk::solver::solver> s; if (three) s.reset(new qk::solver::ssprk3); else s.reset(new qk::solver::rk1);
        s->set_input_variables({id[0], id[4]}); if (three) s->set_output_variables({id[1], id[2], id[3]}); else s->set_output_variables({id[1]});
        qk::solver::swap sw; sw.set_output_variables({id[0], id[three ? 3 : 1]});
        std::vector<double> dts; for (int k = 0; k < n; ++k) dts.push_back(T / n * (1 + 0.3 * std::sin(6.283185307179586 * (k + 0.5) / n))); // smoothly varying steps
        for (int k = 0; k < n; ++k) { w.vm->set_dt(dts[k]);
            for (int st = 0; st < (three ? 3 : 1); ++st) { Arr c = w.get(id[st]); for (size_t j = 0; j < c.v.size(); j += 2) { double a = c.v[j], b = c.v[j + 1]; c.v[j] = la * a - om * b; c.v[j + 1] = om * a + la * b; } w.put(id[4], c); s->solve(*w.vm, st); }
            sw.solve(*w.vm, 0); t += dts[k]; }
        double ex = std::exp(la * t), e = 0; Arr f = w.get(id[0]);
        for (size_t j = 0; j < f.v.size(); j += 2) e = std::max(e, std::hypot(f.v[j] - ex * (x0 * std::cos(om * t) - y0 * std::sin(om * t)), f.v[j + 1] - ex * (x0 * std::sin(om * t) + y0 * std::cos(om * t))));
        return e; };
    double e1 = run(20), e2 = run(40), p = std::log2(e1 / e2), want = three ? 3 : 1;
    VF_CHECK(p > want - 0.35, "order", "%s integrator converges with order %.3f (errors %.3g, %.3g; omega %g lambda %g)", three ? "three-stage" : "one-stage", p, e1, e2, om, la);
    // zero rate
    Arr z(sh); randomise(z, g, val); w.put(id[0], z); w.put(id[4], Arr(sh)); w.vm->set_dt(g.d(0, 10));
    std::unique_ptr<qk::solver::solver> s; if (three) s.reset(new qk::solver::ssprk3); else s.reset(new qk::solver::rk1);
    s->set_input_variables({id[0], id[4]}); s->set_output_variables(three ? std::vector<variable_id>{id[1], id[2], id[3]} : std::vector<variable_id>{id[1]});
    for (int st = 0; st < (three ? 3 : 1); ++st) s->solve(*w.vm, st);
    Arr o = w.get(id[three ? 3 : 1]); for (size_t k = 0; k < o.v.size(); ++k) VF_CHECK(std::fabs(o.v[k] - z.v[k]) <= 4 * UEPS * std::fabs(z.v[k]), "zero-rate", "zero rate turns %.17g into %.17g", z.v[k], o.v[k]);
    ctx.count(three ? "third-order convergences" : "first-order convergences"); ctx.seen(fmt("order %d %.17g %.17g", three, om, la)); ctx.sample(fmt("%s integrator: measured order %.3f", three ? "three-stage" : "one-stage", p));
}
void vf_case(Rng &g, Ctx &ctx) { if (g.chance(0.12)) order(g, ctx); else stages(g, ctx); }
