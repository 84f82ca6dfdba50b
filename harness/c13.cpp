// C13: fluid rate of change is the limited HLL flux balance.
#define QKW_HUGE 0.0005
#include "ref.h"
using namespace vf; using namespace qkw; using namespace ref;
void vf_case(Rng &g, Ctx &ctx) {
    phys_floor() = 1e-9L;
    World w; random_grid(g, w, 260, 2, 0, 0.2);
    double gamma = g.chance(0.3) ? 1.4 : g.chance(0.3) ? 5. / 3 : g.chance(0.2) ? 2. : g.d(1.05, 3.);
    variable_id q = fluid_id("q"), r = fluid_id("rhs");
    Arr a(w.shape(q)); int fk = g.chance(0.05) ? 7 : g.chance(0.1) ? 8 : g.chance(0.06) ? 11 : -1; if (fk == 11) gamma = 2; FluidGen G = fluid_state(g, a, gamma, fk); if (g.chance(0.3)) poison_corners(a);
    w.put(q, a);
    Rates R; euler_rates(LArr(a), w, gamma, R);
    Arr prior(w.shape(r)); bool zero = g.chance(0.3);
    // prior contents of a size comparable to the rates, so that replacing instead of adding shows up and rounding does not hide anything
    for (size_t k = 0; k < prior.v.size(); ++k) { double m = (double)R.mag.v[k]; prior.v[k] = zero ? 0. : g.d(-1, 1) * (m > 0 ? m : 1.); }
    w.put(r, prior); w.vm->set_dt(g.logd(1e-6, 1)); w.vm->set_time(g.d(0, 5));
    qk::solver::euler s; bool again = g.chance(0.25); s.setup(again ? g.d(1.05, 3.) : gamma); s.add_input_variable(q); s.add_output_variable(r);
    warm(g, w, s, {q, r}, 0, ctx, 0.25, true); if (again) { s.setup(gamma); ctx.count("set up twice"); }
    s.solve(*w.vm);
    Arr out = w.get(r); double worst = 0; long n = 0;
    a.each_interior([&](const int *x) {
        if (R.bad[cell_no(a, x)]) { ctx.count("cells skipped (colliding or unphysical face)"); return; }
        for (int c = 0; c < 5; ++c) {
            LD want = prior.at(x, c) + R.r.at(x, c), scale = R.mag.at(x, c) + std::fabs(prior.at(x, c)); double err = (double)(std::fabs((LD)out.at(x, c) - want));
            if (scale > 0) worst = std::max(worst, err / (double)scale);
            VF_CHECK(err <= 4e-14 * (double)scale, "rate", "%s, gamma %g, %s state: rate of component %d in cell %s is %.17g, expected %.17g (term size %.3g, prior %.6g)",
                     w.str().c_str(), gamma, G.name.c_str(), c, cell_str(a, x).c_str(), out.at(x, c), (double)want, (double)scale, prior.at(x, c));
        }
        ++n; });
    Arr qa = w.get(q); VF_CHECK(!std::memcmp(qa.v.data(), a.v.data(), a.v.size() * sizeof(double)), "input", "the fluid operator changed its input");
    ctx.count("cells compared", n);
    static const char *nm[] = {"subsonic", "supersonic upward", "supersonic downward", "colliding", "unphysical"};
    for (int d = 0; d < w.nd; ++d) for (int k = 0; k < 5; ++k) if (R.faces[d][k]) ctx.count(fmt("faces axis %d %s", d, nm[k]), R.faces[d][k]);
    ctx.count("state " + G.name); ctx.cov["worst error in 1e-16 of the term size (max)"] = std::max<uint64_t>(ctx.cov["worst error in 1e-16 of the term size (max)"], (uint64_t)(worst * 1e16));
    if (n) ctx.seen(hash_bytes(a.v.data(), a.v.size() * sizeof(double)));
    ctx.sample(fmt("%s, gamma %.3g, %s state, %ld cells compared, worst error %.2g of the term size", w.str().c_str(), gamma, G.name.c_str(), n, worst));
}
