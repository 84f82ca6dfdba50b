// C14: field rate of change is the limited Rusanov flux balance of Maxwell's equations.
#define QKW_HUGE 0.0005
#include "ref.h"
using namespace vf; using namespace qkw; using namespace ref;
void vf_case(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 260, 2, 0, 0.2);
    double c = g.chance(0.2) ? 1. : g.chance(0.2) ? 299792458. : g.chance(0.05) ? 0. : g.chance(0.2) ? g.logd(1e-6, 1e9) : g.logd(0.01, 100); if (g.chance(0.4)) c = -c;
    variable_id q = field_id("f"), r = field_id("rhs");
    Arr a(w.shape(q)); std::string name = field_state(g, a, c, g.chance(0.08) ? 6 : -1); bool along = false; int axis = -1;
    if (g.chance(0.25)) { // components along an axis vary along that axis only: they must contribute nothing
        along = true; axis = g.i(0, w.nd - 1); Arr b(w.shape(q));
        b.each_all([&](const int *x) { b.at(x, axis) = std::sin(1.3 * x[axis]) * 3; b.at(x, 3 + axis) = std::cos(0.7 * x[axis]); }); a = b; name = fmt("longitudinal along %d", axis);
    }
    if (g.chance(0.3)) poison_corners(a);
    w.put(q, a);
    Rates R; maxwell_rates(LArr(a), w, c, R);
    Arr prior(w.shape(r)); bool zero = along || g.chance(0.3);
    for (size_t k = 0; k < prior.v.size(); ++k) { double m = (double)R.mag.v[k]; prior.v[k] = zero ? 0. : g.d(-1, 1) * (m > 0 && m < 1e300 ? m : 1.); }
    auto run = [&](double cc) { w.put(r, prior); qk::solver::maxwell s; if (!(cc == 1. && g.chance(0.5))) { if (g.chance(0.2)) s.setup(g.logd(0.01, 1e3)); s.setup(cc); } s.add_input_variable(q); s.add_output_variable(r); warm(g, w, s, {q, r}, 0, ctx, 0.25, true); s.solve(*w.vm); return w.get(r); };
    Arr out = run(c), neg = run(-c); double worst = 0; long n = 0;
    a.each_interior([&](const int *x) {
        for (int k = 0; k < 6; ++k) {
            LD want = prior.at(x, k) + R.r.at(x, k), scale = R.mag.at(x, k) + std::fabs(prior.at(x, k)); double err = (double)std::fabs((LD)out.at(x, k) - want);
            if (scale > 0) worst = std::max(worst, err / (double)scale);
            VF_CHECK(err <= 1e-13 * (double)scale, "rate", "%s, c %g, %s field: rate of component %d in cell %s is %.17g, expected %.17g (term size %.3g, prior %.6g)",
                     w.str().c_str(), c, name.c_str(), k, cell_str(a, x).c_str(), out.at(x, k), (double)want, (double)scale, prior.at(x, k));
            VF_CHECK(std::fabs(neg.at(x, k) - out.at(x, k)) <= 1e-13 * (double)scale, "sign-of-c", "%s: c=%g and c=%g give %.17g and %.17g", w.str().c_str(), c, -c, out.at(x, k), neg.at(x, k));
            if (along) VF_CHECK(out.at(x, k) == 0. || k % 3 != axis, "longitudinal", "%s: component %d varying along its own axis changes at rate %.17g", w.str().c_str(), k, out.at(x, k));
        }
        ++n; });
    Arr qa = w.get(q); VF_CHECK(!std::memcmp(qa.v.data(), a.v.data(), a.v.size() * sizeof(double)), "input", "the field operator changed its input");
    ctx.count("cells compared", n); ctx.count(along ? "field longitudinal" : "field " + name); ctx.count(fmt("%d-D grids", w.nd)); if (c < 0) ctx.count("negative light speeds"); if (std::fabs(c) > 1e8) ctx.count("SI light speeds");
    ctx.cov["worst error in 1e-16 of the term size (max)"] = std::max<uint64_t>(ctx.cov["worst error in 1e-16 of the term size (max)"], (uint64_t)(worst * 1e16));
    ctx.seen(hash_bytes(a.v.data(), a.v.size() * sizeof(double))); ctx.sample(fmt("%s, c %.4g, %s field, %ld cells, worst error %.2g", w.str().c_str(), c, name.c_str(), n, worst));
}
