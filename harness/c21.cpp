// C21: OpenMP execution is race free and gives the serial result.
// The library compiled with -fopenmp and ThreadSanitizer runs on a small OpenMP runtime (gomp_stub.cpp) whose team members are
// plain threads; the same library compiled without OpenMP under another namespace gives the serial result in the same process.
#define VF_HAS_FINISH
#include "vf.h"
#include "c21.h"
#include "gomp_stub.h"
using namespace vf;
static const char *kinds[] = {"swap", "fill", "print", "rk1", "ssprk3", "euler", "maxwell", "lorentz_force", "current_source", "ssprk2_advection", "bc_periodic", "bc_copy_out", "bc_no_slip", "bc_free_slip", "bc_conducting_wall", "initialiser", "initialiser", "initialiser", "initialiser", "initialiser", "initialiser"};
static bool differs(double a, double b, double scale) { return !same_val(a, b) && !(std::fabs(a - b) <= 1e-12 * scale); }
void vf_case(Rng &g, Ctx &ctx) {
    static const int heavy[] = {3, 4, 5, 5, 5, 6, 6, 6, 7, 8, 9, 9, 9, -1};
    C21Plan p; p.seed = g.next(); p.large = g.chance(0.3); p.kind = g.chance(0.7) ? heavy[g.i(0, 13)] : g.i(0, 20); if (p.kind == 2) p.kind = 1; // printing is sequential
    std::vector<C21Out> want, got; std::string d, d2; gomp_ctl.threads = 1; c21_run_serial(p, want, d);
    static const int teams[] = {1, 2, 3, 4, 5, 7, 8, 12, 16}; int runs = p.large ? 2 : 4;
    for (int r = 0; r < runs; ++r) {
        gomp_ctl.threads = teams[g.i(r ? 1 : 0, 8)]; gomp_ctl.ordered = g.chance(0.3); gomp_ctl.delay_us = g.chance(0.3) ? g.i(1, 300) : 0; gomp_ctl.seed = g.next(); gomp_ctl.record = !gomp_ctl.ordered && g.chance(0.5); got.clear();
        c21_run_omp(p, got, d2); std::string how = fmt("%s with up to %d threads%s", d.c_str(), gomp_ctl.threads, gomp_ctl.ordered ? " in a forced order" : ""); VF_CHECK(got.size() == want.size(), "outputs", "%s: %zu outputs, %zu serially", how.c_str(), got.size(), want.size());
        for (size_t k = 0; k < got.size(); ++k) { const C21Out &a = got[k], &b = want[k]; VF_CHECK(a.v.size() == b.v.size(), "outputs", "%s: size of '%s'", how.c_str(), a.name.c_str());
            double scale = 0; for (double v : b.v) if (std::isfinite(v)) scale = std::max(scale, std::fabs(v));
            int E[3]; for (int q = 0; q < 3; ++q) E[q] = q < a.nd ? a.L[q] + 4 : 1; size_t n = 0;
            for (int i = 0; i < E[0]; ++i) for (int j = 0; j < E[1]; ++j) for (int l = 0; l < E[2]; ++l) { int x[3] = {i, j, l}; bool in = true; for (int q = 0; q < a.nd; ++q) in = in && x[q] >= 2 && x[q] < a.L[q] + 2;
                for (int c = 0; c < a.nc * a.np; ++c, ++n) if (in || !a.interior) VF_CHECK(!differs(a.v[n], b.v[n], scale), "differs", "%s: component %d of '%s' in cell (%d,%d,%d) is %.17g, serially %.17g", how.c_str(), c, a.name.c_str(), i - 2, j - 2, l - 2, a.v[n], b.v[n]); }
            ctx.count("values compared", n); }
        ctx.count(fmt("teams of at most %d", gomp_ctl.threads)); ctx.count(gomp_ctl.ordered ? "forced orders" : "free interleavings"); if (gomp_ctl.delay_us) ctx.count("runs with delays");
    }
    ctx.count(std::string("runs of ") + (p.kind < 0 ? "plasma steps" : kinds[p.kind]), runs); ctx.seen(mix(p.seed, p.kind)); ctx.sample(d);
}
void vf_finish(Ctx &ctx) { ctx.count("parallel regions", gomp_ctl.regions); ctx.count("work-shared loops through the runtime", gomp_ctl.worksharing); ctx.cov["largest team (max)"] = gomp_ctl.max_team; ctx.count("distinct thread orders", gomp_ctl.orders.size()); }
