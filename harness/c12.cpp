// C12: wall boundaries mirror the interior with the right signs.
#define QKW_HUGE 0.0005
#include "qkw.h"
using namespace vf; using namespace qkw;
enum { OUT, NOSLIP, FREESLIP, COND };
static const char *NAME[] = {"outflow", "no-slip", "free-slip", "conducting wall"};

template <class B> static void run_bc(Rng &g, Ctx &ctx, World &w, const std::vector<int> &dims, const std::vector<variable_id> &out, int tag, int times) {
    B b; bool again = g.chance(0.25); if (again) { std::vector<int> d0; for (int d = 0; d < w.nd; ++d) if (g.chance(0.5)) d0.push_back(d); b.setup(d0); ctx.count("set up twice"); } else b.setup(dims);
    if (tag & 1) b.set_output_variables(out); else for (auto &o : out) b.add_output_variable(o);
    warm(g, w, b, out, 0, ctx); if (again) b.setup(dims);
    for (int k = 0; k < times; ++k) b.solve(*w.vm, 0); }
static void apply(Rng &g, Ctx &ctx, int kind, World &w, const std::vector<int> &dims, const std::vector<variable_id> &out, int tag) {
    switch (kind) { case OUT: run_bc<qk::solver::bc_copy_out>(g, ctx, w, dims, out, tag, 1); break; case NOSLIP: run_bc<qk::solver::bc_no_slip>(g, ctx, w, dims, out, tag, 1); break; case FREESLIP: run_bc<qk::solver::bc_free_slip>(g, ctx, w, dims, out, tag, 1); break; default: run_bc<qk::solver::bc_conducting_wall>(g, ctx, w, dims, out, tag, 1); } }

void vf_case(Rng &g, Ctx &ctx) {
    int kind = g.i(0, 3); World w; random_grid(g, w, 120, 2, 0, 0.3);
    int nv = g.i(1, 4), nsel = g.i(1, nv); std::vector<variable_id> ids;
    for (int k = 0; k < nv; ++k) {
        int nc = kind == OUT ? g.i(1, 7) : kind == COND ? g.i(6, 8) : g.i(5, 7); if (kind != OUT && g.chance(0.6)) nc = kind == COND ? 6 : 5;
        int np = g.chance(0.8) ? 1 : g.i(2, 3); qk::basis::basis b = np == 1 ? (qk::basis::basis)qk::basis::volume_average() : qk::basis::basis("nodal", np); ids.push_back(variable_id(fmt("v%d", k), comps(nc), b)); }
    for (auto &i : ids) { Arr a(w.shape(i)); randomise(a, g, g.chance(0.4) ? weird_value : any_value); w.put(i, a); }
    std::vector<int> dims; for (int d = 0; d < w.nd; ++d) if (g.chance(0.6)) dims.push_back(d); g.shuffle(dims); if (dims.empty() && g.chance(0.8)) dims.push_back(g.i(0, w.nd - 1)); if (!dims.empty() && g.chance(0.08)) dims.push_back(dims[0]);
    g.shuffle(ids); std::vector<Arr> before; for (auto &i : ids) before.push_back(w.get(i));
    std::vector<variable_id> out(ids.begin(), ids.begin() + nsel); std::set<int> sel(dims.begin(), dims.end());
    std::string desc = std::string(NAME[kind]) + " on " + w.str() + " dims"; for (int d : dims) desc += fmt(" %d", d); desc += fmt(", %d of %d variables", nsel, nv);
    std::vector<Arr> first;
    for (int rep = 0; rep < 2; ++rep) {
        apply(g, ctx, kind, w, dims, out, g.i(0, 1));
        for (int k = 0; k < nv; ++k) {
            Arr n = w.get(ids[k]); const Arr &o = before[k];
            o.each_all([&](const int *x) {
                int outd = 0, dim = -1; for (int d = 0; d < o.nd; ++d) if (x[d] < 0 || x[d] >= o.L[d]) { ++outd; dim = d; }
                bool set = k < nsel && outd == 1 && sel.count(dim);
                int y[3] = {x[0], x[1], x[2]}; if (set) y[dim] = x[dim] < 0 ? -1 - x[dim] : 2 * o.L[dim] - 1 - x[dim];
                for (int p = 0; p < o.np; ++p) for (int c = 0; c < o.nc; ++c) {
                    double a = n.at(x, c, p), e = o.at(y, c, p);
                    if (!set) { VF_CHECK(same_bits(a, e), outd ? "untouched-ghost" : "interior", "%s: %s cell (%d,%d,%d) comp %d of '%s' changed %.17g -> %.17g", desc.c_str(), outd ? "ghost" : "interior", x[0], x[1], x[2], c, ids[k].name().c_str(), e, a); continue; }
                    bool neg = false, either = false;
                    if (kind == NOSLIP) neg = c >= 1 && c <= 3; else if (kind == FREESLIP) neg = c == 1 + dim; else if (kind == COND) { neg = c <= 2 || (dim == 0 && c == 3); either = dim != 0 && c >= 3 && c <= 5; }
                    if (either) { VF_CHECK(same_val(a, e) || same_val(a, -e), "mirror", "%s: ghost (%d,%d,%d) comp %d is %.17g, mirror cell holds %.17g", desc.c_str(), x[0], x[1], x[2], c, a, e); continue; }
                    VF_CHECK(same_val(a, neg ? -e : e), neg ? "reversed" : "copied", "%s: ghost (%d,%d,%d) comp %d of '%s' is %.17g, expected %.17g (application %d)", desc.c_str(), x[0], x[1], x[2], c, ids[k].name().c_str(), a, neg ? -e : e, rep + 1);
                }
                ctx.count(set ? std::string("ghost cells set by ") + NAME[kind] : outd ? "other ghost cells" : "interior cells");
            });
            if (rep == 0) first.push_back(n); else VF_CHECK(!memcmp(first[k].v.data(), n.v.data(), n.v.size() * sizeof(double)), "idempotent", "%s: a second application changes '%s'", desc.c_str(), ids[k].name().c_str());
        }
    }
    ctx.sample(desc); ctx.seen(desc);
}
