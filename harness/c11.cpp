// C11: periodic boundaries wrap the interior exactly.
#define QKW_HUGE 0.0005
#include "qkw.h"
using namespace vf; using namespace qkw;

void vf_case(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 120, 2, 0, 0.3);
    std::vector<variable_id> ids; int nv = g.i(1, 4), nsel = g.i(1, nv);
    for (int k = 0; k < nv; ++k) { int nc = g.i(1, 7), np = g.chance(0.7) ? 1 : g.i(2, 3); qk::basis::basis b = np == 1 ? (qk::basis::basis)qk::basis::volume_average() : qk::basis::basis("nodal", np); ids.push_back(variable_id(fmt("v%d", k), comps(nc), b)); }
    for (auto &i : ids) { Arr a(w.shape(i)); randomise(a, g, g.chance(0.5) ? weird_value : any_value); w.put(i, a); }
    std::vector<int> dims; for (int d = 0; d < w.nd; ++d) if (g.chance(0.6)) dims.push_back(d); g.shuffle(dims); if (dims.empty() && g.chance(0.8)) dims.push_back(g.i(0, w.nd - 1)); if (!dims.empty() && g.chance(0.1)) dims.push_back(dims[0]);
    g.shuffle(ids);
    qk::solver::bc_periodic bc; std::vector<int> dims0; for (int d = 0; d < w.nd; ++d) if (g.chance(0.5)) dims0.push_back(d); bool again = g.chance(0.25); if (again) { bc.setup(dims0); ctx.count("set up twice"); } else bc.setup(dims); std::vector<Arr> before; for (auto &i : ids) before.push_back(w.get(i));
    for (int k = 0; k < nsel; ++k) bc.add_output_variable(ids[k]);
    warm(g, w, bc, std::vector<variable_id>(ids.begin(), ids.begin() + nsel), 0, ctx); if (again) bc.setup(dims);
    std::string desc = w.str() + " dims"; for (int d : dims) desc += fmt(" %d", d); desc += fmt(", %d of %d variables", nsel, nv);
    std::set<int> sel(dims.begin(), dims.end());
    for (int rep = 0; rep < 2; ++rep) {
        bc.solve(*w.vm, g.i(0, 2));
        for (int k = 0; k < nv; ++k) {
            Arr n = w.get(ids[k]); const Arr &o = before[k];
            o.each_all([&](const int *x) {
                int out = 0, dim = -1; for (int d = 0; d < o.nd; ++d) if (x[d] < 0 || x[d] >= o.L[d]) { ++out; dim = d; }
                bool set = k < nsel && out == 1 && sel.count(dim);
                int y[3] = {x[0], x[1], x[2]}; if (set) y[dim] += x[dim] < 0 ? o.L[dim] : -o.L[dim];
                for (int p = 0; p < o.np; ++p) for (int c = 0; c < o.nc; ++c)
                    VF_CHECK(same_bits(n.at(x, c, p), o.at(y, c, p)), set ? "wrap" : out ? (out == 1 && k < nsel ? "ghost-of-unselected" : "unselected") : "interior", "%s: %s cell (%d,%d,%d) comp %d point %d of '%s' is %.17g, expected %.17g (application %d)", desc.c_str(), set ? "ghost" : out ? "unselected ghost" : "interior", x[0], x[1], x[2], c, p, ids[k].name().c_str(), n.at(x, c, p), o.at(y, c, p), rep + 1);
                ctx.count(set ? "wrapped ghost cells" : out ? "other ghost cells" : "interior cells");
            });
        }
    }
    ctx.sample(desc); ctx.seen(desc);
}
