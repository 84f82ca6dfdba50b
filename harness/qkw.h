// World building on the library's public interface, and an independent view of cell storage.
#ifndef QKW_H
#define QKW_H
#include "vf.h"
#include <limits>
#include "lib/exception.h"
#include "lib/range.h"
#include "lib/indexer.h"
#include "lib/indexer_interface.h"
#include "basis/basis.h"
#include "basis/volume_average.h"
#include "grid/grid.h"
#include "grid/rectilinear.h"
#include "data/dataset.h"
#include "data/functions.h"
#include "variable/variable.h"
#include "variable/variable_id.h"
#include "variable/variable_manager.h"
#include "solver/solver.h"
#include "solver/swap.h"
#include "solver/fill.h"
#include "solver/print.h"
#include "solver/rk1.h"
#include "solver/ssprk3.h"
#include "solver/euler.h"
#include "solver/maxwell.h"
#include "solver/lorentz_force.h"
#include "solver/current_source.h"
#include "solver/gaussian.h"
#include "solver/shock_tube.h"
#include "solver/radial_shock_tube.h"
#include "solver/magnetic_pulse.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/gem_challenge.h"
#include "solver/bc_periodic.h"
#include "solver/bc_conducting_wall.h"
// several headers share an include guard; drop it between them
#include "solver/bc_copy_out.h"
#undef _qk_solver_bc_copy_out_H
#include "solver/bc_no_slip.h"
#undef _qk_solver_bc_copy_out_H
#include "solver/bc_free_slip.h"
#undef _qk_spatial_solver_advection_H
#include "solver/ssprk2_advection.h"

namespace qkw {
using vf::Rng; using vf::Ctx; using vf::fmt;
using qk::variable::variable_id;

inline std::vector<std::string> comps(int n, const char *prefix = "c") {
    std::vector<std::string> v;
    for (int i = 0; i < n; ++i) v.push_back(fmt("%s%d", prefix, i));
    return v;
}
inline std::vector<std::string> fluid_comps() { return {"rho", "px", "py", "pz", "e"}; }
inline std::vector<std::string> field_comps() { return {"Ex", "Ey", "Ez", "Bx", "By", "Bz"}; }

inline variable_id vid(const std::string &name, const std::vector<std::string> &c) {
    qk::basis::basis b = qk::basis::volume_average();
    return variable_id(name, c, b);
}
inline variable_id fluid_id(const std::string &n) { return vid(n, fluid_comps()); }
inline variable_id field_id(const std::string &n) { return vid(n, field_comps()); }

// Dense array over a mesh (indices -g .. L+g-1 per used dimension), np points and nc components per cell.
// Layout computed here, independently of the library's range arithmetic.
struct Shape {
    int nd = 1, L[3] = {1, 1, 1}, g = 2, np = 1, nc = 1;
    int ext(int d) const { return d < nd ? L[d] + 2 * g : 1; }
    size_t size() const { return (size_t)ext(0) * ext(1) * ext(2) * np * nc; }
    size_t off(int i, int j, int k, int c, int p = 0) const {
        size_t o = (size_t)(i + g);
        if (nd > 1) o = o * ext(1) + (j + g);
        if (nd > 2) o = o * ext(2) + (k + g);
        return (o * np + p) * nc + c;
    }
    size_t off(const int *x, int c, int p = 0) const { return off(x[0], x[1], x[2], c, p); }
    bool interior(const int *x) const { for (int d = 0; d < nd; ++d) if (x[d] < 0 || x[d] >= L[d]) return false; return true; }
    int cells() const { int n = 1; for (int d = 0; d < nd; ++d) n *= L[d]; return n; }
    template <class F> void each_interior(F f) const {
        int x[3];
        for (x[0] = 0; x[0] < L[0]; ++x[0])
            for (x[1] = 0; x[1] < (nd > 1 ? L[1] : 1); ++x[1])
                for (x[2] = 0; x[2] < (nd > 2 ? L[2] : 1); ++x[2]) f(x);
    }
    template <class F> void each_all(F f) const {
        int x[3];
        for (x[0] = -g; x[0] < L[0] + g; ++x[0])
            for (x[1] = (nd > 1 ? -g : 0); x[1] < (nd > 1 ? L[1] + g : 1); ++x[1])
                for (x[2] = (nd > 2 ? -g : 0); x[2] < (nd > 2 ? L[2] + g : 1); ++x[2]) f(x);
    }
    std::string str() const { std::string s = fmt("%dD[", nd); for (int d = 0; d < nd; ++d) s += fmt("%s%d", d ? "x" : "", L[d]); return s + fmt("]g%d np%d nc%d", g, np, nc); }
};

struct Arr : Shape {
    std::vector<double> v;
    Arr() {}
    explicit Arr(const Shape &s, double fill = 0.) : Shape(s), v(s.size(), fill) {}
    double &at(const int *x, int c, int p = 0) { return v[off(x, c, p)]; }
    const double &at(const int *x, int c, int p = 0) const { return v[off(x, c, p)]; }
};

inline qk::data::extended_datachunk &chunk_of(qk::variable::variable &v) {
    qk::indexer i = v.indexer();
    VF_CHECK(i.exists(), "no-chunk", "variable '%s' has no data chunk", v.name().c_str());
    return v[i];
}
inline const qk::data::extended_datachunk &chunk_of(const qk::variable::variable &v) {
    qk::indexer i = v.indexer();
    VF_CHECK(i.exists(), "no-chunk", "variable '%s' has no data chunk", v.name().c_str());
    return v[i];
}

struct World {
    int nd = 1, L[3] = {1, 1, 1}, lo[3] = {0, 0, 0}; // lo: first mesh index (storage layout does not depend on it)
    double start[3] = {0, 0, 0}, width[3] = {1, 1, 1};
    std::unique_ptr<qk::grid::rectilinear> grid;
    std::unique_ptr<qk::variable::variable_manager> vm;

    double dx(int d) const { return width[d] / L[d]; }
    double xc(int d, int i) const { return start[d] + (i + 0.5) * dx(d); }
    void build() {
        int up[3]; for (int d = 0; d < 3; ++d) up[d] = lo[d] + L[d];
        vm.reset();
        grid.reset(new qk::grid::rectilinear(qk::range(nd, lo, up), start, width));
        vm.reset(new qk::variable::variable_manager(*grid));
        vm->set_time(0.); vm->set_dt(0.01);
    }
    Shape shape(int nc, int np = 1) const { Shape s; s.nd = nd; for (int d = 0; d < 3; ++d) s.L[d] = d < nd ? L[d] : 1; s.g = 2; s.np = np; s.nc = nc; return s; }
    Shape shape(const variable_id &id) const { return shape((int)id.component_names().size(), id.basis().num_points()); }
    double *raw(const variable_id &id) {
        Shape s = shape(id);
        qk::data::extended_datachunk &c = chunk_of(vm->output_variable(id));
        VF_CHECK((size_t)c.volume() == s.size(), "storage-size", "variable '%s' stores %d values, expected %zu for %s", id.name().c_str(), c.volume(), s.size(), s.str().c_str());
        return c.data();
    }
    Arr get(const variable_id &id) {
        Arr a(shape(id));
        std::memcpy(a.v.data(), raw(id), a.v.size() * sizeof(double));
        return a;
    }
    void put(const variable_id &id, const Arr &a) {
        double *p = raw(id);
        std::memcpy(p, a.v.data(), a.v.size() * sizeof(double));
    }
    std::string str() const {
        std::string s = fmt("%dD grid ", nd);
        for (int d = 0; d < nd; ++d) s += fmt("%s%d", d ? "x" : "", L[d]);
        for (int d = 0; d < nd; ++d) s += fmt(" [%.4g,+%.4g]", start[d], width[d]);
        if (lo[0] || lo[1] || lo[2]) s += fmt(" first index %d,%d,%d", lo[0], lo[1], lo[2]);
        return s;
    }
};

// Random grid; maxcells bounds the number of interior cells; every dimension has at least minlen cells.
// p_offset: probability of a mesh whose indices do not start at zero.
inline void random_grid(Rng &r, World &w, int maxcells = 600, int minlen = 2, int force_nd = 0, double p_offset = 0.) {
    w.nd = force_nd ? force_nd : r.i(1, 3);
    for (int d = 0; d < 3; ++d) w.L[d] = 1;
    // now and then a much larger grid, or one that is long along a single axis and thin along the others
    int kind = r.i(0, 99); if (kind < 2) maxcells = std::max(maxcells, std::min(12 * maxcells, 4000));
    if (kind >= 2 && kind < 6) { int axis = r.i(0, w.nd - 1), far = std::max(maxcells, std::min(8 * maxcells, 2500)); for (int d = 0; d < w.nd; ++d) w.L[d] = d == axis ? (int)r.logd(std::max(minlen, 20), far / std::pow(2., w.nd - 1) + 20) : r.i(minlen, minlen + 1); }
#ifdef QKW_HUGE
    else if (maxcells >= 100 && r.chance(QKW_HUGE)) { // more values than sixteen bits count
        int n = r.i(20000, 80000), axis = r.i(0, w.nd - 1); bool thin = w.nd > 1 && r.chance(0.4); for (int d = 0; d < w.nd; ++d) w.L[d] = thin ? (d == axis ? n >> (w.nd - 1) : 2) : (int)std::pow((double)n, 1. / w.nd) + r.i(0, 3); }
#endif
    else for (int tries = 0;; ++tries) {
        long n = 1;
        for (int d = 0; d < w.nd; ++d) {
            int hi = w.nd == 1 ? maxcells : (w.nd == 2 ? (int)std::sqrt((double)maxcells) * 2 : (int)std::cbrt((double)maxcells) * 2);
            if (r.chance(0.5)) hi = std::min(hi, minlen + 6);
            hi = std::max(hi, minlen);
            w.L[d] = r.i(minlen, hi);
            n *= w.L[d];
        }
        if (n <= maxcells || tries > 50) break;
    }
    for (int d = 0; d < 3; ++d) {
        w.start[d] = r.chance(0.2) ? 0. : (r.chance(0.5) ? -0.5 : r.d(-3, 3));
        w.width[d] = r.chance(0.3) ? 1. : r.logd(0.05, 20.);
    }
    if (r.chance(0.12)) { double u = r.logd(1e-9, 1e9); for (int d = 0; d < 3; ++d) { w.start[d] *= u; w.width[d] *= u; } } // other units of length
    bool off = r.chance(p_offset);
    for (int d = 0; d < 3; ++d) w.lo[d] = off ? r.i(-7, 7) : 0;
    w.build();
}

inline double any_value(Rng &r) {
    switch (r.i(0, 9)) {
    case 0: return 0.;
    case 1: return r.sgn() * r.logd(1e-300, 1e300);
    case 2: return r.sgn() * r.logd(1e-8, 1e8);
    case 3: return (double)r.i(-5, 5);
    default: return r.d(-2, 2);
    }
}

inline double weird_value(Rng &r) { // also infinities, NaN, signed zeros, denormals
    switch (r.i(0, 15)) {
    case 0: return std::numeric_limits<double>::infinity() * r.sgn();
    case 1: return std::numeric_limits<double>::quiet_NaN();
    case 2: return -0.;
    case 3: return 5e-324 * r.i(1, 100);
    default: return any_value(r);
    }
}
template <class F> void randomise(Arr &a, Rng &r, F f) { for (double &x : a.v) x = f(r); }

// bit-for-bit snapshot of a set of variables
struct Snap {
    World *pw; std::vector<std::pair<variable_id, Arr>> s;
    Snap(World &w, const std::vector<variable_id> &ids) : pw(&w) { for (auto &i : ids) s.push_back({i, w.get(i)}); }
    void same(const char *key, const std::string &what, const std::string &except = "") {
        for (auto &p : s) {
            if (!except.empty() && p.first.name() == except) continue;
            Arr n = pw->get(p.first);
            if (n.v.size() != p.second.v.size() || std::memcmp(n.v.data(), p.second.v.data(), n.v.size() * sizeof(double))) {
                size_t k = 0; while (k < n.v.size() && vf::same_bits(n.v[k], p.second.v[k])) ++k;
                vf::fail(key, fmt("%s changed variable '%s' (value #%zu of %s: %.17g -> %.17g)", what.c_str(), p.first.name().c_str(), k, p.second.str().c_str(), k < n.v.size() ? p.second.v[k] : 0., k < n.v.size() ? n.v[k] : 0.));
            }
        }
    }
};

template <class Ex = qk::exception, class F> bool throws_qk(F f) {
    try { f(); } catch (const Ex &) { return true; }
    return false;
}
// Runs an operator on an unrelated simulation first (other grid, sizes, time and step; its cells hold states picked from
// the current one): nothing of it may carry over to the run that is judged.
inline bool warm(Rng &g, World &w, qk::solver::solver &op, const std::vector<variable_id> &ids, int tag, Ctx &ctx, double p = 0.25, bool any_dims = false) {
    if (!g.chance(p)) return false;
    World z; random_grid(g, z, 40, 2, any_dims ? 0 : w.nd, 0.3);
    for (auto &i : ids) { Arr s = w.get(i), a(z.shape(i)); a.each_all([&](const int *x) { int y[3]; for (int d = 0; d < 3; ++d) y[d] = g.i(0, s.L[d] - 1); for (int q = 0; q < a.np; ++q) for (int c = 0; c < a.nc; ++c) a.at(x, c, q) = s.at(y, c, q); }); z.put(i, a); }
    z.vm->set_time(g.d(0, 9)); z.vm->set_dt(g.logd(1e-4, 1)); op.solve(*z.vm, tag); ctx.count("operators used before elsewhere"); return true;
}
} // namespace qkw
#endif
