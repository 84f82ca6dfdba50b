// Small time-stepping rig on the library's operators, shared by the whole-simulation monitors.
#ifndef SIM_H
#define SIM_H
#include "ref.h"
namespace sim {
using namespace ref;
typedef std::vector<int> Dims;
struct BcSpec { Bc kind; Dims dims; };
inline std::unique_ptr<qk::solver::solver> make_bc(const BcSpec &b, const std::vector<variable_id> &v) {
    std::unique_ptr<qk::solver::solver> s;
    switch (b.kind) {
    case PERIODIC: { auto *p = new qk::solver::bc_periodic; p->setup(b.dims); s.reset(p); break; }
    case OUTFLOW: { auto *p = new qk::solver::bc_copy_out; p->setup(b.dims); s.reset(p); break; }
    case NOSLIP: { auto *p = new qk::solver::bc_no_slip; p->setup(b.dims); s.reset(p); break; }
    case FREESLIP: { auto *p = new qk::solver::bc_free_slip; p->setup(b.dims); s.reset(p); break; }
    case CONDUCTING: { auto *p = new qk::solver::bc_conducting_wall; p->setup(b.dims); s.reset(p); break; }
    }
    for (auto &i : v) s->add_output_variable(i);
    return s;
}
inline Dims all_dims(int nd) { Dims d; for (int k = 0; k < nd; ++k) d.push_back(k); return d; }
// largest wave speed sum over cells: sum_d (|u_d| + c_s) / dx_d
inline double fluid_rate(const Arr &a, const World &w, double gamma) {
    double m = 0;
    a.each_interior([&](const int *x) {
        double r = a.at(x, 0), K = 0; for (int d = 0; d < 3; ++d) K += 0.5 * a.at(x, 1 + d) * a.at(x, 1 + d) / r;
        double P = (gamma - 1) * (a.at(x, 4) - K), c = std::sqrt(std::max(0., gamma * P / r)), s = 0;
        for (int d = 0; d < a.nd; ++d) s += (std::fabs(a.at(x, 1 + d) / r) + c) / w.dx(d);
        m = std::max(m, s); });
    return m;
}
inline double field_rate(const World &w, double c) { double s = 0; for (int d = 0; d < w.nd; ++d) s += std::fabs(c) / w.dx(d); return s; }
inline std::vector<LD> totals(const Arr &a) { std::vector<LD> t(a.nc, 0); a.each_interior([&](const int *x) { for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) t[c] += a.at(x, c, p); }); return t; }
inline std::vector<LD> abs_totals(const Arr &a) { std::vector<LD> t(a.nc, 0); a.each_interior([&](const int *x) { for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) t[c] += std::fabs(a.at(x, c, p)); }); return t; }
inline std::vector<LD> totals(const LArr &a) { std::vector<LD> t(a.nc, 0); a.each_interior([&](const int *x) { for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) t[c] += a.at(x, c, p); }); return t; }
// model of one three-stage step of a single variable; returns false when a face without physical state (or a colliding one) was met
template <class RateFn> bool model_step(LArr &u0, const std::vector<BcSpec> &b, LD dt, RateFn rate) {
    LArr u = u0, first;
    for (int k = 0; k < 3; ++k) {
        for (auto &s : b) boundary(u, s.kind, s.dims);
        if (k == 0) first = u;
        Rates R; rate(u, R);
        for (int d = 0; d < 3; ++d) if (R.faces[d][UNPHYSICAL] || R.faces[d][COLLIDING]) return false;
        LD a = k == 0 ? 0 : k == 1 ? 0.75L : 1.L / 3, c = 1 - a;
        u.each_interior([&](const int *x) { for (int q = 0; q < u.nc; ++q) u.at(x, q) = a * first.at(x, q) + c * (u.at(x, q) + dt * R.r.at(x, q)); });
    }
    u0 = u; return true;
}
} // namespace sim
#endif
