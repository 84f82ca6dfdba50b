// The independent model of a whole simulation: fluids, optionally a field, boundaries, stages.
#ifndef MODEL_H
#define MODEL_H
#include "sim.h"
#include <thread>
namespace sim {
struct Species { bool fluid; double gamma, q, m; std::vector<BcSpec> bc; };
struct System { // the model of one problem: fluids (0..n-1) and, optionally, a field (last)
    World &w; std::vector<Species> sp; bool coupled = false, one_stage = false; double c = 1, eps0 = 1;
    System(World &w_) : w(w_) {}
    bool rates(const std::vector<LArr> &u, std::vector<LArr> &r) const {
        r.clear();
        for (size_t k = 0; k < sp.size(); ++k) { Rates R; if (sp[k].fluid) euler_rates(u[k], w, sp[k].gamma, R); else maxwell_rates(u[k], w, c, R);
            for (int d = 0; d < 3; ++d) if (R.faces[d][UNPHYSICAL] || R.faces[d][COLLIDING]) return false; r.push_back(R.r); }
        if (coupled) { int f = (int)sp.size() - 1; for (int k = 0; k < f; ++k) { lorentz(r[k], u[k], u[f], (LD)sp[k].q / sp[k].m); current(r[f], u[k], sp[k].q, sp[k].m, eps0); } }
        return true;
    }
    // the same rates for a large problem, computed in slabs of the first axis by several threads
    bool rates_in_slabs(const std::vector<LArr> &u, std::vector<LArr> &r, int n) const {
        if (r.size() != u.size()) r = u; std::vector<std::thread> T; std::vector<char> ok(n, 1); int H = w.L[0] / n;
        for (int t = 0; t < n; ++t) T.emplace_back([&, t] {
            World sub; sub.nd = w.nd; for (int d = 0; d < 3; ++d) { sub.L[d] = d ? w.L[d] : H; sub.width[d] = d ? w.width[d] : w.width[0] / n; }
            System S(sub); S.sp = sp; S.coupled = coupled; S.c = c; S.eps0 = eps0; std::vector<LArr> v, q;
            for (auto &a : u) { Shape sh = a; sh.L[0] = H; LArr b(sh); size_t row = a.size() / a.ext(0); std::copy(a.v.begin() + row * (t * H), a.v.begin() + row * (t * H + sh.ext(0)), b.v.begin()); v.push_back(b); }
            if (!S.rates(v, q)) { ok[t] = 0; return; }
            for (size_t k = 0; k < q.size(); ++k) { size_t row = q[k].size() / q[k].ext(0); std::copy(q[k].v.begin() + row * q[k].g, q[k].v.begin() + row * (q[k].g + H), r[k].v.begin() + row * (t * H + q[k].g)); } });
        for (auto &t : T) t.join();
        for (char k : ok) if (!k) return false;
        return true;
    }
    int slabs = 1;
    // advances u0; false: a face without physical state was met, u0 is then of no use
    bool step(std::vector<LArr> &u0, LD dt) const {
        std::vector<LArr> &u = u0, first, r;
        for (int s = 0; s < (one_stage ? 1 : 3); ++s) {
            for (size_t k = 0; k < sp.size(); ++k) for (auto &b : sp[k].bc) boundary(u[k], b.kind, b.dims);
            if (!s) first = u;
            if (!(slabs > 1 ? rates_in_slabs(u, r, slabs) : rates(u, r))) return false;
            LD a = s == 0 ? 0 : s == 1 ? 0.75L : 1.L / 3, cc = 1 - a;
            auto combine = [&](size_t k) { u[k].each_interior([&](const int *x) { for (int q = 0; q < u[k].nc; ++q) u[k].at(x, q) = a * first[k].at(x, q) + cc * (u[k].at(x, q) + dt * r[k].at(x, q)); }); };
            if (slabs > 1) { std::vector<std::thread> T; for (size_t k = 0; k < sp.size(); ++k) T.emplace_back([&, k] { combine(k); }); for (auto &t : T) t.join(); }
            else for (size_t k = 0; k < sp.size(); ++k) combine(k);
        }
        return true;
    }
};
inline std::vector<LD> scales(const Arr &a, bool fluid, double c) {
    std::vector<LD> m(a.nc, 0), o(a.nc); a.each_interior([&](const int *x) { for (int q = 0; q < a.nc; ++q) m[q] = std::max<LD>(m[q], std::fabs(a.at(x, q))); });
    if (fluid) { o[0] = m[0]; o[4] = m[4]; for (int q = 1; q < 4; ++q) o[q] = std::max(std::max(m[1], std::max(m[2], m[3])), std::sqrt(m[0] * m[4])); }
    else { LD E = std::max(m[0], std::max(m[1], m[2])), B = std::max(m[3], std::max(m[4], m[5])); for (int q = 0; q < 3; ++q) { o[q] = std::max(E, std::fabs((LD)c) * B); o[3 + q] = std::max(B, E / std::fabs((LD)c)); } }
    return o;
}
} // namespace sim
#endif
