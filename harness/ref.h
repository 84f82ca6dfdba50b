// Independent reference model of the numerical method, in long double, written from the mathematics
// (not from the library's loops). Arrays use the layout of qkw.h.
#ifndef REF_H
#define REF_H
#include "qkw.h"
namespace ref {
using namespace qkw;
typedef long double LD;
static const double UEPS = 2.220446049250313e-16;

struct LArr : Shape {
    std::vector<LD> v;
    LArr() {}
    explicit LArr(const Shape &s, LD f = 0) : Shape(s), v(s.size(), f) {}
    explicit LArr(const Arr &a) : Shape(a), v(a.v.begin(), a.v.end()) {}
    LD &at(const int *x, int c, int p = 0) { return v[off(x, c, p)]; }
    const LD &at(const int *x, int c, int p = 0) const { return v[off(x, c, p)]; }
};
inline bool inside(const Shape &s, const int *x, int except = -1) {
    for (int d = 0; d < s.nd; ++d) if (d != except && (x[d] < 0 || x[d] >= s.L[d])) return false; return true; }
inline int outside_dims(const Shape &s, const int *x) { int n = 0; for (int d = 0; d < s.nd; ++d) n += (x[d] < 0 || x[d] >= s.L[d]); return n; }

inline LD albada(LD r) { return (r * r + r) / (r * r + 1); }
// limiter of the ratio n/d, continued to vanishing denominators
inline LD albada(LD n, LD d) { if (n == 0) return 0; if (d == 0) return 1; return albada(n / d); }
// limited states on the two sides of the face between b and c, from cells a b | c d
inline void limited(LD a, LD b, LD c, LD d, LD &ql, LD &qr) {
    const LD tiny = 1e-12;
    ql = b + 0.5L * albada(c - b, b - a + tiny) * (b - a);
    qr = c + 0.5L * albada(c - b, d - c + tiny) * (c - d);
}

// kinds of fluid faces met
enum { SUB = 0, SUPER_RIGHT, SUPER_LEFT, COLLIDING, UNPHYSICAL };
// HLL flux through a face with normal dim; mag: bound on the size of the terms (for tolerances); amp: pressure conditioning
inline LD &phys_floor() { static LD f = 1e-5L; return f; } // smallest share of internal energy a face state may have
inline int hll(const LD *ql, const LD *qr, int dim, LD gamma, LD *F, LD *mag, LD &amp) {
    amp = 1;
    if (!(ql[0] > 0) || !(qr[0] > 0)) return UNPHYSICAL;
    LD el = ql[4], er = qr[4];
    LD Kl = 0.5L * (ql[1] * ql[1] + ql[2] * ql[2] + ql[3] * ql[3]) / ql[0], Kr = 0.5L * (qr[1] * qr[1] + qr[2] * qr[2] + qr[3] * qr[3]) / qr[0];
    LD Pl = (gamma - 1) * (el - Kl), Pr = (gamma - 1) * (er - Kr);
    if (!(el - Kl > phys_floor() * el) || !(er - Kr > phys_floor() * er)) return UNPHYSICAL;
    amp = std::max((el + Kl) / (el - Kl), (er + Kr) / (er - Kr));
    LD al = std::sqrt(gamma * Pl / ql[0]), ar = std::sqrt(gamma * Pr / qr[0]), ul = ql[1 + dim] / ql[0], ur = qr[1 + dim] / qr[0];
    LD sl = ul - al, sr = ur + ar, fl[5], fr[5];
    for (int c = 0; c < 5; ++c) { fl[c] = ql[c] * ul; fr[c] = qr[c] * ur; }
    fl[1 + dim] += Pl; fr[1 + dim] += Pr; fl[4] += Pl * ul; fr[4] += Pr * ur;
    LD smax = std::max(std::fabs(ul) + al, std::fabs(ur) + ar);
    if (sl <= 0 && sr >= 0 && !(sr - sl > 0)) return UNPHYSICAL; // both sound speeds reached exactly, from opposite sides: no state in between
    LD cond = sl > 0 || sr < 0 ? 1 : smax / (sr - sl); // sr - sl may be small when the two states differ strongly
    for (int c = 0; c < 5; ++c) {
        mag[c] = (1 + cond) * (std::fabs(fl[c]) + std::fabs(fr[c]) + smax * (std::fabs(ql[c]) + std::fabs(qr[c])));
        if (c >= 1 && c <= 3) mag[c] += (1 + cond) * (Pl + Pr) ;
    }
    if (sl > 0 || sr < 0) { amp = 1; mag[1 + dim] += el + Kl + er + Kr; } // upwind fluxes contain the pressure only as a term
    if (sl > 0 && sr < 0) return COLLIDING; // mag is set, F is not
    if (sl > 0) { for (int c = 0; c < 5; ++c) F[c] = fl[c]; return SUPER_RIGHT; }
    if (sr < 0) { for (int c = 0; c < 5; ++c) F[c] = fr[c]; return SUPER_LEFT; }
    for (int c = 0; c < 5; ++c) F[c] = (sr * fl[c] - sl * fr[c] + sl * sr * (qr[c] - ql[c])) / (sr - sl);
    return SUB;
}
// Rusanov flux of Maxwell's equations dE/dt = c^2 curl B, dB/dt = -curl E through a face with normal n.
inline void rusanov(const LD *ql, const LD *qr, int n, LD c, LD *F, LD *mag) {
    int a = (n + 1) % 3, b = (n + 2) % 3; LD s = std::fabs(c);
    auto flux = [&](const LD *q, LD *f) { // conservative form: d q/dt + d f/dx_n = 0
        f[n] = 0; f[3 + n] = 0;
        f[a] = c * c * q[3 + b]; f[b] = -c * c * q[3 + a];   // E
        f[3 + a] = -q[b]; f[3 + b] = q[a];                   // B
    };
    LD fl[6], fr[6]; flux(ql, fl); flux(qr, fr);
    for (int k = 0; k < 6; ++k) {
        F[k] = (k % 3 == n) ? 0 : 0.5L * (fl[k] + fr[k]) - 0.5L * s * (qr[k] - ql[k]);
        mag[k] = (k % 3 == n) ? 0 : std::fabs(fl[k]) + std::fabs(fr[k]) + s * (std::fabs(ql[k]) + std::fabs(qr[k]));
    }
}

struct Rates { LArr r, mag; std::vector<char> bad; long faces[3][5]; Rates() { memset(faces, 0, sizeof faces); } };

inline int cell_no(const Shape &s, const int *x) { int n = x[0]; if (s.nd > 1) n = n * s.L[1] + x[1]; if (s.nd > 2) n = n * s.L[2] + x[2]; return n; }

template <class FaceFlux> void flux_balance(const LArr &q, const World &w, int nc, Rates &R, FaceFlux ff) {
    R.r = LArr(q); R.mag = LArr(q); std::fill(R.r.v.begin(), R.r.v.end(), 0); std::fill(R.mag.v.begin(), R.mag.v.end(), 0);
    R.bad.assign(q.cells(), 0);
    for (int d = 0; d < q.nd; ++d) {
        LD dx = w.dx(d);
        q.each_interior([&](const int *x0) {
            for (int side = 0; side < 2; ++side) { // lower face, then upper face of the cell
                if (side == 0 && x0[d] > 0) continue; // interior faces are handled once, as the upper face of the cell below
                int b[3] = {x0[0], x0[1], x0[2]}; if (side == 0) b[d] -= 1;
                int a[3] = {b[0], b[1], b[2]}, c[3] = {b[0], b[1], b[2]}, e[3] = {b[0], b[1], b[2]}; a[d] -= 1; c[d] += 1; e[d] += 2;
                LD ql[6], qr[6], F[6] = {0}, mag[6] = {0}, amp = 1;
                for (int k = 0; k < nc; ++k) limited(q.at(a, k), q.at(b, k), q.at(c, k), q.at(e, k), ql[k], qr[k]);
                int kind = ff(ql, qr, d, F, mag, amp); R.faces[d][kind]++;
                for (int s2 = 0; s2 < 2; ++s2) {
                    const int *cell = s2 ? c : b; if (!inside(q, cell)) continue;
                    if (kind >= COLLIDING) { R.bad[cell_no(q, cell)] = 1; for (int k = 0; k < nc; ++k) R.mag.at(cell, k) += amp * mag[k] / dx; continue; }
                    for (int k = 0; k < nc; ++k) { R.r.at(cell, k) += (s2 ? 1 : -1) * F[k] / dx; R.mag.at(cell, k) += amp * mag[k] / dx; }
                }
            }
        });
    }
}
inline void euler_rates(const LArr &q, const World &w, LD gamma, Rates &R) {
    flux_balance(q, w, 5, R, [&](const LD *ql, const LD *qr, int d, LD *F, LD *mag, LD &amp) { return hll(ql, qr, d, gamma, F, mag, amp); }); }
inline void maxwell_rates(const LArr &q, const World &w, LD c, Rates &R) {
    flux_balance(q, w, 6, R, [&](const LD *ql, const LD *qr, int d, LD *F, LD *mag, LD &) { rusanov(ql, qr, d, c, F, mag); return (int)SUB; }); }

// advection: one explicit step from base state a (fluxes of a) added to b
inline LD adv_face(LD n, LD c, LD p) { // c: upwind cell, n: the one further upwind, p: downwind cell
    LD r = (p != c) ? (c - n) / (p - c) : 1.L; return c + 0.25L * r * (r + 1) / (r * r + 1) * (p - n); }
inline void advect(LArr &b, const LArr &a, const World &w, const std::vector<double> &vel, LD dt, LArr *mag = 0) {
    for (int d = 0; d < a.nd; ++d) {
        LD k = dt * (LD)vel[d] / (LD)w.dx(d); int s = vel[d] > 0 ? 1 : -1; // s: downstream direction
        LD ck = vel[d] > 0 ? k : -k; if (dt < 0) ck = std::fabs(k);
        a.each_interior([&](const int *x0) {
            for (int c = 0; c < a.nc; ++c) for (int p = 0; p < a.np; ++p) {
                auto val = [&](int o) { int x[3] = {x0[0], x0[1], x0[2]}; x[d] += o; return a.at(x, c, p); };
                LD in = ck * adv_face(val(-2 * s), val(-s), val(0)), out = ck * adv_face(val(-s), val(0), val(s));
                b.at(x0, c, p) += in - out;
                if (mag) mag->at(x0, c, p) += std::fabs(ck) * 3 * (std::fabs(val(-2 * s)) + std::fabs(val(-s)) + std::fabs(val(0)) + std::fabs(val(s)));
            }
        });
    }
}

// boundary conditions; kind as below, applied to dims in order
enum Bc { PERIODIC, OUTFLOW, NOSLIP, FREESLIP, CONDUCTING };
template <class A> void boundary(A &a, Bc kind, const std::vector<int> &dims) {
    for (int d : dims)
        a.each_all([&](const int *x) {
            if (!inside(a, x, d) || (x[d] >= 0 && x[d] < a.L[d])) return;
            int y[3] = {x[0], x[1], x[2]};
            y[d] = kind == PERIODIC ? (x[d] < 0 ? x[d] + a.L[d] : x[d] - a.L[d]) : (x[d] < 0 ? -1 - x[d] : 2 * a.L[d] - 1 - x[d]);
            for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) {
                bool neg = (kind == NOSLIP && c >= 1 && c <= 3) || (kind == FREESLIP && c == 1 + d) || (kind == CONDUCTING && c <= 3);
                a.at(x, c, p) = neg ? -a.at(y, c, p) : a.at(y, c, p);
            }
        });
}
// coupling
inline void lorentz(LArr &r, const LArr &q, const LArr &f, LD com) {
    q.each_interior([&](const int *x) {
        LD E[3], B[3], p[3]; for (int k = 0; k < 3; ++k) { E[k] = f.at(x, k); B[k] = f.at(x, 3 + k); p[k] = q.at(x, 1 + k); }
        for (int k = 0; k < 3; ++k) { int a = (k + 1) % 3, b = (k + 2) % 3; r.at(x, 1 + k) += com * (q.at(x, 0) * E[k] + p[a] * B[b] - p[b] * B[a]); }
        r.at(x, 4) += com * (p[0] * E[0] + p[1] * E[1] + p[2] * E[2]);
    });
}
inline void current(LArr &r, const LArr &q, LD charge, LD mass, LD eps0) {
    q.each_interior([&](const int *x) { for (int k = 0; k < 3; ++k) r.at(x, k) -= charge / mass / eps0 * q.at(x, 1 + k); });
}

// ---- state generators ----------------------------------------------------------------------------------------------
// physical fluid state from primitive variables
inline void set_prim(Arr &a, const int *x, double rho, const double *u, double P, double gamma) {
    a.at(x, 0) = rho; double k = 0; for (int d = 0; d < 3; ++d) { a.at(x, 1 + d) = rho * u[d]; k += u[d] * u[d]; }
    a.at(x, 4) = P / (gamma - 1) + 0.5 * rho * k;
}
struct FluidGen { double rs = 1, us = 1; std::string name; }; // unit scales used
inline FluidGen fluid_state(Rng &g, Arr &a, double gamma, int kind = -1, bool units = true) {
    if (kind < 0) kind = g.i(0, 6);
    FluidGen G; if (units && g.chance(0.15)) { G.rs = g.logd(1e-6, 1e6); G.us = g.logd(1e-3, 1e4); if (g.chance(0.3)) G.rs = g.logd(1e-30, 1e20); } // down to interstellar plasmas in kg per cubic metre
    static const char *names[] = {"uniform", "smooth", "noisy", "shock", "supersonic", "blast", "layers", "tiny steps", "hypersonic", "hypersonic uniform", "sonic uniform", "sonic"}; G.name = names[kind];
    double u0[3], k[3], ph[5], am[5]; double mach = g.chance(0.5) ? g.d(0, 1) : g.d(1, 4); double hm = g.logd(10, 2e4);
    int dir = g.i(0, 2); for (int d = 0; d < 3; ++d) { u0[d] = g.d(-1, 1) * (kind == 4 ? 0.2 : 1); k[d] = g.d(0.2, 1.5); }
    double cs = std::sqrt(gamma); if (kind == 4) u0[dir] = g.sgn() * cs * (1.5 + mach); else if (kind >= 8) u0[dir] += g.sgn() * hm * cs; else u0[dir] += g.sgn() * mach * cs * 0.3;
    for (int c = 0; c < 5; ++c) { ph[c] = g.d(0, 6.28); am[c] = g.d(0, 0.3); }
    double L[2][5]; for (int s = 0; s < 2; ++s) { L[s][0] = g.logd(0.1, 2); L[s][4] = g.logd(0.1, 3); for (int d = 0; d < 3; ++d) L[s][1 + d] = u0[d] + g.d(-0.8, 0.8); }
    int axis = g.i(0, a.nd - 1); int cut = g.i(-1, a.L[axis]);
    if (kind >= 10) { // at exactly the speed of sound (gamma = 2): all values are powers of two or small multiples, so nothing is rounded
        double r0[2], p0[2], v[2][3]; for (int s = 0; s < 2; ++s) { double q = std::ldexp(1., g.i(-3, 3)); r0[s] = std::ldexp(1., g.i(-4, 4)); p0[s] = 0.5 * r0[s] * q * q; for (int d = 0; d < 3; ++d) v[s][d] = g.chance(0.6) ? 0. : g.sgn() * q * g.i(1, 3); v[s][axis] = g.sgn() * q * (s && g.chance(0.6) ? g.i(0, 3) : 1); }
        if (g.chance(0.7)) v[1][axis] = std::fabs(v[1][axis]) * (v[0][axis] < 0 ? -1 : 1);
        a.each_all([&](const int *x) { int s = kind == 11 && x[axis] >= cut; set_prim(a, x, r0[s], v[s], p0[s], 2.); }); return G; }
    a.each_all([&](const int *x) {
        double rho = 1, u[3] = {u0[0], u0[1], u0[2]}, P = 1;
        switch (kind) {
        case 0: break;
        case 1: { double arg = k[0] * x[0] + k[1] * x[1] + k[2] * x[2]; rho += am[0] * std::sin(arg + ph[0]); P += am[4] * std::sin(arg + ph[4]); for (int d = 0; d < 3; ++d) u[d] += am[1 + d] * std::sin(arg + ph[1 + d]); break; }
        case 2: rho = g.d(0.6, 1.6); P = g.d(0.6, 1.6); for (int d = 0; d < 3; ++d) u[d] += g.d(-0.5, 0.5); break;
        case 3: { const double *l = L[x[axis] >= cut]; rho = l[0]; P = l[4]; for (int d = 0; d < 3; ++d) u[d] = l[1 + d]; break; }
        case 4: rho = 1 + am[0] * g.d(-1, 1); P = 1 + am[4] * g.d(-1, 1); for (int d = 0; d < 3; ++d) u[d] += 0.1 * g.d(-1, 1); break;
        case 8: rho = 1 + am[0] * g.d(-1, 1) / (hm * hm); P = 1 + am[4] * g.d(-0.5, 0.5); for (int d = 0; d < 3; ++d) u[d] *= 1 + 0.1 * g.d(-1, 1) / (hm * hm); break;
        case 5: { double r2 = 0; for (int d = 0; d < a.nd; ++d) r2 += (x[d] - a.L[d] * 0.5) * (x[d] - a.L[d] * 0.5); if (r2 < 4) { rho = 3; P = 20; } break; }
        case 6: rho = 1 + am[0] * (x[axis] % 2); P = 1 + am[4] * ((x[axis] / 2) % 2); break;
        }
        if (kind == 7) { double z[3] = {0, 0, 0}; set_prim(a, x, 1., z, 1., gamma); for (int d = 0; d < 3; ++d) a.at(x, 1 + d) = 1e-12 * g.i(-2, 2); return; } // momenta differing by exactly 1e-12, the limiter's own constant
        double us[3] = {u[0] * G.us, u[1] * G.us, u[2] * G.us};
        set_prim(a, x, rho * G.rs, us, P * G.rs * G.us * G.us, gamma);
    });
    return G;
}
inline std::string field_state(Rng &g, Arr &a, double c, int kind = -1) {
    if (kind < 0) kind = g.i(0, 5);
    static const char *names[] = {"uniform", "smooth", "noisy", "step", "sparse", "large", "tiny steps"};
    double eamp = (g.chance(0.5) ? std::fabs(c) : 1.) * g.logd(0.1, 10), bamp = g.logd(0.1, 10); if (kind == 5) { double s = g.chance(0.6) ? 1e6 : g.logd(1e-25, 1e15); eamp *= s; bamp *= g.chance(0.5) ? s : 1 / s; }
    double k[3], ph[6], lev[2][6]; for (int d = 0; d < 3; ++d) k[d] = g.d(0.2, 1.5); for (int q = 0; q < 6; ++q) { ph[q] = g.d(0, 6.28); lev[0][q] = g.d(-1, 1); lev[1][q] = g.d(-1, 1); }
    int axis = g.i(0, a.nd - 1), cut = g.i(-1, a.L[axis]);
    a.each_all([&](const int *x) {
        for (int q = 0; q < 6; ++q) {
            double v = 0, arg = k[0] * x[0] + k[1] * x[1] + k[2] * x[2];
            switch (kind) { case 0: v = lev[0][q]; break; case 1: v = std::sin(arg + ph[q]); break; case 2: case 5: v = g.d(-1, 1); break;
                case 3: v = lev[x[axis] >= cut][q]; break; case 4: v = g.chance(0.15) ? g.d(-1, 1) : 0.; break; case 6: v = g.i(-2, 2); break; }
            a.at(x, q) = kind == 6 ? v * 1e-12 : v * (q < 3 ? eamp : bamp); // neighbours differing by exactly 1e-12, the limiter's own constant
        }
    });
    return names[kind];
}
// put NaN into every ghost cell that lies outside the interior in two or more dimensions
inline void poison_corners(Arr &a) { a.each_all([&](const int *x) { if (outside_dims(a, x) > 1) for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) a.at(x, c, p) = std::numeric_limits<double>::quiet_NaN(); }); }

inline std::string cell_str(const Shape &s, const int *x) { std::string r = "("; for (int d = 0; d < s.nd; ++d) r += fmt("%s%d", d ? "," : "", x[d]); return r + ")"; }
} // namespace ref
#endif
