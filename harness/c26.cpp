// C26: simulations converge to the exact solutions of the equations (no model of the method involved).
#include "program.h"
using namespace vf; using namespace qkw; using namespace ref; using namespace sim;
static const double PI = 3.14159265358979323846;
typedef std::function<void(const double *x, double t, std::vector<std::vector<double>> &q)> Exact; // all variables at one point

struct Problem {
    std::string name, desc; int nd = 1, N[3] = {1, 1, 1}; bool refine[3] = {false, false, false}; double start[3] = {0, 0, 0}, width[3] = {1, 1, 1};
    std::vector<Species> sp; bool coupled = false, advect = false; double c = 1, eps0 = 1, T = 1, cfl = 0.3; std::vector<double> vel, speed; // speed: signal speed along each dimension
    std::vector<std::vector<double>> scale; Exact exact; int steps0 = 0; // steps0: fixed number of steps on the coarse level, doubled with each level
    double ratio = 0.45, floor = 1e-11, bound = 0.3; int levels = 1;
};
// mean error over the interior, relative to the given scales; the worst component
static double run(const Problem &p, int level, Rng &g, Ctx &ctx) {
    World w; w.nd = p.nd; for (int d = 0; d < 3; ++d) { w.L[d] = p.N[d] << (p.refine[d] ? level : 0); w.start[d] = p.start[d]; w.width[d] = p.width[d]; } w.build();
    double rate = 0; for (int d = 0; d < p.nd; ++d) if (d < (int)p.speed.size()) rate += p.speed[d] / w.dx(d);
    int n = p.steps0 ? p.steps0 << level : std::max(1, (int)std::ceil(p.T * rate / p.cfl)); double dt = p.T / n; w.vm->set_dt(dt); w.vm->set_time(0);
    std::vector<std::vector<double>> q; double o[3]; std::vector<LD> e;
    auto at = [&](const int *x) { for (int d = 0; d < 3; ++d) o[d] = d < w.nd ? w.xc(d, x[d]) : 0; };
    auto fill0 = [&](Arr &a, int k) { a.each_interior([&](const int *x) { at(x); p.exact(o, 0, q); for (int c = 0; c < a.nc; ++c) a.at(x, c) = q[k][c]; }); };
    double worst = 0; auto judge = [&](const Arr &a, int k) { std::vector<double> s(a.nc, 0); long m = 0; a.each_interior([&](const int *x) { at(x); p.exact(o, p.T, q); ++m; for (int c = 0; c < a.nc; ++c) s[c] += std::fabs(a.at(x, c) - q[k][c]) / p.scale[k][c]; });
        for (double v : s) { v /= m; if (!(v <= worst)) worst = v; } ctx.count("cells compared", m); };
    if (p.advect) {
        int nc = (int)p.scale[0].size(); variable_id a = vid("a", comps(nc)), b = vid("b", comps(nc)), c = vid("c", comps(nc)); Arr s(w.shape(a)); std::fill(s.v.begin(), s.v.end(), std::nan("")); fill0(s, 0); w.put(a, s);
        qk::solver::ssprk2_advection S; S.setup(p.vel); S.add_input_variable(a); S.set_output_variables({b, c}); auto p0 = make_bc({PERIODIC, all_dims(p.nd)}, {a}), p1 = make_bc({PERIODIC, all_dims(p.nd)}, {b}); qk::solver::swap sw; sw.set_output_variables({a, c});
        for (int t = 0; t < n; ++t) { p0->solve(*w.vm, 0); S.solve(*w.vm, 0); p1->solve(*w.vm, 0); S.solve(*w.vm, 1); sw.solve(*w.vm, 0); }
        judge(w.get(a), 0);
    } else {
        System S(w); S.sp = p.sp; S.coupled = p.coupled; S.c = p.c; S.eps0 = p.eps0; Program P(w, S, g, ""); std::vector<Arr> init;
        for (size_t k = 0; k < p.sp.size(); ++k) { Arr a(w.shape(P.u[k][0])); fill0(a, (int)k); init.push_back(a); }
        P.start(init, g, true); for (int t = 0; t < n; ++t) P.step();
        for (size_t k = 0; k < p.sp.size(); ++k) judge(w.get(P.u[k][0]), (int)k);
    }
    ctx.count("steps", n); return worst;
}
static bool calibrate() { static bool c = getenv("C26_CAL"); return c; }
static void verify(Problem &p, Rng &g, Ctx &ctx) {
    Rng ga = g; double e0 = run(p, 0, ga, ctx), e1 = run(p, p.levels, ga, ctx);
    if (calibrate()) { fprintf(stderr, "CAL %s e0 %.4g e1 %.4g ratio %.4g | %s\n", p.name.c_str(), e0, e1, e1 / e0, p.desc.c_str()); return; }
    VF_CHECK(e0 <= p.bound, "far-off", "%s: the error on the coarse grid is %.4g of the amplitude, expected at most %.4g (%s)", p.name.c_str(), e0, p.bound, p.desc.c_str());
    VF_CHECK(e1 <= p.ratio * e0 + p.floor, "no-convergence", "%s: refining the grid %d times reduces the error from %.4g to %.4g only (%s)", p.name.c_str(), 1 << p.levels, e0, e1, p.desc.c_str());
    ctx.count("convergence of " + p.name); ctx.cov["worst error ratio of " + p.name + " in 1/1000 (max)"] = std::max<uint64_t>(ctx.cov["worst error ratio of " + p.name + " in 1/1000 (max)"], (uint64_t)(1000 * std::max(0., e1 - p.floor) / e0));
    ctx.seen(p.name + p.desc); ctx.sample(p.name + ": " + p.desc + fmt(", errors %.3g -> %.3g", e0, e1));
}
// grid with active dimensions (refined) and short ones
static void geometry(Problem &p, Rng &g, const std::vector<int> &active, int nd, int n) {
    p.nd = nd; for (int d = 0; d < nd; ++d) { bool a = std::find(active.begin(), active.end(), d) != active.end(); p.refine[d] = a; p.N[d] = a ? n + (g.chance(0.5) ? g.i(0, n / 4) : 0) : g.i(2, 3); p.start[d] = g.chance(0.3) ? 0. : g.d(-3, 3); p.width[d] = g.chance(0.3) ? 1. : g.logd(0.2, 5); p.desc += fmt("%s%d", d ? "x" : "", p.N[d]); }
    p.desc += " cells"; }
// smooth wave of mode numbers k.x - w t with k = 2 pi m / width along active dimensions
struct Wave { double k[3] = {0, 0, 0}, K = 0; };
static Wave wave(Problem &p, Rng &g, int nact, int n1, int n2, int n3) {
    int nd = g.chance(0.6) ? nact : g.i(nact, 3); std::vector<int> all = {0, 1, 2}; all.resize(nd); g.shuffle(all); std::vector<int> act(all.begin(), all.begin() + nact); geometry(p, g, act, nd, nact == 1 ? n1 : nact == 2 ? n2 : n3);
    if (nact > 1) { double W = p.width[act[0]]; for (int d : act) p.width[d] = W * g.d(0.7, 1.4); }
    p.ratio = nact == 1 ? 0.42 : nact == 2 ? 0.55 : 0.65; Wave v; for (int d : act) { v.k[d] = g.sgn() * 2 * PI / p.width[d]; v.K += v.k[d] * v.k[d]; } v.K = std::sqrt(v.K); p.desc += fmt(", wave along (%.3g,%.3g,%.3g)", v.k[0], v.k[1], v.k[2]); return v; }
static int actives(Rng &g) { double r = g.u(); return r < 0.75 ? 1 : r < 0.985 ? 2 : 3; }

static void advection(Rng &g, Ctx &ctx) {
    Problem p; p.name = "advected waves"; p.bound = 0.4; p.advect = true; Wave v = wave(p, g, actives(g), 32, 16, 10); int nc = g.i(1, 2); double sp = 0, ph[2] = {g.d(0, 6.28), g.d(0, 6.28)}, A = g.logd(1e-3, 1e3), base = g.d(-2, 2) * A; for (int d = 0; d < p.nd; ++d) { p.vel.push_back(g.chance(0.1) && p.nd > 1 ? 0. : g.sgn() * g.d(0.2, 2)); p.speed.push_back(std::fabs(p.vel[d])); sp += p.vel[d] * v.k[d]; }
    if (std::fabs(sp) < 0.4 * v.K) { ctx.count("standing profiles skipped"); return; }
    p.T = g.d(0.3, 1.) * 2 * PI / std::fabs(sp); p.cfl = g.d(0.15, 0.4); p.scale.assign(1, std::vector<double>(nc, A)); std::vector<double> vel = p.vel;
    p.exact = [=](const double *x, double t, std::vector<std::vector<double>> &q) { q.resize(1); q[0].resize(nc); double a = -sp * t; for (int d = 0; d < 3; ++d) a += v.k[d] * x[d]; for (int c = 0; c < nc; ++c) q[0][c] = base + A * std::sin(a + ph[c]); };
    p.desc += fmt(", cfl %.2f", p.cfl); verify(p, g, ctx); }
static std::vector<BcSpec> periodic(int nd) { return {{PERIODIC, all_dims(nd)}}; }
static void em_wave(Rng &g, Ctx &ctx) {
    Problem p; p.name = "electromagnetic waves"; p.bound = 0.5; Wave v = wave(p, g, actives(g), 32, 16, 10); p.c = g.chance(0.3) ? g.sgn() : g.sgn() * g.logd(0.05, 50); double w = std::fabs(p.c) * v.K, E0[3], B0[3], dot = 0, amp = g.logd(1e-2, 1e2), ph = g.d(0, 6.28), bE[3], bB[3];
    for (int d = 0; d < 3; ++d) { E0[d] = g.d(-1, 1); dot += E0[d] * v.k[d]; } double n = 0; for (int d = 0; d < 3; ++d) { E0[d] -= dot * v.k[d] / (v.K * v.K); n += E0[d] * E0[d]; } n = std::sqrt(n); if (n < 0.05) { E0[(p.refine[0] && !p.refine[1] && !p.refine[2]) ? 1 : 0] += 1; dot = 0; for (int d = 0; d < 3; ++d) dot += E0[d] * v.k[d]; n = 0; for (int d = 0; d < 3; ++d) { E0[d] -= dot * v.k[d] / (v.K * v.K); n += E0[d] * E0[d]; } n = std::sqrt(n); if (n < 0.05) return; }
    for (int d = 0; d < 3; ++d) E0[d] *= amp / n; for (int d = 0; d < 3; ++d) { int a = (d + 1) % 3, b = (d + 2) % 3; B0[d] = (v.k[a] * E0[b] - v.k[b] * E0[a]) / w; } double cb = amp / std::fabs(p.c); for (int d = 0; d < 3; ++d) { bE[d] = g.chance(0.5) ? 0. : amp * g.d(-1, 1); bB[d] = g.chance(0.5) ? 0. : cb * g.d(-1, 1); }
    Species s{false, 0, 0, 1, periodic(p.nd)}; p.sp.push_back(s); for (int d = 0; d < p.nd; ++d) p.speed.push_back(std::fabs(p.c)); p.T = g.d(0.3, 1.) * 2 * PI / w; p.cfl = g.d(0.2, 0.4); p.scale = {{amp, amp, amp, cb, cb, cb}};
    p.exact = [=](const double *x, double t, std::vector<std::vector<double>> &q) { q.resize(1); q[0].resize(6); double a = ph - w * t; for (int d = 0; d < 3; ++d) a += v.k[d] * x[d]; for (int d = 0; d < 3; ++d) { q[0][d] = bE[d] + E0[d] * std::cos(a); q[0][3 + d] = bB[d] + B0[d] * std::cos(a); } };
    p.desc += fmt(", c %.3g, cfl %.2f", p.c, p.cfl); verify(p, g, ctx); }
static void em_cavity(Rng &g, Ctx &ctx) { // between conducting walls normal to the first axis
    Problem p; p.name = "waves between conducting walls"; p.bound = 0.05; p.ratio = 0.38; int nd = g.chance(0.6) ? 1 : g.i(1, 3); geometry(p, g, {0}, nd, 32); p.c = g.sgn() * g.logd(0.1, 10); int m = g.i(1, 2); double k = m * PI / p.width[0], w = std::fabs(p.c) * k, amp = g.logd(0.1, 10), a1 = g.d(-1, 1), a2 = g.d(-1, 1), s0 = p.start[0], ph = g.d(0, 6.28), bB[2] = {g.chance(0.5) ? 0. : g.d(-1, 1) * amp / std::fabs(p.c), g.chance(0.5) ? 0. : g.d(-1, 1) * amp / std::fabs(p.c)};
    std::vector<BcSpec> bc; bc.push_back({CONDUCTING, {0}}); Dims rest; for (int d = 1; d < nd; ++d) rest.push_back(d); if (!rest.empty()) bc.push_back({PERIODIC, rest}); g.shuffle(bc); p.sp.push_back(Species{false, 0, 0, 1, bc});
    for (int d = 0; d < nd; ++d) p.speed.push_back(std::fabs(p.c)); p.T = g.d(0.3, 1.) * 2 * PI / w; p.cfl = g.d(0.2, 0.4); double cb = amp / std::fabs(p.c); p.scale = {{amp, amp, amp, cb, cb, cb}};
    p.exact = [=](const double *x, double t, std::vector<std::vector<double>> &q) { q.resize(1); q[0].assign(6, 0.); double S = std::sin(k * (x[0] - s0)), C = std::cos(k * (x[0] - s0)); // Ey,Bz and Ez,By
        q[0][1] = amp * a1 * S * std::cos(w * t + ph); q[0][5] = -amp * a1 * k / w * C * std::sin(w * t + ph) + bB[0]; q[0][2] = amp * a2 * S * std::cos(w * t + ph); q[0][4] = amp * a2 * k / w * C * std::sin(w * t + ph) + bB[1]; };
    p.desc += fmt(", mode %d, c %.3g", m, p.c); verify(p, g, ctx); }
static void prim(std::vector<double> &q, double rho, const double *u, double P, double ga) { q.resize(5); q[0] = rho; double K = 0; for (int d = 0; d < 3; ++d) { q[1 + d] = rho * u[d]; K += u[d] * u[d]; } q[4] = P / (ga - 1) + 0.5 * rho * K; }
static void entropy_wave(Rng &g, Ctx &ctx) {
    Problem p; p.name = "density waves"; p.bound = 0.6; Wave v = wave(p, g, actives(g), 32, 16, 10); double ga = g.chance(0.5) ? 5. / 3 : g.d(1.2, 2), rho0 = g.logd(0.3, 3), A = rho0 * g.d(0.05, 0.3), P = g.logd(0.3, 3), u[3], ph = g.d(0, 6.28), cs = std::sqrt(ga * P / (rho0 - A)), sp = 0, um = 0; bool fast = g.chance(0.3);
    for (int d = 0; d < 3; ++d) u[d] = g.sgn() * (fast ? g.d(1.2, 2.5) : g.d(0.3, 0.9)) * cs; for (int d = 0; d < 3; ++d) { sp += u[d] * v.k[d]; um = std::max(um, std::fabs(u[d])); } if (std::fabs(sp) < 0.4 * v.K * cs) { ctx.count("standing profiles skipped"); return; }
    p.sp.push_back(Species{true, ga, 0, 1, periodic(p.nd)}); for (int d = 0; d < p.nd; ++d) p.speed.push_back(std::fabs(u[d]) + cs); p.T = g.d(0.3, 1.) * 2 * PI / std::fabs(sp); p.cfl = g.d(0.2, 0.4); p.scale = {{A, A * (um + cs), A * (um + cs), A * (um + cs), A * (um + cs) * (um + cs)}};
    double U[3] = {u[0], u[1], u[2]}; p.exact = [=](const double *x, double t, std::vector<std::vector<double>> &q) { q.resize(1); double a = ph - sp * t; for (int d = 0; d < 3; ++d) a += v.k[d] * x[d]; prim(q[0], rho0 + A * std::sin(a), U, P, ga); };
    p.desc += fmt(", gamma %.3g, flow (%.2g,%.2g,%.2g), cfl %.2f", ga, u[0], u[1], u[2], p.cfl); verify(p, g, ctx); }
static void sound(Rng &g, Ctx &ctx) { // travelling, or standing between walls
    Problem p; bool tube = g.chance(0.5); p.name = tube ? "sound between walls" : "sound waves"; p.bound = tube ? 0.15 : 0.8; p.ratio = 0.42; double ga = g.chance(0.5) ? 5. / 3 : g.d(1.2, 2), rho0 = g.logd(0.3, 3), P0 = g.logd(0.3, 3), cs = std::sqrt(ga * P0 / rho0), eps = 1e-4; Wave v; double dir[3] = {0, 0, 0}, u0[3] = {0, 0, 0}, w; std::vector<BcSpec> bc;
    if (tube) { int nd = g.chance(0.6) ? 1 : g.i(1, 3), ax = g.i(0, nd - 1), m = g.i(1, 2); geometry(p, g, {ax}, nd, 32); v.k[ax] = v.K = m * PI / p.width[ax]; dir[ax] = 1; w = v.K * cs; bc.push_back({g.chance(0.7) ? FREESLIP : NOSLIP, {ax}}); if (bc[0].kind == FREESLIP) for (int d = 0; d < 3; ++d) if (d != ax && g.chance(0.5)) u0[d] = g.d(-1, 1) * cs;
        Dims rest; for (int d = 0; d < nd; ++d) if (d != ax) rest.push_back(d); if (!rest.empty()) bc.push_back({PERIODIC, rest}); g.shuffle(bc); p.desc += fmt(", walls normal to %d, mode %d", ax, m); }
    else { v = wave(p, g, actives(g), 32, 16, 10); for (int d = 0; d < 3; ++d) dir[d] = v.k[d] / v.K; bc = periodic(p.nd); if (g.chance(0.5)) for (int d = 0; d < 3; ++d) u0[d] = g.d(-1, 1) * cs; w = v.K * cs; for (int d = 0; d < 3; ++d) w += u0[d] * v.k[d]; }
    p.sp.push_back(Species{true, ga, 0, 1, bc}); double um = 0; for (int d = 0; d < 3; ++d) um = std::max(um, std::fabs(u0[d])); for (int d = 0; d < p.nd; ++d) p.speed.push_back(std::fabs(u0[d]) + cs); p.T = g.d(0.3, 1.) * 2 * PI / (v.K * cs); p.cfl = g.d(0.2, 0.4); double ph = g.d(0, 6.28), s = um + cs; p.scale = {{eps * rho0, eps * rho0 * s, eps * rho0 * s, eps * rho0 * s, eps * rho0 * s * s}}; p.floor = 6e-3;
    double st[3] = {p.start[0], p.start[1], p.start[2]}, U0[3] = {u0[0], u0[1], u0[2]}, D[3] = {dir[0], dir[1], dir[2]};
    p.exact = [=](const double *x, double t, std::vector<std::vector<double>> &q) { q.resize(1); double a = 0, f, h, u[3]; for (int d = 0; d < 3; ++d) a += v.k[d] * (x[d] - (tube ? st[d] : 0.));
        if (tube) { f = std::sin(a) * std::cos(w * t + ph); h = std::cos(a) * -std::sin(w * t + ph); h = -h; h = -std::cos(a) * std::sin(w * t + ph); } else f = h = std::cos(a - w * t + ph);
        for (int d = 0; d < 3; ++d) u[d] = U0[d] + eps * cs * f * D[d]; prim(q[0], rho0 * (1 + eps * h), u, P0 * (1 + ga * eps * h), ga); };
    p.desc += fmt(", gamma %.3g, cfl %.2f", ga, p.cfl); verify(p, g, ctx); }
// exact solution of the Riemann problem (two states meeting at s = 0), sampled at s = x/t
struct RP { double r[2], u[2], P[2], ga, Ps = 0, us = 0; bool ok = false;
    double c(int k) const { return std::sqrt(ga * P[k] / r[k]); }
    double f(int k, double p, double &df) const { if (p > P[k]) { double A = 2 / ((ga + 1) * r[k]), B = (ga - 1) / (ga + 1) * P[k], q = std::sqrt(A / (p + B)); df = q * (1 - (p - P[k]) / (2 * (p + B))); return (p - P[k]) * q; }
        double z = (ga - 1) / (2 * ga); df = std::pow(p / P[k], -(ga + 1) / (2 * ga)) / (r[k] * c(k)); return 2 * c(k) / (ga - 1) * (std::pow(p / P[k], z) - 1); }
    void solve() { if (2 * (c(0) + c(1)) / (ga - 1) <= (u[1] - u[0]) * 1.3) return; double lo = 1e-12 * std::min(P[0], P[1]), hi = std::max(P[0], P[1]); double d0, d1; while (f(0, hi, d0) + f(1, hi, d1) + u[1] - u[0] < 0) hi *= 2; for (int k = 0; k < 200; ++k) { double m = 0.5 * (lo + hi); (f(0, m, d0) + f(1, m, d1) + u[1] - u[0] < 0 ? lo : hi) = m; } Ps = 0.5 * (lo + hi); us = 0.5 * (u[0] + u[1]) + 0.5 * (f(1, Ps, d1) - f(0, Ps, d0)); ok = Ps > 0.02 * std::min(P[0], P[1]); }
    void sample(double s, double &R, double &U, double &Q) const { int k = s > us; double sg = k ? 1 : -1, S = sg * s, uk = sg * u[k], ck = c(k), um = sg * us; // mirrored so that the side lies ahead of its wave
        if (Ps > P[k]) { double x = Ps / P[k], sh = uk + ck * std::sqrt((ga + 1) / (2 * ga) * x + (ga - 1) / (2 * ga)); if (S > sh) { R = r[k]; U = u[k]; Q = P[k]; } else { R = r[k] * (x + (ga - 1) / (ga + 1)) / ((ga - 1) / (ga + 1) * x + 1); U = us; Q = Ps; } return; }
        double cm = ck * std::pow(Ps / P[k], (ga - 1) / (2 * ga)); if (S > uk + ck) { R = r[k]; U = u[k]; Q = P[k]; } else if (S < um + cm) { R = r[k] * std::pow(Ps / P[k], 1 / ga); U = us; Q = Ps; }
        else { double cc = 2 / (ga + 1) * (ck - (ga - 1) / 2 * (uk - S)), uu = 2 / (ga + 1) * (-ck + (ga - 1) / 2 * uk + S); cc = 2 / (ga + 1) * ck - (ga - 1) / (ga + 1) * (uk - S); R = r[k] * std::pow(cc / ck, 2 / (ga - 1)); U = sg * uu; Q = P[k] * std::pow(cc / ck, 2 * ga / (ga - 1)); } }
    double fastest() const { double m = 0, d; for (int k = 0; k < 2; ++k) m = std::max(m, std::fabs(u[k]) + c(k) * std::max(1., std::sqrt((ga + 1) / (2 * ga) * Ps / P[k] + (ga - 1) / (2 * ga)))); for (int k = 0; k < 2; ++k) { double R, U, Q; sample(us + (k ? 1e-9 : -1e-9) * (1 + std::fabs(us)), R, U, Q); d = std::fabs(U) + std::sqrt(ga * Q / R); m = std::max(m, d); } return m; } };
static void riemann(Rng &g, Ctx &ctx) {
    Problem p; p.name = "shock tubes"; p.bound = 0.15; RP rp; rp.ga = g.chance(0.5) ? 1.4 : g.chance(0.5) ? 5. / 3 : g.d(1.2, 2); double R0 = g.logd(0.01, 100), P0 = g.logd(0.01, 100), cs = std::sqrt(rp.ga * P0 / R0); bool sod = g.chance(0.4); for (int k = 0; k < 2; ++k) { rp.r[k] = R0 * g.logd(0.3, 3); rp.P[k] = P0 * g.logd(0.2, 5); rp.u[k] = sod ? 0. : g.d(-0.3, 0.3) * std::sqrt(rp.ga * rp.P[k] / rp.r[k]); }
    rp.solve(); if (!rp.ok) { ctx.count("near-vacuum problems skipped"); return; }
    for (int k = 0; k < 2; ++k) { double R, U, Q; rp.sample(rp.us + (k ? 1e-9 : -1e-9) * cs, R, U, Q); if (std::fabs(rp.us) > 0.6 * std::sqrt(rp.ga * Q / R)) { ctx.count("nearly sonic shock tubes skipped"); return; } } // the method takes the wave speeds of each side alone, which is known not to suffice there
        if (std::fabs(rp.P[0] / rp.P[1] - 1) < 0.3 && std::fabs(rp.r[0] / rp.r[1] - 1) < 0.3) return;
    int nd = g.chance(0.6) ? 1 : g.i(1, 3), ax = g.i(0, nd - 1); geometry(p, g, {ax}, nd, 40); p.levels = 2; p.ratio = 0.55; double tv[2][3]; for (int k = 0; k < 2; ++k) for (int d = 0; d < 3; ++d) tv[k][d] = g.chance(0.5) ? 0. : g.d(-0.3, 0.3) * cs; double mid = p.start[ax] + 0.5 * p.width[ax], f = rp.fastest(); p.T = 0.4 * p.width[ax] / f;
    std::vector<BcSpec> bc; bc.push_back({OUTFLOW, {ax}}); Dims rest; for (int d = 0; d < nd; ++d) if (d != ax) rest.push_back(d); if (!rest.empty()) bc.push_back({PERIODIC, rest}); g.shuffle(bc); p.sp.push_back(Species{true, rp.ga, 0, 1, bc}); for (int d = 0; d < nd; ++d) p.speed.push_back(d == ax ? f : 2 * cs + 2 * f); p.cfl = 0.4;
    double rs = std::max(rp.r[0], rp.r[1]), us = std::max(f, cs); p.scale = {{rs, rs * us, rs * us, rs * us, rs * us * us}}; std::vector<double> t0(tv[0], tv[0] + 3), t1(tv[1], tv[1] + 3);
    p.exact = [=](const double *x, double t, std::vector<std::vector<double>> &q) { q.resize(1); double R, U, Q, s = x[ax] - mid; if (t == 0) { int k = s > 0; R = rp.r[k]; U = rp.u[k]; Q = rp.P[k]; } else rp.sample(s / t, R, U, Q); const std::vector<double> &tt = s > rp.us * t ? t1 : t0; double u[3] = {tt[0], tt[1], tt[2]}; u[ax] = U; prim(q[0], R, u, Q, rp.ga); };
    p.desc += fmt(" along %d, rho %.3g|%.3g u %.3g|%.3g P %.3g|%.3g gamma %.3g", ax, rp.r[0], rp.r[1], rp.u[0], rp.u[1], rp.P[0], rp.P[1], rp.ga); verify(p, g, ctx); }
// uniform plasma: momenta and electric field follow a linear system with constant coefficients
typedef std::vector<std::vector<long double>> Mat;
static Mat mul(const Mat &a, const Mat &b) { size_t n = a.size(); Mat c(n, std::vector<long double>(n, 0)); for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < n; ++k) if (a[i][k] != 0) for (size_t j = 0; j < n; ++j) c[i][j] += a[i][k] * b[k][j]; return c; }
static Mat expm(Mat a, long double t) { size_t n = a.size(); long double m = 0; for (auto &r : a) for (auto &x : r) { x *= t; m = std::max(m, std::fabs(x)); } int s = 0; while (m > 0.01L) { m /= 2; ++s; } for (auto &r : a) for (auto &x : r) x = std::ldexp(x, -s); Mat e(n, std::vector<long double>(n, 0)), term; for (size_t i = 0; i < n; ++i) e[i][i] = 1; term = e; for (int k = 1; k < 14; ++k) { term = mul(term, a); for (auto &r : term) for (auto &x : r) x /= k; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) e[i][j] += term[i][j]; } while (s--) e = mul(e, e); return e; }
static void plasma(Rng &g, Ctx &ctx) {
    Problem p; p.name = "plasma oscillations"; int ns = g.i(1, 3), nd = g.i(1, 3); geometry(p, g, {}, nd, 2); p.coupled = true; p.c = g.logd(0.5, 2); p.eps0 = g.logd(0.3, 3); double B[3], E[3]; for (int d = 0; d < 3; ++d) { B[d] = g.chance(0.2) ? 0. : g.d(-1.5, 1.5); E[d] = g.chance(0.2) ? 0. : g.d(-1, 1); }
    size_t n = 3 * ns + 3; Mat A(n, std::vector<long double>(n, 0)); std::vector<double> y0(n), rho, U; double fast = 0, ps = 0; std::vector<double> qm;
    for (int k = 0; k < ns; ++k) { double q = (k % 2 ? 1. : -1.) * g.logd(0.3, 2), m = g.logd(0.3, 3), r = g.logd(0.3, 2), ga = g.chance(0.5) ? 5. / 3 : g.d(1.2, 2); rho.push_back(r); qm.push_back(q / m); double K = 0; for (int d = 0; d < 3; ++d) { y0[3 * k + d] = r * g.d(-0.5, 0.5); K += 0.5 * y0[3 * k + d] * y0[3 * k + d] / r; } U.push_back(3 * r / (ga - 1)); p.sp.push_back(Species{true, ga, q, m, periodic(nd)});
        for (int d = 0; d < 3; ++d) { int a = (d + 1) % 3, b = (d + 2) % 3; A[3 * k + d][3 * k + a] += (long double)q / m * B[b]; A[3 * k + d][3 * k + b] -= (long double)q / m * B[a]; A[3 * k + d][3 * ns + d] += (long double)q / m * r; A[3 * ns + d][3 * k + d] -= (long double)q / m / p.eps0; }
        double om = std::fabs(q / m) * (std::sqrt(B[0] * B[0] + B[1] * B[1] + B[2] * B[2]) + std::sqrt(r / p.eps0)); fast = std::max(fast, om); ps += r; }
    p.sp.push_back(Species{false, 0, 0, 1, periodic(nd)}); for (int d = 0; d < 3; ++d) y0[3 * ns + d] = E[d]; p.T = g.d(0.5, 3.) / fast; p.steps0 = (int)std::ceil(p.T * fast * ns * g.d(6, 12)); p.ratio = 1. / 6; p.floor = 1e-12; p.bound = 1e-3;
    Mat X = expm(A, p.T); std::vector<double> yT(n); for (size_t i = 0; i < n; ++i) { long double s = 0; for (size_t j = 0; j < n; ++j) s += X[i][j] * (long double)y0[j]; yT[i] = (double)s; }
    double em = 0; for (double v : y0) em = std::max(em, std::fabs(v)); for (int k = 0; k < ns; ++k) p.scale.push_back({rho[k], em + rho[k], em + rho[k], em + rho[k], U[k] + em * em / rho[k]}); p.scale.push_back({em + 1, em + 1, em + 1, 1, 1, 1}); double Bc[3] = {B[0], B[1], B[2]};
    p.exact = [=](const double *, double t, std::vector<std::vector<double>> &q) { q.resize(ns + 1); const std::vector<double> &y = t > 0 ? yT : y0; for (int k = 0; k < ns; ++k) { q[k].assign(5, 0.); q[k][0] = rho[k]; double K = 0; for (int d = 0; d < 3; ++d) { q[k][1 + d] = y[3 * k + d]; K += 0.5 * y[3 * k + d] * y[3 * k + d] / rho[k]; } q[k][4] = U[k] + K; } q[ns].assign(6, 0.); for (int d = 0; d < 3; ++d) { q[ns][d] = y[3 * ns + d]; q[ns][3 + d] = Bc[d]; } };
    p.desc += fmt(", %d species, %d steps", ns, p.steps0); verify(p, g, ctx); }
void vf_case(Rng &g, Ctx &ctx) {
    switch (g.i(0, 13)) { case 0: advection(g, ctx); break; case 1: case 2: em_wave(g, ctx); break; case 3: em_cavity(g, ctx); break; case 4: entropy_wave(g, ctx); break; case 5: case 6: sound(g, ctx); break; case 7: riemann(g, ctx); break; default: plasma(g, ctx); } }
