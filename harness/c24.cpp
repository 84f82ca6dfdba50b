// C24: numerics have no preferred axis or direction.
#include "sim.h"
using namespace vf; using namespace sim;
enum Kind { FLUID_OP, FIELD_OP, ADVECT_OP, LORENTZ_OP, CURRENT_OP };
static const char *op_names[] = {"fluid", "field", "advection", "Lorentz force", "current"};
enum Type { FLUID, FIELD, SCALAR };
// new axis d carries old axis perm[d], reversed when sign[d] < 0
struct Map { int perm[3] = {0, 1, 2}; int sign[3] = {1, 1, 1}; int shift[3] = {0, 0, 0};
    int det() const { int s = sign[0] * sign[1] * sign[2]; int p = (perm[0] == (perm[1] + 2) % 3 && perm[1] == (perm[2] + 2) % 3) ? 1 : -1; return s * p; }
    std::string str() const { return fmt("axes %s%d %s%d %s%d shift %d %d %d", sign[0] < 0 ? "-" : "", perm[0], sign[1] < 0 ? "-" : "", perm[1], sign[2] < 0 ? "-" : "", perm[2], shift[0], shift[1], shift[2]); } };
struct Param { double gamma = 5. / 3, c = 1, q = 1, m = 1, eps0 = 1, dt = 0.01; std::vector<double> vel; };
struct Problem { World w; Kind k; Param p; std::vector<Arr> in; Arr out0; };
static Type in_type(Kind k, int i) { return k == FLUID_OP ? FLUID : k == FIELD_OP ? FIELD : k == ADVECT_OP ? SCALAR : k == LORENTZ_OP ? (i ? FIELD : FLUID) : FLUID; }
static Type out_type(Kind k) { return k == FLUID_OP || k == LORENTZ_OP ? FLUID : k == ADVECT_OP ? SCALAR : FIELD; }
static Arr run(Problem &P) {
    World &w = P.w; std::vector<variable_id> in; for (size_t k = 0; k < P.in.size(); ++k) { variable_id i = vid(fmt("in%zu", k), comps(P.in[k].nc)); in.push_back(i); w.put(i, P.in[k]); } variable_id out = vid("out", comps(P.out0.nc)); w.put(out, P.out0); w.vm->set_dt(P.p.dt); std::unique_ptr<qk::solver::solver> s;
    switch (P.k) {
    case FLUID_OP: { auto *o = new qk::solver::euler; o->setup(P.p.gamma); s.reset(o); break; }
    case FIELD_OP: { auto *o = new qk::solver::maxwell; o->setup(P.p.c); s.reset(o); break; }
    case LORENTZ_OP: { auto *o = new qk::solver::lorentz_force; o->setup(P.p.q, P.p.m); s.reset(o); break; }
    case CURRENT_OP: { auto *o = new qk::solver::current_source; o->setup(P.p.eps0, std::vector<double>(in.size(), P.p.q), std::vector<double>(in.size(), P.p.m)); s.reset(o); break; }
    case ADVECT_OP: { auto *o = new qk::solver::ssprk2_advection; o->setup(P.p.vel); s.reset(o); break; } }
    s->set_input_variables(in); s->set_output_variables({out}); if (P.k == ADVECT_OP) s->add_output_variable(vid("unused", comps(P.out0.nc)));
    s->solve(*w.vm, 0); return w.get(out);
}
// component c of the transformed vector/scalar data: which old component, which sign
static void comp(Type t, const Map &m, int c, int &oc, double &sg) {
    oc = c; sg = 1; if (t == FLUID && c >= 1 && c <= 3) { oc = 1 + m.perm[c - 1]; sg = m.sign[c - 1]; } else if (t == FIELD) { int d = c % 3; oc = (c / 3) * 3 + m.perm[d]; sg = m.sign[d]; if (c >= 3) sg *= m.det(); } }
// old cell of new cell x
static void cell(const Arr &o, const Map &m, const int *x, int *y) { for (int d = 0; d < 3; ++d) y[d] = 0; for (int d = 0; d < o.nd; ++d) { int a = m.perm[d]; y[a] = m.sign[d] < 0 ? o.L[a] - 1 - x[d] : x[d]; } }
static Arr transform(const Arr &a, Type t, const Map &m) {
    Shape s = a; for (int d = 0; d < a.nd; ++d) s.L[d] = a.L[m.perm[d]]; Arr r(s);
    r.each_all([&](const int *x) { int y[3]; cell(a, m, x, y); for (int d = 0; d < a.nd; ++d) if (m.shift[d]) { int &v = y[m.perm[d]]; int L = a.L[m.perm[d]]; v = ((v + m.shift[d]) % L + L) % L; } for (int c = 0; c < a.nc; ++c) { int oc; double sg; comp(t, m, c, oc, sg); r.at(x, c) = sg * a.at(y, oc); } });
    return r; }
// interior tolerance per cell and component of the original problem
struct Tol { Arr t; std::vector<char> bad; };
static Tol tolerance(const Problem &P, const Arr &o) {
    Tol T; T.t = Arr(o); std::fill(T.t.v.begin(), T.t.v.end(), 0.); T.bad.assign(o.cells(), 0);
    if (P.k == FLUID_OP || P.k == FIELD_OP) { Rates R; if (P.k == FLUID_OP) euler_rates(LArr(P.in[0]), P.w, P.p.gamma, R); else maxwell_rates(LArr(P.in[0]), P.w, P.p.c, R); T.bad = R.bad;
        double idx = 0; for (int d = 0; d < P.w.nd; ++d) idx += 1 / P.w.dx(d); double sp = P.k == FIELD_OP ? std::max(1., P.p.c * P.p.c) + 1 : 40.;
        for (size_t k = 0; k < T.t.v.size(); ++k) T.t.v[k] = 1e-12 * (double)R.mag.v[k] + 3e-11 * sp * idx; } // the limiter itself is mirror symmetric only up to its constant 1e-12
    else { double sc = 1e-30; for (auto &a : P.in) for (double v : a.v) if (std::isfinite(v)) sc = std::max(sc, std::fabs(v)); double f = P.k == ADVECT_OP ? 20 : P.k == LORENTZ_OP ? std::fabs(P.p.q / P.p.m) * (sc + 1) * 10 : P.in.size() * 10 * std::fabs(P.p.q / P.p.m / P.p.eps0); for (double &v : T.t.v) v = 1e-13 * f * sc; }
    for (size_t k = 0; k < T.t.v.size(); ++k) if (std::isfinite(P.out0.v[k])) T.t.v[k] += 1e-15 * std::fabs(P.out0.v[k]);
    return T; }
static Arr data(Rng &g, const World &w, Type t, double gamma, int nc, std::string &d) {
    if (t == FLUID) { Arr a(w.shape(5)); static const int ks[] = {1, 2, 3, 4, 5, 6}; d += " " + fluid_state(g, a, gamma, ks[g.i(0, 5)], false).name; return a; }
    if (t == FIELD) { Arr a(w.shape(6)); d += " " + field_state(g, a, 1., g.i(1, 4)); return a; }
    Arr a(w.shape(nc)); int k = g.i(0, 2); double q[3] = {g.d(.2, 1.5), g.d(.2, 1.5), g.d(.2, 1.5)}; a.each_all([&](const int *x) { for (int c = 0; c < nc; ++c) a.at(x, c) = k == 0 ? g.d(-1, 1) : k == 1 ? std::sin(q[0] * x[0] + q[1] * x[1] + q[2] * x[2] + c) : (g.chance(0.2) ? 1. : 0.); }); return a; }
static void build(Rng &g, Problem &P, std::string &d, int force_nd = 0) {
    random_grid(g, P.w, 150, 2, force_nd); for (int q = 0; q < 3; ++q) P.w.width[q] = P.w.L[q] * g.logd(0.2, 2.); P.w.build();
    P.k = (Kind)g.i(0, 4); P.p.gamma = g.d(1.2, 2.2); P.p.c = g.sgn() * g.logd(0.3, 3); P.p.q = g.d(-2, 2); P.p.m = g.logd(0.3, 3); P.p.eps0 = g.logd(0.3, 3); d = fmt("%s on %s:", op_names[P.k], P.w.str().c_str()); double sp = 0; P.p.vel.clear();
    for (int q = 0; q < P.w.nd; ++q) { P.p.vel.push_back(g.chance(0.1) ? 0. : g.sgn() * g.logd(0.2, 5)); sp += std::fabs(P.p.vel[q]) / P.w.dx(q); } P.p.dt = 0.5 / (sp + 0.1);
    int n = P.k == LORENTZ_OP ? 2 : P.k == CURRENT_OP ? g.i(1, 3) : 1, nc = g.i(1, 3); P.in.clear(); for (int i = 0; i < n; ++i) P.in.push_back(data(g, P.w, in_type(P.k, i), P.p.gamma, nc, d));
    P.out0 = Arr(P.w.shape(out_type(P.k) == FLUID ? 5 : out_type(P.k) == FIELD ? 6 : nc)); if (g.chance(0.4)) randomise(P.out0, g, [](Rng &r) { return r.d(-1, 1); }); }
static void compare(const Problem &P, const Tol &T, const Arr &o, const Arr &r, const Map &m, double factor, const char *what, const std::string &d, Ctx &ctx) { // r: result of the transformed problem
    long n = 0; r.each_interior([&](const int *x) { int y[3]; cell(o, m, x, y); for (int q = 0; q < o.nd; ++q) if (m.shift[q]) { int &v = y[m.perm[q]]; int L = o.L[m.perm[q]]; v = ((v + m.shift[q]) % L + L) % L; } if (T.bad[cell_no(o, y)]) { ctx.count("cells skipped (unphysical or colliding faces)"); return; }
        for (int c = 0; c < o.nc; ++c) { int oc; double sg; comp(out_type(P.k), m, c, oc, sg); double want = sg * o.at(y, oc) * factor, got = r.at(x, c); VF_CHECK(same_val(got, want) || std::fabs(got - want) <= T.t.at(y, oc) * factor * 2, what, "%s: %s (%s): component %d in cell %s is %.17g, the original gives %.17g (tolerance %.3g)", d.c_str(), what, m.str().c_str(), c, cell_str(r, x).c_str(), got, want, T.t.at(y, oc)); } ++n; });
    ctx.count("cells compared", n); ctx.count(fmt("%s, %s", what, op_names[P.k])); }
static Problem moved(const Problem &P, const Map &m) {
    Problem Q; Q.k = P.k; Q.p = P.p; Q.w.nd = P.w.nd; for (int d = 0; d < 3; ++d) { int a = d < P.w.nd ? m.perm[d] : d; Q.w.L[d] = P.w.L[a]; Q.w.width[d] = P.w.width[a]; Q.w.start[d] = P.w.start[a]; } Q.w.build();
    for (int d = 0; d < P.w.nd; ++d) Q.p.vel[d] = m.sign[d] * P.p.vel[m.perm[d]]; for (size_t i = 0; i < P.in.size(); ++i) Q.in.push_back(transform(P.in[i], in_type(P.k, (int)i), m)); Q.out0 = transform(P.out0, out_type(P.k), m); return Q; }
static Map random_map(Rng &g, int nd, bool flips) {
    Map m; std::vector<int> a, b; for (int d = 0; d < 3; ++d) (d < nd ? a : b).push_back(d); g.shuffle(a); g.shuffle(b); for (int d = 0; d < 3; ++d) m.perm[d] = d < nd ? a[d] : b[d - nd]; if (flips) for (int d = 0; d < 3; ++d) if (g.chance(0.5)) m.sign[d] = -1; return m; }

static void rigid(Rng &g, Ctx &ctx) { // relabelling and mirroring, ghosts included
    Problem P; std::string d; build(g, P, d); Arr o = run(P); Tol T = tolerance(P, o); int mode = g.i(0, 2); Map m; const char *what = "relabelled";
    if (mode == 0) m = random_map(g, P.w.nd, false); else if (mode == 1) { m.sign[g.i(0, P.w.nd - 1)] = -1; what = "mirrored"; } else { m = random_map(g, P.w.nd, true); what = "relabelled and mirrored"; }
    if (mode == 0 && P.w.nd == 1 && (P.k == ADVECT_OP)) what = "repeated";
    Problem Q = moved(P, m); Arr r = run(Q); compare(P, T, o, r, m, 1., what, d, ctx); ctx.seen(hash_bytes(P.in[0].v.data(), P.in[0].v.size() * 8, hash_str(d + m.str()))); ctx.sample(d + " " + what + " " + m.str()); }
static void shifted(Rng &g, Ctx &ctx) {
    Problem P; std::string d; build(g, P, d); Dims ds = all_dims(P.w.nd); for (auto &a : P.in) boundary(a, PERIODIC, ds); Map m; for (int q = 0; q < P.w.nd; ++q) m.shift[q] = g.i(-2 * P.w.L[q], 2 * P.w.L[q]);
    Problem Q = moved(P, m); // transform wraps interior and ghosts alike; corners are then set consistently too
    Arr o = run(P); Tol T = tolerance(P, o); Arr r = run(Q); compare(P, T, o, r, m, 1., "shifted", d, ctx); ctx.seen(hash_bytes(P.in[0].v.data(), P.in[0].v.size() * 8, hash_str(d + m.str()))); ctx.sample(d + " shifted " + m.str()); }
static void scaled(Rng &g, Ctx &ctx) {
    Problem P; std::string d; do build(g, P, d); while (P.k > ADVECT_OP); std::fill(P.out0.v.begin(), P.out0.v.end(), 0.); double s = g.chance(0.5) ? std::ldexp(1., g.i(-6, 6)) : g.logd(0.02, 50); Problem Q; Q.k = P.k; Q.p = P.p; Q.in = P.in; Q.out0 = P.out0; Q.w.nd = P.w.nd;
    for (int q = 0; q < 3; ++q) { Q.w.L[q] = P.w.L[q]; Q.w.width[q] = P.w.width[q] * s; Q.w.start[q] = P.w.start[q] * s; } Q.w.build(); Q.p.dt = P.p.dt * s; Arr o = run(P); Tol T = tolerance(P, o); Arr r = run(Q); Map m;
    compare(P, T, o, r, m, P.k == ADVECT_OP ? 1. : 1. / s, "scaled", d + fmt(" lengths times %g", s), ctx); ctx.seen(hash_bytes(P.in[0].v.data(), P.in[0].v.size() * 8, hash_str(d))); ctx.sample(d + fmt(" scaled by %g", s)); }
static void reduced(Rng &g, Ctx &ctx) { // P: low-dimensional; Q: the same along some axes of a larger grid, constant along the others
    Problem P; std::string d; build(g, P, d, g.i(1, 2)); int nl = P.w.nd, nh = g.i(nl + 1, 3); 
    std::vector<int> ax = {0, 1, 2}; std::vector<int> hi; for (int q = 0; q < nh; ++q) hi.push_back(q); g.shuffle(hi); // high axes carrying low axes 0..nl-1
    Map m; std::vector<int> low_left, high_left; for (int q = nl; q < 3; ++q) low_left.push_back(q); for (int q = 0; q < 3; ++q) { bool used = false; for (int k = 0; k < nl; ++k) used = used || hi[k] == q; if (!used) high_left.push_back(q); } g.shuffle(low_left);
    for (int k = 0; k < nl; ++k) m.perm[hi[k]] = k; for (size_t k = 0; k < high_left.size(); ++k) m.perm[high_left[k]] = low_left[k];
    Problem Q; Q.k = P.k; Q.p = P.p; Q.w.nd = nh; for (int q = 0; q < nh; ++q) { bool carry = m.perm[q] < nl; Q.w.L[q] = carry ? P.w.L[m.perm[q]] : g.i(2, 5); Q.w.width[q] = carry ? P.w.width[m.perm[q]] : g.logd(0.5, 5); Q.w.start[q] = 0; } Q.w.build();
    Q.p.vel.assign(nh, 0.); double sp = 0; for (int q = 0; q < nh; ++q) { Q.p.vel[q] = m.perm[q] < nl ? P.p.vel[m.perm[q]] : (g.chance(0.3) ? 0. : g.d(-2, 2)); sp += std::fabs(Q.p.vel[q]) / Q.w.dx(q); } P.p.dt = Q.p.dt = 0.5 / (sp + 0.1); Arr o = run(P); Tol T = tolerance(P, o);
    auto low = [&](const int *x, int *y) { y[0] = y[1] = y[2] = 0; for (int q = 0; q < nh; ++q) if (m.perm[q] < nl) y[m.perm[q]] = x[q]; };
    auto lift = [&](const Arr &a, Type t) { Arr r(Q.w.shape(a.nc)); r.each_all([&](const int *x) { int y[3]; low(x, y); for (int c = 0; c < a.nc; ++c) { int oc; double sg; comp(t, m, c, oc, sg); r.at(x, c) = sg * a.at(y, oc); } }); return r; };
    for (size_t i = 0; i < P.in.size(); ++i) Q.in.push_back(lift(P.in[i], in_type(P.k, (int)i))); Q.out0 = lift(P.out0, out_type(P.k)); Arr r = run(Q); Tol TQ = tolerance(Q, r); long n = 0; // the larger problem also sums (vanishing) differences of fluxes along the extra axes
    r.each_interior([&](const int *x) { int y[3]; low(x, y); if (T.bad[cell_no(o, y)] || TQ.bad[cell_no(r, x)]) { ctx.count("cells skipped (unphysical or colliding faces)"); return; }
        for (int c = 0; c < o.nc; ++c) { int oc; double sg; comp(out_type(P.k), m, c, oc, sg); double want = sg * o.at(y, oc), got = r.at(x, c), tol = T.t.at(y, oc) + TQ.t.at(x, c); VF_CHECK(same_val(got, want) || std::fabs(got - want) <= tol * 2, "reduced", "%s as part of %s (%s): component %d in cell %s is %.17g, the lower-dimensional problem gives %.17g (tolerance %.3g)", d.c_str(), Q.w.str().c_str(), m.str().c_str(), c, cell_str(r, x).c_str(), got, want, tol); } ++n; });
    ctx.count("cells compared", n); ctx.count(fmt("%d-D as %d-D, %s", nl, nh, op_names[P.k])); ctx.seen(hash_bytes(P.in[0].v.data(), P.in[0].v.size() * 8, hash_str(d + m.str()))); ctx.sample(d + fmt(" as %d-D %s", nh, m.str().c_str())); }
void vf_case(Rng &g, Ctx &ctx) { switch (g.i(0, 5)) { case 0: case 1: case 2: rigid(g, ctx); break; case 3: shifted(g, ctx); break; case 4: reduced(g, ctx); break; default: scaled(g, ctx); } }
