// C23: operators write only their declared outputs and read only their inputs and outputs.
#include "ops.h"
#include <iostream>
#include <set>
using namespace vf; using namespace ops;
struct Capture { std::ostringstream os; std::streambuf *old; Capture() : old(std::cout.rdbuf(os.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
struct GridView { std::vector<double> v; explicit GridView(const qk::grid::rectilinear &g) { for (int d = 0; d < g.num_dims(); ++d) { v.push_back(g.lower(d)); v.push_back(g.upper(d)); v.push_back(g.start(d)); v.push_back(g.width(d)); v.push_back(g.dx(d)); v.push_back(g.centroid(d, g.lower(d))); v.push_back(g.stride(d)); } v.push_back(g.volume()); v.push_back(g.num_dims()); } };
static bool has(const Ids &l, const std::string &n) { for (auto &i : l) if (i.name() == n) return true; return false; }
static Ids bystanders(Rng &g, World &w, int n, const std::string &pre) {
    Ids r; for (int k = 0; k < n; ++k) { int nc = g.i(1, 6); std::string nm; switch (g.i(0, 3)) { case 0: nm = fmt("a_by%d", k); break; case 1: nm = fmt("zz_by%d", k); break; case 2: nm = pre + fmt("by%d", k); break; default: nm = pre + fmt("o%d_rhs", k); }
        qk::basis::basis b = g.chance(0.2) ? qk::basis::basis("pts", g.i(1, 3)) : (qk::basis::basis)qk::basis::volume_average(); variable_id i(nm, nc == 5 ? fluid_comps() : nc == 6 ? field_comps() : comps(nc), b); Arr a(w.shape(i)); randomise(a, g, weird_value); w.put(i, a); r.push_back(i); }
    return r; }
void vf_case(Rng &g, Ctx &ctx) {
    World w1, w2; Rng gw = g, gw2 = g; random_grid(gw, w1, g.chance(0.1) ? 800 : 120, 2, 0, 0.2); g = gw; random_grid(gw2, w2, 120, 2, 0, 0.2);
    w2.nd = w1.nd; for (int d = 0; d < 3; ++d) { w2.L[d] = w1.L[d]; w2.lo[d] = w1.lo[d]; w2.start[d] = w1.start[d]; w2.width[d] = w1.width[d]; } w2.build();
    double t = g.d(-2, 9), dt = g.chance(0.7) ? g.logd(1e-4, 1e-1) : g.chance(0.3) ? 0. : g.sgn() * g.logd(1e-9, 1e6); std::string pre = g.chance(0.5) ? "" : "v_"; int kind = g.i(0, n_ops - 1);
    w1.vm->set_time(t); w1.vm->set_dt(dt); w2.vm->set_time(g.d(-2, 9)); w2.vm->set_dt(dt); // the time itself must not matter
    Rng go(g.next()); Rng go2 = go; int nb1 = g.i(1, 5), nb2 = g.chance(0.1) ? 60 : g.i(0, 12);
    Ids by1 = bystanders(g, w1, nb1, pre); OpCase A = random_op(go, w1, pre, kind);
    OpCase B; Ids by2; if (g.chance(0.5)) { by2 = bystanders(g, w2, nb2, pre); B = random_op(go2, w2, pre, kind); } else { B = random_op(go2, w2, pre, kind); by2 = bystanders(g, w2, nb2, pre); }
    std::string d = A.name + fmt(" (stage %d) on %s", A.tag, w1.str().c_str());
    if (g.chance(0.2)) { // states no physics allows: the operator still leaves alone what is not its own
        double p = g.chance(0.5) ? 0.02 : 0.5; std::set<std::string> seen; for (auto &i : A.reads) if (seen.insert(i.name()).second) { Arr a = w1.get(i); for (double &x : a.v) if (g.chance(p)) x = weird_value(g); w1.put(i, a); w2.put(i, a); } ctx.count("hostile contents"); }
    if (g.chance(0.08)) { int tag = g.pick(std::vector<int>{-1, 3, 4, 7, 100, -2147483647}); for (OpCase *C : {&A, &B}) { C->tag = tag; C->writes = C->out; C->reads = C->in; C->reads.insert(C->reads.end(), C->out.begin(), C->out.end()); } ctx.count("unknown stages"); }
    double fillv = g.chance(0.3) ? 0. : g.chance(0.2) ? weird_value(g) : g.d(-5, 5); if (fillv != fillv) fillv = 1.;
    // frame
    auto check = [&](World &w, OpCase &C, const Ids &by, std::string &text) {
        Ids all = by; for (auto &l : {C.in, C.out}) for (auto &i : l) if (!has(all, i.name())) all.push_back(i);
        Ids keep; for (auto &i : all) if (!has(C.writes, i.name())) keep.push_back(i);
        Snap sn(w, keep); Snap wr(w, C.writes); GridView gv(*w.grid); double t0 = w.vm->time(), d0 = w.vm->dt();
        { Capture c; C.op->solve(*w.vm, C.tag); text = c.os.str(); }
        sn.same("frame", d); VF_CHECK(same_bits(w.vm->time(), t0) && same_bits(w.vm->dt(), d0), "clock", "%s changed the time or the step", d.c_str()); VF_CHECK(GridView(*w.grid).v == gv.v, "grid", "%s changed the grid", d.c_str());
        ctx.count("variables that had to stay", keep.size());
        if (C.name == "swap") { std::map<std::string, int> at; for (size_t k = 0; k < C.out.size(); ++k) at.insert({C.out[k].name(), (int)k}); for (size_t k = 0; k + 1 < C.out.size(); k += 2) std::swap(at[C.out[k].name()], at[C.out[k + 1].name()]);
            for (auto &i : C.out) { Arr n = w.get(i); auto &o = wr.s[at[i.name()]]; VF_CHECK(!std::memcmp(n.v.data(), o.second.v.data(), n.v.size() * 8), "swap", "%s: '%s' does not hold the former contents of '%s'", d.c_str(), i.name().c_str(), o.first.name().c_str()); ctx.count("exchanged variables"); } if (C.chain) ctx.count("exchange chains"); }
        if (C.name == "fill") { for (auto &i : C.out) { Arr n = w.get(i); for (double x : n.v) VF_CHECK(same_bits(x, fillv), "fill", "%s: '%s' holds %.17g after a reset to %.17g", d.c_str(), i.name().c_str(), x, fillv); ctx.count("reset variables"); } }
    };
    if (A.name == "fill") { static_cast<qk::solver::fill *>(A.op.get())->setup(fillv); static_cast<qk::solver::fill *>(B.op.get())->setup(fillv); }
    // in the second world everything the operator may not read holds other values
    int other = 0; for (auto &i : B.out) if (!has(B.reads, i.name())) { Arr a(w2.shape(i)); randomise(a, g, [](Rng &r) { return r.chance(0.3) ? std::numeric_limits<double>::quiet_NaN() : r.d(-1e6, 1e6); }); w2.put(i, a); ++other; }
    { Ids l = A.in; for (auto &i : A.out) if (!has(l, i.name())) l.push_back(i); Capture c; bool any = kind == OP_SWAP || (kind >= OP_RK1 && kind <= OP_CURRENT) || kind >= OP_TUBE;
      warm(g, w1, *A.op, l, A.name == "ssprk3" ? g.i(0, 2) : A.name == "ssprk2_advection" ? g.i(0, 1) : 0, ctx, 0.4, any && kind != OP_WAVE); }
    std::string t1, t2; check(w1, A, by1, t1); check(w2, B, by2, t2); VF_CHECK(!A.prints || t1 == t2, "reads", "%s printed different texts", d.c_str());
    for (auto &i : A.writes) { Arr a = w1.get(i), b = w2.get(i); a.each_all([&](const int *x) { if (A.interior && !a.interior(x)) return; for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) VF_CHECK(same_val(a.at(x, c, p), b.at(x, c, p)), "reads", "%s: component %d of '%s' in cell %s depends on something other than the inputs: %.17g with %d unrelated variables, %.17g with %d", d.c_str(), c, i.name().c_str(), cell_str(a, x).c_str(), a.at(x, c, p), nb1, b.at(x, c, p), nb2); }); ctx.count("results compared"); }
    if (other) ctx.count("outputs with other earlier contents", other);
    ctx.count("runs of " + A.name); if (nb2 > 50) ctx.count("crowded registries"); ctx.seen(d + fmt("%d %d %llu", nb1, nb2, (unsigned long long)go.s)); ctx.sample(d + fmt(", %d and %d unrelated variables", nb1, nb2));
}
