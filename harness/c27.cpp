// C27: programs that share no objects do not influence each other, whether their steps alternate or they run on threads of their own.
#include "ops.h"
#include "program.h"
#include "grid/structured.h"
#include "lib/range_set.h"
#include <atomic>
#include <fstream>
#include <thread>
using namespace vf; using namespace ops;
namespace {
struct Stretched : qk::grid::structured { using qk::grid::structured::structured; void write_vtk(std::ofstream &, const qk::basis::basis &) const {} void xc(const qk::indexer &, double *) const {} };
struct Actor { // a program that can be advanced one call at a time; what it observes is logged
    Rng g; std::string kind; std::vector<std::pair<std::string, uint64_t>> log; int left;
    Actor(uint64_t seed, const char *k) : g(seed), kind(k), left(0) {}
    virtual ~Actor() {}
    virtual void step() = 0;
    bool done() const { return left <= 0; }
    void note(const std::string &what, const void *p, size_t n) { log.push_back({what, hash_bytes(p, n)}); }
    void note(const std::string &what, const std::string &s) { note(what, s.data(), s.size()); }
    void note(const std::string &what, World &w, const variable_id &i, bool interior) { Arr a = w.get(i); std::vector<double> v; if (interior) a.each_interior([&](const int *x) { for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) v.push_back(a.at(x, c, p)); }); else v = a.v; for (double &d : v) if (d != d) d = 1e300; note(what + " of " + i.name(), v.data(), v.size() * 8); }
};
struct Simulation : Actor { // fluid, field or plasma, one operator per step
    World w; std::unique_ptr<System> S; std::unique_ptr<Program> P; size_t s = 0, o = 0;
    Simulation(uint64_t seed) : Actor(seed, "simulation") {
        random_grid(g, w, 60, 2, 0, 0.3); S.reset(new System(w)); int k = g.i(0, 3), nf = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? 2 : 1; S->coupled = k >= 2; S->one_stage = g.chance(0.3); S->c = g.logd(0.3, 3); std::vector<Arr> init; double rate = field_rate(w, S->c);
        for (int q = 0; q < nf; ++q) { double ga = g.d(1.2, 2); Dims ds = all_dims(w.nd); S->sp.push_back(Species{true, ga, g.d(-1, 1), g.d(0.5, 2), {{(Bc)g.i(0, 3), ds}}}); Arr a(w.shape(fluid_id("t"))); static const int ks[] = {0, 1, 2, 3}; fluid_state(g, a, ga, ks[g.i(0, 3)], false); rate += fluid_rate(a, w, ga); init.push_back(a); }
        if (k) { S->sp.push_back(Species{false, 0, 0, 1, {{g.chance(0.5) ? PERIODIC : OUTFLOW, all_dims(w.nd)}}}); Arr a(w.shape(field_id("t"))); field_state(g, a, S->c, g.i(0, 3)); init.push_back(a); }
        P.reset(new Program(w, *S, g, "")); P->start(init, g, true); w.vm->set_dt(0.1 / rate); int per = 1; for (auto &v : P->stage) per += (int)v.size(); left = per * g.i(1, 3); kind += fmt(" %d", k); }
    void step() { --left; if (s == P->stage.size()) { P->sw->solve(*w.vm, 0); w.vm->set_time(w.vm->time() + w.vm->dt()); s = o = 0; for (auto &v : P->u) note("state", w, v[0], true); double t = w.vm->time(); note("time", &t, 8); return; }
        P->stage[s][o]->solve(*w.vm, (int)s); if (++o == P->stage[s].size()) { note(fmt("stage %zu", s), w, P->u[0][s + 1], true); o = 0; ++s; } }
};
struct Operators : Actor { // any operators, made, used and thrown away; some fail
    World w; std::vector<OpCase> kept; bool files; std::string dir; int n = 0;
    Operators(uint64_t seed, const std::string &d) : Actor(seed, "operators"), files(!d.empty()), dir(d) { random_grid(g, w, 60, 2, 0, 0.3); w.vm->set_dt(g.d(0.001, 0.1)); left = g.i(3, 10); }
    void step() { --left; ++n;
        if (g.chance(0.15)) { try { qk::solver::euler e; e.setup(1.4); e.add_input_variable(fluid_id("nothing")); e.add_output_variable(fluid_id("nowhere")); e.solve(*w.vm); note("misuse", "no error"); } catch (const qk::exception &x) { note("misuse", x.what()); } return; }
        int kind; do kind = g.i(0, n_ops - 1); while (kind == OP_PRINT);
        OpCase C; if (!kept.empty() && g.chance(0.3)) { int k = g.i(0, (int)kept.size() - 1); C = std::move(kept[k]); kept.erase(kept.begin() + k); } else C = random_op(g, w, fmt("p%d_", n), kind);
        C.op->solve(*w.vm, C.tag); for (auto &i : C.writes) note(C.name, w, i, C.interior);
        if (files && g.chance(0.2) && C.out[0].basis() == qk::basis::volume_average()) { std::string f = dir + fmt("/%llx_%d", (unsigned long long)(uintptr_t)this, n); // no other program may use this name at the same time
            w.vm->write_vtk(f, ".vtk", {C.out[0]}); std::ifstream in((f + ".vtk").c_str()); std::stringstream b; if (C.interior || C.writes.size()) b << in.rdbuf(); if (!C.interior) note("file", b.str()); else note("file size", fmt("%d", (int)!b.str().empty())); unlink((f + ".vtk").c_str()); }
        if (g.chance(0.5)) kept.push_back(std::move(C)); }
};
struct Geometry : Actor { // ranges, grids, arrays and half-finished iterations
    qk::range r; qk::data::extended_datachunk c, c2; std::unique_ptr<qk::indexer> it; std::unique_ptr<Stretched> sg; qk::range_set rs; int lo[3], up[3], nd;
    Geometry(uint64_t seed) : Actor(seed, "geometry") { nd = g.i(1, 3); int n[3]; double st[3], wd[3]; for (int d = 0; d < 3; ++d) { lo[d] = g.i(-4, 4); up[d] = lo[d] + 2 * g.i(1, 4); n[d] = g.i(1, 3); st[d] = g.d(-1, 1); wd[d] = g.d(0.1, 9); } r = qk::range(nd, lo, up); sg.reset(new Stretched(r, st, wd)); qk::range dr; dr.extrude(0, g.i(1, 3)); c.resize(r, dr, g.i(0, 2)); rs.setup(r, n); left = g.i(5, 30); it.reset(new qk::indexer(c.indexer(c.internal_range()))); }
    void step() { --left; std::ostringstream os;
        switch (g.i(0, 8)) {
        case 0: case 1: for (int k = g.i(1, 9); k > 0 && it->exists(); --k) { c[*it] = g.d(-1, 1); os << it->linear_index() << ":" << it->index(0) << " "; it->next(); } if (!it->exists()) it.reset(new qk::indexer(c.indexer(c.internal_range()))); note("iteration", os.str()); break;
        case 2: { int k = g.i(0, nd - 1); if (g.chance(0.5)) sg->apply_bias_linear(k, g.d(0.4, 3)); else sg->apply_bias_symmetric(k, g.d(0.4, 3)); std::vector<double> v; for (int i = lo[k]; i < up[k]; ++i) { v.push_back(sg->dx(k, i)); v.push_back(sg->centroid(k, i)); } note("stretching", v.data(), v.size() * 8); break; }
        case 3: c2 = c; c2.multiply_by_scalar(c2.internal_range(), g.d(-2, 2)); note("copy", c2.data(), c2.volume() * 8); break;
        case 4: if (c2.volume() == c.volume()) { c2.swap(c); note("swap", c.data(), c.volume() * 8); } break;
        case 5: { qk::range q(r); for (int k = 0; k < nd; ++k) { q.expand(k, -g.i(0, 2), g.i(0, 2)); q.shift(k, g.i(-3, 3)); } q.extrude(0, g.i(1, 3)); os << q << q.volume() << (q == r) << r.includes(q); note("range", os.str()); break; }
        case 6: for (qk::indexer i = rs.indexer(); i.exists(); i.next()) os << rs[i]; note("pieces", os.str()); break;
        case 7: { int n[3]; for (int d = 0; d < 3; ++d) n[d] = g.i(1, 4); rs.setup(r, n); break; }
        case 8: { qk::exception e("one"); e << " two"; qk::exception f(e); f << (g.i(0, 9) % 2 ? " three" : " four"); note("message", f.what()); break; } } }
};
}
static std::unique_ptr<Actor> make(int kind, uint64_t seed, const std::string &dir) { if (kind == 0) return std::unique_ptr<Actor>(new Simulation(seed)); if (kind == 1) return std::unique_ptr<Actor>(new Operators(seed, dir)); return std::unique_ptr<Actor>(new Geometry(seed)); }
static void same(const Actor &a, const Actor &b, const char *key, const std::string &how, Ctx &ctx) {
    size_t n = std::min(a.log.size(), b.log.size()); for (size_t k = 0; k < n; ++k) VF_CHECK(a.log[k] == b.log[k], key, "%s: the %s of a program of the kind '%s' (observation %zu of %zu) differs from what it is when the program runs alone", how.c_str(), b.log[k].first.c_str(), a.kind.c_str(), k, a.log.size());
    VF_CHECK(a.log.size() == b.log.size(), key, "%s: a program of the kind '%s' made %zu observations instead of %zu", how.c_str(), a.kind.c_str(), b.log.size(), a.log.size()); ctx.count("observations compared", n); }
void vf_case(Rng &g, Ctx &ctx) {
    int n = g.chance(0.1) ? g.i(5, 8) : g.i(2, 4); std::vector<int> kind; std::vector<uint64_t> seed; for (int k = 0; k < n; ++k) { kind.push_back(g.i(0, 2)); seed.push_back(g.next()); if (k && g.chance(0.2)) { kind[k] = kind[0]; seed[k] = seed[0]; ctx.count("identical programs side by side"); } }
    std::string what; std::vector<std::unique_ptr<Actor>> alone; for (int k = 0; k < n; ++k) { alone.push_back(make(kind[k], seed[k], ctx.scratch)); while (!alone[k]->done()) alone[k]->step(); what += (k ? ", " : "") + alone[k]->kind; ctx.count("programs: " + alone[k]->kind); }
    { // alternating steps; programs begin and end at different times
        std::vector<std::unique_ptr<Actor>> a(n); std::vector<bool> checked(n, false); int open = n; long switches = 0; int last = -1;
        while (open) { int k = g.i(0, n - 1); if (checked[k]) continue; if (!a[k]) a[k] = make(kind[k], seed[k], ctx.scratch); else if (!a[k]->done()) a[k]->step(); else { same(*alone[k], *a[k], "alternating", "steps alternating with those of " + what, ctx); checked[k] = true; --open; if (g.chance(0.5)) a[k].reset(); } switches += k != last; last = k; }
        ctx.count("switches between programs", switches); }
    if (g.chance(0.6)) { // at the same time
        std::vector<std::unique_ptr<Actor>> a(n); std::vector<std::string> err(n); std::vector<std::thread> t; std::atomic<int> waiting(n);
        for (int k = 0; k < n; ++k) t.emplace_back([&, k] { try { --waiting; while (waiting > 0) std::this_thread::yield(); a[k] = make(kind[k], seed[k], ctx.scratch); while (!a[k]->done()) { a[k]->step(); std::this_thread::yield(); } } catch (const Violation &v) { err[k] = v.msg; } catch (const std::exception &e) { err[k] = e.what(); } });
        for (auto &x : t) x.join();
        for (int k = 0; k < n; ++k) { VF_CHECK(err[k].empty(), "threads", "a program on a thread of its own next to %s failed: %s", what.c_str(), err[k].c_str()); same(*alone[k], *a[k], "threads", "on a thread of its own next to " + what, ctx); } ctx.count("programs on threads", n); }
    ctx.seen(mix(seed[0], seed[n - 1])); ctx.sample(what);
}
