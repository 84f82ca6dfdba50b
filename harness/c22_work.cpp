// C22 workload: random correct programs on the public interface. Compiled once per copy of the library.
#define VF_NO_MAIN
#define QKW_HUGE 0.002
#include "vf.h"
#include "c22.h"
#include <cassert>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <type_traits>
#include <valgrind/memcheck.h>
#ifdef C22_B
#define qkw qkws
#define ref refs
#define sim sims
#define ops opss
#define C22_RUN c22_run_b
#else
#define C22_RUN c22_run_a
#endif
#include "ops.h"
#include "lib/range_set.h"
#include "grid/structured.h"
using namespace vf; using namespace ops;
namespace {
struct Stretched : qk::grid::structured { using qk::grid::structured::structured; void write_vtk(std::ofstream &, const qk::basis::basis &) const {} void xc(const qk::indexer &, double *) const {} };
struct Capture { std::ostringstream os; std::streambuf *old; Capture() : old(std::cout.rdbuf(os.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
std::string slurp(const std::string &p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
void interior(World &w, const variable_id &i, C22Log &L, const std::string &what) { Arr a = w.get(i); std::vector<double> v; a.each_interior([&](const int *x) { for (int p = 0; p < a.np; ++p) for (int c = 0; c < a.nc; ++c) v.push_back(a.at(x, c, p)); }); VALGRIND_CHECK_MEM_IS_DEFINED(v.data(), v.size() * 8); L.add(what + " interior of '" + i.name() + "'", v.data(), v.size()); }
void everything(World &w, const variable_id &i, C22Log &L, const std::string &what) { Arr a = w.get(i); VALGRIND_CHECK_MEM_IS_DEFINED(a.v.data(), a.v.size() * 8); L.add(what + " of '" + i.name() + "'", a.v.data(), a.v.size()); }
void outputs(Rng &g, World &w, const Ids &v, const std::string &scratch, C22Log &L) {
    if (g.chance(0.6)) { w.vm->write_vtk(scratch + "/out", ".vtk", v); L.texts.push_back({"exported file", slurp(scratch + "/out.vtk")}); unlink((scratch + "/out.vtk").c_str()); }
    if (g.chance(0.3)) { Capture c; qk::solver::print p; p.set_input_variables(v); p.solve(*w.vm); L.texts.push_back({"printed text", c.os.str()}); }
}
// a simulation made of library operators only: nothing but what they wrote is ever in memory
void simulation(Rng &g, const std::string &scratch, C22Log &L) {
    World w; random_grid(g, w, 100, 2, 0, 0.2); if (g.chance(0.6)) { for (int d = 0; d < 3; ++d) w.start[d] = -0.5 * w.width[d]; w.build(); }
    qk::variable::variable_manager own(*w.grid); qk::variable::variable_manager &vm = *w.vm; double tdt[2] = {own.time(), own.dt()}; VALGRIND_CHECK_MEM_IS_DEFINED(tdt, sizeof tdt); L.add("time and step of a new registry", tdt, 2);
    int kind = g.i(0, 3), steps = g.i(1, 2); L.kind = fmt("simulation %d", kind); double mind = 1e9; for (int d = 0; d < w.nd; ++d) mind = std::min(mind, w.dx(d));
    auto bcs = [&](const Ids &v, bool fluid) { std::vector<std::unique_ptr<qk::solver::solver>> r; for (int d = 0; d < w.nd; ++d) { int k = g.i(0, fluid ? 3 : 1); r.push_back(make_bc({(Bc)k, {d}}, v)); } return r; };
    if (kind == 3) { int nc = g.i(1, 3); variable_id a = vid("a", comps(nc)), b = vid("b", comps(nc)), c = vid("c", comps(nc)); qk::solver::gaussian G; G.setup(1., {0., 0., 0.}, 0.5); G.add_output_variable(a); G.solve(vm); std::vector<double> v; double s = 0; for (int d = 0; d < w.nd; ++d) { v.push_back(g.d(-1, 1)); s += std::fabs(v[d]) / w.dx(d); } vm.set_dt(0.3 / (s + 1e-9)); vm.set_time(0.);
        qk::solver::ssprk2_advection A; A.setup(v); A.add_input_variable(a); A.set_output_variables({b, c}); auto p0 = bcs({a}, false), p1 = bcs({b}, false); qk::solver::swap sw; sw.set_output_variables({a, c});
        for (int t = 0; t < steps; ++t) { for (auto &p : p0) p->solve(vm, 0); A.solve(vm, 0); for (auto &p : p1) p->solve(vm, 0); A.solve(vm, 1); sw.solve(vm); vm.set_time(vm.time() + vm.dt()); } interior(w, a, L, "advected"); outputs(g, w, {a}, scratch, L); L.add("time", vm.time()); return; }
    int ns = g.chance(0.3) ? 1 : 3; Ids E, I, F; for (int s = 0; s <= ns; ++s) { E.push_back(fluid_id(fmt("e%d", s))); I.push_back(fluid_id(fmt("i%d", s))); F.push_back(field_id(fmt("f%d", s))); } variable_id er = fluid_id("er"), ir = fluid_id("ir"), fr = field_id("fr");
    std::vector<std::vector<variable_id> *> V; Ids R; if (kind == 0) { V = {&E}; R = {er}; } else if (kind == 1) { V = {&F}; R = {fr}; } else { V = {&E, &I, &F}; R = {er, ir, fr}; }
    double ga = 5. / 3;
    if (kind == 0) { if (g.chance(0.5)) { qk::solver::shock_tube t; t.setup(.125, .1, ga); t.add_output_variable(E[0]); t.solve(vm); } else { qk::solver::radial_shock_tube t; t.setup(.4, .125, .1, ga); t.add_output_variable(E[0]); t.solve(vm); } }
    else if (kind == 1) { if (g.chance(0.5)) { qk::solver::magnetic_pulse t; t.setup(1., .3); t.add_output_variable(F[0]); t.solve(vm); } else { qk::solver::electromagnetic_wave_1D t; t.setup(g.i(0, w.nd - 1), 1., 6., .5, 1., -1.); t.add_output_variable(F[0]); t.solve(vm); } }
    else if (g.chance(0.5)) { qk::solver::brio_wu_shock_tube t; t.set_output_variables({E[0], I[0], F[0]}); t.solve(vm); } else { qk::solver::gem_challenge t; t.setup(.5, 4., 1., .2, ga, -1, .04, 0, .1, 1, 1, 0, .1, 1.); t.set_output_variables({E[0], I[0], F[0]}); t.solve(vm); }
    vm.set_dt(0.02 * mind); std::vector<std::vector<std::unique_ptr<qk::solver::solver>>> bc; for (size_t k = 0; k < V.size(); ++k) bc.push_back(bcs({(*V[k])[0]}, (*V[k])[0].component_names().size() == 5));
    qk::solver::fill z; z.setup(0.); z.set_output_variables(R); qk::solver::swap sw; for (auto *v : V) { sw.add_output_variable((*v)[0]); sw.add_output_variable((*v)[ns]); }
    for (int t = 0; t < steps; ++t) {
        for (int s = 0; s < ns; ++s) {
            for (size_t k = 0; k < V.size(); ++k) for (auto &b : bc[k]) { b->set_output_variables({(*V[k])[s]}); b->solve(vm, s); }
            z.solve(vm);
            for (size_t k = 0; k < V.size(); ++k) { if ((*V[k])[0].component_names().size() == 5) { qk::solver::euler e; e.setup(ga); e.add_input_variable((*V[k])[s]); e.add_output_variable(R[k]); e.solve(vm); } else { qk::solver::maxwell m; m.setup(1.); m.add_input_variable((*V[k])[s]); m.add_output_variable(R[k]); m.solve(vm); } }
            if (kind == 2) { qk::solver::lorentz_force l; l.setup(-1., .04); l.set_input_variables({E[s], F[s]}); l.add_output_variable(er); l.solve(vm); qk::solver::lorentz_force m; m.setup(1., 1.); m.set_input_variables({I[s], F[s]}); m.add_output_variable(ir); m.solve(vm); qk::solver::current_source c; c.setup(1., {-1., 1.}, {.04, 1.}); c.set_input_variables({E[s], I[s]}); c.add_output_variable(fr); c.solve(vm); }
            for (size_t k = 0; k < V.size(); ++k) { if (ns == 3) { qk::solver::ssprk3 r; r.set_input_variables({(*V[k])[0], R[k]}); r.set_output_variables({(*V[k])[1], (*V[k])[2], (*V[k])[3]}); r.solve(vm, s); } else { qk::solver::rk1 r; r.set_input_variables({(*V[k])[0], R[k]}); r.set_output_variables({(*V[k])[1]}); r.solve(vm, s); } }
        }
        sw.solve(vm); vm.set_time(vm.time() + vm.dt());
    }
    Ids last; for (auto *v : V) { interior(w, (*v)[0], L, "final"); last.push_back((*v)[0]); } outputs(g, w, last, scratch, L); L.add("time", vm.time());
}
void operators(Rng &g, const std::string &scratch, C22Log &L) {
    World w; random_grid(g, w, 100, 2, 0, 0.3); w.vm->set_dt(g.d(0.001, 0.1)); L.kind = "operators"; int n = g.i(2, 6); Ids seen;
    for (int k = 0; k < n; ++k) {
        std::string pre = fmt("p%d_", g.chance(0.7) ? k : 0); OpCase C; try { C = random_op(g, w, pre); } catch (const qk::exception &) { L.texts.push_back({"error", "component conflict"}); continue; } // a name reused with other components
        { Capture c; C.op->solve(*w.vm, C.tag); L.texts.push_back({C.name + " printed", c.os.str()}); }
        for (auto &i : C.writes) { if (C.interior) interior(w, i, L, C.name); else everything(w, i, L, C.name); } L.kind += " " + C.name;
        if (g.chance(0.3)) { try { qk::solver::euler e; e.setup(1.4); e.add_input_variable(fluid_id("nothing")); e.add_output_variable(fluid_id("nowhere")); e.solve(*w.vm); L.texts.push_back({"misuse", "no error"}); } catch (const qk::exception &x) { L.texts.push_back({"misuse", x.what()}); } }
        if (!C.out.empty() && C.out[0].basis().name() == qk::basis::volume_average().name()) seen.push_back(C.out[0]);
    }
    if (!seen.empty()) outputs(g, w, {seen[0]}, scratch, L);
}
// copies an object where its class allows it, uses the copy, destroys it, and uses the original again
template <class T> typename std::enable_if<std::is_copy_constructible<T>::value>::type copied(const T &t, std::function<void(const T &)> use) { { T c(t); use(c); } use(t); }
template <class T> typename std::enable_if<!std::is_copy_constructible<T>::value>::type copied(const T &t, std::function<void(const T &)> use) { use(t); }
template <class T> typename std::enable_if<std::is_copy_assignable<T>::value>::type assigned(T &a, const T &b) { a = b; }
template <class T> typename std::enable_if<!std::is_copy_assignable<T>::value>::type assigned(T &, const T &) {}
void geometry(Rng &g, const std::string &, C22Log &L) {
    L.kind = "geometry"; World w; random_grid(g, w, 60, 1, 0, 0.3); int nd = w.nd;
    int lo[3], up[3], n[3]; for (int d = 0; d < 3; ++d) { lo[d] = g.i(-5, 5); up[d] = lo[d] + g.i(1, 6); n[d] = g.i(1, 4); } qk::range r(nd, lo, up), s(r);
    if (g.chance(0.5)) s.extrude(0, g.i(1, 3)); for (int k = 0; k < nd; ++k) { if (g.chance(0.4)) s.expand(k, g.i(0, 2), g.i(0, 2)); if (g.chance(0.4)) s.shift(k, g.i(-3, 3)); } { std::ostringstream os; os << r << s; L.texts.push_back({"ranges", os.str()}); }
    qk::range_set rs; rs.setup(r, n); for (qk::indexer i = rs.indexer(); i.exists(); i.next()) { std::ostringstream os; os << rs[i]; L.texts.push_back({"piece", os.str()}); }
    qk::data::extended_datachunk c; { qk::range dr; dr.extrude(0, g.i(1, 3)); c.resize(r, dr, g.i(0, 2)); } double k = 0; std::vector<double> sum;
    for (qk::indexer i = c.indexer(); i.exists(); i.next()) c[i] = k += 0.5; for (qk::indexer i = c.indexer(c.internal_range()); i.exists(); ++i) sum.push_back(c[i]); L.add("chunk", sum.data(), sum.size());
    qk::data::extended_datachunk c2(c), c3; c3 = c; c2.multiply_by_scalar(c2.internal_range(), 2.); c3 = c3; c2.swap(c3); sum.assign(c2.data(), c2.data() + c2.volume()); sum.insert(sum.end(), c3.data(), c3.data() + c3.volume()); VALGRIND_CHECK_MEM_IS_DEFINED(sum.data(), sum.size() * 8); L.add("copied chunks", sum.data(), sum.size());
    { qk::indexer_interface<int> a(r), b; a.fill(3); b = a; b.pull(a); qk::indexer_interface<int> e(b); for (qk::indexer i = e.indexer(); i.exists(); i.next()) k += e[i]; L.add("ints", k); }
    double st[3] = {0, 1, -1}, wd[3] = {1, 2, 3}; Stretched sg(r, st, wd); for (int d = 0; d < nd; ++d) { if (g.chance(0.5)) sg.apply_bias_linear(d, g.d(0.3, 3)); if ((up[d] - lo[d]) % 2 == 0 && g.chance(0.5)) sg.apply_bias_symmetric(d, g.d(0.3, 3)); for (int i = lo[d]; i < up[d]; ++i) { L.add("stretched width", sg.dx(d, i)); L.add("stretched centre", sg.centroid(d, i)); } }
    for (qk::indexer i(r, r); i.exists(); i.next()) { double x[3] = {0, 0, 0}; w.grid->xc(i, x); L.add("centre", x, 3); }
    variable_id v = vid("v", comps(2)), u = vid("u", comps(1)); w.vm->output_variable(v); w.vm->output_variable(u); everything(w, v, L, "fresh variable");
    // copies of every copyable class must leave the original usable
    typedef qk::variable::variable_manager VM; std::function<void(const VM &)> use = [&](const VM &m) { const auto &x = chunk_of(m.input_variable(v)); L.add("through a registry", x.data()[0] + x.data()[x.volume() - 1]); };
    copied<VM>(*w.vm, use); { VM other(*w.grid); other.output_variable(v); assigned<VM>(other, *w.vm); use(other); } use(*w.vm);
    std::function<void(const qk::variable::variable &)> usev = [&](const qk::variable::variable &m) { const auto &x = chunk_of(m); L.add("through a variable", x.data()[0] + x.data()[x.volume() - 1]); L.texts.push_back({"name", m.name()}); }; copied<qk::variable::variable>(w.vm->output_variable(v), usev);
    { qk::variable::variable a(w.vm->output_variable(v)); chunk_of(a).data()[0] = 5.; assigned(a, (const qk::variable::variable &)w.vm->output_variable(u)); usev(a); everything(w, v, L, "after copies"); }
    std::function<void(const qk::range &)> user = [&](const qk::range &q) { L.add("range", q.volume()); }; copied(r, user); std::function<void(const qk::grid::rectilinear &)> useg = [&](const qk::grid::rectilinear &q) { L.add("grid", q.dx(0)); }; copied(*w.grid, useg);
    std::function<void(const Stretched &)> uses = [&](const Stretched &q) { L.add("stretched", q.dx(0, lo[0])); }; copied(sg, uses); std::function<void(const qk::range_set &)> users = [&](const qk::range_set &q) { int m = 0; for (qk::indexer i = q.indexer(); i.exists(); i.next()) m += q[i].volume(); L.add("pieces", m); }; copied(rs, users);
    { qk::solver::bc_periodic p; p.setup(all_dims(nd)); p.add_output_variable(v); std::function<void(const qk::solver::bc_periodic &)> us = [&](const qk::solver::bc_periodic &q) { bool ok = true; for (int d = 0; d < nd; ++d) ok = ok && w.L[d] >= 2; if (ok) q.solve(*w.vm); }; copied(p, us); }
    { variable_id q = v.unique_clone(), z(q); z = u; z = z; L.add("clone", (double)q.component_names().size()); } 
    try { w.vm->input_variable(vid("missing", comps(1))); } catch (const qk::exception &x) { qk::exception y(x); y = x; y << "!"; L.texts.push_back({"error", y.what()}); }
}
}
void C22_RUN(uint64_t seed, int kind, const std::string &scratch, C22Log &L) { Rng g(seed); if (kind == 0) simulation(g, scratch, L); else if (kind == 1) operators(g, scratch, L); else geometry(g, scratch, L); }
