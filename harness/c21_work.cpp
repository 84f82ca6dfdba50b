// C21 workload, compiled against both copies of the library (with OpenMP, and serial under another namespace).
#define VF_NO_MAIN
#define QKW_HUGE 0.003
#include "vf.h"
#include "c21.h"
#include <cassert>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <omp.h>
#ifdef C21_SERIAL
#define qkw qkws
#define ref refs
#define sim sims
#define ops opss
#define C21_RUN c21_run_serial
#else
#define C21_RUN c21_run_omp
#endif
#include "ops.h"
using namespace vf; using namespace ops;
static void take(World &w, const OpCase &C, std::vector<C21Out> &out) {
    for (auto &i : C.writes) { Arr a = w.get(i); C21Out o; o.name = i.name(); o.op = C.name; o.nd = a.nd; for (int d = 0; d < 3; ++d) o.L[d] = a.L[d]; o.nc = a.nc; o.np = a.np; o.interior = C.interior; o.v = a.v; out.push_back(o); } }
void C21_RUN(const C21Plan &p, std::vector<C21Out> &out, std::string &desc) {
    Rng g(p.seed); World w; random_grid(g, w, p.large ? 1500 : 150, 2, 0, 0.2); w.vm->set_dt(g.logd(1e-3, 1e-2)); desc = w.str() + ":";
    if (p.kind < 0) { // a few steps of a plasma, composed from operators
        variable_id q = fluid_id("q"), f = field_id("f"), qr = fluid_id("qr"), fr = field_id("fr"); Ids Q = {q, fluid_id("q1"), fluid_id("q2"), fluid_id("q3")}, F = {f, field_id("f1"), field_id("f2"), field_id("f3")};
        Arr a(w.shape(q)), b(w.shape(f)); fluid_state(g, a, 1.4, 1, false); field_state(g, b, 1., 1); w.put(q, a); w.put(f, b); double dt = 0.1 / (fluid_rate(a, w, 1.4) + field_rate(w, 1.) + 20); w.vm->set_dt(dt);
        qk::solver::fill z; z.setup(0.); z.set_output_variables({qr, fr}); int n = g.i(1, 2);
        for (int t = 0; t < n; ++t) { for (int s = 0; s < 3; ++s) {
            make_bc({PERIODIC, all_dims(w.nd)}, {Q[s], F[s]})->solve(*w.vm, 0); z.solve(*w.vm);
            qk::solver::euler e; e.setup(1.4); e.add_input_variable(Q[s]); e.add_output_variable(qr); e.solve(*w.vm); qk::solver::maxwell m; m.setup(1.); m.add_input_variable(F[s]); m.add_output_variable(fr); m.solve(*w.vm);
            qk::solver::lorentz_force l; l.setup(-1., 1.); l.set_input_variables({Q[s], F[s]}); l.add_output_variable(qr); l.solve(*w.vm); qk::solver::current_source c; c.setup(1., {-1.}, {1.}); c.add_input_variable(Q[s]); c.add_output_variable(fr); c.solve(*w.vm);
            qk::solver::ssprk3 k; k.set_input_variables({q, qr}); k.set_output_variables({Q[1], Q[2], Q[3]}); k.solve(*w.vm, s); k.set_input_variables({f, fr}); k.set_output_variables({F[1], F[2], F[3]}); k.solve(*w.vm, s); }
            qk::solver::swap sw; sw.set_output_variables({q, Q[3], f, F[3]}); sw.solve(*w.vm); }
        OpCase C; C.name = "plasma steps"; C.writes = {q, f}; C.interior = true; take(w, C, out); desc += " plasma steps"; return;
    }
    OpCase C = random_op(g, w, "v_", p.kind); desc += " " + C.name + fmt(" stage %d", C.tag); C.op->solve(*w.vm, C.tag); take(w, C, out);
    if (g.chance(0.3)) { C.op->solve(*w.vm, C.tag); take(w, C, out); } // again: accumulating operators add twice
}
