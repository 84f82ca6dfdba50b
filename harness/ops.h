// A table of every operator of the library with valid variables, parameters and contents: used by the monitors that
// speak about operators in general.
#ifndef OPS_H
#define OPS_H
#include "sim.h"
namespace ops {
using namespace sim;
typedef std::vector<variable_id> Ids;
struct OpCase {
    std::string name; std::unique_ptr<qk::solver::solver> op; int tag = 0;
    Ids in, out;        // as declared to the operator
    Ids writes;         // outputs this call may change
    Ids reads;          // variables whose contents may matter (inputs, and outputs that are read)
    bool interior = false; // only interior values of the outputs are specified
    bool prints = false, chain = false; // chain: exchanges in which a variable takes part more than once
};
static const int n_ops = 21;
enum { OP_SWAP, OP_FILL, OP_PRINT, OP_RK1, OP_SSPRK3, OP_EULER, OP_MAXWELL, OP_LORENTZ, OP_CURRENT, OP_ADVECTION, OP_PERIODIC, OP_OUTFLOW, OP_NOSLIP, OP_FREESLIP, OP_CONDUCTING, OP_GAUSSIAN, OP_TUBE, OP_RADIAL, OP_PULSE, OP_WAVE, OP_TWOFLUID };

// pre: prefix of the names of the variables the case uses
inline OpCase random_op(Rng &g, World &w, const std::string &pre, int kind = -1) {
    OpCase C; if (kind < 0) kind = g.i(0, n_ops - 1); auto nm = [&](const char *s) { return pre + s; };
    auto fluid = [&](const char *n, double gamma = 5. / 3) { variable_id i = fluid_id(nm(n)); Arr a(w.shape(i)); static const int ks[] = {0, 1, 2, 3, 6, 4, 5, 8}; fluid_state(g, a, gamma, ks[g.chance(0.8) ? g.i(0, 4) : g.i(5, 7)], false); w.put(i, a); return i; };
    auto field = [&](const char *n) { variable_id i = field_id(nm(n)); Arr a(w.shape(i)); field_state(g, a, 1., g.i(0, 4)); w.put(i, a); return i; };
    auto any = [&](const std::string &n, int nc, int np = 1) { qk::basis::basis b = np == 1 ? (qk::basis::basis)qk::basis::volume_average() : qk::basis::basis("pts", np); variable_id i(pre + n, comps(nc), b); Arr a(w.shape(i)); randomise(a, g, [](Rng &r) { return r.d(-2, 2); }); w.put(i, a); return i; };
    auto set = [&](qk::solver::solver *s, const char *n) { C.op.reset(s); C.name = n; };
    auto ics = [&](bool is_field) { for (int k = g.chance(0.15) ? g.i(3, 9) : g.i(1, 2); k > 0; --k) C.out.push_back(is_field ? field(fmt("o%d", k).c_str()) : fluid(fmt("o%d", k).c_str())); };
    int np = g.chance(0.15) ? 2 : 1;
    switch (kind) {
    case OP_SWAP: { set(new qk::solver::swap, "swap"); int nc = g.i(1, 4); for (int k = 2 * (g.chance(0.1) ? g.i(4, 12) : g.i(1, 3)); k > 0; --k) C.out.push_back(any(fmt("o%d", k), nc, np)); if (g.chance(0.4)) { Ids v = C.out; C.out.clear(); for (int k = 2 * g.i(1, 5); k > 0; --k) C.out.push_back(g.pick(v)); C.chain = true; } C.reads = C.out; break; }
    case OP_FILL: { auto *p = new qk::solver::fill; p->setup(g.d(-3, 3)); set(p, "fill"); for (int k = g.chance(0.1) ? g.i(4, 20) : g.i(1, 3); k > 0; --k) C.out.push_back(any(fmt("o%d", k), g.i(1, 4), np)); break; }
    case OP_PRINT: { set(new qk::solver::print, "print"); for (int k = g.i(1, 2); k > 0; --k) C.in.push_back(any(fmt("i%d", k), g.i(1, 3), np)); C.prints = true; break; }
    case OP_RK1: { set(new qk::solver::rk1, "rk1"); int nc = g.chance(0.1) ? g.i(7, 20) : g.i(1, 6); C.in = {any("q", nc, np), any("r", nc, np)}; C.out = {any("q1", nc, np)}; break; }
    case OP_SSPRK3: { set(new qk::solver::ssprk3, "ssprk3"); int nc = g.i(1, 6); C.in = {any("q", nc, np), any("r", nc, np)}; C.out = {any("q1", nc, np), any("q2", nc, np), any("q3", nc, np)}; C.tag = g.i(0, 2); C.writes = {C.out[C.tag]}; if (C.tag) C.reads = {C.out[C.tag - 1]}; break; }
    case OP_EULER: { double ga = g.d(1.2, 2.2); auto *p = new qk::solver::euler; p->setup(ga); set(p, "euler"); C.in = {fluid("q", ga)}; C.out = {any("r", 5)}; C.out[0] = fluid("rr"); Arr a(w.shape(C.out[0])); randomise(a, g, [](Rng &r) { return r.d(-2, 2); }); w.put(C.out[0], a); C.reads = C.out; C.interior = true; break; }
    case OP_MAXWELL: { auto *p = new qk::solver::maxwell; p->setup(g.sgn() * g.logd(0.3, 5)); set(p, "maxwell"); C.in = {field("f")}; C.out = {field("fr")}; C.reads = C.out; C.interior = true; break; }
    case OP_LORENTZ: { auto *p = new qk::solver::lorentz_force; p->setup(g.d(-2, 2), g.logd(0.1, 2)); set(p, "lorentz_force"); C.in = {fluid("q"), field("f")}; C.out = {fluid("r")}; C.reads = C.out; break; }
    case OP_CURRENT: { int n = g.chance(0.1) ? g.i(5, 14) : g.i(1, 4); std::vector<double> Q, M; for (int k = 0; k < n; ++k) { Q.push_back(g.d(-2, 2)); M.push_back(g.logd(0.1, 2)); C.in.push_back(fluid(fmt("q%d", k).c_str())); } auto *p = new qk::solver::current_source; p->setup(g.logd(0.1, 2), Q, M); set(p, "current_source"); C.out = {field("fr")}; C.reads = C.out; break; }
    case OP_ADVECTION: { std::vector<double> v; for (int d = 0; d < w.nd; ++d) v.push_back(g.chance(0.1) ? 0. : g.sgn() * g.logd(0.1, 5)); auto *p = new qk::solver::ssprk2_advection; p->setup(v); set(p, "ssprk2_advection"); int nc = g.i(1, 4); C.in = {any("n0", nc, np)}; C.out = {any("n1", nc, np), any("n2", nc, np)}; C.tag = g.i(0, 1); C.writes = {C.out[C.tag]}; if (C.tag) C.reads = {C.out[0]}; C.interior = true; break; }
    case OP_PERIODIC: case OP_OUTFLOW: case OP_NOSLIP: case OP_FREESLIP: case OP_CONDUCTING: {
        Dims ds; for (int d = 0; d < w.nd; ++d) if (g.chance(0.7)) ds.push_back(d); if (kind == OP_CONDUCTING) ds = {0}; Bc b = (Bc)(kind - OP_PERIODIC);
        for (int k = g.chance(0.1) ? g.i(3, 9) : g.i(1, 2); k > 0; --k) C.out.push_back(b == CONDUCTING ? field(fmt("o%d", k).c_str()) : b >= NOSLIP ? fluid(fmt("o%d", k).c_str()) : any(fmt("o%d", k), g.i(1, 4), np));
        static const char *n[] = {"bc_periodic", "bc_copy_out", "bc_no_slip", "bc_free_slip", "bc_conducting_wall"}; C.op = make_bc({b, ds}, {}); C.name = n[b]; C.reads = C.out; break; }
    case OP_GAUSSIAN: { auto *p = new qk::solver::gaussian; std::vector<double> av; for (int k = g.i(0, 3); k > 0; --k) av.push_back(g.d(-1, 1)); p->setup(g.d(-2, 2), av, g.logd(0.1, 2)); set(p, "gaussian"); for (int k = g.i(1, 2); k > 0; --k) C.out.push_back(any(fmt("o%d", k), g.i(1, 4))); C.interior = true; break; }
    case OP_TUBE: { auto *p = new qk::solver::shock_tube; p->setup(g.d(0.1, 2), g.d(0.1, 2), g.d(1.2, 2)); set(p, "shock_tube"); ics(false); C.interior = true; break; }
    case OP_RADIAL: { auto *p = new qk::solver::radial_shock_tube; p->setup(g.d(0.1, 1), g.d(0.1, 2), g.d(0.1, 2), g.d(1.2, 2), {g.d(-1, 1), g.d(-1, 1), g.d(-1, 1)}); set(p, "radial_shock_tube"); ics(false); C.interior = true; break; }
    case OP_PULSE: { auto *p = new qk::solver::magnetic_pulse; p->setup(g.d(-2, 2), g.logd(0.1, 2)); set(p, "magnetic_pulse"); ics(true); C.interior = true; break; }
    case OP_WAVE: { auto *p = new qk::solver::electromagnetic_wave_1D; p->setup(g.i(0, w.nd - 1), g.d(0.5, 3), g.d(1, 9), g.d(-1, 1), g.d(-1, 1), g.d(-1, 1)); set(p, "electromagnetic_wave_1D"); ics(true); C.interior = true; break; }
    case OP_TWOFLUID: { if (g.chance(0.5)) { auto *p = new qk::solver::brio_wu_shock_tube; p->setup(g.d(1.2, 2), .04, 1, 1, g.d(.1, 1), 1, g.d(.1, 1), .75, g.d(-1, 1)); set(p, "brio_wu_shock_tube"); } else { auto *p = new qk::solver::gem_challenge; p->setup(g.d(.3, 2), g.d(2, 5), 1., .2, 1.6, -1, .04, 0, .1, 1, 1, 0, .1, g.d(0.5, 2)); set(p, "gem_challenge"); } C.out = {fluid("e"), fluid("i"), field("f")}; C.interior = true; break; }
    }
    if (C.writes.empty()) C.writes = C.out;
    C.reads.insert(C.reads.end(), C.in.begin(), C.in.end());
    C.op->set_input_variables(C.in); C.op->set_output_variables(C.out);
    return C;
}
} // namespace ops
#endif
