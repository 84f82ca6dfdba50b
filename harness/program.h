// A simulation composed from the library's operators for the problem that a sim::System describes.
#ifndef PROGRAM_H
#define PROGRAM_H
#include "model.h"
namespace sim {
typedef std::unique_ptr<qk::solver::solver> Op;
struct Program { // the same problem composed from the library's operators
    World &w; const System &S; std::vector<std::vector<variable_id>> u; std::vector<std::vector<Op>> stage; Op sw;
    Program(World &w_, const System &S_, Rng &g, const std::string &tag) : w(w_), S(S_) {
        int n = (int)S.sp.size(), ns = S.one_stage ? 1 : 3, f = n - 1; std::vector<std::string> nm;
        for (int k = 0; k < n; ++k) { std::string b = fmt("%s%s%d", tag.c_str(), S.sp[k].fluid ? "fluid" : "field", k); std::vector<variable_id> v; for (int s = 0; s <= ns + 1; ++s) { std::string x = s == 0 ? b : s == ns + 1 ? b + "_rhs" : b + fmt("_%d", s); v.push_back(S.sp[k].fluid ? fluid_id(x) : field_id(x)); } u.push_back(v); }
        for (int s = 0; s < ns; ++s) {
            stage.emplace_back(); std::vector<Op> &o = stage.back(); std::vector<Op> work;
            for (int k = 0; k < n; ++k) for (auto &b : S.sp[k].bc) o.push_back(make_bc(b, {u[k][s]}));
            { auto *p = new qk::solver::fill; p->setup(0.); for (int k = 0; k < n; ++k) p->add_output_variable(u[k][ns + 1]); o.emplace_back(p); }
            for (int k = 0; k < n; ++k) { Op p; if (S.sp[k].fluid) { auto *e = new qk::solver::euler; e->setup(S.sp[k].gamma); p.reset(e); } else { auto *e = new qk::solver::maxwell; e->setup(S.c); p.reset(e); } p->add_input_variable(u[k][s]); p->add_output_variable(u[k][ns + 1]); work.push_back(std::move(p)); }
            if (S.coupled) { std::vector<double> Q, M; std::vector<variable_id> in; for (int k = 0; k < f; ++k) { auto *e = new qk::solver::lorentz_force; e->setup(S.sp[k].q, S.sp[k].m); e->set_input_variables({u[k][s], u[f][s]}); e->add_output_variable(u[k][ns + 1]); work.emplace_back(e); Q.push_back(S.sp[k].q); M.push_back(S.sp[k].m); in.push_back(u[k][s]); }
                auto *e = new qk::solver::current_source; e->setup(S.eps0, Q, M); e->set_input_variables(in); e->add_output_variable(u[f][ns + 1]); work.emplace_back(e); }
            g.shuffle(work); // contributions may come in any order
            for (auto &p : work) o.push_back(std::move(p));
            for (int k = 0; k < n; ++k) { Op p; if (S.one_stage) p.reset(new qk::solver::rk1); else p.reset(new qk::solver::ssprk3); p->set_input_variables({u[k][0], u[k][ns + 1]}); for (int t = 1; t <= ns; ++t) p->add_output_variable(u[k][t]); o.push_back(std::move(p)); }
        }
        auto *p = new qk::solver::swap; for (int k = 0; k < n; ++k) { p->add_output_variable(u[k][0]); p->add_output_variable(u[k][ns]); } sw.reset(p);
    }
    void start(const std::vector<Arr> &s, Rng &g, bool junk) {
        for (size_t k = 0; k < u.size(); ++k) {
            Arr a = s[k]; a.each_all([&](const int *x) { if (!inside(a, x)) for (int c = 0; c < a.nc; ++c) a.at(x, c) = g.chance(0.3) ? std::numeric_limits<double>::quiet_NaN() : g.sgn() * g.logd(1e-3, 1e30); }); w.put(u[k][0], a);
            if (junk) for (size_t t = 1; t < u[k].size(); ++t) { Arr b(a); randomise(b, g, [](Rng &r) { return r.d(-1e3, 1e3); }); w.put(u[k][t], b); } }
    }
    void step() { for (size_t s = 0; s < stage.size(); ++s) for (auto &o : stage[s]) o->solve(*w.vm, (int)s); sw->solve(*w.vm, 0); w.vm->set_time(w.vm->time() + w.vm->dt()); }
};
} // namespace sim
#endif
