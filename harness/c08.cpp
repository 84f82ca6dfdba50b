// C08: the variable registry never loses, aliases or invents data.  Random request histories against a map model.
#include "qkw.h"
#include <cstdlib>
#include <new>
using namespace vf; using namespace qkw;

// memory exhaustion on demand: the n-th allocation from now on fails
static long fail_after = -1;
void *operator new(size_t n) { if (fail_after >= 0 && fail_after-- == 0) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

void vf_case(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 12, 2, 0, 0.2);
    World other; other.nd = w.nd; for (int d = 0; d < 3; ++d) { other.L[d] = w.L[d]; other.lo[d] = w.lo[d]; other.start[d] = w.start[d]; other.width[d] = w.width[d]; } other.build();
    bool crowd = g.chance(0.02); // many variables, long histories
    World *W[2] = {&w, &other};
    struct Ent { variable_id id; Arr a; qk::variable::variable *p; };
    std::map<std::string, Ent> M[2]; // key: name/basis/points
    auto key = [](const variable_id &i) { return i.name() + "//" + i.basis().name() + fmt("/%d", i.basis().num_points()); };
    std::vector<variable_id> made;
    auto rid = [&]() -> variable_id {
        if (!made.empty() && g.chance(0.15)) { variable_id c = g.pick(made).unique_clone(); made.push_back(c); return c; }
        if (!made.empty() && g.chance(0.1)) return g.pick(made);
        int n = crowd ? g.i(0, 999) : g.chance(0.2) ? g.i(0, 60) : g.i(0, 7); int nc = n % 4 + 1; // components are a function of the name
        qk::basis::basis b = qk::basis::volume_average(); if (g.chance(0.35)) { static const std::vector<std::string> bn = {"nodal", "a", "volume_average", "zz"}; b = qk::basis::basis(g.pick(bn), g.i(1, 3)); }
        variable_id i(n == 1 ? std::string("v/nodal") : n == 2 ? std::string("a_variable_with_a_name_of_more_than_forty_characters_1") : n == 3 ? std::string("a_variable_with_a_name_of_more_than_forty_characters_2") : fmt("v%d", n), comps(nc), b); made.push_back(i); return i; };
    auto verify = [&](int m, Ent &e, const char *what) {
        Arr n = W[m]->get(e.id); // uses output_variable: same storage each time
        VF_CHECK(&W[m]->vm->output_variable(e.id) == e.p, "identity", "%s: '%s' moved to other storage", what, e.id.name().c_str());
        VF_CHECK(&W[m]->vm->input_variable(e.id) == e.p, "identity", "%s: reading and writing '%s' use different storage", what, e.id.name().c_str());
        VF_CHECK(n.v.size() == e.a.v.size() && !memcmp(n.v.data(), e.a.v.data(), n.v.size() * sizeof(double)), "contents", "%s: contents of '%s' (%s) are not those last written", what, e.id.name().c_str(), e.id.basis().name().c_str());
        ctx.count("variables verified"); };
    double tm[2] = {0, 0}, dt[2] = {.01, .01}; std::string hist; int steps = crowd ? g.i(200, 600) : g.i(10, 60);
    auto verify_all = [&](const char *what) { for (int m = 0; m < 2; ++m) { for (auto &kv : M[m]) verify(m, kv.second, what); VF_CHECK(same_bits(W[m]->vm->time(), tm[m]) && same_bits(W[m]->vm->dt(), dt[m]), "clock", "%s: time/dt %g/%g expected %g/%g", what, W[m]->vm->time(), W[m]->vm->dt(), tm[m], dt[m]); VF_CHECK(&W[m]->vm->grid() == W[m]->grid.get(), "grid", "other grid reported"); } };
    for (int s = 0; s < steps; ++s) {
        int m = g.chance(0.85) ? 0 : 1; World &X = *W[m]; std::string op;
        switch (g.i(0, 9)) {
        case 0: case 1: case 2: { variable_id i = rid(); auto it = M[m].find(key(i)); qk::variable::variable &v = X.vm->output_variable(i);
            VF_CHECK(v.name() == i.name() && v.component_names() == i.component_names() && v.basis() == i.basis(), "attributes", "variable '%s' has other name, components or basis", i.name().c_str());
            if (it == M[m].end()) { Ent e{i, Arr(X.shape(i)), &v}; it = M[m].insert({key(i), e}).first; verify(m, it->second, "creation (zero-filled)"); ctx.count("creations");
                Arr a(X.shape(i)); randomise(a, g, weird_value); X.put(i, a); it->second.a = a; }
            op = "write " + key(i); break; }
        case 3: { variable_id i = rid(); auto it = M[m].find(key(i)); bool thrown = throws_qk([&] { X.vm->input_variable(i); });
            VF_CHECK(thrown == (it == M[m].end()), it == M[m].end() ? "invented" : "lost", "reading %s variable '%s' %s", it == M[m].end() ? "a never created" : "an existing", key(i).c_str(), thrown ? "failed" : "succeeded");
            if (thrown) { ctx.count("failed reads"); VF_CHECK(throws_qk([&] { X.vm->input_variable(i); }), "invented", "a failed read created '%s'", key(i).c_str()); }
            op = "read " + key(i); break; }
        case 4: { if (M[m].empty()) break; auto it = M[m].begin(); std::advance(it, g.i(0, (int)M[m].size() - 1)); variable_id bad(it->second.id.name(), [&] { std::vector<std::string> c = it->second.id.component_names(); switch (g.i(0, 3)) { case 0: c.push_back("extra"); break; case 1: c.pop_back(); break; case 2: c.back() += "x"; break; default: if (c.size() > 1) std::swap(c[0], c.back()); else c[0] = "other"; } return c; }(), it->second.id.basis());
            VF_CHECK(throws_qk([&] { X.vm->output_variable(bad); }), "component-conflict", "writing '%s' with other components was accepted", bad.name().c_str());
            VF_CHECK(throws_qk([&] { X.vm->input_variable(bad); }), "component-conflict", "reading '%s' with other components was accepted", bad.name().c_str()); ctx.count("component conflicts"); op = "conflict"; break; }
        case 5: { if (M[m].empty()) break; auto it = M[m].begin(); std::advance(it, g.i(0, (int)M[m].size() - 1)); Arr a(X.shape(it->second.id)); randomise(a, g, weird_value); X.put(it->second.id, a); it->second.a = a; op = "overwrite"; break; }
        case 6: { // exchange some pairs of equal shape through the operator
            if (M[m].size() < 2) break; std::vector<Ent *> v; for (auto &kv : M[m]) v.push_back(&kv.second); qk::solver::swap sw; int n = 0; std::vector<std::pair<Ent *, Ent *>> pr;
            for (int q = 0; q < 6 && n < 3; ++q) { Ent *a = g.pick(v), *b = g.pick(v); if (a->a.v.size() != b->a.v.size() || a->a.nc != b->a.nc || a->a.np != b->a.np) continue; sw.add_output_variable(a->id); sw.add_output_variable(b->id); pr.push_back({a, b}); ++n; }
            if (!n) break; sw.solve(*X.vm, g.i(0, 3)); for (auto &p : pr) std::swap(p.first->a.v, p.second->a.v); ctx.count("exchanges", n); op = "swap"; break; }
        case 7: { if (M[m].empty()) break; auto it = M[m].begin(); std::advance(it, g.i(0, (int)M[m].size() - 1)); qk::solver::fill f; double x = weird_value(g); f.setup(x); f.add_output_variable(it->second.id); f.solve(*X.vm); for (double &y : it->second.a.v) y = x; op = "fill"; ctx.count("fills"); break; }
        case 8: if (g.chance(0.5)) { tm[m] = any_value(g); X.vm->set_time(tm[m]); } else { dt[m] = any_value(g); X.vm->set_dt(dt[m]); } op = "clock"; break;
        case 9: { // memory runs out while a variable is being created: the request fails as if it had never been made, and can be repeated
            variable_id i = rid(); auto it = M[m].find(key(i)); bool out = false; qk::variable::variable *v = nullptr; fail_after = g.i(0, g.chance(0.7) ? 12 : 40);
            try { v = &X.vm->output_variable(i); } catch (std::bad_alloc &) { out = true; } catch (...) { fail_after = -1; throw; }
            fail_after = -1; bool known = it != M[m].end(), readable = true; const qk::variable::variable *r = nullptr; try { r = &X.vm->input_variable(i); } catch (qk::exception &) { readable = false; }
            VF_CHECK(readable || !known, "lost", "'%s' is gone after memory ran out", key(i).c_str()); VF_CHECK(readable || out, "lost", "'%s' was created but cannot be read", key(i).c_str());
            VF_CHECK(!readable || r, "invented", "after memory ran out while creating '%s' it is known but has no storage", key(i).c_str());
            if (!known) { v = &X.vm->output_variable(i); Ent e{i, Arr(X.shape(i)), v}; it = M[m].insert({key(i), e}).first; verify(m, it->second, "creation after memory ran out"); }
            else if (!out) VF_CHECK(v == it->second.p, "identity", "'%s' moved", key(i).c_str());
            if (out) ctx.count("creations cut short"); else ctx.count("creations with memory to spare"); op = "out of memory " + key(i); break; }
        }
        if (op.empty()) continue;
        hist += op + ";";
        if (s % (crowd ? 50 : 4) == 3 || s == steps - 1) verify_all(op.c_str());
    }
    // every never-created identifier is still unknown, both managers are independent
    for (auto &i : made) for (int m = 0; m < 2; ++m) { bool known = M[m].count(key(i)); VF_CHECK(throws_qk([&] { W[m]->vm->input_variable(i); }) == !known, known ? "lost" : "invented", "at the end '%s' is %s", key(i).c_str(), known ? "lost" : "known although never created"); }
    verify_all("end"); if (crowd) ctx.count("crowded registries"); ctx.count("registry histories"); ctx.count("distinct identifiers", made.size());
    ctx.sample(w.str() + ": " + hist.substr(0, 200)); ctx.seen(w.str() + hist);
}
