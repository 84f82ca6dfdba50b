// C05: misuse is reported as a readable error and corrupts nothing.
#include "qkw.h"
#include <functional>
#include <stdexcept>
#include "grid/structured.h"
#include "basis/face_basis.h"
using namespace vf; using namespace qkw;

struct Stretched : qk::grid::structured { using qk::grid::structured::structured; void write_vtk(std::ofstream &, const qk::basis::basis &) const {} void xc(const qk::indexer &, double *) const {} };

// ---- error objects ----------------------------------------------------------------------------------------
static std::string text(Rng &g) {
    int n = g.chance(0.1) ? 0 : g.chance(0.1) ? g.i(1000, 5000) : g.i(1, 80); std::string s;
    for (int k = 0; k < n; ++k) s += (char)g.i(32, 126); return s; }
static void churn(Rng &g) { std::vector<std::string> v; for (int k = 0; k < 20; ++k) v.push_back(std::string(g.i(0, 300), 'x')); }
static void check_msg(const qk::exception &e, const std::string &want, const char *after, Rng &g, Ctx &ctx) {
    const char *p = e.what(); churn(g); // the text must survive unrelated work
    VF_CHECK(want == p, "message", "after %s the message is '%.60s', expected '%.60s'", after, p, want.c_str());
    const std::exception &se = e; VF_CHECK(want == se.what(), "message", "message through the base class after %s", after);
    std::ostringstream os; os << e << "."; VF_CHECK(os.str() == want + ".", "message-print", "printing an error after %s gives '%.60s'", after, os.str().c_str());
    VF_CHECK(want == p, "message", "the text obtained first changed while the error object was alive (after %s)", after);
    ctx.count("messages compared"); }
static void exceptions(Rng &g, Ctx &ctx) {
    const int N = 3; std::vector<std::unique_ptr<qk::exception>> E; std::vector<std::string> M; std::string hist;
    for (int k = 0; k < N; ++k) { M.push_back(text(g)); E.emplace_back(new qk::exception(M[k])); }
    for (int s = g.i(3, 20); s > 0; --s) {
        int a = g.i(0, N - 1), b = g.i(0, N - 1); std::string op;
        switch (g.i(0, 7)) {
        case 0: { std::string t = text(g); *E[a] << t; M[a] += t; op = "append"; break; }
        case 1: *E[a] = *E[b]; M[a] = M[b]; op = a == b ? "assignment to itself" : "assignment"; break;
        case 2: E[a].reset(new qk::exception(*E[b == a ? (a + 1) % N : b])); M[a] = M[b == a ? (a + 1) % N : b]; op = "copy"; break;
        case 3: { try { throw *E[a]; } catch (const qk::exception &x) { check_msg(x, M[a], "throw", g, ctx); E[b].reset(new qk::exception(x)); M[b] = M[a]; } op = "throw and copy"; break; }
        case 4: { try { try { throw qk::exception(M[a]); } catch (qk::exception &x) { x << " extra"; throw; } } catch (const std::exception &x) { VF_CHECK(M[a] + " extra" == x.what(), "message", "re-thrown error message '%.60s'", x.what()); } op = "re-throw"; break; }
        case 5: { std::string t = text(g); std::runtime_error r(t); const std::exception &se = r; E[a].reset(new qk::exception(se)); M[a] = t; op = "from std::exception"; break; }
        case 6: E[a].reset(new qk::exception()); M[a] = ""; op = "empty"; break;
        case 7: { std::string t = text(g), u = text(g); E[a].reset(new qk::exception(t)); *E[a] << u << t; M[a] = t + u + t; op = "chained append"; break; }
        }
        ctx.count("error op: " + op); hist += op + fmt("(%d,%d) ", a, b);
        for (int k = 0; k < N; ++k) check_msg(*E[k], M[k], op.c_str(), g, ctx);
    }
    ctx.seen(hist); ctx.sample("error objects: " + hist.substr(0, 120));
}

// ---- wrong variable lists -----------------------------------------------------------------------------------
typedef std::vector<variable_id> Ids;
struct Spec { std::string name; std::function<qk::solver::solver *()> make; Ids in, out; int in_exact; int out_exact; int out_min; }; // -1: not constrained

static void must_throw(const std::string &what, const char *key, std::function<void()> f, Ctx &ctx) {
    bool ok = false; std::string msg;
    try { f(); } catch (const qk::exception &e) { ok = true; msg = e.what(); }
    VF_CHECK(ok, key, "%s raised no error", what.c_str());
    VF_CHECK(!msg.empty(), "empty-message", "%s raised an error without text", what.c_str());
    ctx.count("errors observed");
}

static std::vector<Spec> specs(Rng &g, World &w, Ids &all) {
    variable_id q = fluid_id("q"), q1 = fluid_id("q1"), q2 = fluid_id("q2"), q3 = fluid_id("q3"), r = fluid_id("rhs"), s = fluid_id("s"), f = field_id("f"), fr = field_id("fr");
    all = {q, q1, q2, q3, r, s, f, fr};
    std::vector<double> vel = {1., -1., .5}; int nsp = g.i(1, 3); Ids fl; for (int k = 0; k < nsp; ++k) fl.push_back(all[k]);
    (void)w;
    return {
        {"rk1", [] { return new qk::solver::rk1; }, {q, r}, {q1}, 2, -1, 1},
        {"ssprk3", [] { return new qk::solver::ssprk3; }, {q, r}, {q1, q2, q3}, 2, -1, 3},
        {"euler", [] { auto *p = new qk::solver::euler; p->setup(1.4); return p; }, {q}, {r}, 1, 1, -1},
        {"maxwell", [] { return new qk::solver::maxwell; }, {f}, {fr}, 1, 1, -1},
        {"lorentz_force", [] { auto *p = new qk::solver::lorentz_force; p->setup(2., 3.); return p; }, {q, f}, {r}, 2, 1, -1},
        {"current_source", [nsp] { auto *p = new qk::solver::current_source; p->setup(2., std::vector<double>(nsp, 1.), std::vector<double>(nsp, 2.)); return p; }, fl, {fr}, nsp, 1, -1},
        {"ssprk2_advection", [vel] { auto *p = new qk::solver::ssprk2_advection; p->setup(vel); return p; }, {q}, {q1, q2}, 1, 2, -1},
        {"brio_wu_shock_tube", [] { return new qk::solver::brio_wu_shock_tube; }, {}, {q, q1, f}, -1, 3, -1},
        {"gem_challenge", [] { auto *p = new qk::solver::gem_challenge; p->setup(.5, 4., 1., .2, 1.6, -1, .04, 0, .1, 1, 1, 0, .1, 1.); return p; }, {}, {q, q1, f}, -1, 3, -1},
        {"swap", [] { return new qk::solver::swap; }, {}, {q, q1, q2, q3}, -1, -2, -1}, // even
    };
}
static void solvers(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 40, 2, 0, 0.2); Ids all; std::vector<Spec> S = specs(g, w, all);
    for (auto &i : all) { Arr a(w.shape(i)); randomise(a, g, [](Rng &r) { return r.d(0.5, 2.); }); w.put(i, a); }
    const Spec &sp = S[g.i(0, (int)S.size() - 1)];
    double t = g.d(-1, 5), dt = g.d(-1, 1); w.vm->set_time(t); w.vm->set_dt(dt);
    Snap snap(w, all);
    Ids in = sp.in, out = sp.out; std::string what; bool missing = false;
    auto resize_list = [&](Ids &l, int n) { while ((int)l.size() > n) l.pop_back(); while ((int)l.size() < n) l.push_back(g.pick(all)); };
    int kind = g.i(0, 2); const int max_tag = 3;
    if (kind == 0 && sp.in_exact >= 0) { int n; do n = g.i(0, 5); while (n == sp.in_exact); resize_list(in, n); what = fmt("%s with %d inputs", sp.name.c_str(), n); }
    else if (kind == 1 && !sp.in.empty()) { int k = g.i(0, (int)in.size() - 1); in[k] = vid(fmt("missing%d", g.i(0, 9)), in[k].component_names()); missing = true; what = fmt("%s with input %d missing", sp.name.c_str(), k); }
    else { int n; if (sp.out_exact == -2) n = 2 * g.i(0, 2) + 1; else if (sp.out_exact >= 0) do n = g.i(0, 5); while (n == sp.out_exact); else n = g.i(0, sp.out_min - 1); resize_list(out, n); what = fmt("%s with %d outputs", sp.name.c_str(), n); }
    std::unique_ptr<qk::solver::solver> s(sp.make());
    if (g.chance(0.5)) { s->set_input_variables(in); s->set_output_variables(out); } else { for (auto &i : in) s->add_input_variable(i); for (auto &o : out) s->add_output_variable(o); }
    int tag = g.i(0, max_tag - 1);
    must_throw(what, missing ? "missing-variable" : "wrong-count", [&] { s->solve(*w.vm, tag); }, ctx);
    snap.same("changed-by-error", "failing " + what);
    VF_CHECK(w.vm->time() == t && w.vm->dt() == dt, "clock", "failing %s changed time or dt", what.c_str());
    if (missing) must_throw("reading a variable that a failed operator named", "missing-created", [&] { for (auto &i : in) w.vm->input_variable(i); }, ctx);
    // still usable: the same object with its lists put right, and a new one, do what a new one does in a registry that never saw an error
    World w2; w2.nd = w.nd; for (int d = 0; d < 3; ++d) { w2.L[d] = w.L[d]; w2.lo[d] = w.lo[d]; w2.start[d] = w.start[d]; w2.width[d] = w.width[d]; } w2.build();
    for (auto &i : all) w2.put(i, w.get(i)); w2.vm->set_time(t); w2.vm->set_dt(dt);
    int t0 = g.chance(0.7) ? 0 : sp.name == "ssprk3" ? g.i(0, 2) : sp.name == "ssprk2_advection" ? g.i(0, 1) : 0;
    if (g.chance(0.6)) { s->set_input_variables(sp.in); s->set_output_variables(sp.out); s->solve(*w.vm, t0); ctx.count("the same operator after the error"); }
    else { std::unique_ptr<qk::solver::solver> ok(sp.make()); ok->set_input_variables(sp.in); ok->set_output_variables(sp.out); ok->solve(*w.vm, t0); }
    { std::unique_ptr<qk::solver::solver> ok(sp.make()); ok->set_input_variables(sp.in); ok->set_output_variables(sp.out); ok->solve(*w2.vm, t0); }
    for (auto &i : all) { Arr a = w.get(i), b = w2.get(i); a.each_interior([&](const int *x) { for (int c = 0; c < a.nc; ++c) VF_CHECK(same_val(a.at(x, c), b.at(x, c)), "after-error", "%s after failing as '%s': component %d of %s differs from a run without the error", sp.name.c_str(), what.c_str(), c, i.name().c_str()); }); }
    ctx.count("operator usable after the error");
    ctx.count("misuse of " + sp.name); ctx.seen(what + w.str()); ctx.sample(what + " on " + w.str());
}
static void degenerate(Rng &g, Ctx &ctx) { // variables without points or components: made or refused, but the same each time, and nothing half-made stays behind
    World w; random_grid(g, w, 60, 2, 0, 0.3); variable_id q = fluid_id("q"); Arr a(w.shape(q)); randomise(a, g, [](Rng &r) { return r.d(-2, 2.); }); w.put(q, a); Snap snap(w, {q});
    int k = g.i(0, 2); variable_id e("empty", comps(k == 1 ? 0 : g.i(1, 3)), k == 1 ? qk::basis::volume_average() : qk::basis::basis("odd", 0)); if (k == 2) e = variable_id("", comps(g.i(1, 3)), qk::basis::basis("", g.i(0, 1)));
    bool made = false, first = true;
    for (int n = g.i(2, 6); n > 0; --n) { if (g.chance(0.5)) { bool ok = true; try { qk::variable::variable &v = w.vm->output_variable(e); VF_CHECK(v.name() == e.name() && v.component_names() == e.component_names(), "half-made", "a variable without points or components reports another name"); for (qk::indexer i = v.indexer(); i.exists(); i.next()) { volatile int vol = v[i].volume(); (void)vol; } } catch (const qk::exception &) { ok = false; }
            VF_CHECK(first || ok == made, "half-made", "asking for the variable '%s' with %zu components on a basis of %d points %s, before it %s", e.name().c_str(), e.component_names().size(), e.basis().num_points(), ok ? "works" : "fails", made ? "worked" : "failed"); first = false; made = ok; }
        else { bool ok = true; try { const qk::variable::variable &v = w.vm->input_variable(e); VF_CHECK(v.name() == e.name(), "half-made", "a variable that could not be made is known"); } catch (const qk::exception &) { ok = false; } VF_CHECK(ok == made, "half-made", "reading the variable '%s' with %zu components on a basis of %d points %s although it %s", e.name().c_str(), e.component_names().size(), e.basis().num_points(), ok ? "works" : "fails", made ? "exists" : "could not be made"); } }
    snap.same("changed-by-error", "degenerate variables"); ctx.count(made ? "degenerate variables made" : "degenerate variables refused"); ctx.seen(w.str() + e.name() + fmt("degenerate %d %zu", k, e.component_names().size())); }
static void setups(Rng &g, Ctx &ctx) {
    if (g.chance(0.25)) { degenerate(g, ctx); return; }
    if (g.chance(0.3)) { // parts of the library which say that they are not finished
        int nd = g.i(0, 4), np = g.chance(0.3) ? 0 : g.i(2, 9); qk::basis::face_basis fb; must_throw(fmt("face basis with %d points per dimension", np), "face-basis", [&] { fb.setup(nd, np); }, ctx);
        qk::basis::face_basis f1; f1.setup(nd, 1); VF_CHECK(f1.num_points() == nd && f1.name() == "face_basis", "face-basis", "face basis of %d dimensions has %d points", nd, f1.num_points());
        World w; random_grid(g, w, 60, 2, 0, 0.3); variable_id q = fluid_id("q"); Arr a(w.shape(q)); randomise(a, g, [](Rng &r) { return r.d(-2, 2.); }); w.put(q, a); Snap snap(w, {q});
        must_throw("synchronising a data set between processes", "sync", [&] { w.vm->output_variable(q).sync(); }, ctx); snap.same("changed-by-error", "synchronising a data set");
        ctx.seen(fmt("unfinished %d %d ", nd, np) + w.str()); ctx.count("unfinished parts"); return; }
    int hi = g.chance(0.1) ? 40 : 5, a = g.i(0, hi), b; do b = g.chance(0.3) ? std::max(0, a + (g.chance(0.5) ? 1 : -1)) : g.i(0, hi); while (a == b);
    if (g.chance(0.3)) { // a rejected set-up leaves an operator that can be set up again
        World w; random_grid(g, w, 40, 2, 0, 0.2); int n = g.i(1, 4); std::vector<variable_id> fl; std::vector<double> Q, M; for (int k = 0; k < n; ++k) { variable_id q = fluid_id(fmt("q%d", k)); fl.push_back(q); Arr x(w.shape(q)); randomise(x, g, [](Rng &r) { return r.d(-2, 2.); }); w.put(q, x); Q.push_back(g.d(-1, 1)); M.push_back(g.d(0.5, 2)); }
        variable_id f = field_id("f"), f2 = field_id("f2"); Arr z(w.shape(f)); randomise(z, g, [](Rng &r) { return r.d(-2, 2.); }); w.put(f, z); w.put(f2, z);
        qk::solver::current_source c1, c2; if (g.chance(0.5)) c1.setup(3., std::vector<double>(n, 7.), std::vector<double>(n, 2.)); must_throw("current_source with inconsistent charge and mass lists", "charge-mass", [&] { c1.setup(1., std::vector<double>(a, 1.), std::vector<double>(b, 1.)); }, ctx);
        c1.setup(2., Q, M); c2.setup(2., Q, M); c1.set_input_variables(fl); c2.set_input_variables(fl); c1.add_output_variable(f); c2.add_output_variable(f2); c1.solve(*w.vm, 0); c2.solve(*w.vm, 0); Arr x = w.get(f), y = w.get(f2);
        for (size_t k = 0; k < x.v.size(); ++k) VF_CHECK(same_val(x.v[k], y.v[k]), "after-error", "current source set up again after a rejected set-up gives %.17g instead of %.17g", x.v[k], y.v[k]); ctx.count("set up again"); }
    qk::solver::current_source c; must_throw("current_source with inconsistent charge and mass lists", "charge-mass", [&] { c.setup(1., std::vector<double>(a, 1.), std::vector<double>(b, 1.)); }, ctx);
    ctx.seen(fmt("setup %d %d", a, b)); ctx.count("misuse of current_source setup");
}
// ---- bounds ---------------------------------------------------------------------------------------------------
[[maybe_unused]] static void bounds(Rng &g, Ctx &ctx) {
    World w; random_grid(g, w, 60, 2, 0, 0.3);
    int nd = w.nd; int bad = g.chance(0.5) ? nd : g.chance(0.5) ? -1 : (g.chance(0.5) ? nd + g.i(1, 5) : -g.i(2, 9));
    std::string d = fmt("dimension %d of a %d-dimensional ", bad, nd);
    const qk::grid::rectilinear &gr = *w.grid; const qk::grid::grid &base = gr;
    must_throw("width of " + d + "grid", "grid-dim", [&] { base.width(bad); }, ctx);
    must_throw("start of " + d + "grid", "grid-dim", [&] { base.start(bad); }, ctx);
    must_throw("cell width of " + d + "grid", "grid-dim", [&] { gr.dx(bad); }, ctx);
    must_throw("centroid along " + d + "grid", "grid-dim", [&] { gr.centroid(bad, 0); }, ctx);
    int dd = g.i(0, nd - 1); int badi = g.chance(0.5) ? w.lo[dd] + w.L[dd] + (g.chance(0.6) ? 0 : g.i(1, 9)) : w.lo[dd] - 1 - (g.chance(0.6) ? 0 : g.i(1, 9));
    must_throw(fmt("centroid of cell %d of [%d,%d)", badi, w.lo[dd], w.lo[dd] + w.L[dd]), "grid-cell", [&] { gr.centroid(dd, badi); }, ctx);
    for (int k : {w.lo[dd], w.lo[dd] + w.L[dd] - 1}) gr.centroid(dd, k); // not over-strict
    for (int k = 0; k < nd; ++k) { base.width(k); base.start(k); gr.dx(k); }
    Stretched st(qk::range(gr), w.start, w.width);
    must_throw("centroid along " + d + "stretched grid", "stretched-dim", [&] { st.centroid(bad, 0); }, ctx);
    must_throw("cell width along " + d + "stretched grid", "stretched-dim", [&] { st.dx(bad, 0); }, ctx);
    must_throw("stretching " + d + "grid", "stretched-dim", [&] { st.apply_bias_linear(bad, 2.); }, ctx);
    must_throw("symmetric stretching " + d + "grid", "stretched-dim", [&] { st.apply_bias_symmetric(bad, 2.); }, ctx);
    must_throw("centroid of a cell outside a stretched grid", "stretched-cell", [&] { st.centroid(dd, badi); }, ctx);
    must_throw("width of a cell outside a stretched grid", "stretched-cell", [&] { st.dx(dd, badi); }, ctx);
    for (int k : {w.lo[dd], w.lo[dd] + w.L[dd] - 1}) { st.centroid(dd, k); st.dx(dd, k); }
    qk::indexer it(gr, gr);
    must_throw("coordinate in " + d + "iterator", "iterator-dim", [&] { it.index(bad); }, ctx);
    must_throw("coordinate [] in " + d + "iterator", "iterator-dim", [&] { it[bad]; }, ctx);
    must_throw("stepping " + d + "iterator", "iterator-dim", [&] { it.increment(bad); }, ctx);
    must_throw("stepping back " + d + "iterator", "iterator-dim", [&] { it.decrement(bad); }, ctx);
    for (int k = 0; k < nd; ++k) VF_CHECK(it.index(k) == w.lo[k] && it[k] == w.lo[k], "iterator-moved", "a rejected step moved the iterator");
    VF_CHECK(it.linear_index() == 0, "iterator-moved", "a rejected step moved the iterator");
    // array address beyond its storage: iterator of a larger box
    int n = g.i(1, 20), big = n + g.i(1, 20); qk::range rn(1, &n), rb(1, &big); qk::indexer_interface<double> arr(rn); qk::indexer far(rb, rb);
    for (int k = 0; k < n; ++k) { VF_CHECK(arr.data(far) == arr.data() + k, "address", "address of cell %d", k); far.next(); }
    const qk::indexer_interface<double> &carr = arr;
    for (int k = n; k < big; ++k) { must_throw(fmt("address of cell %d of an array of %d", k, n), "array-cell", [&] { arr.data(far); }, ctx); must_throw(fmt("const address of cell %d of an array of %d", k, n), "array-cell", [&] { carr.data(far); }, ctx); far.next(); }
    qk::indexer neg(rn, rn); neg.decrement(0); must_throw("address before an array", "array-cell", [&] { arr.data(neg); }, ctx);
    ctx.count("bounds cases"); ctx.seen(fmt("bounds %d %d %d %s", bad, dd, badi, w.str().c_str())); ctx.sample(d + "grid and iterator, " + w.str());
}
void vf_case(Rng &g, Ctx &ctx) {
    switch (g.i(0, 5)) { case 0: exceptions(g, ctx); break; 
#if defined(_QK_RANGE_CHECK_)
        case 1: bounds(g, ctx); break; // only range-checked builds promise these
#endif
        case 2: if (g.chance(0.35)) { setups(g, ctx); break; } default: solvers(g, ctx); }
}
