// C07: variable and basis identity is a consistent strict order.
#include "qkw.h"
#include "basis/face_basis.h"
using namespace vf;

static qk::basis::basis random_basis(Rng &g) {
    static const std::vector<std::string> names = {"", "a", "b", "volume_average", "face_basis", "z", "void", "aa", "ab", "a1", "A", "a ", "a/1", "volume_averages", "volume_average_of_a_quantity_with_a_long_name_1", "volume_average_of_a_quantity_with_a_long_name_2", "\xc3\xa9"};
    switch (g.i(0, 9)) { case 0: return qk::basis::volume_average(); case 1: return qk::basis::basis(); case 2: { qk::basis::face_basis f; if (g.chance(0.7)) f.setup(g.i(1, 4), 1); return f; } }
    return qk::basis::basis(g.pick(names), g.chance(0.8) ? g.i(0, 4) : g.chance(0.5) ? g.i(9, 12) : g.pick(std::vector<int>{111, 1000, 65536, 65537, 2147483647, -1, -2, -2147483647 - 1}));
}
template <class X, class Lt, class Eq> static void order(const std::vector<X> &v, Lt lt, Eq eq, const char *what, Ctx &ctx) {
    const int n = (int)v.size(); std::vector<char> L(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { L[i * n + j] = lt(v[i], v[j]); ctx.count(std::string(what) + " comparisons"); }
    for (int i = 0; i < n; ++i) {
        VF_CHECK(!L[i * n + i], "irreflexive", "a %s is ordered before itself", what);
        for (int j = 0; j < n; ++j) {
            VF_CHECK(!(L[i * n + j] && L[j * n + i]), "asymmetric", "two %ss are each ordered before the other", what);
            VF_CHECK((!L[i * n + j] && !L[j * n + i]) == eq(v[i], v[j]), "equal-unordered", "%ss: unordered=%d equal=%d", what, (int)(!L[i * n + j] && !L[j * n + i]), (int)eq(v[i], v[j]));
            for (int k = 0; k < n; ++k) if (L[i * n + j] && L[j * n + k]) VF_CHECK(L[i * n + k], "transitive", "%s order is not transitive", what);
        }
    }
}
void vf_case(Rng &g, Ctx &ctx) {
    std::vector<qk::basis::basis> B; for (int k = g.i(3, 8); k > 0; --k) B.push_back(random_basis(g));
    std::string d; for (auto &b : B) d += b.name() + fmt("/%d ", b.num_points());
    order(B, [](const qk::basis::basis &a, const qk::basis::basis &b) { return a < b; }, [](const qk::basis::basis &a, const qk::basis::basis &b) { return a.name() == b.name() && a.num_points() == b.num_points(); }, "base", ctx);
    for (auto &a : B) for (auto &b : B) { bool e = a.name() == b.name() && a.num_points() == b.num_points(); VF_CHECK((a == b) == e && (a != b) == !e, "basis-equality", "basis equality of %s/%d and %s/%d", a.name().c_str(), a.num_points(), b.name().c_str(), b.num_points()); }
    // identifiers: component list is a function of the name, so that every pair is comparable
    std::vector<std::string> pool = {"rho", "q", "q1", "field", "", "Q", "q_clone_0", "qa", "qaa", "qab", "q_1", "q/a", "momentum_of_the_second_fluid_species_x", "momentum_of_the_second_fluid_species_y", std::string("q\0a", 3), std::string("q\0b", 3), "\xc3\xa9", "10", "9"};
    std::vector<qk::variable::variable_id> I; std::vector<std::string> key;
    for (int k = g.i(3, 8); k > 0; --k) { std::string n = g.pick(pool); I.push_back(qk::variable::variable_id(n, qkw::comps(n == "field" ? 12 : (int)(n.size() % 3) + 1), g.pick(B))); }
    for (auto &i : I) d += "| " + i.name() + ":" + i.basis().name() + fmt("/%d", i.basis().num_points());
    order(I, [](const qk::variable::variable_id &a, const qk::variable::variable_id &b) { return a < b; }, [](const qk::variable::variable_id &a, const qk::variable::variable_id &b) { return a.name() == b.name() && a.basis().name() == b.basis().name() && a.basis().num_points() == b.basis().num_points(); }, "identifier", ctx);
    for (auto &a : I) for (auto &b : I) { bool e = a.name() == b.name() && a.basis().name() == b.basis().name() && a.basis().num_points() == b.basis().num_points(); VF_CHECK((a == b) == e, "id-equality", "identifier equality"); }
    { // same name, other components
        auto &a = I[g.i(0, (int)I.size() - 1)]; std::vector<std::string> c = a.component_names();
        switch (g.i(0, 6)) { case 4: if (c.size() > 1) { std::swap(c[g.i(0, 0)], c.back()); break; } c.push_back(c[0]); break; case 5: c.pop_back(); break; case 6: c.back() += " "; break; case 0: c.push_back("extra"); break; case 1: c[g.i(0, (int)c.size() - 1)] += "x"; break; case 2: c.clear(); break; default: c.insert(c.begin(), "first"); }
        qk::variable::variable_id b(a.name(), c, g.chance(0.5) ? a.basis() : g.pick(B)); bool r;
        VF_CHECK(qkw::throws_qk([&] { r = a < b; }) && qkw::throws_qk([&] { r = b < a; }) && qkw::throws_qk([&] { r = a == b; }) && qkw::throws_qk([&] { r = b == a; }), "component-mismatch", "comparing '%s' with a same-named identifier of different components is accepted", a.name().c_str());
        (void)r; ctx.count("component mismatches rejected", 4);
    }
    // clones, also of clones
    static std::set<std::string> names; // of all clones made by this process
    std::vector<qk::variable::variable_id> C = {I[0]};
    for (int k = g.i(2, 30); k > 0; --k) {
        auto &s = C[g.i(0, (int)C.size() - 1)]; qk::variable::variable_id src = s; qk::variable::variable_id c = src.unique_clone();
        VF_CHECK(c.component_names() == src.component_names() && c.basis() == src.basis(), "clone-shape", "clone changes components or basis");
        VF_CHECK(names.insert(c.name()).second && c.name() != src.name(), "clone-name", "clone name '%s' used before", c.name().c_str());
        C.push_back(c); ctx.count("clones");
    }
    { static std::vector<qk::variable::variable_id> early; static const qk::variable::variable_id root("q", qkw::comps(1), qk::basis::volume_average()); // old clones are cloned again much later
      auto take = [&](const qk::variable::variable_id &s) { qk::variable::variable_id c = s.unique_clone(); VF_CHECK(names.insert(c.name()).second, "clone-name", "clone name '%s' used before", c.name().c_str()); ctx.count("clones of old clones"); return c; };
      if (early.size() < 12) early.push_back(take(root)); for (int k = 0; k < 3; ++k) { take(g.pick(early)); take(root); } }
    for (auto &x : C) for (auto &y : C) VF_CHECK((x == y) == (&x == &y), "clone-distinct", "two clones are equal");
    ctx.sample(d); ctx.seen(d);
}
