// C03: array operations touch exactly the cells they address.  Random histories over a pool of arrays
// (int, string and double chunks), all arrays compared in full with a model after every operation.
#include "qkw.h"
using namespace vf;
typedef std::vector<int> V;

struct Reg { V lo, up; int nd() const { return (int)lo.size(); }
    int64_t vol() const { if (lo.empty()) return 0; int64_t n = 1; for (int d = 0; d < nd(); ++d) n *= up[d] - lo[d]; return n; }
    qk::range rng() const { return qk::range(nd(), lo.data(), up.data()); }
    std::string str() const { std::string s; for (int d = 0; d < nd(); ++d) s += fmt("[%d,%d)", lo[d], up[d]); return s.empty() ? "()" : s; } };

template <class T> struct Model {
    Reg r; std::vector<T> v;
    size_t off(const V &x) const { size_t p = 0; for (int d = 0; d < r.nd(); ++d) p = p * (r.up[d] - r.lo[d]) + (x[d] - r.lo[d]); return p; }
    std::vector<size_t> offs(const Reg &s) const { // offsets of the cells of s in row-major order
        std::vector<size_t> o; if (s.vol() == 0) return o;
        V x = s.lo;
        for (;;) { o.push_back(off(x)); int d = s.nd() - 1; while (d >= 0 && ++x[d] >= s.up[d]) { x[d] = s.lo[d]; --d; } if (d < 0) break; }
        return o; }
};

static Reg random_shape(Rng &g) {
    Reg r; int nd = g.i(1, 4); int ml = nd == 1 ? 24 : nd == 2 ? 7 : nd == 3 ? 4 : 3;
    bool large = g.chance(0.01); int axis = g.i(0, nd - 1); // large: one long axis, or long everywhere
    if (large && g.chance(0.3)) { ml = nd == 1 ? 70000 : nd == 2 ? 70 : nd == 3 ? 14 : 8; axis = -1; }
    for (int d = 0; d < nd; ++d) { int lo = g.chance(0.4) ? 0 : g.chance(0.05) ? g.i(-1000000000, 1000000000) : g.i(-6, 6); r.lo.push_back(lo); r.up.push_back(lo + (large && d == axis ? g.i(60, 3000) : large && axis >= 0 ? g.i(1, 2) : g.i(1, ml))); }
    return r; }
static Reg random_sub(Rng &g, const Reg &r, bool may_empty = true) {
    Reg s; for (int d = 0; d < r.nd(); ++d) { int L = r.up[d] - r.lo[d], a = g.i(0, L - 1), b = g.i(a + 1, L); if (may_empty && g.chance(0.04)) b = a; if (g.chance(0.2)) { a = 0; b = L; } s.lo.push_back(r.lo[d] + a); s.up.push_back(r.lo[d] + b); }
    return s; }
// a region with a cell outside r
static Reg random_outside(Rng &g, const Reg &r) { Reg s = random_sub(g, r, false); int d = g.i(0, r.nd() - 1); int by = g.chance(0.6) ? 1 : g.i(1, 5); if (g.chance(0.5)) s.lo[d] = r.lo[d] - by; else s.up[d] = r.up[d] + by; return s; }

template <class T> struct Gen;
template <> struct Gen<int> { static int make(Rng &g) { return g.i(-1000000, 1000000); } static bool eq(int a, int b) { return a == b; } static const char *name() { return "int"; } };
template <> struct Gen<std::string> { static std::string make(Rng &g) { return fmt("value-%d-with-some-heap-text", g.i(0, 1000000)); } static bool eq(const std::string &a, const std::string &b) { return a == b; } static const char *name() { return "string"; } };
template <> struct Gen<double> { static double make(Rng &g) { return qkw::any_value(g); } static bool eq(double a, double b) { return same_bits(a, b); } static const char *name() { return "double"; } };

struct MeshSplit { int nmesh = 1; };
template <class A, class T> struct Ops;
template <class T> struct Ops<qk::indexer_interface<T>, T> {
    static qk::indexer_interface<T> *create(const Reg &r, Rng &) { return new qk::indexer_interface<T>(r.rng()); }
    static void reshape(qk::indexer_interface<T> &a, const Reg &r, Rng &) { a.resize(r.rng()); }
    static const bool chunk = false;
};
template <> struct Ops<qk::data::datachunk, double> {
    static void reshape(qk::data::datachunk &a, const Reg &r, Rng &g) { int k = g.i(1, r.nd()); if (r.nd() > 1) k = g.i(1, r.nd() - 1);
        qk::range m(k, r.lo.data(), r.up.data()), d; for (int q = k; q < r.nd(); ++q) d.extrude(r.lo[q], r.up[q]); a.resize(m, d); }
    static qk::data::datachunk *create(const Reg &r, Rng &g) { auto *a = new qk::data::datachunk; reshape(*a, r, g); return a; }
    static const bool chunk = true;
};

template <class A, class T> struct Run {
    Rng &g; Ctx &ctx;
    std::vector<std::unique_ptr<A>> R; std::vector<Model<T>> M; std::string hist;
    Run(Rng &g, Ctx &c) : g(g), ctx(c) {}
    void compare_all(const std::string &op) {
        for (size_t k = 0; k < R.size(); ++k) {
            const A &a = *R[k]; const Model<T> &m = M[k];
            VF_CHECK(a.num_dims() == m.r.nd() && a.volume() == (int)m.v.size(), "shape", "[%s] after %s: array %zu has volume %d in %d dims, expected %s", Gen<T>::name(), op.c_str(), k, a.volume(), a.num_dims(), m.r.str().c_str());
            for (int d = 0; d < m.r.nd(); ++d) VF_CHECK(a.lower(d) == m.r.lo[d] && a.upper(d) == m.r.up[d], "shape", "[%s] after %s: array %zu bounds differ along %d", Gen<T>::name(), op.c_str(), k, d);
            size_t n = 0;
            for (qk::indexer it = a.indexer(); it.exists(); it.next(), ++n) {
                VF_CHECK(n < m.v.size(), "iteration", "iterating an array does not stop");
                VF_CHECK(Gen<T>::eq(a[it], m.v[n]), "contents", "[%s] after %s: array %zu %s cell #%zu differs from the model", Gen<T>::name(), op.c_str(), k, m.r.str().c_str(), n);
            }
            VF_CHECK(n == m.v.size(), "iteration", "[%s] after %s: %zu cells listed of %zu", Gen<T>::name(), op.c_str(), n, m.v.size());
            ctx.count("cells compared", n);
        }
    }
    template <class F> void must_throw(const char *what, F f) {
        bool thrown = false; try { f(); } catch (const qk::exception &) { thrown = true; }
        VF_CHECK(thrown, "not-rejected", "[%s] %s was accepted", Gen<T>::name(), what);
        ctx.count("rejections");
    }
    void scramble(int k) { for (size_t q = 0; q < M[k].v.size(); ++q) { T t = Gen<T>::make(g); M[k].v[q] = t; R[k]->data()[q] = t; } }
    // two regions of equal volume in arrays a and b; returns false if none found
    bool equal_regions(int a, int b, Reg &ra, Reg &rb) {
        for (int t = 0; t < 30; ++t) { ra = random_sub(g, M[a].r); rb = random_sub(g, M[b].r); if (ra.vol() == rb.vol() && ra.vol() > 0) return true; if (t > 20 && M[a].r.nd() == M[b].r.nd()) { // same extents
                rb = Reg(); bool ok = true; for (int d = 0; d < ra.nd(); ++d) { int L = ra.up[d] - ra.lo[d], W = M[b].r.up[d] - M[b].r.lo[d]; if (L > W) { ok = false; break; } int s = g.i(0, W - L); rb.lo.push_back(M[b].r.lo[d] + s); rb.up.push_back(M[b].r.lo[d] + s + L); } if (ok && rb.vol() == ra.vol() && ra.vol()) return true; } }
        return false; }
    bool disjoint(const Reg &x, const Reg &y) { for (int d = 0; d < x.nd(); ++d) if (x.up[d] <= y.lo[d] || y.up[d] <= x.lo[d]) return true; return false; }
    void go();
    void chunk_op(int a, int b, std::string &name);
};

template <class A, class T> void Run<A, T>::chunk_op(int, int, std::string &) {}
template <> void Run<qk::data::datachunk, double>::chunk_op(int a, int b, std::string &name) {
    switch (g.i(0, 4)) {
    case 0: case 1: { Reg s = random_sub(g, M[a].r); double f = g.chance(0.4) ? -1. : qkw::any_value(g); R[a]->multiply_by_scalar(s.rng(), f); for (size_t o : M[a].offs(s)) M[a].v[o] *= f; name = fmt("scale %s by %g", s.str().c_str(), f); break; }
    case 2: { Reg ra, rb; if (g.chance(0.1)) { ra = random_sub(g, M[a].r); ra.up[0] = ra.lo[0]; rb = random_sub(g, M[b].r); rb.up[0] = rb.lo[0]; ctx.count("empty regions"); } else if (!equal_regions(a, b, ra, rb)) return; if (a == b && !disjoint(ra, rb)) return; qk::data::copy_to(*R[a], ra.rng(), *R[b], rb.rng());
        auto oa = M[a].offs(ra), ob = M[b].offs(rb); for (size_t k = 0; k < oa.size(); ++k) M[b].v[ob[k]] = M[a].v[oa[k]]; name = "copy_to " + ra.str() + " -> " + rb.str(); break; }
    case 3: { if (M[a].v.size() == M[b].v.size()) { if (a == b) return; qk::data::full_copy(*R[a], *R[b]); M[b].v = M[a].v; name = "full_copy"; } else { must_throw("full_copy between different sizes", [&] { qk::data::full_copy(*R[a], *R[b]); }); name = "rejected full_copy"; } break; }
    case 4: { Reg ra = random_sub(g, M[a].r), rb = random_sub(g, M[b].r); if (ra.vol() != rb.vol()) { must_throw("copy_to between different sizes", [&] { qk::data::copy_to(*R[a], ra.rng(), *R[b], rb.rng()); }); name = "rejected copy_to"; }
        else { Reg o = random_outside(g, M[a].r); Reg same = o; // same extents, both outside
            must_throw("copy_to with a region outside the array", [&] { qk::data::copy_to(*R[a], o.rng(), *R[a], same.rng()); }); name = "rejected copy_to outside"; } break; }
    }
}

template <class A, class T> void Run<A, T>::go() {
    int NP = 3;
    bool same_shape = g.chance(0.4); Reg s0 = random_shape(g); if (s0.vol() > 1000) { same_shape = true; ctx.count("histories of large arrays"); }
    for (int k = 0; k < NP; ++k) { Reg r = same_shape ? s0 : random_shape(g); R.emplace_back(Ops<A, T>::create(r, g)); Model<T> m; m.r = r; m.v.resize(r.vol()); M.push_back(m); }
    for (int k = 0; k < NP; ++k) for (const T &t : M[k].v) VF_CHECK(Gen<T>::eq(t, T()), "init", "model");
    compare_all("creation");
    for (int k = 0; k < NP; ++k) scramble(k);
    int steps = g.i(4, 14);
    for (int s = 0; s < steps; ++s) {
        int a = g.i(0, NP - 1), b = g.i(0, NP - 1); std::string name;
        int op = g.i(0, Ops<A, T>::chunk ? 16 : 12);
        switch (op) {
        case 0: { T t = Gen<T>::make(g); R[a]->fill(t); for (T &v : M[a].v) v = t; name = "fill"; break; }
        case 1: { T t = Gen<T>::make(g); Reg r = random_sub(g, M[a].r); R[a]->fill(r.rng(), t); for (size_t o : M[a].offs(r)) M[a].v[o] = t; name = "fill region " + r.str(); if (!r.vol()) ctx.count("empty regions"); break; }
        case 2: { T t = Gen<T>::make(g); Reg r = random_outside(g, M[a].r); must_throw("filling a region outside the array", [&] { R[a]->fill(r.rng(), t); }); name = "rejected fill"; break; }
        case 3: case 4: { Reg rf, rt; if (g.chance(0.1)) { rf = random_sub(g, M[b].r); rf.up[0] = rf.lo[0]; rt = random_sub(g, M[a].r); rt.up[0] = rt.lo[0]; ctx.count("empty regions"); } else if (!equal_regions(b, a, rf, rt)) break; if (a == b && !disjoint(rf, rt)) break;
            R[a]->pull(*R[b], rf.rng(), rt.rng()); auto of = M[b].offs(rf), ot = M[a].offs(rt); for (size_t k = 0; k < of.size(); ++k) M[a].v[ot[k]] = M[b].v[of[k]]; name = "pull " + rf.str() + " -> " + rt.str(); break; }
        case 5: { Reg rf = random_sub(g, M[b].r), rt = random_sub(g, M[a].r); if (rf.vol() == rt.vol()) break; must_throw("pulling a region of a different size", [&] { R[a]->pull(*R[b], rf.rng(), rt.rng()); }); name = "rejected pull"; break; }
        case 6: { // equally large regions, one of them not inside its array
            Reg rf = random_outside(g, M[b].r), rt; bool from_out = g.chance(0.5);
            if (from_out) { rt = Reg(); Reg t = M[a].r; bool found = false; for (int q = 0; q < 60 && !found; ++q) { rf = random_outside(g, M[b].r); rt = random_sub(g, t, false); found = rf.vol() == rt.vol(); } if (!found) break; }
            else { bool found = false; for (int q = 0; q < 60 && !found; ++q) { rt = random_outside(g, M[a].r); rf = random_sub(g, M[b].r, false); found = rf.vol() == rt.vol(); } if (!found) break; }
            must_throw(from_out ? "pulling from a region outside the source" : "pulling into a region outside the array", [&] { R[a]->pull(*R[b], rf.rng(), rt.rng()); }); name = "rejected pull outside"; break; }
        case 7: { if (M[a].v.size() == M[b].v.size()) { if (a == b) break; R[a]->pull(*R[b]); M[a].v = M[b].v; name = "pull whole"; } else { must_throw("pulling a whole array of a different size", [&] { R[a]->pull(*R[b]); }); name = "rejected pull whole"; } break; }
        case 8: { if (M[a].r.str() == M[b].r.str()) { R[a]->swap(*R[b]); std::swap(M[a].v, M[b].v); name = a == b ? "swap with itself" : "swap"; } else if (M[a].v.size() != M[b].v.size()) { must_throw("swapping arrays of different sizes", [&] { R[a]->swap(*R[b]); }); name = "rejected swap"; } break; }
        case 9: { std::unique_ptr<A> c(new A(*R[a])); R.push_back(std::move(c)); M.push_back(M[a]); compare_all("copy construction"); // independent
            R.back()->fill(Gen<T>::make(g)); T t = R.back()->data()[0]; for (T &v : M.back().v) v = t; compare_all("writing to a copy"); T u = Gen<T>::make(g); R[a]->fill(u); for (T &v : M[a].v) v = u; compare_all("writing to a copied array"); R.pop_back(); M.pop_back(); scramble(a); name = "copy construct"; break; }
        case 10: { *R[a] = *R[b]; M[a] = M[b]; compare_all(a == b ? "assignment to itself" : "assignment"); scramble(g.chance(0.5) ? a : b); name = a == b ? "assign to itself" : "assign"; break; }
        case 11: { Reg r = random_sub(g, M[a].r, false); V x = r.lo; size_t o = M[a].off(x); T t = Gen<T>::make(g); qk::indexer it = R[a]->indexer(r.rng());
            VF_CHECK(R[a]->data(x.data()) == R[a]->data() + o && R[a]->data(it) == R[a]->data() + o, "address", "[%s] address of a cell of %s is wrong", Gen<T>::name(), M[a].r.str().c_str());
            const A &ca = *R[a]; VF_CHECK(ca.data(x.data()) == ca.data() + o && ca.data(it) == ca.data() + o && &ca[it] == ca.data() + o, "address", "[%s] address of a cell of %s is wrong", Gen<T>::name(), M[a].r.str().c_str());
            if (g.chance(0.5)) (*R[a])[it] = t; else *R[a]->data(x.data()) = t; M[a].v[o] = t; name = "write one cell"; break; }
        case 12: { Reg r = random_shape(g); Ops<A, T>::reshape(*R[a], r, g); M[a].r = r; M[a].v.resize(r.vol()); scramble(a); name = "resize"; break; }
        default: chunk_op(a, b, name);
        }
        if (name.empty()) continue;
        ctx.count("op " + name.substr(0, name.find(" [")));
        hist += name + "; ";
        compare_all(name);
    }
    std::string sh; for (auto &m : M) sh += m.r.str() + " ";
    ctx.sample(std::string(Gen<T>::name()) + " " + sh + ": " + hist.substr(0, 240));
    ctx.seen(Gen<T>::name() + sh + hist);
}

void vf_case(Rng &g, Ctx &ctx) {
    switch (g.i(0, 3)) {
    case 0: { Run<qk::indexer_interface<int>, int> r(g, ctx); r.go(); break; }
    case 1: { Run<qk::indexer_interface<std::string>, std::string> r(g, ctx); r.go(); break; }
    default: { Run<qk::data::datachunk, double> r(g, ctx); r.go(); break; }
    }
}
