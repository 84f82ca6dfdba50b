// C10: exported files and printouts represent the data faithfully; failed exports are reported.
#include "qkw.h"
#include <csignal>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace vf; using namespace qkw;

static std::string slurp(const std::string &p) { std::ifstream f(p.c_str(), std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static double num(const std::string &t, const char *what) { char *e; double v = strtod(t.c_str(), &e); VF_CHECK(!t.empty() && *e == 0, "parse", "%s: '%s' is not a number", what, t.c_str()); return v; }

static void verify_vtk(World &w, const std::vector<variable_id> &ids, const std::string &txt, const std::string &desc, Ctx &ctx) {
    std::istringstream in(txt); std::string l1, l2, l3, t; std::getline(in, l1); std::getline(in, l2); std::getline(in, l3);
    VF_CHECK(l1.find("# vtk DataFile") == 0 && l3.find("ASCII") == 0, "header", "%s: not an ASCII VTK file: '%s' / '%s'", desc.c_str(), l1.c_str(), l3.c_str());
    std::map<std::string, std::vector<std::string>> hd; long ncell = -1; int nvalid = 0; size_t v = 0, c = 0;
    auto own_line = [&] { long p = in.eof() ? (long)txt.size() : (long)in.tellg(); p -= (long)t.size(); while (p > 0 && (txt[p - 1] == ' ' || txt[p - 1] == '\t')) --p; VF_CHECK(p == 0 || txt[p - 1] == '\n', "header", "%s: the keyword %s does not start a line", desc.c_str(), t.c_str()); };
    while (in >> t) {
        if (isalpha((unsigned char)t[0]) && t != "nan" && t != "inf") own_line();
        auto take = [&](int n) { std::vector<std::string> r; for (int k = 0; k < n; ++k) { std::string s; VF_CHECK((bool)(in >> s), "truncated", "%s: file ends inside %s", desc.c_str(), t.c_str()); r.push_back(s); } return r; };
        if (t == "DATASET") { hd[t] = take(1); VF_CHECK(hd[t][0] == "STRUCTURED_POINTS", "header", "%s: dataset %s", desc.c_str(), hd[t][0].c_str()); }
        else if (t == "DIMENSIONS" || t == "ORIGIN" || t == "SPACING") { VF_CHECK(!hd.count(t), "header", "%s: %s twice", desc.c_str(), t.c_str()); hd[t] = take(3); }
        else if (t == "CELL_DATA") {
            ncell = (long)num(take(1)[0], "CELL_DATA");
            long n = 1; for (int d = 0; d < w.nd; ++d) n *= w.L[d];
            VF_CHECK(ncell == n, "cell-count", "%s: CELL_DATA %ld, the grid has %ld cells", desc.c_str(), ncell, n);
            for (const char *k : {"DATASET", "DIMENSIONS", "ORIGIN", "SPACING"}) VF_CHECK(hd.count(k), "header", "%s: no %s before the data", desc.c_str(), k);
            for (int d = 0; d < 3; ++d) {
                VF_CHECK(num(hd["DIMENSIONS"][d], "DIMENSIONS") == (d < w.nd ? w.L[d] + 1 : 1), "dimensions", "%s: %s points along %d", desc.c_str(), hd["DIMENSIONS"][d].c_str(), d);
                double o = num(hd["ORIGIN"][d], "ORIGIN"), s = num(hd["SPACING"][d], "SPACING");
                if (d < w.nd) { VF_CHECK(std::fabs(o - w.start[d]) <= 1e-13 * (std::fabs(w.start[d]) + w.width[d]), "origin", "%s: origin along %d is %.17g, the domain starts at %.17g", desc.c_str(), d, o, w.start[d]); VF_CHECK(std::fabs(s - w.dx(d)) <= 1e-13 * w.dx(d), "spacing", "%s: spacing along %d is %.17g, cells are %.17g", desc.c_str(), d, s, w.dx(d)); }
                else VF_CHECK(o == 0., "origin", "%s: origin along missing dimension %d", desc.c_str(), d);
            }
        } else if (t == "SCALARS") {
            VF_CHECK(ncell >= 0, "header", "%s: data before CELL_DATA", desc.c_str()); std::vector<std::string> s = take(3);
            VF_CHECK(v < ids.size(), "extra-data", "%s: more data than variables: %s", desc.c_str(), s[0].c_str());
            std::string want = ids[v].name() + "." + ids[v].component_names()[c]; VF_CHECK(s[0] == want && s[2] == "1", "labels", "%s: data labelled %s, expected %s", desc.c_str(), s[0].c_str(), want.c_str());
            std::vector<std::string> lt = take(1); t = lt[0]; own_line(); t = "SCALARS"; lt.push_back(take(1)[0]); VF_CHECK(lt[0] == "LOOKUP_TABLE", "header", "%s: no lookup table", desc.c_str());
            Arr a = w.get(ids[v]); int x[3];
            for (x[2] = 0; x[2] < a.L[2]; ++x[2]) for (x[1] = 0; x[1] < a.L[1]; ++x[1]) for (x[0] = 0; x[0] < a.L[0]; ++x[0]) {
                double r = num(take(1)[0], "value"), e = a.at(x, c); VF_CHECK(std::fabs(r - e) <= 2e-15 * std::fabs(e) + 1e-323, "values", "%s: %s at cell (%d,%d,%d) is written as %.17g, stored %.17g", desc.c_str(), want.c_str(), x[0], x[1], x[2], r, e); ++nvalid; }
            if (++c == ids[v].component_names().size()) { c = 0; ++v; }
        } else fail("extra-data", fmt("%s: unexpected '%s' in the file (values written: %d)", desc.c_str(), t.c_str(), nvalid));
    }
    VF_CHECK(v == ids.size() && c == 0, "missing-data", "%s: file ends after %zu of %zu variables", desc.c_str(), v, ids.size());
    ctx.count("values read back", nvalid); ctx.count("files verified");
}
struct Limit { rlimit old; bool on; Limit(long n) : on(n >= 0) { if (!on) return; getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); } ~Limit() { if (on) setrlimit(RLIMIT_FSIZE, &old); } };

// one component of a region of a chunk, written on its own
static void chunk_case(Rng &g, Ctx &ctx) {
    int nd = g.i(1, 3), nc = g.i(1, 5), gh = g.i(0, 3); bool pts = g.chance(0.5), ext = g.chance(0.5); int ml = nd == 1 ? 30 : nd == 2 ? 8 : 5; std::vector<int> lo(nd), up(nd), L(nd);
    auto shape = [&] { for (int d = 0; d < nd; ++d) { lo[d] = g.chance(0.3) ? 0 : g.i(-7, 7); L[d] = g.i(1, ml); up[d] = lo[d] + L[d]; } }; shape();
    auto data = [&](int n) { qk::range r; if (pts) r.extrude(0, 1); r.extrude(0, n); return r; };
    std::unique_ptr<qk::data::datachunk> c; 
    auto make = [&](std::unique_ptr<qk::data::datachunk> &q) { if (ext) { auto *e = new qk::data::extended_datachunk; e->resize(qk::range(nd, lo.data(), up.data()), data(nc), gh); q.reset(e); } else { q.reset(new qk::data::datachunk); q->resize(qk::range(nd, lo.data(), up.data()), data(nc)); } };
    make(c); if (!ext) gh = 0;
    if (g.chance(0.3)) { // the chunk had another shape before
        if (!ext) { int one[3] = {1, 1, 1}; int k = g.i(1, 3); c->resize(qk::range(k, one), data(g.i(1, 3))); c->resize(qk::range(nd, lo.data(), up.data()), data(nc)); ctx.count("reshaped chunks written"); } }
    for (int k = 0; k < c->volume(); ++k) c->data()[k] = any_value(g);
    if (g.chance(0.4)) { std::unique_ptr<qk::data::datachunk> d; 
        if (!ext) { if (g.chance(0.5)) { int two[3] = {2, 1, 2}; d.reset(new qk::data::datachunk); d->resize(qk::range(g.i(1, 3), two), data(1)); *d = *c; } else d.reset(new qk::data::datachunk(*c)); }
        else { d.reset(new qk::data::extended_datachunk(static_cast<qk::data::extended_datachunk &>(*c))); } c.swap(d); ctx.count("copied chunks written"); }
    std::vector<int> a(nd), b(nd); std::string desc = ext ? fmt("chunk with %d ghosts ", gh) : std::string("chunk ");
    for (int d = 0; d < nd; ++d) { int l = L[d] + 2 * gh; a[d] = lo[d] - gh + g.i(0, l - 1); b[d] = g.i(a[d] + 1, lo[d] - gh + l); if (g.chance(0.4)) { a[d] = lo[d]; b[d] = up[d]; } desc += fmt("[%d,%d)of[%d,%d) ", a[d], b[d], lo[d], up[d]); }
    int comp = g.i(0, nc - 1); desc += fmt("component %d of %d", comp, nc); qk::range r(nd, a.data(), b.data()); if (pts) r.extrude(0, 1); r.extrude(comp, comp + 1);
    std::vector<double> before(c->data(), c->data() + c->volume()); std::string p = ctx.scratch + fmt("/chunk_%lld", (long long)ctx.index);
    { std::ofstream f(p.c_str()); f.precision(17); c->write_VTK(f, r); }
    std::istringstream in(slurp(p)); unlink(p.c_str()); std::string t; VF_CHECK((bool)(in >> t) && t == "LOOKUP_TABLE" && (bool)(in >> t), "header", "%s: no lookup table", desc.c_str());
    int x[3] = {0, 0, 0}, A[3] = {0, 0, 0}, B[3] = {1, 1, 1}; for (int d = 0; d < nd; ++d) { A[d] = a[d]; B[d] = b[d]; } long n = 0;
    for (x[2] = A[2]; x[2] < B[2]; ++x[2]) for (x[1] = A[1]; x[1] < B[1]; ++x[1]) for (x[0] = A[0]; x[0] < B[0]; ++x[0], ++n) {
        long o = 0; for (int d = 0; d < nd; ++d) o = o * (L[d] + 2 * gh) + (x[d] - lo[d] + gh); o = o * nc + comp;
        VF_CHECK((bool)(in >> t), "truncated", "%s: only %ld values written", desc.c_str(), n); double v = num(t, "value"); VF_CHECK(v == before[o], "values", "%s: value %ld (cell %d,%d,%d) is written as %.17g, stored %.17g", desc.c_str(), n, x[0], x[1], x[2], v, before[o]); }
    VF_CHECK(!(in >> t), "extra-data", "%s: more than %ld values written", desc.c_str(), n);
    VF_CHECK(!memcmp(before.data(), c->data(), before.size() * sizeof(double)), "changed", "%s: writing changed the data", desc.c_str());
    ctx.count("chunk regions written"); ctx.count("values read back", n); ctx.seen(desc); ctx.sample(desc);
}

void vf_case(Rng &g, Ctx &ctx) {
    if (g.chance(0.2)) return chunk_case(g, ctx);
    static bool once = (signal(SIGXFSZ, SIG_IGN), true); (void)once;
    World w; random_grid(g, w, 60, 1, 0, 0.25); int nv = g.i(1, 4); std::vector<variable_id> ids;
    for (int k = 0; k < nv; ++k) ids.push_back(vid(fmt("var%d", k), comps(g.i(1, 6), k % 2 ? "c" : "comp_")));
    for (auto &i : ids) { Arr a(w.shape(i)); randomise(a, g, any_value); a.each_all([&](const int *x) { if (!a.interior(x)) for (int c = 0; c < a.nc; ++c) a.at(x, c) = -8.88e88; }); w.put(i, a); }
    std::vector<variable_id> all = ids; g.shuffle(ids); ids.resize(g.i(1, nv));
    std::string path = ctx.scratch + fmt("/out_%lld", (long long)ctx.index), suf = ".vtk", desc = w.str() + fmt(", %zu variables", ids.size());
    Snap snap(w, all); int mode = g.i(0, 9);
    auto must_fail = [&](const char *what, const std::string &pre, const std::string &s, const std::vector<variable_id> &l) {
        VF_CHECK(throws_qk([&] { w.vm->write_vtk(pre, s, l); }), "silent-failure", "%s: export reported success although %s", desc.c_str(), what); ctx.count(std::string("fault: ") + what); };
    if (mode <= 3) { w.vm->write_vtk(path, suf, ids); verify_vtk(w, ids, slurp(path + suf), desc, ctx);
        if (g.chance(0.3)) { std::string one = slurp(path + suf); w.vm->write_vtk(path, suf, ids); VF_CHECK(slurp(path + suf) == one, "repeat", "%s: exporting twice gives different files", desc.c_str()); }
        if (g.chance(0.2)) { Arr a(w.shape(ids[0])); randomise(a, g, any_value); w.put(ids[0], a); w.vm->write_vtk(path, suf, ids); verify_vtk(w, ids, slurp(path + suf), desc + " overwriting", ctx); snap = Snap(w, all); } }
    else if (mode == 4) { must_fail("the directory does not exist", ctx.scratch + "/no/such/dir/x", suf, ids); must_fail("the path is a directory", ctx.scratch, "", ids); }
    else if (mode == 5) { must_fail("the device is full", "/dev/full", "", ids); }
    else if (mode <= 7) { // device fills up after n bytes
        w.vm->write_vtk(path, suf, ids); long size = (long)slurp(path + suf).size(); unlink((path + suf).c_str());
        for (int q = 0; q < 4; ++q) { long lim = q == 0 ? size : q == 1 ? size - 1 : g.range(0, size + 20); bool ok; { Limit L(lim); ok = !throws_qk([&] { w.vm->write_vtk(path, suf, ids); }); }
            long got = (long)slurp(path + suf).size(); if (lim >= size) { VF_CHECK(ok, "spurious-failure", "%s: export failed although there is room", desc.c_str()); verify_vtk(w, ids, slurp(path + suf), desc, ctx); } else VF_CHECK(!ok, "silent-failure", "%s: export reported success with %ld of %ld bytes written", desc.c_str(), got, size);
            ctx.count(lim >= size ? "write limit not reached" : "fault: write fails part way"); unlink((path + suf).c_str()); } }
    else if (mode == 8) { std::vector<variable_id> l = ids; int k = g.i(0, (int)l.size());
        l.insert(l.begin() + k, vid("nobody", comps(2))); must_fail("a variable does not exist", path, suf, l);
        qk::basis::basis nb("nodal", 2); variable_id nid("nod", comps(2), nb); w.vm->output_variable(nid); l[k] = nid; must_fail(l.size() > 1 ? "bases are mixed" : "the basis is unsupported", path, suf, l);
        std::vector<variable_id> m(1, nid); must_fail("the basis is unsupported", path, suf, m); ctx.count("bad requests"); }
    else { // print
        std::ostringstream os; std::streambuf *old = std::cout.rdbuf(os.rdbuf()); std::ios::fmtflags ff = std::cout.flags(); qk::solver::print pr; pr.set_input_variables(ids);
        try { pr.solve(*w.vm); } catch (...) { std::cout.rdbuf(old); throw; }
        std::cout.rdbuf(old); std::cout.flags(ff);
        std::istringstream in(os.str()); std::string line; int v = -1; std::map<std::vector<int>, int> seen; long total = 0;
        auto finish = [&] { if (v < 0) return; Arr a(w.shape(ids[v])); VF_CHECK((long)seen.size() == (long)a.cells() * a.nc, "print-missing", "%s: %zu of %ld values printed for '%s'", desc.c_str(), seen.size(), (long)a.cells() * a.nc, ids[v].name().c_str()); seen.clear(); };
        while (std::getline(in, line)) {
            size_t o = line.find('('), cl = line.find(')'), co = line.find(':', cl == std::string::npos ? 0 : cl);
            if (o == std::string::npos || cl == std::string::npos || co == std::string::npos) { if (line.find("'") != std::string::npos) { finish(); ++v; VF_CHECK(v < (int)ids.size() && line.find("'" + ids[v].name() + "'") != std::string::npos, "print-name", "%s: heading '%s'", desc.c_str(), line.c_str()); } continue; }
            VF_CHECK(v >= 0, "print-name", "%s: values before the first heading", desc.c_str());
            std::vector<int> ix; std::string s = line.substr(o + 1, cl - o - 1); for (char &c : s) if (c == ',') c = ' '; std::istringstream is(s); int q; while (is >> q) ix.push_back(q);
            Arr a = w.get(ids[v]); VF_CHECK((int)ix.size() == w.nd + 2, "print-index", "%s: index '%s'", desc.c_str(), s.c_str()); int x[3] = {0, 0, 0}; for (int d = 0; d < w.nd; ++d) x[d] = ix[d] - w.lo[d];
            VF_CHECK(a.interior(x) && ix[w.nd] == 0 && ix[w.nd + 1] >= 0 && ix[w.nd + 1] < a.nc, "print-index", "%s: index (%s) is not an interior value", desc.c_str(), s.c_str());
            VF_CHECK(++seen[ix] == 1, "print-twice", "%s: (%s) printed twice", desc.c_str(), s.c_str());
            std::string val = line.substr(co + 1); val.erase(0, val.find_first_not_of(' ')); double r = num(val, "printed value"), e = a.at(x, ix[w.nd + 1]); VF_CHECK(std::fabs(r - e) <= 1e-5 * std::fabs(e) + 1e-300, "print-value", "%s: (%s) printed as %s, stored %.17g", desc.c_str(), s.c_str(), val.c_str(), e); ++total;
        }
        finish(); VF_CHECK(v + 1 == (int)ids.size(), "print-missing", "%s: %d of %zu variables printed", desc.c_str(), v + 1, ids.size());
        ctx.count("printed values", total);
        qk::solver::print bad; bad.add_input_variable(vid("nobody", comps(1))); std::ostringstream o2; old = std::cout.rdbuf(o2.rdbuf()); bool th = throws_qk([&] { bad.solve(*w.vm); }); std::cout.rdbuf(old);
        VF_CHECK(th && throws_qk([&] { w.vm->input_variable(vid("nobody", comps(1))); }), "print-unknown", "%s: printing an unknown variable %s", desc.c_str(), th ? "created it" : "raised no error");
    }
    snap.same("changed", "exporting or printing"); unlink((path + suf).c_str());
    ctx.sample(desc + fmt(" mode %d", mode)); ctx.seen(desc + fmt("%d", mode));
}
