// C25: the shipped programs export the frames of the simulations they describe.
// Each program runs in a process of its own. Files are opened through the stand-ins below, which keep every frame in the
// scratch directory, record the order in which frames are written, and end the program once the last wanted frame is closed.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#define VF_CASE_SECONDS 700
#include "model.h"
#include <dlfcn.h>
#include <malloc.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <fstream>
#include <iostream>
#include "example/advection/advect_gaussian.h"
#include "example/euler/sod_shock_tube.h"
#include "example/maxwell/gaussian_pulse.h"
#include "example/maxwell/wave_1D.h"
#include "example/plasma/gem_challenge.h"
#include "example/plasma/harris_current_sheet.h"
#include "example/plasma/two_fluid_brio_wu.h"
using namespace vf; using namespace qkw; using namespace ref; using namespace sim;

static std::string g_dir; static int g_last = -1, g_log = -1; static bool g_stop = false; static FILE *g_final = 0;
static void note(const std::string &l) { std::string t = l + "\n"; if (write(g_log, t.data(), t.size()) != (ssize_t)t.size()) _exit(3); }
static FILE *redirect(const char *fn, const char *path, const char *mode) {
    typedef FILE *(*F)(const char *, const char *); F real = (F)dlsym(RTLD_NEXT, fn);
    if (g_log < 0 || !strpbrk(mode, "wa+")) return real(path, mode);
    std::string p(path), base = p.substr(p.rfind('/') + 1); int n = -1; if (sscanf(base.c_str(), "frame_%d.vtk", &n) != 1) n = -1;
    note(base); FILE *f = real((g_dir + "/" + base).c_str(), mode); if (n == g_last) g_final = f; return f;
}
extern "C" FILE *fopen(const char *p, const char *m) { return redirect("fopen", p, m); }
extern "C" FILE *fopen64(const char *p, const char *m) { return redirect("fopen64", p, m); }
extern "C" int fclose(FILE *f) { typedef int (*F)(FILE *); F real = (F)dlsym(RTLD_NEXT, "fclose"); int r = real(f); if (g_log >= 0 && f == g_final && g_stop) { note("(stopped)"); _exit(0); } return r; }

struct Prog {
    std::string name; int total, last, per; std::function<void()> run; World w; System S; LD dt = 0; bool advection = false; std::vector<double> vel;
    std::vector<int> nc; std::function<void(int, const LD *, LD *, LD *)> profile; // (species, centre, values, tolerances)
    LD growth; // frames in which the scheme amplifies rounding tenfold
    Prog() : S(w), growth(8) {}
};
static void read_frame(const std::string &path, std::vector<Arr> &a) { // components of all variables in file order, first axis fastest
    std::ifstream f(path.c_str()); VF_CHECK((bool)f, "frame", "no output file %s", path.c_str()); std::string t; size_t v = 0; int c = 0;
    while (f >> t) if (t == "LOOKUP_TABLE") { f >> t; VF_CHECK(v < a.size(), "frame", "%s holds too many components", path.c_str()); int x[3]; for (x[2] = 0; x[2] < a[v].L[2]; ++x[2]) for (x[1] = 0; x[1] < a[v].L[1]; ++x[1]) for (x[0] = 0; x[0] < a[v].L[0]; ++x[0]) { VF_CHECK((bool)(f >> t), "frame", "%s is truncated", path.c_str()); a[v].at(x, c) = strtod(t.c_str(), 0); } if (++c == a[v].nc) { c = 0; ++v; } }
    VF_CHECK(v == a.size(), "frame", "%s ends in variable %zu of %zu", path.c_str(), v, a.size());
}
#ifdef __SANITIZE_ADDRESS__
static const int FAST = 0;
#else
static const int FAST = 1;
#endif
static void set_grid(World &w, std::vector<int> L, std::vector<double> s, std::vector<double> W) { w.nd = (int)L.size(); for (size_t d = 0; d < L.size(); ++d) { w.L[d] = L[d]; w.start[d] = s[d]; w.width[d] = W[d]; } w.build(); }
#ifdef _OPENMP
static const int first_program = 6, NPROG = 1; // the largest program runs on all processors
#else
static const int first_program = 0, NPROG = 7;
#endif
static void define(Prog &P, int k, const std::string &dir, bool thorough) {
    P.total = 100; P.last = 100;
    switch (k) {
    case 0: P.name = "advected Gaussian"; P.run = [] { qk::example::advection::advect_gaussian(); }; set_grid(P.w, {128, 128}, {-.5, -.5}, {1, 1}); P.per = 10; P.dt = 1. / 1000; P.last = thorough ? (FAST ? 100 : 10) : FAST ? 8 : 2;
        P.advection = true; P.vel = {-1, -1}; P.nc = {1}; P.profile = [](int, const LD *x, LD *v, LD *t) { v[0] = std::exp(-(x[0] * x[0] + x[1] * x[1]) / 0.01L); t[0] = 1e-13L; }; break;
    case 1: P.name = "shock tube"; P.run = [dir] { qk::example::euler::sod_shock_tube(dir); }; set_grid(P.w, {500, 2}, {-.5, -.5}, {1, 1}); P.per = 5; P.dt = 0.5 / 500.; P.last = thorough ? 100 : 40; P.S.sp.push_back({true, 1.4, 0, 1, {{NOSLIP, {0}}, {PERIODIC, {1}}}}); P.nc = {5};
        P.profile = [](int, const LD *x, LD *v, LD *t) { bool l = x[0] < 0; for (int c = 0; c < 5; ++c) v[c] = t[c] = 0; v[0] = l ? 1 : .125L; v[4] = (l ? 1 : .1L) / .4L; t[0] = t[4] = 1e-14L; }; break;
    case 2: P.name = "magnetic pulse"; P.run = [] { qk::example::maxwell::gaussian_pulse(); }; set_grid(P.w, {128}, {-.5}, {1}); P.per = 10; P.dt = 1. / 1000; P.S.c = 5; P.S.sp.push_back({false, 0, 0, 1, {{PERIODIC, {0}}}}); P.nc = {6};
        P.profile = [](int, const LD *x, LD *v, LD *t) { for (int c = 0; c < 6; ++c) v[c] = t[c] = 0; v[5] = std::exp(-0.5L * x[0] * x[0] / .01L); t[5] = 1e-13L; }; break;
    case 3: P.name = "wave"; P.run = [dir] { qk::example::maxwell::wave_1D(dir); }; set_grid(P.w, {2, 2, 128}, {-.5, -.5, -.5}, {1, 1, 1}); P.per = 10; P.dt = 1. / 1000; P.last = thorough || FAST ? 100 : 15; P.S.c = 1; P.S.sp.push_back({false, 0, 0, 1, {{PERIODIC, {0, 1, 2}}}}); P.nc = {6};
        P.profile = [](int, const LD *x, LD *v, LD *t) { LD s = std::sin(2 * 3.14159263L * x[2]); v[0] = s; v[1] = -s; v[2] = 0; v[3] = s; v[4] = s; v[5] = 1; for (int c = 0; c < 6; ++c) t[c] = 2e-7L; }; break; // the profile's own value of pi has nine digits
    case 4: { P.name = "two-fluid shock tube"; P.run = [] { qk::example::plasma::two_fluid_brio_wu(); }; set_grid(P.w, {100}, {-.5}, {1}); P.per = 10; P.dt = .1 / 1000; P.S.c = 10; P.S.eps0 = 1e-6; P.S.coupled = true;
        P.S.sp.push_back({true, 2., -1., .1, {{NOSLIP, {0}}}}); P.S.sp.push_back({true, 2., 1., 1., {{NOSLIP, {0}}}}); P.S.sp.push_back({false, 0, 0, 1, {{CONDUCTING, {0}}}}); P.nc = {5, 5, 6};
        P.profile = [](int s, const LD *x, LD *v, LD *t) { bool l = x[0] < 0; for (int c = 0; c < 6; ++c) v[c] = 0; if (s < 2) { v[0] = (s ? 1 : .1L) * (l ? 1 : .125L); v[4] = l ? 1 : .1L; } else { v[3] = .75L; v[4] = l ? 1 : -1; } for (int c = 0; c < 6; ++c) t[c] = 1e-14L; }; break; }
    default: { bool gem = k == 6; P.name = gem ? "reconnection challenge" : "current sheet";
        const double e = 1.60217662e-19, me = 9.10938356e-31, eps0 = 8.85418782e-12, mu0 = 1.25663706e-6, c = 299792458., ga = 5. / 3, mi = 25 * me, pi = 3.14159263;
        const double n0 = c * c * mi * eps0 / (e * e), n1 = .2 * n0, lam = .5, Te = (.1 * c) * (.1 * c) * me / ga, Ti = Te / .2, B0 = std::sqrt(2 * mu0 * n0 * (Te + Ti)), wci = e * B0 / mi, Lx = (gem ? 1 : 4) * pi;
        P.S.c = c; P.S.eps0 = eps0; P.S.coupled = true; std::vector<BcSpec> fb = {{NOSLIP, {0}}}, eb = {{CONDUCTING, {0}}}; if (gem) { fb.push_back({PERIODIC, {1}}); eb.push_back({PERIODIC, {1}}); }
        P.S.sp.push_back({true, ga, -e, me, fb}); P.S.sp.push_back({true, ga, e, mi, fb}); P.S.sp.push_back({false, 0, 0, 1, eb}); P.nc = {5, 5, 6};
        if (gem) { P.run = [dir] { qk::example::plasma::gem_challenge(dir); }; set_grid(P.w, {256, 512}, {-Lx / 2, -Lx}, {Lx, 2 * Lx}); P.total = 1000; P.per = 125; P.dt = 40. / wci / 125000; P.last = FAST ? (thorough ? 3 : 1) : 0; P.S.slabs = 8; }
        else { P.run = [] { qk::example::plasma::harris_current_sheet(); }; set_grid(P.w, {400}, {-Lx / 2}, {Lx}); P.per = 100; P.dt = 1. / wci / 10000; P.last = thorough ? (FAST ? 100 : 20) : FAST ? 8 : 3; }
        P.profile = [=](int s, const LD *x, LD *v, LD *t) { for (int q = 0; q < 6; ++q) v[q] = t[q] = 0; LD ch = std::cosh(x[0] / lam), s2 = 1 / (ch * ch), n = n0 * s2 + n1;
            if (s < 2) { LD m = s ? mi : me, T = s ? Ti : Te, u = 2 * T / ((s ? (LD)e : -(LD)e) * lam * B0); v[0] = m * n; v[3] = m * n0 * s2 * u; v[4] = n * T / (ga - 1.L) + .5L * v[3] * v[3] / v[0]; for (int q = 0; q < 5; ++q) t[q] = 1e-12L * std::fabs(v[q]); }
            else { LD kk = pi / (LD)Lx, B1 = .1L * B0; v[3] = B1 * kk * std::cos(kk * x[0]) * std::sin(kk * x[1]); v[4] = B0 * std::tanh(x[0] / lam) - B1 * kk * std::sin(kk * x[0]) * std::cos(kk * x[1]); t[3] = t[4] = 1e-6L * std::fabs(B1); } };
        break; } }
}
static void advect_step(LArr &m, const World &w, const std::vector<double> &vel, LD dt, bool closed = true) { Dims ds; if (closed) ds = all_dims(w.nd); // without boundaries the ghosts keep their zeros
    boundary(m, PERIODIC, ds); LArr m1 = m; advect(m1, m, w, vel, dt); boundary(m1, PERIODIC, ds); LArr m2 = m; for (size_t k = 0; k < m2.v.size(); ++k) m2.v[k] = .5L * (m.v[k] + m1.v[k]); advect(m2, m1, w, vel, .5L * dt); m = m2; }

void vf_case(Rng &g, Ctx &ctx) {
    (void)g; mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 2000000000); g_dir = ctx.scratch; Prog P; define(P, first_program + (int)(ctx.index % NPROG), g_dir, ctx.thorough);
    g_last = P.last; g_stop = P.last < P.total; std::string log = g_dir + "/log"; fflush(stdout); std::cout.flush();
    pid_t child = fork(); VF_CHECK(child >= 0, "harness", "fork failed");
    if (!child) { // the program; its console output is not part of the property
        prctl(PR_SET_PDEATHSIG, SIGKILL); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); g_log = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
        try { P.run(); note("(ended)"); } catch (const std::exception &e) { note(std::string("(error) ") + e.what()); }
        _exit(0); }
    int st = 0; while (waitpid(child, &st, 0) < 0) {}
    if (WIFEXITED(st) && WEXITSTATUS(st)) _exit(WEXITSTATUS(st)); // a sanitizer's report
    VF_CHECK(WIFEXITED(st), "crash", "%s was ended by signal %d", P.name.c_str(), WTERMSIG(st));
    std::vector<std::string> g_written; std::string ending; { std::ifstream f(log.c_str()); std::string l; while (std::getline(f, l)) { if (l[0] == '(' && ending.empty()) ending = l; if (ending.empty()) g_written.push_back(l); } }
    VF_CHECK(ending == (g_stop ? "(stopped)" : "(ended)"), "ending", "%s %s after %zu frames", P.name.c_str(), ending.c_str(), g_written.size());
    VF_CHECK((int)g_written.size() == P.last + 1, "frames", "%s wrote %zu frames, expected %d", P.name.c_str(), g_written.size(), P.last + 1);
    for (int k = 0; k <= P.last; ++k) VF_CHECK(g_written[k] == fmt("frame_%d.vtk", k), "order", "%s: file number %d is %s", P.name.c_str(), k, g_written[k].c_str());
    std::vector<LArr> u; std::vector<Arr> init, o; LD w1 = 0; for (int nc : P.nc) o.push_back(Arr(P.w.shape(nc)));
    int k = 0; LArr open; bool unwrapped = false; // the advected Gaussian without any boundary, see KNOWN_FINDINGS.txt
    for (; k <= P.last; ++k) {
        if (k) { bool ok = true; for (int j = 0; ok && j < P.per; ++j) { if (P.advection) { advect_step(u[0], P.w, P.vel, P.dt); advect_step(open, P.w, P.vel, P.dt, false); } else ok = P.S.step(u, P.dt); } if (!ok) { ctx.count("programs followed until the scheme lost positivity"); break; } }
        read_frame(g_dir + fmt("/frame_%d.vtk", k), o); ctx.count(P.name + " frames");
        if (!k) { // the first frame is the documented profile; the model continues from it
            for (size_t s = 0; s < o.size(); ++s) { o[s].each_interior([&](const int *x) { LD xc[3] = {0, 0, 0}, v[6], t[6]; for (int d = 0; d < P.w.nd; ++d) xc[d] = (LD)P.w.start[d] + (x[d] + .5L) * ((LD)P.w.width[d] / P.w.L[d]); P.profile((int)s, xc, v, t);
                for (int c = 0; c < o[s].nc; ++c) VF_CHECK(std::fabs((LD)o[s].at(x, c) - v[c]) <= t[c], "profile", "%s: initial component %d of variable %zu in cell %s is %.17g, expected %.17g", P.name.c_str(), c, s, cell_str(o[s], x).c_str(), o[s].at(x, c), (double)v[c]); });
                init.push_back(o[s]); u.push_back(LArr(o[s])); }
            if (P.advection) open = u[0];
            continue; }
        LD allow = std::min(1e-4L, 1e-11L * std::pow(10.L, k / P.growth));
        if (P.advection) { LD closed_e = 0, open_e = 0, core_e = 0; const int far = 24 + 2 * k; // cells that far from the edges have not yet felt them
            o[0].each_interior([&](const int *x) { LD c = std::fabs(o[0].at(x, 0) - u[0].at(x, 0)); closed_e = std::max(closed_e, c); open_e = std::max(open_e, (LD)std::fabs(o[0].at(x, 0) - open.at(x, 0))); if (x[0] >= far && x[1] >= far && x[0] < P.w.L[0] - far && x[1] < P.w.L[1] - far) core_e = std::max(core_e, c); });
            if (ctx.verbose) printf("frame %d closed %.3Lg open %.3Lg core %.3Lg allow %.3Lg\n", k, closed_e, open_e, core_e, allow);
            if (closed_e > allow && k <= 18 && core_e <= allow && open_e <= std::max(allow, .5L * closed_e)) { unwrapped = true; w1 = std::max(w1, core_e); ctx.count("cells compared", o[0].cells()); continue; }
            if (unwrapped && k > 18) break; } // what enters from beyond the edges is no longer small
        for (size_t s = 0; s < o.size(); ++s) { Arr r(o[s]); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = (double)u[s].v[i]; std::vector<LD> sc(o[s].nc, 1), si(o[s].nc, 1); if (!P.advection) { sc = scales(r, P.S.sp[s].fluid, P.S.c); si = scales(init[s], P.S.sp[s].fluid, P.S.c); }
            o[s].each_interior([&](const int *x) { for (int c = 0; c < o[s].nc; ++c) { LD e = std::fabs((LD)o[s].at(x, c) - u[s].at(x, c)) / std::max(sc[c], si[c]); w1 = std::max(w1, e); VF_CHECK(e <= allow, "frame-contents", "%s: frame %d, component %d of variable %zu in cell %s is %.17g, the model gives %.17g", P.name.c_str(), k, c, s, cell_str(o[s], x).c_str(), o[s].at(x, c), (double)u[s].at(x, c)); } ctx.count("cells compared"); }); }
        if (ctx.verbose) printf("%s frame %d worst %.3Lg\n", P.name.c_str(), k, w1);
    }
    std::string n = P.name + ", worst relative error in 1e-15 (max)"; ctx.cov[n] = std::max<uint64_t>(ctx.cov[n], (uint64_t)(w1 * 1e15L));
    for (int q = 0; q <= P.last; ++q) unlink((g_dir + fmt("/frame_%d.vtk", q)).c_str());
    ctx.count("programs run"); ctx.seen(P.name + fmt(" %d", k)); ctx.sample(P.name + fmt(": %d frames compared, program %s", k, g_stop ? "stopped there" : "ran to its end"));
    if (unwrapped) fail("advected-gaussian-open", P.name + ": the frames are those of a domain without boundaries: the pulse leaves through one side and does not come back through the other");
}
