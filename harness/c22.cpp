// C22: correct use is free of undefined behaviour, leaks nothing and is reproducible.
#include "vf.h"
#include "c22.h"
#include <malloc.h>
#include <valgrind/memcheck.h>
#ifdef __SANITIZE_ADDRESS__
#define C22_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define C22_ASAN 1
#endif
#endif
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace vf;
static size_t held() { // exact only where the sanitizer's allocator counts
#ifdef C22_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
static __attribute__((noinline)) void dirty_stack(int byte) { volatile char b[60000]; for (size_t k = 0; k < sizeof b; ++k) b[k] = (char)byte; }
static void dirty(int byte) {
#ifndef C22_ASAN
    mallopt(M_PERTURB, byte);
#endif
    std::vector<char *> v; for (int k = 0; k < 40; ++k) { size_t n = 16u << (k % 12); char *p = (char *)malloc(n); memset(p, byte, n); v.push_back(p); } for (char *p : v) free(p); dirty_stack(byte);
}
static void run(int copy, uint64_t s, int kind, const std::string &dir, C22Log &L) {
#ifdef C22_COPIES
    if (copy) { c22_run_b(s, kind, dir, L); return; }
#endif
    (void)copy; c22_run_a(s, kind, dir, L); }
static void compare(const C22Log &a, const C22Log &b, const char *how, Ctx &ctx) {
    VF_CHECK(a.values.size() == b.values.size() && a.texts.size() == b.texts.size(), "reproducible", "%s (%s): the program observed %zu values and %zu texts, then %zu and %zu", a.kind.c_str(), how, a.values.size(), a.texts.size(), b.values.size(), b.texts.size());
    for (size_t k = 0; k < a.values.size(); ++k) { const auto &x = a.values[k].second, &y = b.values[k].second; VF_CHECK(x.size() == y.size(), "reproducible", "%s (%s): number of %s", a.kind.c_str(), how, a.values[k].first.c_str()); for (size_t i = 0; i < x.size(); ++i) VF_CHECK(same_val(x[i], y[i]), "reproducible", "%s (%s): %s #%zu is %.17g, then %.17g", a.kind.c_str(), how, a.values[k].first.c_str(), i, x[i], y[i]); ctx.count("values compared", x.size()); }
    for (size_t k = 0; k < a.texts.size(); ++k) { VF_CHECK(a.texts[k].second == b.texts[k].second, "reproducible", "%s (%s): %s differs: '%.200s' / '%.200s'", a.kind.c_str(), how, a.texts[k].first.c_str(), a.texts[k].second.c_str(), b.texts[k].second.c_str()); ctx.count("texts compared"); if (a.texts[k].first == "exported file") ctx.count("files compared"); }
}
void vf_case(Rng &g, Ctx &ctx) {
    uint64_t s = g.next(); int kind = g.i(0, 2); static const int bytes[] = {0, 0xff, 0x7f, 0xab, 0x01, 0x3f, 0xc0}; static const char *names[] = {"simulations", "operator sequences", "geometry and copies"};
    long e0 = VALGRIND_COUNT_ERRORS; int b1 = bytes[g.i(0, 6)], b2; do b2 = bytes[g.i(0, 6)]; while (b1 == b2);
    C22Log A, B, C; dirty(b1); run(0, s, kind, ctx.scratch, A); ctx.count(std::string("programs: ") + names[kind]);
    { dirty(b1); for (int t = 0;; ++t) { size_t h0 = held(); { C22Log L; run(0, s, kind, ctx.scratch, L); } size_t h1 = held(); if (!h0) break; ctx.count("leak balances"); if (h1 <= h0) break;
        VF_CHECK(t < 3, "leak", "%s: %zu bytes stay allocated after every run of the program", A.kind.c_str(), h1 - h0); } }
    if (g.chance(0.5)) { C22Log L; run(0, g.next(), g.i(0, 2), ctx.scratch, L); } // whatever ran before
    dirty(b2); run(0, s, kind, ctx.scratch, B); compare(A, B, "repeated in other memory", ctx); ctx.count("repetitions");
#ifdef C22_COPIES
    dirty(b1); run(1, s, kind, ctx.scratch, C); compare(A, C, "locals filled differently", ctx); ctx.count("compared with differently filled locals");
#endif
    long e1 = VALGRIND_COUNT_ERRORS; VF_CHECK(e1 == e0, "memcheck", "%s: %ld uses of uninitialised or invalid memory", A.kind.c_str(), e1 - e0);
    ctx.seen(mix(s, kind)); ctx.sample(A.kind);
}
