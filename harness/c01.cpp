// C01: index ranges behave as integer boxes.  Random operation histories on a pool of ranges, every
// range compared with an independent model after every operation.
#include "vf.h"
#include "lib/range.h"
#include "lib/exception.h"
using namespace vf;

struct Box { std::vector<int64_t> lo, up; int nd() const { return (int)lo.size(); }
    bool ok() const { // everything a range reports must fit an int
        int64_t p = 1;
        for (int d = 0; d < nd(); ++d) {
            if (lo[d] < INT32_MIN || lo[d] > INT32_MAX || up[d] < INT32_MIN || up[d] > INT32_MAX) return false;
            int64_t L = up[d] - lo[d];
            if (L < 0 || L > INT32_MAX) return false;
            p *= std::max<int64_t>(L, 1);
            if (p > INT32_MAX) return false;
        }
        return true;
    }
    std::string str() const { std::string s; for (int d = 0; d < nd(); ++d) s += fmt("[%lld,%lld)", (long long)lo[d], (long long)up[d]); return s.empty() ? "()" : s; }
};

static void compare(const qk::range &r, const Box &b, const char *op, Ctx &ctx) {
    ctx.count("ranges compared");
    VF_CHECK(r.num_dims() == b.nd(), "num_dims", "after %s: num_dims %d, expected %d", op, r.num_dims(), b.nd());
    int64_t st = 1, vol = b.nd() ? 1 : 0;
    for (int d = b.nd() - 1; d >= 0; --d) {
        VF_CHECK(r.lower(d) == b.lo[d], "lower", "after %s: lower(%d)=%d, model %s", op, d, r.lower(d), b.str().c_str());
        VF_CHECK(r.upper(d) == b.up[d], "upper", "after %s: upper(%d)=%d, model %s", op, d, r.upper(d), b.str().c_str());
        VF_CHECK(r.length(d) == b.up[d] - b.lo[d], "length", "after %s: length(%d)=%d, model %s", op, d, r.length(d), b.str().c_str());
        VF_CHECK(r.stride(d) == st, "stride", "after %s: stride(%d)=%d expected %lld, model %s", op, d, r.stride(d), (long long)st, b.str().c_str());
        st *= b.up[d] - b.lo[d];
        vol *= b.up[d] - b.lo[d];
    }
    VF_CHECK(r.volume() == vol, "volume", "after %s: volume %d expected %lld, model %s", op, r.volume(), (long long)vol, b.str().c_str());
    if (vol == 0 && b.nd()) ctx.count("empty boxes");
}

static Box random_box(Rng &g) {
    for (;;) {
        Box b; int nd = g.chance(0.05) ? g.i(6, 9) : g.i(1, 5);
        int style = g.i(0, 5);
        for (int d = 0; d < nd; ++d) {
            int64_t lo, L;
            switch (style) {
            case 0: lo = 0; L = g.i(0, 6); break;
            case 1: lo = g.i(-4, 4); L = g.i(1, 5); break;
            case 2: lo = g.i(-3, 3); L = g.i(0, 2); break;
            case 3: lo = g.range(-2000000000LL, 2000000000LL); L = g.i(0, nd == 1 ? 2000000000 : 40000); break;
            default: lo = g.i(-10, 10); L = g.i(0, 12); break;
            }
            b.lo.push_back(lo); b.up.push_back(lo + L);
        }
        if (b.ok()) return b;
    }
}
static std::vector<int> ints(const std::vector<int64_t> &v) { return std::vector<int>(v.begin(), v.end()); }

void vf_case(Rng &g, Ctx &ctx) {
    const int NP = 4;
    std::vector<qk::range> R(NP); std::vector<Box> M(NP);
    std::string hist;
    int steps = g.i(5, 40);
    for (int s = 0; s < steps; ++s) {
        int a = g.i(0, NP - 1), b = g.i(0, NP - 1), op = g.i(0, 12);
        std::string name;
        Box nb = M[a];
        switch (op) {
        case 0: { nb = random_box(g); std::vector<int> lo = ints(nb.lo), up = ints(nb.up); R[a] = qk::range(nb.nd(), lo.data(), up.data()); name = "construct+assign"; break; }
        case 1: { do nb = random_box(g); while (0); for (int d = 0; d < nb.nd(); ++d) { nb.up[d] -= nb.lo[d]; nb.lo[d] = 0; }
                  std::vector<int> up = ints(nb.up); qk::range t(nb.nd(), up.data()); compare(t, nb, "construct from lengths", ctx); R[a] = t; name = "construct from lengths"; break; }
        case 2: { nb = random_box(g); std::vector<int> lo = ints(nb.lo), up = ints(nb.up); R[a].resize(nb.nd(), lo.data(), up.data()); name = "resize(n,lo,up)"; break; }
        case 3: R[a].resize(R[b]); nb = M[b]; name = a == b ? "resize to itself" : "resize(range)"; break;
        case 4: R[a] = R[b]; nb = M[b]; name = a == b ? "assign to itself" : "assign"; break;
        case 5: { qk::range t(R[b]); compare(t, M[b], "copy", ctx); R[a] = t; nb = M[b]; name = "copy+assign"; break; }
        case 6: if (nb.nd() < 8) { int lo = g.i(-3, 3), L = g.i(0, 4); nb.lo.push_back(lo); nb.up.push_back(lo + L); if (nb.ok()) R[a].extrude(lo, lo + L); else nb = M[a]; name = "extrude"; } break;
        case 7: case 8: if (nb.nd()) { int d = g.i(0, nb.nd() - 1), l = g.i(-2, 2), u = g.i(-2, 2); nb.lo[d] += l; nb.up[d] += u; if (nb.ok()) R[a].expand(d, l, u); else nb = M[a]; name = "expand"; } break;
        case 9: case 10: if (nb.nd()) { int d = g.i(0, nb.nd() - 1), h = g.chance(0.1) ? g.i(-1000000, 1000000) : g.i(-5, 5); nb.lo[d] += h; nb.up[d] += h; if (nb.ok()) R[a].shift(d, h); else nb = M[a]; name = "shift"; } break;
        case 11: if (nb.nd()) { int d = g.i(0, nb.nd() - 1), lo = g.i(-5, 5), L = g.i(0, 6); nb.lo[d] = lo; nb.up[d] = lo + L; if (nb.ok()) R[a].set(d, lo, lo + L); else nb = M[a]; name = "set"; } break;
        case 12: { qk::range t; compare(t, Box(), "default construct", ctx); name = "default"; break; }
        }
        if (name.empty()) continue;
        M[a] = nb;
        ctx.count("op " + name);
        hist += name + fmt("(%d,%d)", a, b) + ";";
        for (int k = 0; k < NP; ++k) compare(R[k], M[k], (name + (k == a ? "" : " (of another range)")).c_str(), ctx);
        // relations
        int p = g.i(0, NP - 1), q = g.i(0, NP - 1);
        if (g.chance(0.5)) q = a;
        bool eq = M[p].lo == M[q].lo && M[p].up == M[q].up;
        VF_CHECK((R[p] == R[q]) == eq, "equality", "%s == %s gives %d", M[p].str().c_str(), M[q].str().c_str(), (int)!eq);
        VF_CHECK((R[p] != R[q]) == !eq, "inequality", "%s != %s gives %d", M[p].str().c_str(), M[q].str().c_str(), (int)eq);
        auto inc = [&](const Box &x, const Box &y) { if (x.nd() != y.nd()) return false; for (int d = 0; d < x.nd(); ++d) if (!(x.lo[d] <= y.lo[d] && y.up[d] <= x.up[d])) return false; return true; };
        bool in = inc(M[p], M[q]);
        VF_CHECK(R[p].includes(R[q]) == in, "includes", "%s includes %s gives %d", M[p].str().c_str(), M[q].str().c_str(), (int)!in);
        ctx.count(in ? (eq ? "inclusion of an equal box" : "inclusion of a smaller box") : "non-inclusion");
        // near miss: one bound moved by one
        if (M[p].nd()) {
            Box y = M[p]; int d = g.i(0, y.nd() - 1), w = g.i(0, 3);
            if (w == 0) y.lo[d] -= 1; else if (w == 1) y.up[d] += 1; else if (w == 2 && y.up[d] > y.lo[d]) y.lo[d] += 1; else if (y.up[d] > y.lo[d]) y.up[d] -= 1;
            if (y.ok()) {
                std::vector<int> lo = ints(y.lo), up = ints(y.up); qk::range t(y.nd(), lo.data(), up.data());
                VF_CHECK(R[p].includes(t) == inc(M[p], y), "includes", "%s includes %s gives %d", M[p].str().c_str(), y.str().c_str(), (int)!inc(M[p], y));
                VF_CHECK(t.includes(R[p]) == inc(y, M[p]), "includes", "%s includes %s gives %d", y.str().c_str(), M[p].str().c_str(), (int)!inc(y, M[p]));
                bool e2 = y.lo == M[p].lo && y.up == M[p].up;
                VF_CHECK((t == R[p]) == e2, "equality", "%s == %s gives %d", y.str().c_str(), M[p].str().c_str(), (int)!e2);
                ctx.count("one-off bound comparisons");
            }
        }
        if (g.chance(0.15)) { // printing: all lower bounds, then all upper bounds, and the stream stays usable
            std::ostringstream os; os << R[p] << "|" << 7;
            std::string t = os.str();
            VF_CHECK(t.size() > 2 && t.substr(t.size() - 2) == "|7", "print-chain", "output after printing a range is lost: '%s'", t.c_str());
            std::vector<int64_t> nums; t.resize(t.size() - 2);
            for (size_t k = 0; k < t.size();) {
                if (isdigit((unsigned char)t[k])) { size_t e = k; while (e < t.size() && isdigit((unsigned char)t[e])) ++e; int64_t v = atoll(t.substr(k, e - k).c_str()); nums.push_back(k && t[k - 1] == '-' ? -v : v); k = e; } else ++k;
            }
            std::vector<int64_t> want = M[p].lo; want.insert(want.end(), M[p].up.begin(), M[p].up.end());
            VF_CHECK(nums == want, "print", "printing %s gives '%s'", M[p].str().c_str(), t.c_str());
            ctx.count("ranges printed");
        }
        ctx.seen(M[a].str());
    }
    ctx.sample(hist.substr(0, 200) + " -> " + M[0].str());
}
