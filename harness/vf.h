// Common driver of all monitors: deterministic case generation, verdicts, coverage record.
// A harness defines   void vf_case(vf::Rng &rng, vf::Ctx &ctx);   and, optionally, sets vf_setup.
#ifndef VF_H
#define VF_H
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <csignal>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { // splitmix64
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
    int i(int lo, int hi) { return (int)range(lo, hi); }
    double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double d(double lo, double hi) { return lo + (hi - lo) * u(); }
    double logd(double lo, double hi) { return std::exp(d(std::log(lo), std::log(hi))); }
    bool chance(double p) { return u() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    double sgn() { return chance(0.5) ? 1. : -1.; }
    template <class T> void shuffle(std::vector<T> &v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]); }
};

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t k = 0; k < n; ++k) { h ^= c[k]; h *= 1099511628211ULL; }
    return h;
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9e3779b97f4a7c15ULL ^ b); r.next(); return r.next(); }

struct Violation { std::string key, msg; };

struct Ctx {
    uint64_t seed = 1;
    int64_t index = 0;
    bool thorough = false;
    bool verbose = false;
    std::map<std::string, uint64_t> cov;   // named event counters
    std::unordered_set<uint64_t> distinct; // signatures of distinct non-trivial cases
    std::vector<std::string> samples;
    std::string scratch;                   // writable scratch directory
    void count(const std::string &k, uint64_t n = 1) { cov[k] += n; }
    void seen(const std::string &sig) { distinct.insert(hash_str(sig)); }
    void seen(uint64_t h) { distinct.insert(h); }
    void sample(const std::string &s) { if (samples.size() < 4) samples.push_back(s); if (verbose) printf("case %lld: %s\n", (long long)index, s.c_str()); }
};

[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }
#define VF_CHECK(cond, key, ...) do { if (!(cond)) ::vf::fail(key, ::vf::fmt(__VA_ARGS__)); } while (0)

inline bool same_bits(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
// equal as values, every NaN equal to every NaN, signed zeros distinguished only by same_bits
inline bool same_val(double a, double b) { return (a == b) || (std::isnan(a) && std::isnan(b)); }

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += (char)c;
    }
    return o;
}
} // namespace vf

void vf_case(vf::Rng &rng, vf::Ctx &ctx);
#ifdef VF_HAS_FINISH
void vf_finish(vf::Ctx &ctx); // called once after all cases of this process
#endif

#ifndef VF_NO_MAIN
// a case that makes no progress for this many seconds is reported as hanging
#ifndef VF_CASE_SECONDS
#define VF_CASE_SECONDS 60
#endif
static void vf_on_alarm(int) { static const char m[] = "VF-HANG: a case does not end\n"; if (write(2, m, sizeof m - 1) < 0) _exit(3); _exit(88); }
int main(int argc, char **argv) {
    uint64_t seed = 1; int64_t from = 0, to = 1; std::string out, status, scratch = ".";
    vf::Ctx ctx; int slow = 1;
    for (int a = 1; a < argc; ++a) {
        std::string s = argv[a];
        if (s == "--seed") seed = strtoull(argv[++a], 0, 10);
        else if (s == "--from") from = atoll(argv[++a]);
        else if (s == "--to") to = atoll(argv[++a]);
        else if (s == "--out") out = argv[++a];
        else if (s == "--status") status = argv[++a];
        else if (s == "--scratch") scratch = argv[++a];
        else if (s == "--thorough") ctx.thorough = true;
        else if (s == "--verbose") ctx.verbose = true;
        else if (s == "--slow") slow = atoi(argv[++a]);
        else { fprintf(stderr, "bad argument %s\n", s.c_str()); return 3; }
    }
    ctx.seed = seed; ctx.scratch = scratch; signal(SIGALRM, vf_on_alarm);
    int sfd = status.empty() ? -1 : open(status.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    std::vector<std::string> viol;
    uint64_t executed = 0;
    std::map<std::string, int> per_key;
    for (int64_t k = from; k < to && viol.size() < 10; ++k) {
        ctx.index = k;
        if (sfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%-20lld\n", (long long)k); if (pwrite(sfd, b, n, 0) != n) return 3; }
        alarm(VF_CASE_SECONDS * slow);
        vf::Rng rng(vf::mix(seed, (uint64_t)k));
        std::string key, msg;
        try { vf_case(rng, ctx); }
        catch (const vf::Violation &v) { key = v.key; msg = v.msg; }
        catch (const std::exception &e) { key = "unexpected-exception"; msg = std::string(typeid(e).name()) + ": " + e.what(); }
        ++executed;
        if (!key.empty()) {
            fprintf(stderr, "VF-VIOLATION case=%lld key=%s : %s\n", (long long)k, key.c_str(), msg.c_str());
            if (per_key[key]++ == 0)
                viol.push_back(vf::fmt("{\"case\": %lld, \"key\": \"", (long long)k) + vf::jesc(key) + "\", \"msg\": \"" + vf::jesc(msg) + "\"}");
            if (per_key[key] > 20) break;
        }
    }
    alarm(0);
#ifdef VF_HAS_FINISH
    try { vf_finish(ctx); }
    catch (const vf::Violation &v) { viol.push_back("{\"case\": -1, \"key\": \"" + vf::jesc(v.key) + "\", \"msg\": \"" + vf::jesc(v.msg) + "\"}"); }
#endif
    std::ostringstream js;
    js << "{\"executed\": " << executed << ", \"coverage\": {";
    bool first = true;
    for (auto &p : ctx.cov) { js << (first ? "" : ", ") << "\"" << vf::jesc(p.first) << "\": " << p.second; first = false; }
    js << "}, \"distinct\": [";
    first = true;
    for (auto h : ctx.distinct) { js << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; first = false; }
    js << "], \"samples\": [";
    first = true;
    for (auto &s : ctx.samples) { js << (first ? "" : ", ") << "\"" << vf::jesc(s) << "\""; first = false; }
    js << "], \"violations\": [";
    first = true;
    for (auto &v : viol) { js << (first ? "" : ", ") << v; first = false; }
    js << "]}\n";
    if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); if (!f) return 3; std::string s = js.str(); fwrite(s.data(), 1, s.size(), f); fclose(f); }
    else printf("%s", js.str().c_str());
    return viol.empty() ? 0 : 42;
}
#endif
#endif
