// A small OpenMP runtime for code compiled by gcc -fopenmp: every team member is a real thread synchronised only through
// pthread primitives, so that ThreadSanitizer sees exactly the ordering the OpenMP program asked for. The monitor chooses
// team sizes, injects delays and can force a serial order of the team's threads.
#include "gomp_stub.h"
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <mutex>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>

GompCtl gomp_ctl;
namespace {
struct Loop { bool init = false; bool up = true; long long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0, left = 0; std::vector<long long> given; };
struct Team {
    int n; std::mutex m; std::condition_variable cv; int waiting = 0; unsigned gen = 0;
    std::vector<Loop *> loops; std::vector<int> singles; int sect_next = 0;
    std::vector<int> order; size_t turn = 0; bool ordered = false; std::vector<char> gone; // forced serial order
    std::vector<int> finished; void *copypriv = 0; std::map<int, long> ord_next;
    ~Team() { for (Loop *l : loops) delete l; }
};
struct Self { Team *t = 0; int id = 0; int loop_no = -1, single_no = -1; long iter = 0; Self *up = 0; };
thread_local Self *self_ = 0; thread_local Self root_;
Self &self() { if (!self_) self_ = &root_; return *self_; }
uint64_t rnd(uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }

void pass_turn(Team *t, std::unique_lock<std::mutex> &lk) { // caller holds the turn
    (void)lk; for (size_t k = 0; k < t->order.size(); ++k) { t->turn = (t->turn + 1) % t->order.size(); if (!t->gone[t->order[t->turn]]) break; } t->cv.notify_all(); }
void await_turn(Team *t, int id, std::unique_lock<std::mutex> &lk) { t->cv.wait(lk, [&] { return t->order[t->turn] == id; }); }

void delay(uint64_t &s) { int us = gomp_ctl.delay_us ? (int)(rnd(s) % (gomp_ctl.delay_us + 1)) : 0; if (us) usleep(us); else if (rnd(s) & 1) std::this_thread::yield(); }

void member(Team *t, int id, void (*fn)(void *), void *data, uint64_t seed) {
    Self me; me.t = t; me.id = id; me.up = self_; Self *save = self_; self_ = &me;
    if (t->ordered) { std::unique_lock<std::mutex> lk(t->m); await_turn(t, id, lk); } else delay(seed);
    fn(data);
    if (t->ordered) { std::unique_lock<std::mutex> lk(t->m); t->gone[id] = 1; t->finished.push_back(id); pass_turn(t, lk); }
    else if (gomp_ctl.record) { std::lock_guard<std::mutex> lk(gomp_ctl.rec_m); t->finished.push_back(id); } // not while racing is judged: creates no ordering before the joins
    self_ = save;
}
Loop *loop_of(Team *t, int no) { while ((int)t->loops.size() <= no) t->loops.push_back(new Loop); return t->loops[no]; }
// kinds: 0 static, 1 dynamic, 2 guided
bool loop_take(Team *t, Self &me, long long *a, long long *b) { // team mutex held
    Loop *l = loop_of(t, me.loop_no); long long todo = l->up ? (l->end - l->next + l->incr - 1) / l->incr : (l->next - l->end - l->incr - 1) / -l->incr;
    if (l->kind == 0) { // static with chunk: thread takes its own chunks round robin
        if ((int)l->given.size() < t->n) l->given.assign(t->n, 0);
        long long total = todo, ch = l->chunk > 0 ? l->chunk : (total + t->n - 1) / t->n; if (ch < 1) ch = 1; long long first = (l->given[me.id] * t->n + me.id) * ch;
        if (first >= total) return false; if (l->chunk <= 0 && l->given[me.id]) return false; l->given[me.id]++;
        long long last = first + ch < total ? first + ch : total; *a = l->next + first * l->incr; *b = l->next + last * l->incr; return true; }
    if (todo <= 0) return false;
    long long n = l->kind == 2 ? (todo + t->n - 1) / t->n : l->chunk; if (n < l->chunk) n = l->chunk; if (n < 1) n = 1; if (n > todo) n = todo;
    *a = l->next; l->next += n * l->incr; *b = l->next; return true;
}
struct Locked { // team mutex, honouring the forced order (a thread holding the turn keeps it)
    std::unique_lock<std::mutex> lk; Locked(Team *t) : lk(t->m) {} };
Team &solo() { static thread_local Team *t = 0; if (!t) { t = new Team; t->n = 1; } return *t; }
Team *team() { Self &me = self(); if (!me.t) { me.t = &solo(); } return me.t; }
bool loop_start(int kind, bool up, long long s, long long e, long long inc, long long chunk, long long *a, long long *b) {
    Team *t = team(); Self &me = self(); ++me.loop_no; Locked l(t); Loop *L = loop_of(t, me.loop_no);
    if (!L->init) { L->init = true; L->kind = kind; L->up = up; L->next = s; L->end = e; L->incr = inc; L->chunk = chunk; gomp_ctl.worksharing++; }
    return loop_take(t, me, a, b);
}
bool loop_next(long long *a, long long *b) { Team *t = team(); Self &me = self(); Locked l(t); return loop_take(t, me, a, b); }
void run_team(void (*fn)(void *), void *data, unsigned num, std::vector<Loop> pre) {
    Self &me = self(); bool nested = me.t && me.t->n > 1;
    int want = gomp_ctl.threads > 0 ? gomp_ctl.threads : 1, n = nested ? 1 : (num ? std::min<int>(want, (int)num) : want); if (n < 1) n = 1;
    Team t; t.n = n; for (auto &l : pre) { t.loops.push_back(new Loop(l)); }
    gomp_ctl.regions++; uint64_t s = gomp_ctl.seed * 0x9e3779b97f4a7c15ULL + gomp_ctl.regions * 7919 + 1;
    if (n > (int)gomp_ctl.max_team) gomp_ctl.max_team = n;
    t.ordered = gomp_ctl.ordered && n > 1; t.gone.assign(n, 0); for (int k = 0; k < n; ++k) t.order.push_back(k);
    for (int k = n; k > 1; --k) std::swap(t.order[k - 1], t.order[rnd(s) % k]);
    std::vector<std::thread> th; std::vector<int> ids; for (int k = 1; k < n; ++k) ids.push_back(k); for (size_t k = ids.size(); k > 1; --k) std::swap(ids[k - 1], ids[rnd(s) % k]);
    for (int k : ids) th.emplace_back(member, &t, k, fn, data, rnd(s) | 1);
    member(&t, 0, fn, data, rnd(s) | 1);
    for (auto &x : th) x.join();
    uint64_t h = n; if (t.ordered) for (int k : t.order) h = h * 31 + k; else for (int k : t.finished) h = h * 31 + k;
    gomp_ctl.note(h);
}
Loop pre(int kind, long long s, long long e, long long inc, long long chunk) { Loop l; l.init = true; l.kind = kind; l.up = inc > 0; l.next = s; l.end = e; l.incr = inc; l.chunk = chunk; gomp_ctl.worksharing++; return l; }
std::mutex *named() { static std::mutex m; return &m; }
std::recursive_mutex &atomic_m() { static std::recursive_mutex m; return m; }
void barrier() {
    Team *t = team(); Self &me = self(); if (t->n <= 1) return; std::unique_lock<std::mutex> lk(t->m);
    unsigned g = t->gen; if (++t->waiting == t->n) { t->waiting = 0; ++t->gen; t->cv.notify_all(); if (t->ordered) { pass_turn(t, lk); await_turn(t, me.id, lk); } return; }
    if (t->ordered) pass_turn(t, lk);
    t->cv.wait(lk, [&] { return t->gen != g && (!t->ordered || t->order[t->turn] == me.id); });
}
}
extern "C" {
typedef unsigned long long ull;
int omp_get_num_threads() { return team()->n; }
int omp_get_thread_num() { return self().id; }
int omp_get_max_threads() { return gomp_ctl.threads > 0 ? gomp_ctl.threads : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team()->n > 1; }
void omp_set_num_threads(int) {}
int omp_get_dynamic() { return 1; } void omp_set_dynamic(int) {} int omp_get_nested() { return 0; } void omp_set_nested(int) {}
int omp_get_level() { return self().up ? 1 : 0; } int omp_get_active_level() { return team()->n > 1; } int omp_get_thread_limit() { return 64; } void omp_set_schedule(int, int) {}
double omp_get_wtime() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; } double omp_get_wtick() { return 1e-9; }
struct stub_lock { std::recursive_mutex *m; };
void omp_init_lock(stub_lock *l) { l->m = new std::recursive_mutex; } void omp_destroy_lock(stub_lock *l) { delete l->m; } void omp_set_lock(stub_lock *l) { l->m->lock(); } void omp_unset_lock(stub_lock *l) { l->m->unlock(); } int omp_test_lock(stub_lock *l) { return l->m->try_lock(); }
void omp_init_nest_lock(stub_lock *l) { l->m = new std::recursive_mutex; } void omp_destroy_nest_lock(stub_lock *l) { delete l->m; } void omp_set_nest_lock(stub_lock *l) { l->m->lock(); } void omp_unset_nest_lock(stub_lock *l) { l->m->unlock(); }

void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned) { run_team(fn, data, num, {}); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned num, unsigned) { run_team(fn, data, num, {}); return 1; }
#define PLOOP(name, kind) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { run_team(fn, d, n, {pre(kind, s, e, i, c)}); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { run_team(fn, d, n, {pre(1, s, e, i, 1)}); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define NEXT(name) bool GOMP_loop_##name##_next(long *a, long *b) { Self &me = self(); if (me.loop_no < 0) me.loop_no = 0; long long x, y; if (!loop_next(&x, &y)) return false; *a = x; *b = y; return true; } \
    bool GOMP_loop_ull_##name##_next(ull *a, ull *b) { Self &me = self(); if (me.loop_no < 0) me.loop_no = 0; long long x, y; if (!loop_next(&x, &y)) return false; *a = x; *b = y; return true; }
#define START(name, kind) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { long long x, y; if (!loop_start(kind, i > 0, s, e, i, c, &x, &y)) return false; *a = x; *b = y; return true; } \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) { long long x, y; if (!loop_start(kind, up, s, e, i, c, &x, &y)) return false; *a = x; *b = y; return true; }
#define STARTR(name) bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { long long x, y; if (!loop_start(1, i > 0, s, e, i, 1, &x, &y)) return false; *a = x; *b = y; return true; } \
    bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull i, ull *a, ull *b) { long long x, y; if (!loop_start(1, up, s, e, i, 1, &x, &y)) return false; *a = x; *b = y; return true; }
START(static, 0) NEXT(static) START(dynamic, 1) NEXT(dynamic) START(guided, 2) NEXT(guided) START(nonmonotonic_dynamic, 1) NEXT(nonmonotonic_dynamic) START(nonmonotonic_guided, 2) NEXT(nonmonotonic_guided)
STARTR(runtime) NEXT(runtime) STARTR(nonmonotonic_runtime) NEXT(nonmonotonic_runtime) STARTR(maybe_nonmonotonic_runtime) NEXT(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() {} void GOMP_loop_end() { barrier(); } bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_barrier() { barrier(); } bool GOMP_barrier_cancel() { barrier(); return false; } bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { atomic_m().lock(); } void GOMP_critical_end() { atomic_m().unlock(); }
void GOMP_critical_name_start(void **p) { { std::lock_guard<std::mutex> g(*named()); if (!*p) *p = new std::mutex; } ((std::mutex *)*p)->lock(); } void GOMP_critical_name_end(void **p) { ((std::mutex *)*p)->unlock(); }
void GOMP_atomic_start() { atomic_m().lock(); } void GOMP_atomic_end() { atomic_m().unlock(); }
bool GOMP_single_start() { Team *t = team(); Self &me = self(); int no = ++me.single_no; Locked l(t); while ((int)t->singles.size() <= no) t->singles.push_back(0); return t->singles[no]++ == 0; }
void *GOMP_single_copy_start() { if (GOMP_single_start()) return 0; barrier(); void *p = team()->copypriv; barrier(); return p; } void GOMP_single_copy_end(void *p) { team()->copypriv = p; barrier(); barrier(); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int, void *) {
    if (!cpy) { char *raw = (char *)malloc(size + align + 1), *p = (char *)(((uintptr_t)raw + align - 1) / align * align); __builtin_memcpy(p, data, size); fn(p); free(raw); } else { char *raw = (char *)malloc(size + align + 1), *p = (char *)(((uintptr_t)raw + align - 1) / align * align); cpy(p, data); fn(p); free(raw); } }
void GOMP_taskwait() {} void GOMP_taskyield() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned c, unsigned) { run_team(fn, d, n, {pre(1, 1, c + 1, 1, 1)}); }
unsigned GOMP_sections_start(unsigned c) { long long a, b; return loop_start(1, true, 1, c + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next() { Self &me = self(); if (me.loop_no < 0) me.loop_no = 0; long long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { barrier(); } void GOMP_sections_end_nowait() {} bool GOMP_sections_end_cancel() { barrier(); return false; }
}
