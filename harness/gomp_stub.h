#ifndef GOMP_STUB_H
#define GOMP_STUB_H
#include <cstdint>
#include <mutex>
#include <unordered_set>
struct GompCtl { // set by the monitor between parallel regions only
    int threads = 1; bool ordered = false, record = false; int delay_us = 0; uint64_t seed = 1;
    uint64_t regions = 0, worksharing = 0, max_team = 0; std::mutex rec_m; std::unordered_set<uint64_t> orders;
    void note(uint64_t h) { orders.insert(h); }
};
extern GompCtl gomp_ctl;
#endif
