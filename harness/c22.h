#ifndef C22_H
#define C22_H
#include <cstdint>
#include <string>
#include <utility>
#include <vector>
// what a program observed: labelled values and texts
struct C22Log { std::vector<std::pair<std::string, std::vector<double>>> values; std::vector<std::pair<std::string, std::string>> texts; std::string kind;
    void add(const std::string &l, const double *p, size_t n) { values.push_back({l, std::vector<double>(p, p + n)}); }
    void add(const std::string &l, double v) { add(l, &v, 1); } };
void c22_run_a(uint64_t seed, int kind, const std::string &scratch, C22Log &log);
void c22_run_b(uint64_t seed, int kind, const std::string &scratch, C22Log &log);
#endif
