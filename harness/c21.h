#ifndef C21_H
#define C21_H
#include <cstdint>
#include <string>
#include <vector>
struct C21Out { std::string name, op; int nd; int L[3]; int nc, np; bool interior; std::vector<double> v; }; // one output variable after the run
struct C21Plan { uint64_t seed; int kind; bool large; };
void c21_run_omp(const C21Plan &p, std::vector<C21Out> &out, std::string &desc);
void c21_run_serial(const C21Plan &p, std::vector<C21Out> &out, std::string &desc);
#endif
