#include "phases.h"
#include <chia/phase1.hpp>
#include <chia/DiskSort.hpp>
void run_phase1(const phase1::input_t& in, phase1::output_t& out, int nt, int lb, const std::string& n, const std::string& d1, const std::string& d2)
{ phase1::compute(in, out, nt, lb, n, d1, d2); }
