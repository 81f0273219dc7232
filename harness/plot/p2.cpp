#include "phases.h"
#include <chia/phase2.hpp>
#include <chia/DiskSort.hpp>
void run_phase2(phase1::output_t& in, phase2::output_t& out, int nt, int lb, const std::string& n, const std::string& d1, const std::string& d2)
{ phase2::compute(in, out, nt, lb, n, d1, d2); }
