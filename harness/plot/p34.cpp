#include "phases.h"
#include <chia/phase3.hpp>
#include <chia/DiskSort.hpp>
void run_phase3(phase2::output_t& in, phase3::output_t& out, int nt, int lb, const std::string& n, const std::string& d1, const std::string& d2, const std::string& d3)
{ phase3::compute(in, out, nt, lb, n, d1, d2, d3); }
uint32_t write_header(FILE* f, int k, const uint8_t* id, const uint8_t* memo, uint32_t len) { return phase3::WriteHeader(f, k, id, memo, len); }
#include <chia/phase4.hpp>
void run_phase4(phase3::output_t& in, phase4::output_t& out, int nt, int lb, const std::string& n, const std::string& d1, const std::string& d2, const std::string& d3)
{ phase4::compute(in, out, nt, lb, n, d1, d2, d3); }
