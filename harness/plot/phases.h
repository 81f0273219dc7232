#pragma once
#include <cstdint>
#include <cstddef>
#include <array>
#include <iostream>
#include <chia/chia.h>
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <chia/phase4.h>
void run_phase1(const phase1::input_t&, phase1::output_t&, int nt, int lb, const std::string&, const std::string&, const std::string&);
void run_phase2(phase1::output_t&, phase2::output_t&, int nt, int lb, const std::string&, const std::string&, const std::string&);
void run_phase3(phase2::output_t&, phase3::output_t&, int nt, int lb, const std::string&, const std::string&, const std::string&, const std::string&);
void run_phase4(phase3::output_t&, phase4::output_t&, int nt, int lb, const std::string&, const std::string&, const std::string&, const std::string&);
uint32_t write_header(FILE*, int k, const uint8_t* id, const uint8_t* memo, uint32_t len);
