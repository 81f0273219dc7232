// Runs a scenario many times under different schedules in forked children and
// writes each distinct event log as one JSON line. (runner.cpp is compiled
// without instrumentation, so that logging is never a scheduling point.)
#pragma once
#include "vsched.h"
#include <cstdio>
#include <functional>
#include <string>

void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // log one event (JSON text)
void ev_long(const std::string& s);   // the same for events of any length
int obj_index(void* p);       // small number for an address, per run, by first use
struct run_stats { long runs = 0, distinct = 0, abnormal = 0; };

struct scenario_t {
	std::string head;                 // JSON members put before "ev"
	std::function<void()> body;       // runs the script, logs everything but the abnormal end
	int runs = 100;
	uint64_t seed = 1;
	int dfs = 0;                      // >0: DFS with this preemption bound + 0 based: bound = dfs-1
	int free_runs = 0;                // additional runs without control
	int max_mode = 0;                 // reserved
	int alarm_s = 60;
	bool no_mem = false;
	uint64_t step_limit = 400000;
	int max_abnormal = 64;
	int mem_rate = 8;
};


run_stats run_scenario(const scenario_t& sc, FILE* out);
