// Controlled scheduler: serialises all threads of the harness process and
// decides every thread switch (see vsched.cpp). Implementation-agnostic: it
// interposes the pthread calls that std::thread/mutex/condition_variable make.
#pragma once
#include <cstdint>
#include <cstddef>

enum vs_mode { VS_OFF = 0, VS_RANDOM = 1, VS_PCT = 2, VS_DFS = 3 };

struct vs_config {
	int mode = VS_RANDOM;
	uint64_t seed = 1;
	int sticky = 0;        // 0..100: chance in % to stay on the running thread (RANDOM)
	int pct_depth = 3;     // PCT: number of priority change points
	int pct_steps = 200;   // PCT: estimated run length
	int spurious = 0;      // max. number of spurious wake-ups injected in the run
	int mem = 0;           // 1: accesses to shared memory are scheduling points too
	int mem_rate = 8;      // 1/mem_rate chance of considering a switch there
	uint64_t step_limit = 400000;
	// DFS: forced choices (index into the enabled list, 0 = default)
	const uint8_t* prefix = nullptr;
	int prefix_len = 0;
};

struct vs_choice { uint8_t n; uint8_t taken; uint8_t cur_enabled; };

void vs_begin(const vs_config& cfg);      // calling thread becomes thread 0
void vs_end();                            // back to normal threading
int  vs_live();                           // threads created under control and not finished (excl. caller)
int  vs_self();                           // id of calling thread (0 = main)
bool vs_active();
void vs_point();                          // explicit scheduling point
uint64_t vs_steps();
size_t vs_trace(const vs_choice** out);   // DFS choices of the last run
void vs_on_stall(void (*fn)(const char* why));  // called on deadlock/livelock, must not return
