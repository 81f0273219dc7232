// Runs a scenario many times under different schedules in forked children and
// writes each distinct event log as one JSON line.
#include "runner.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <unordered_set>
#include <vector>

struct shm_t {
	volatile int run;
	volatile int len;
	volatile int cnt;
	volatile long steps;
	volatile long max_steps;
	int plen;
	int finished;
	volatile int bodied;
	uint8_t prefix[1 << 16];
	char buf[1 << 26];
};
static shm_t* SH = nullptr;
static std::atomic_flag g_log_lock = ATOMIC_FLAG_INIT;

static void ev_raw(const char* p, size_t n) {
	while(g_log_lock.test_and_set(std::memory_order_acquire)) {}
	if(SH->len + n + 64 < sizeof(SH->buf)) {
		const int sep = SH->len ? 1 : 0;
		memcpy(SH->buf + SH->len + sep, p, n);
		if(sep) SH->buf[SH->len] = ',';
		SH->len = SH->len + n + sep;       // the event counts from here on
	}
	g_log_lock.clear(std::memory_order_release);
}
void ev(const char* fmt, ...) {
	char tmp[512];
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(tmp, sizeof(tmp), fmt, ap);
	va_end(ap);
	if(n > 0 && n < (int)sizeof(tmp)) ev_raw(tmp, n);
}
void ev_long(const std::string& s) { ev_raw(s.data(), s.size()); }

static std::vector<void*> g_objs;
static std::atomic_flag g_obj_lock = ATOMIC_FLAG_INIT;
int obj_index(void* p) {
	while(g_obj_lock.test_and_set()) {}
	size_t i = 0;
	for(; i < g_objs.size(); ++i) if(g_objs[i] == p) break;
	if(i == g_objs.size()) g_objs.push_back(p);
	g_obj_lock.clear();
	return (int)i;
}

static void on_stall(const char* why) {
	ev("[\"stall\",\"%s\"]", why);
	_exit(98);
}

static vs_config make_cfg(const scenario_t& sc, int r) {
	vs_config c;
	uint64_t x = sc.seed * 1000003ull + r * 7919ull + 1;
	c.seed = x;
	x ^= x >> 12; x ^= x << 25; x ^= x >> 27; x *= 0x2545F4914F6CDD1Dull; x >>= 20;
	c.step_limit = sc.step_limit;
	c.spurious = (int)(x % 4); x >>= 2;
	c.mem = sc.no_mem ? 0 : (int)(x % 2); x >>= 1;
	c.mem_rate = 1 + (int)(x % sc.mem_rate); x >>= 4;
	switch(r % 4) {
	case 0: c.mode = VS_RANDOM; c.sticky = 0; break;
	case 1: c.mode = VS_RANDOM; c.sticky = 40 + (int)(x % 56); break;
	default: c.mode = VS_PCT; c.pct_depth = 1 + (int)(x % 5); c.pct_steps = SH->max_steps > 20 ? (int)SH->max_steps : 100; break;
	}
	return c;
}

static int g_stalls = 0;            // runs that did not end, over all scenarios
static bool g_skip_free = false;    // after a wall-clock stall: no more uncontrolled runs


// a child that overwrote its own memory may leave anything
static bool well_formed(const std::string& s) {
	int depth = 0; bool str = false;
	for(char c : s) {
		if(c < 32 || c > 126) return false;
		if(c == '"') str = !str;
		else if(!str && c == '[') depth++;
		else if(!str && c == ']') { if(--depth < 0) return false; }
	}
	return !depth && !str && (s.empty() || (s.front() == '[' && s.back() == ']'));
}

run_stats run_scenario(const scenario_t& sc, FILE* out) {
	if(!SH) {
		SH = (shm_t*)mmap(nullptr, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	}
	run_stats S;
	if(g_stalls >= 6) return S;         // enough evidence; do not spend the time of all other scenarios too
	std::unordered_set<std::string> seen;
	int start = 0;
	SH->plen = 0; SH->finished = 0; SH->max_steps = 0;
	const int total = sc.runs + (g_skip_free ? 0 : sc.free_runs);
	while(start < total && !SH->finished) {
		int pfd[2];
		if(pipe(pfd)) abort();
		fflush(out);
		pid_t pid = fork();
		if(pid == 0) {
			close(pfd[0]);
			FILE* po = fdopen(pfd[1], "w");
			std::unordered_set<std::string> mine;
			vs_on_stall(on_stall);
			std::set_terminate([] { ev("[\"died\",\"terminate\"]"); _exit(97); });
			for(int r = start; r < total; ++r) {
				SH->run = r; SH->len = 0; SH->cnt = 0; SH->bodied = 0; g_objs.clear();
				const bool ctl = r < sc.runs;
				alarm(ctl ? sc.alarm_s : 15);
				if(ctl) {
					vs_config c;
					if(sc.dfs) {
						c.mode = VS_DFS; c.prefix = SH->prefix; c.prefix_len = SH->plen; c.seed = sc.seed;
						c.step_limit = sc.step_limit;
					} else c = make_cfg(sc, r);
					vs_begin(c);
				}
				sc.body();
				int live = 0;
				if(ctl) {
					live = vs_live();
					if((long)vs_steps() > SH->max_steps) SH->max_steps = vs_steps();
				}
				if(ctl) vs_end();
				ev("[\"fin\",%d]", live);
				std::string line(SH->buf, SH->len);
				if(mine.insert(line).second) { fprintf(po, "%s\n", line.c_str()); fflush(po); }
				if(live) _exit(95);
				if(ctl && sc.dfs) {
					const vs_choice* tr; size_t n = vs_trace(&tr);
					const int bound = sc.dfs - 1;
					std::vector<int> pre(n + 1, 0);
					for(size_t i = 0; i < n; ++i) pre[i+1] = pre[i] + (tr[i].cur_enabled && tr[i].taken ? 1 : 0);
					bool found = false;
					for(size_t i = n; i-- > 0;) {
						if(tr[i].taken + 1 < tr[i].n && pre[i] + (tr[i].cur_enabled ? 1 : 0) <= bound && i < sizeof(SH->prefix)) {
							for(size_t j = 0; j < i; ++j) SH->prefix[j] = tr[j].taken;
							SH->prefix[i] = tr[i].taken + 1; SH->plen = (int)i + 1; found = true; break;
						}
					}
					if(!found) { SH->finished = 1; SH->run = r; SH->bodied = 1; _exit(0); }
				}
				SH->bodied = 1;
			}
			_exit(0);
		}
		close(pfd[1]);
		FILE* pi = fdopen(pfd[0], "r");
		char* line = nullptr; size_t cap = 0; ssize_t n;
		auto emit = [&](std::string s) {
			if(!well_formed(s)) s = "[\"died\",\"log destroyed\"]";
			if(seen.insert(s).second) { fprintf(out, "{%s,\"ev\":[%s]}\n", sc.head.c_str(), s.c_str()); S.distinct++; }
		};
		while((n = getline(&line, &cap, pi)) > 0) { if(line[n-1] == '\n') line[--n] = 0; emit(std::string(line, n)); }
		free(line);
		fclose(pi);
		int st = 0;
		waitpid(pid, &st, 0);
		const int last = SH->run;
		S.runs += last - start + 1;
		start = last + 1;
		if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		if(WIFEXITED(st) && WEXITSTATUS(st) == 95) { if(sc.dfs) break; continue; }
		if(WIFEXITED(st) && WEXITSTATUS(st) == 99) { fprintf(stderr, "harness limit\n"); exit(3); }
		// abnormal end: complete the log
		S.abnormal++;
		std::string s(SH->buf, SH->len);
		if(WIFSIGNALED(st)) {
			if(!s.empty()) s += ',';
			if(WTERMSIG(st) == SIGALRM) { s += "[\"stall\",\"timeout\"]"; g_skip_free = true; }
			else s += "[\"died\",\"signal " + std::to_string(WTERMSIG(st)) + "\"]";
		} else if(WEXITSTATUS(st) != 98 && WEXITSTATUS(st) != 97) {
			if(!s.empty()) s += ',';
			s += "[\"died\",\"exit " + std::to_string(WEXITSTATUS(st)) + "\"]";
		}
		emit(s);
		if((WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) || (WIFEXITED(st) && WEXITSTATUS(st) == 98)) { if(++g_stalls >= 6) break; }
		if(sc.dfs) break;              // DFS position is lost
		if(S.abnormal >= sc.max_abnormal || (g_skip_free && start >= sc.runs)) break;
	}
	return S;
}
