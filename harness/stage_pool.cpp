// Drives the real Thread / ThreadPool classes through their public interface.
// usage: stage_pool OUT < scenario lines
//  stage NP NI waits failmask runs dfs free seed
//  pool  N  NI out(0 none,1 processor,2 stage) failmask dfailmask waits runs dfs free seed
//  chain shape NI failat runs dfs free seed
#include <cstdint>
#include <cstddef>
#include <string>
#include <chia/Thread.h>
#include <chia/ThreadPool.h>
#include "runner.h"
#include <unistd.h>
#include <thread>
#include <vector>
#include <memory>
#include <stdexcept>

static int Chk(int i) { return (int)((i * 7919ll + 13) % 65521); }
static int Res(int i) { return (int)((i * 104729ll + 17) % 65521); }

struct item_t {
	int id = 0;
	std::vector<int> data;
	int chk() const {           // payload -> checksum, Chk(id) when untouched
		if(data.size() != size_t(3 + id % 4)) return -1;
		for(size_t k = 0; k < data.size(); ++k) if(data[k] != Chk(id) + int(k)) return -2;
		return data[0];
	}
};
static item_t make_item(int i) {
	item_t x; x.id = i;
	x.data.resize(3 + i % 4);
	for(size_t k = 0; k < x.data.size(); ++k) x.data[k] = Chk(i) + int(k);
	return x;
}
struct res_t { int id = 0; std::vector<int> data; int chk() const { return data.size() == 2 && data[1] == data[0] + 1 ? data[0] : -1; } };

static bool g_odd = false;        // fail with something that is not a std::exception
[[noreturn]] static void fail(const char* what) { if(g_odd) throw 7; throw std::runtime_error(what); }
static void pause_some(int n) { for(int i = 0; i < n; ++i) { if(vs_active()) vs_point(); else std::this_thread::yield(); } }

// ------------------------------------------------------------------ stage
static void stage_body(int NP, int NI, int waits, uint64_t failmask)
{
	auto* stage = new Thread<item_t>([=](item_t& x) {
		const int id = x.id;
		ev("[\"begin\",%d,%d]", id, x.chk());
		pause_some(1 + id % 2);
		if(failmask >> id & 1) { ev("[\"throw\",%d]", id); fail("fail"); }
		ev("[\"end\",%d,%d]", id, x.id == id ? x.chk() : -3);
	}, NI % 2 ? "stage" : "");
	auto wait_fn = [&](int p) {
		ev("[\"call\",\"wait\",%d,0]", p);
		try { stage->wait(); ev("[\"ret\",\"wait\",%d,0,1]", p); }
		catch(const std::exception&) { ev("[\"ret\",\"wait\",%d,0,0]", p); }
	};
	auto prod = [&](int p) {
		for(int k = 1; k <= NI; ++k) {
			const int i = (p - 1) * NI + k;
			auto x = make_item(i);
			ev("[\"call\",\"take\",%d,%d]", p, i);
			try {
				if(i % 3 == 0) stage->take_copy(x); else stage->take(x);
				ev("[\"ret\",\"take\",%d,%d,1]", p, i);
			}
			catch(const std::exception&) { ev("[\"ret\",\"take\",%d,%d,0]", p, i); }
			if(waits == 1 || (waits == 2 && k % 2 == 0)) wait_fn(p);
		}
	};
	if(NP == 1) prod(1);
	else {
		std::vector<std::thread> th;
		for(int p = 1; p <= NP; ++p) th.emplace_back(prod, p);
		if(waits == 3) wait_fn(0);
		for(auto& t : th) t.join();
	}
	ev("[\"call\",\"close\",0,0]");
	bool ok = true;
	try {
		if(NI % 2) stage->close();
		else if(failmask) stage->close();
		else { delete stage; stage = nullptr; }
	}
	catch(const std::exception&) { ok = false; }
	ev("[\"ret\",\"close\",0,0,%d]", ok ? 1 : 0);
	if(ok && stage && !failmask) { delete stage; }      // second close must be harmless
	if(!ok) {        // the failed worker must terminate by itself
		for(int i = 0; i < 200 && vs_active() && vs_live(); ++i) sched_yield();
	}
}

// ------------------------------------------------------------------- pool
struct local_t { int used = 0; int dummy[3] = {}; };

struct sink_t : Processor<res_t> {
	uint64_t dfail = 0;
	int next = 1;
	void take(res_t& r) override {
		const int id = r.id;
		ev("[\"dbegin\",%d,%d]", id, r.chk());
		pause_some(id % 2);
		if(dfail >> id & 1) { ev("[\"dthrow\",%d]", id); fail("dfail"); }
		ev("[\"dend\",%d]", id);
	}
};

static void pool_body(int N, int NI, int outk, uint64_t failmask, uint64_t dfailmask, int waits)
{
	sink_t sink; sink.dfail = dfailmask;
	Thread<res_t>* st = nullptr;
	Processor<res_t>* output = nullptr;
	if(outk == 1) output = &sink;
	if(outk == 2) {
		// stage consumer: delivery = processing by the stage, which is in order and alone by its own contract
		st = new Thread<res_t>([&](res_t& r) { sink.take(r); }, "sink");
		output = st;
	}
	auto* pool = new ThreadPool<item_t, res_t, local_t>([=](item_t& x, res_t& r, local_t& l) {
		const int id = x.id;
		const int li = obj_index(&l);
		ev("[\"begin\",%d,%d,%d]", id, li, x.chk());
		l.used++;
		pause_some((id * 5) % 4);
		if(l.used != 1) { ev("[\"begin\",%d,%d,%d]", id, li, -9); }
		l.used--;
		if(failmask >> id & 1) { ev("[\"throw\",%d]", id); fail("fail"); }
		r.id = id; r.data = { Res(id), Res(id) + 1 };
		ev("[\"end\",%d,%d]", id, li);
	}, output, N, NI % 2 ? "pool" : "");
	bool alive = true;
	for(int i = 1; i <= NI && alive; ++i) {
		auto x = make_item(i);
		ev("[\"call\",\"take\",0,%d]", i);
		try { if(i % 3 == 0) pool->take_copy(x); else pool->take(x); ev("[\"ret\",\"take\",0,%d,1]", i); }
		catch(const std::exception&) { ev("[\"ret\",\"take\",0,%d,0]", i); alive = false; }
		if(alive && waits && i % waits == 0 && outk != 2) {
			ev("[\"call\",\"wait\",0,0]");
			try { pool->wait(); ev("[\"ret\",\"wait\",0,0,1]"); }
			catch(const std::exception&) { ev("[\"ret\",\"wait\",0,0,0]"); alive = false; }
		}
	}
	ev("[\"call\",\"close\",0,0]");
	bool ok = true;
	try {
		pool->close();
		if(st) st->close();
	}
	catch(const std::exception&) { ok = false; }
	ev("[\"ret\",\"close\",0,0,%d]", ok ? 1 : 0);
	if(ok) { delete pool; delete st; }
	if(!ok) {
		_exit(96);     // leave the broken pool alone: the process ends here
	}
}

// ------------------------------------------------------------------ chains
// shape: string of digits, one per element from source to sink: 0 = stage, n>0 = pool with n workers.
// A stage feeds the next element; the logged events are those of the last element's deliveries
// plus the submissions at the head, so that the chain as a whole obeys the pool contract
// (in order, exactly once, close complete) with a capacity that is not checked.
static void chain_body(const std::string& shape, int NI, int failat, int where)
{
	struct last_t : Processor<item_t> {
		void take(item_t& x) override {
			const int id = x.id;
			ev("[\"dbegin\",%d,%d]", id, x.chk() == Chk(id) ? Res(id) : -1);
			pause_some(id % 3);
			ev("[\"dend\",%d]", id);
		}
	} last;
	struct el_t { std::shared_ptr<Thread<item_t>> st; std::shared_ptr<ThreadPool<item_t, item_t>> pool; };
	std::vector<el_t> els(shape.size());
	Processor<item_t>* next = &last;
	for(size_t q = shape.size(); q-- > 0;) {
		auto work = [=](item_t& x) {
			const int id = x.id;
			if(q == 0) ev("[\"begin\",%d,%d,%d]", id, id + 1000000, x.chk());
			pause_some((id + (int)q) % 2);
			if(failat == id && where == (int)q) { ev("[\"throw\",%d]", id); fail("fail"); }
			if(q == 0) ev("[\"end\",%d,%d]", id, id + 1000000);
		};
		if(shape[q] == '0') {
			Processor<item_t>* nx = next;
			els[q].st = std::make_shared<Thread<item_t>>([work, nx](item_t& x) { work(x); item_t y = x; nx->take(y); }, "st");
			next = els[q].st.get();
		} else {
			els[q].pool = std::make_shared<ThreadPool<item_t, item_t>>([work](item_t& x, item_t& y, size_t&) { work(x); y = std::move(x); },
					next, shape[q] - '0', "pl");
			next = els[q].pool.get();
		}
	}
	bool ok = true;
	for(int i = 1; i <= NI && ok; ++i) {
		auto x = make_item(i);
		ev("[\"call\",\"take\",0,%d]", i);
		try { next->take(x); ev("[\"ret\",\"take\",0,%d,1]", i); }
		catch(const std::exception&) { ev("[\"ret\",\"take\",0,%d,0]", i); ok = false; }
	}
	ev("[\"call\",\"close\",0,0]");
	ok = true;
	for(auto& e : els) {
		try { if(e.st) e.st->close(); else e.pool->close(); }
		catch(const std::exception&) { ok = false; break; }
	}
	ev("[\"ret\",\"close\",0,0,%d]", ok ? 1 : 0);
	if(!ok) _exit(96);
	els.clear();
}

int main(int argc, char** argv)
{
	FILE* out = fopen(argv[1], "w");
	if(!out) return 3;
	char line[1024];
	long runs = 0, distinct = 0, abn = 0;
	while(fgets(line, sizeof(line), stdin)) {
		char kind[32], shape[64];
		long v[12] = {};
		scenario_t sc;
		char head[512];
		std::string s = line;
		if(s.back() == '\n') s.pop_back();
		if(sscanf(line, "stage %ld %ld %ld %ld %ld %ld %ld %ld", v, v+1, v+2, v+3, v+4, v+5, v+6, v+7) == 8) {
			snprintf(head, sizeof(head), "\"sc\":\"%s\"", s.c_str());
			sc.body = [=] { stage_body(v[0], v[1], v[2], v[3]); };
			sc.runs = v[4]; sc.dfs = v[5]; sc.free_runs = v[6]; sc.seed = v[7];
		} else if(sscanf(line, "pool %ld %ld %ld %ld %ld %ld %ld %ld %ld %ld", v, v+1, v+2, v+3, v+4, v+5, v+6, v+7, v+8, v+9) == 10) {
			// a consumer stage buffers one more item than its delivery order shows: capacity n+2
			snprintf(head, sizeof(head), "\"sc\":\"%s\",\"n\":%ld,\"out\":%d", s.c_str(), v[2] == 2 ? v[0] + 2 : v[0], v[2] ? 1 : 0);
			sc.body = [=] { pool_body(v[0], v[1], v[2], v[3], v[4], v[5]); };
			sc.runs = v[6]; sc.dfs = v[7]; sc.free_runs = v[8]; sc.seed = v[9];
		} else if(sscanf(line, "chain %63s %ld %ld %ld %ld %ld %ld %ld", shape, v, v+1, v+2, v+3, v+4, v+5, v+6) == 8) {
			snprintf(head, sizeof(head), "\"sc\":\"%s\",\"n\":1000000,\"out\":1", s.c_str());
			std::string sh = shape;
			sc.body = [=] { chain_body(sh, v[0], v[1], v[2]); };
			sc.runs = v[3]; sc.dfs = v[4]; sc.free_runs = v[5]; sc.seed = v[6];
		} else continue;
		sc.head = head;
		g_odd = sc.seed % 2;
		auto st = run_scenario(sc, out);
		runs += st.runs; distinct += st.distinct; abn += st.abnormal;
	}
	fclose(out);
	printf("{\"runs\":%ld,\"distinct\":%ld,\"abnormal\":%ld}\n", runs, distinct, abn);
	return 0;
}
