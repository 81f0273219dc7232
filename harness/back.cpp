// Drives the real back propagation on chosen tables.
// back OUT SCRATCH < lines:  k threads multi lb rchunk wchunk shape nruns nfree seed n1 n2 n3 n4 n5 n6 n7
#include <cstdint>
#include <cstddef>
#include <array>
#include <iostream>
#include <chia/chia.h>
#include <chia/phase1.h>
#include <chia/phase2.hpp>
#include <chia/DiskSort.hpp>
#include "runner.h"
#include <algorithm>
#include <sstream>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
static std::string g_dir;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
struct ent { uint64_t y, pos, off; };
template<class E> static table_t put(const std::string& f, const std::vector<E>& v) { FILE* o = fopen(f.c_str(), "wb"); for(auto& e : v) write_entry(o, e); fclose(o); table_t t; t.file_name = f; t.num_entries = v.size(); return t; }

static void body(int k, int th, int lb, const std::vector<ent>* T, const std::vector<uint64_t>& xs)
{
	phase1::output_t in; in.params.k = k;
	const std::string d = g_dir + "/";
	{ std::vector<phase1::tmp_entry_1> v; for(auto x : xs) { phase1::tmp_entry_1 e; e.x = x; v.push_back(e); } in.table[0] = put(d + "in1.tmp", v); }
	for(int t = 2; t <= 6; ++t) { std::vector<phase1::tmp_entry_x> v; for(auto& a : T[t]) { phase1::tmp_entry_x e; e.pos = a.pos; e.off = a.off; v.push_back(e); } in.table[t - 1] = put(d + "in" + std::to_string(t) + ".tmp", v); }
	{ std::vector<phase1::entry_7> v; for(auto& a : T[7]) { phase1::entry_7 e; e.y = a.y; e.pos = a.pos; e.off = a.off; v.push_back(e); } in.table[6] = put(d + "in7.tmp", v); }
	for(int t = 2; t <= 7; ++t) {
		std::string s = "[\"in\"," + std::to_string(t) + ",[";
		for(size_t i = 0; i < T[t].size(); ++i) s += (i ? ",[" : "[") + std::to_string(T[t][i].pos) + "," + std::to_string(T[t][i].off) + (t == 7 ? "," + std::to_string(T[t][i].y) : std::string()) + "]";
		ev_long(s + "]]");
	}
	phase2::output_t* out = new phase2::output_t();
	phase2::compute(in, *out, th, lb, "b", d, d);
	{ // table 1 is passed on with a mark per entry
		std::string s = "[\"marks\",["; const auto n = xs.size();
		for(size_t i = 0; i < n; ++i) s += (i ? "," : "") + std::string(out->bitfield_1->get(i) ? "1" : "0");
		FILE* f = fopen(out->table_1.file_name.c_str(), "rb"); bool same = f && out->table_1.num_entries == n;
		for(size_t i = 0; same && i < n; ++i) { phase1::tmp_entry_1 e; if(!read_entry(f, e) || e.x != xs[i]) same = false; }
		if(f) fclose(f);
		ev_long(s + "]," + (same ? "1" : "0") + "]");
	}
	for(int i = 1; i <= 5; ++i) {
		struct col : Processor<std::pair<std::vector<phase2::entry_x>, size_t>> { std::vector<phase2::entry_x> v; void take(std::pair<std::vector<phase2::entry_x>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } } c;
		out->sort[i]->read(&c, 1, 1);
		std::string s = "[\"out\"," + std::to_string(i + 1) + ",[";
		for(size_t j = 0; j < c.v.size(); ++j) s += (j ? ",[" : "[") + std::to_string(c.v[j].key) + "," + std::to_string(c.v[j].pos) + "," + std::to_string(c.v[j].off) + "]";
		ev_long(s + "]]");
	}
	{
		struct col : Processor<std::pair<std::vector<phase1::entry_7>, size_t>> { std::vector<phase1::entry_7> v; void take(std::pair<std::vector<phase1::entry_7>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } } c;
		if(out->table_7.num_entries) { DiskTable<phase1::entry_7> t(out->table_7); t.read(&c, 1); }
		std::string s = "[\"out\",7,[";
		for(size_t j = 0; j < c.v.size(); ++j) s += (j ? ",[" : "[") + std::to_string(c.v[j].pos) + "," + std::to_string(c.v[j].off) + "," + std::to_string(c.v[j].y) + "]";
		ev_long(s + "]]");
	}
	delete out;
	DIR* dd = opendir(g_dir.c_str()); std::vector<std::string> rm;
	while(auto* e = readdir(dd)) if(e->d_name[0] != '.') rm.push_back(e->d_name);
	closedir(dd);
	for(auto& n : rm) unlink((d + n).c_str());
}
int main(int argc, char** argv)
{
	FILE* fo = fopen(argv[1], "w");
	g_dir = argv[2]; mkdir(g_dir.c_str(), 0700);
	std::cout.setstate(std::ios::failbit);
	std::string line; long runs = 0, distinct = 0, abn = 0;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); int k, th, lb, shape; uint64_t seed; int n[8]; scenario_t sc;
		is >> k >> th >> phase2::g_thread_multi >> lb >> g_read_chunk_size >> g_write_chunk_size >> shape >> sc.runs >> sc.free_runs >> seed;
		for(int i = 1; i <= 7; ++i) is >> n[i];
		sc.seed = seed; sc.mem_rate = 12; sc.step_limit = 4000000;
		auto* T = new std::vector<ent>[8]; std::vector<uint64_t> xs; uint64_t r = mix(seed);
		for(int i = 0; i < n[1]; ++i) { r = mix(r + 1); xs.push_back(r & ((1ull << k) - 1)); }
		for(int t = 2; t <= 7; ++t) for(int i = 0; i < n[t] && n[t - 1]; ++i) {
			r = mix(r + t); const uint64_t m = n[t - 1]; ent e;
			const uint64_t span = shape == 1 ? 5 : shape == 2 ? 1000 : 300;
			e.pos = shape == 3 ? mix(r + 1) % std::max<uint64_t>(1, m / 4) : shape == 4 ? (m > 2 ? (i % 2 ? m - 2 : 0) : 0) : mix(r + 1) % m;
			e.off = std::min<uint64_t>(1023, std::min<uint64_t>(m - 1 - e.pos, 1 + mix(r + 2) % span));
			if(shape == 5) e.off = std::min<uint64_t>(1023, m - 1 - e.pos);
			e.y = mix(r + 3) & 0x7fffffff & ((1ull << k) - 1);
			T[t].push_back(e);
		}
		sc.body = [=] { body(k, th, lb, T, xs); };
		sc.head = "\"sc\":\"" + line + "\"";
		auto st = run_scenario(sc, fo);
		runs += st.runs; distinct += st.distinct; abn += st.abnormal;
	}
	fclose(fo);
	printf("{\"runs\":%ld,\"distinct\":%ld,\"abnormal\":%ld}\n", runs, distinct, abn);
	return 0;
}
