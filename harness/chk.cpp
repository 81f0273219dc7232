// Drives the real final phase on chosen tables.
// chk OUT SCRATCH EPP CI C2 < lines:  k threads lb n shape begin rchunk nruns mem nfree seed
#include <cstdint>
#include <cstddef>
#include <array>
#include <iostream>
#include <chia/chia.h>
#include <chia/phase1.h>
#include <chia/phase3.h>
#include <chia/phase4.hpp>
#include <chia/DiskSort.hpp>
#include "runner.h"
#include "before.h"
#include <algorithm>
#include <sstream>
#include <cmath>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
static std::string g_dir;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
struct job { int k, th, lb; uint64_t begin; std::vector<phase3::entry_np> in; };
static uint64_t be8(const std::vector<uint8_t>& b, size_t o) { uint64_t v = 0; for(int i = 0; i < 8; ++i) v = v << 8 | b[o + i]; return v; }
static void body(const job& j)
{
	using namespace phase3;
	const std::string d = g_dir + "/", fn = d + "plot.tmp"; const int header = 60;
	{	std::string s = "[\"in\",["; bool f = true;
		for(auto& e : j.in) { s += (f ? "[" : ",[") + std::to_string(uint64_t(e.key) >> 16) + "," + std::to_string(e.key & 0xffff) + "," + std::to_string(uint64_t(e.pos) >> 16) + "," + std::to_string(e.pos & 0xffff) + "]"; f = false; }
		ev_long(s + "]]"); }
	make_before(fn, j.begin);
	DiskSortNP L(j.k, j.lb, d + "l", false);
	{ auto c = L.add_cache(); for(auto& e : j.in) c->add(e); c->flush(); } L.finish();
	FILE* f = fopen(fn.c_str(), "rb+");
	const uint64_t end = phase4::compute(f, j.k, header, &L, j.th, j.begin, j.in.size());
	fclose(f);
	const bool ok = same_before(fn, j.begin, header - 24, header);
	std::vector<uint8_t> b, h(64); { FILE* f = fopen(fn.c_str(), "rb"); if(fread(h.data(), 1, header, f) != size_t(header)) ev("[\"short\"]"); fseek(f, j.begin, SEEK_SET); int c; while((c = fgetc(f)) >= 0) b.push_back(c); fclose(f); }
	{	std::string s = "[\"plot\",["; for(uint64_t i = 0; i < b.size(); ++i) s += (i ? "," : "") + std::to_string(b[i]);
		ev_long(s + "]," + (ok ? "1" : "0") + "]"); }
	ev("[\"ret\",%d,%d,%d,%d]", dif(end, j.begin), dif(be8(h, header - 24), j.begin), dif(be8(h, header - 16), j.begin), dif(be8(h, header - 8), j.begin));
	L.close();
	DIR* dd = opendir(g_dir.c_str()); std::vector<std::string> rm;
	while(auto* e = readdir(dd)) if(e->d_name[0] != '.') rm.push_back(e->d_name);
	closedir(dd);
	for(auto& n : rm) unlink((d + n).c_str());
}
int main(int argc, char** argv)
{
	FILE* fo = fopen(argv[1], "w");
	g_dir = argv[2]; mkdir(g_dir.c_str(), 0700);
	std::cout.setstate(std::ios::failbit);
	std::string line; long runs = 0, distinct = 0, abn = 0;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); int n, shape, mem; uint64_t seed; auto* j = new job(); scenario_t sc;
		is >> j->k >> j->th >> j->lb >> n >> shape >> j->begin >> g_read_chunk_size >> sc.runs >> mem >> sc.free_runs >> seed;
		g_write_chunk_size = 64;
		if(j->begin > 100000 && !can_sparse(g_dir + "/sparse", j->begin)) j->begin = 4096;
		sc.seed = seed; sc.no_mem = !mem; sc.mem_rate = 16; sc.step_limit = 4000000;
		uint64_t r = mix(seed); int far = 0; const uint64_t mask = (uint64_t(1) << j->k) - 1;
		uint64_t y = shape == 4 ? mask - std::min<uint64_t>(mask, 2 * n) : mix(r + 5) % (mask / 2 + 1);
		if(shape == 5) y = 0;
		for(int i = 0; i < n; ++i) {
			r = mix(r + i); const double u = ((r >> 11) + 0.5) / 9007199254740992.0;
			uint64_t dl = std::min(40., -log(u) * 0.95);
			if(shape == 1) dl = 0;
			if(shape == 4) dl = r & 1;
			if(i == n / 2) { if(shape == 2) dl = 115; if(shape == 3) { dl = 116; } if(shape == 6) dl = 256; if(shape == 7) dl = 300 + r % 1000; if(shape == 8) dl = 1 << 16; }
			if(shape == 9) { dl = r % 60; if(n > 5000) far = 1; }
			if(i) y += dl;
			if(i && i == n / 2 && dl > 115) far = 1;
			phase3::entry_np e; e.key = y & mask; e.pos = i; j->in.push_back(e);
		}
		for(int i = n - 1; i > 0; --i) { r = mix(r + 1); std::swap(j->in[i], j->in[r % (i + 1)]); }
		for(auto& e : j->in) e.pos = shape == 4 ? (mask * 2 + 1) - e.pos : e.pos;
		sc.body = [=] { body(*j); };
		sc.head = "\"sc\":\"" + line + "\",\"far\":" + std::to_string(far) + ",\"k\":" + std::to_string(j->k) + ",\"epp\":" + argv[3] + ",\"ci\":" + argv[4] + ",\"c2\":" + argv[5];
		auto st = run_scenario(sc, fo);
		runs += st.runs; distinct += st.distinct; abn += st.abnormal;
	}
	fclose(fo);
	printf("{\"runs\":%ld,\"distinct\":%ld,\"abnormal\":%ld}\n", runs, distinct, abn);
	return 0;
}
