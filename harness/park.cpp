// Drives the real conversion of a line-point table to parks (phase 3, stage 2).
// park OUT SCRATCH < lines:  t k threads lb n shape begin rchunk nruns nfree seed
#include <cstdint>
#include <cstddef>
#include <array>
#include <iostream>
#include <chia/chia.h>
#include <chia/phase1.h>
#include <chia/phase3.hpp>
#include <chia/DiskSort.hpp>
#include "runner.h"
#include "before.h"
#include <algorithm>
#include <sstream>
#include <cmath>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
static std::string g_dir;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
template<class V> static std::string limbs(V v) { std::string s = "["; for(int i = 0; i < 6; ++i) { s += (i ? "," : "") + std::to_string((unsigned)(v & 4095)); v >>= 12; } return s + "]"; }
struct job { int t, k, th, lb; uint64_t begin; std::vector<phase3::entry_lp> in; };

static void body(const job& j)
{
	using namespace phase3;
	const std::string d = g_dir + "/";
	{	std::vector<const entry_lp*> by(j.in.size()); for(auto& e : j.in) by[e.key] = &e;
		std::string s = "[\"in\"," + std::to_string(j.t) + "," + std::to_string(j.k) + ",0,["; bool f = true;
		for(auto* e : by) { s += (f ? "" : ",") + limbs(e->point); f = false; }
		ev_long(s + "]]"); }
	const std::string fn = d + "plot.tmp";
	make_before(fn, j.begin);
	DiskSortLP R(2 * j.k - 1, j.lb, d + "r", false); DiskSortNP L(j.k, j.lb, d + "l", false);
	{ auto c = R.add_cache(); for(auto& e : j.in) c->add(e); c->flush(); } R.finish();
	FILE* f = fopen(fn.c_str(), "rb+"); uint64_t next = 0, num = 0;
	num = compute_stage2(j.t, j.k, j.th, &R, &L, f, j.begin, &next);
	fclose(f);
	{	bool ok = same_before(fn, j.begin, -1, -1); FILE* f = fopen(fn.c_str(), "rb"); fseek(f, j.begin, SEEK_SET);
		std::string s = "[\"plot\",["; int c; bool first = true; while((c = fgetc(f)) >= 0) { s += (first ? "" : ",") + std::to_string(c); first = false; } fclose(f);
		ev_long(s + "]," + (ok ? "1" : "0") + "]"); }
	ev("[\"ret\",%d,%d]", (int)num, dif(next, j.begin));
	struct col : Processor<std::pair<std::vector<entry_np>, size_t>> { std::vector<entry_np> v; void take(std::pair<std::vector<entry_np>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } } c;
	L.read(&c, 1, 1);
	{	std::string s = "[\"np\",["; for(size_t i = 0; i < c.v.size(); ++i) s += (i ? ",[" : "[") + std::to_string(c.v[i].key) + "," + std::to_string(c.v[i].pos) + "]";
		ev_long(s + "]]"); }
	R.close(); L.close();
	DIR* dd = opendir(g_dir.c_str()); std::vector<std::string> rm;
	while(auto* e = readdir(dd)) if(e->d_name[0] != '.') rm.push_back(e->d_name);
	closedir(dd);
	for(auto& n : rm) unlink((d + n).c_str());
}
int main(int argc, char** argv)
{
	FILE* fo = fopen(argv[1], "w");
	g_dir = argv[2]; mkdir(g_dir.c_str(), 0700);
	std::cout.setstate(std::ios::failbit);
	std::string line; long runs = 0, distinct = 0, abn = 0;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); int n, shape; uint64_t seed; auto* j = new job(); scenario_t sc;
		is >> j->t >> j->k >> j->th >> j->lb >> n >> shape >> j->begin >> g_read_chunk_size >> sc.runs >> sc.free_runs >> seed;
		g_write_chunk_size = 64;
		if(j->begin > 100000 && !can_sparse(g_dir + "/sparse", j->begin)) j->begin = 4096;
		sc.seed = seed; sc.no_mem = true; sc.step_limit = 4000000;
		uint64_t r = mix(seed); int tight = 0;
		const double R = kRValues[j->t - 1]; const uintlp_t one = 1; const uint64_t unit = uint64_t(1) << (j->k - 3);
		uintlp_t p = shape == 4 ? 0 : uintlp_t(mix(r + 5)) % (((one << (2 * j->k - 2)) - 1) / 2); std::vector<uintlp_t> pts;
		for(int i = 0; i < n; ++i) {
			pts.push_back(p); r = mix(r + i); const double u = ((r >> 11) + 0.5) / 9007199254740992.0;
			uint64_t small = std::min(200., -log(u) * R * 0.9), stub = mix(r + 3) & (unit - 1);
			if(shape == 1 && (r & 3) == 0) small = stub = 0;
			if(shape == 7) small = (r >> 3) % 5 == 0;
			if(shape == 2) { small = i % 2; stub = unit - 1; }
			if(shape == 3 && i == n / 2) { small = 255; stub = unit - 1; }    // representable only uncompressed
			if(shape == 5 && i == n / 2) { small = 254; stub = unit - 1; }
			if(shape == 6 && i == n / 2) { small = 256; stub = 0; }
			if((shape == 3 || shape == 6) && i == n / 2 && (i + 1) % kEntriesPerPark) tight = 1;
			p += uintlp_t(small) * unit + stub;
		}
		// keys in an order unrelated to the points, entries added in key order or not
		std::vector<int> key(n); for(int i = 0; i < n; ++i) key[i] = i;
		for(int i = n - 1; i > 0; --i) { r = mix(r + 1); std::swap(key[i], key[r % (i + 1)]); }
		for(int i = 0; i < n; ++i) { phase3::entry_lp e; e.point = pts[i]; e.key = key[i]; j->in.push_back(e); }
		std::sort(j->in.begin(), j->in.end(), [](const phase3::entry_lp& a, const phase3::entry_lp& b) { return mix(a.key) < mix(b.key); });
		sc.body = [=] { body(*j); };
		sc.head = "\"sc\":\"" + line + "\",\"tight\":" + std::to_string(tight);
		auto st = run_scenario(sc, fo);
		runs += st.runs; distinct += st.distinct; abn += st.abnormal;
	}
	fclose(fo);
	printf("{\"runs\":%ld,\"distinct\":%ld,\"abnormal\":%ld}\n", runs, distinct, abn);
	return 0;
}
