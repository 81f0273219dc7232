// Drives the real line-point merge (phase 3, stage 1) on chosen tables.
// merge OUT SCRATCH < lines:  variant threads k lcut rcut chunk shape nL nR nruns dfs nfree seed
//  variant 0: sorted positions x back references    1: first table with marks x back references
//          2: sorted positions x final table        3: as 0 with the real disk sorts on both sides
#include <cstdint>
#include <cstddef>
#include <array>
#include <iostream>
#include <chia/chia.h>
#include <chia/phase1.h>
#include <chia/phase3.hpp>
#include <chia/DiskSort.hpp>
#include "runner.h"
#include <algorithm>
#include <sstream>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
static std::string g_dir;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
template<class V> static std::string limbs(V v) { std::string s = "["; for(int i = 0; i < 6; ++i) { s += (i ? "," : "") + std::to_string((unsigned)(v & 4095)); v >>= 12; } return s + "]"; }
template<class E> static std::vector<std::vector<E>> cut(const std::vector<E>& v, int how, uint64_t seed)
{
	std::vector<std::vector<E>> out; size_t i = 0; uint64_t r = mix(seed);
	while(i < v.size()) {
		r = mix(r + 7); size_t n = how == 0 ? v.size() : how == 1 ? 1 : how == 2 ? r % 4 : how == 3 ? 1 + r % 7 : 20 + r % 100;
		n = std::min(n, v.size() - i); out.emplace_back(v.begin() + i, v.begin() + i + n); i += n;
	}
	if(how == 2 || v.empty()) out.emplace_back();
	return out;
}
template<class E> struct source {
	std::vector<std::vector<E>> blocks;
	void read(Processor<std::pair<std::vector<E>, size_t>>* p, int = 0, int = 0) {
		size_t off = 0;
		for(auto& b : blocks) { std::pair<std::vector<E>, size_t> in(b, off); off += b.size(); p->take(in); }
	}
};
template<class E> static table_t put(const std::string& f, const std::vector<E>& v) { FILE* o = fopen(f.c_str(), "wb"); for(auto& e : v) write_entry(o, e); fclose(o); table_t t; t.file_name = f; t.num_entries = v.size(); return t; }
struct rent { uint64_t pos, off, key; };
struct job { int variant, th, k, lcut, rcut; uint64_t seed; std::vector<uint64_t> L; std::vector<char> used; std::vector<rent> R; };

static void body(const job& j)
{
	using namespace phase3;
	const std::string d = g_dir + "/";
	{	std::string s = "[\"L\",["; bool f = true;
		for(size_t i = 0; i < j.L.size(); ++i) if(j.used[i]) { s += (f ? "" : ",") + limbs(j.L[i]); f = false; }
		ev_long(s + "]]"); }
	{	std::string s = "[\"R\",[";
		for(size_t i = 0; i < j.R.size(); ++i) s += (i ? ",[" : "[") + std::to_string(j.R[i].pos) + "," + std::to_string(j.R[i].off) + ",\"" + std::to_string(j.R[i].key) + "\"]";
		ev_long(s + "]]"); }
	DiskSortLP out(2 * j.k - 1, 2, d + "o", false);
	std::vector<entry_np> l; std::vector<phase2::entry_x> r; std::vector<phase2::entry_7> r7;
	for(size_t i = 0; i < j.L.size(); ++i) if(j.used[i]) { entry_np e; e.key = l.size(); e.pos = j.L[i]; l.push_back(e); }
	for(auto& a : j.R) { phase2::entry_x e; e.key = a.key; e.pos = a.pos; e.off = a.off; r.push_back(e); phase2::entry_7 f; f.y = a.key; f.pos = a.pos; f.off = a.off; r7.push_back(f); }
	source<entry_np> ls{cut(l, j.lcut, j.seed)}; source<phase2::entry_x> rs{cut(r, j.rcut, j.seed + 1)};
	if(j.variant == 0) {
		compute_stage1<entry_np, phase2::entry_x, source<entry_np>, source<phase2::entry_x>>(2, j.th, &ls, &rs, &out);
	} else if(j.variant == 1) {
		std::vector<phase2::entry_1> v; bitfield b(j.L.size());
		for(size_t i = 0; i < j.L.size(); ++i) { phase2::entry_1 e; e.x = j.L[i]; v.push_back(e); if(j.used[i]) b.set(i); }
		DiskTable<phase2::entry_1> t(put(d + "l.tmp", v));
		compute_stage1<phase2::entry_1, phase2::entry_x, DiskSortNP, source<phase2::entry_x>>(1, j.th, nullptr, &rs, &out, &t, &b);
	} else if(j.variant == 2) {
		DiskTable<phase2::entry_7> t(put(d + "r.tmp", r7));
		compute_stage1<entry_np, phase2::entry_7, source<entry_np>, phase2::DiskSort7>(6, j.th, &ls, nullptr, &out, nullptr, nullptr, &t);
	} else {
		DiskSortNP L(j.k, 2, d + "l", false); phase2::DiskSortT R(j.k, 2, d + "r", false);
		{ auto c = L.add_cache(); for(auto& e : l) c->add(e); c->flush(); } L.finish();
		{ auto c = R.add_cache(); for(auto& e : r) c->add(e); c->flush(); } R.finish();
		compute_stage1<entry_np, phase2::entry_x, DiskSortNP, phase2::DiskSortT>(3, j.th, &L, &R, &out);
	}
	struct col : Processor<std::pair<std::vector<entry_lp>, size_t>> { std::vector<entry_lp> v; void take(std::pair<std::vector<entry_lp>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } } c;
	out.read(&c, 1, 1);
	{	std::string s = "[\"out\",[";
		for(size_t i = 0; i < c.v.size(); ++i) s += (i ? ",[" : "[") + limbs(c.v[i].point) + ",\"" + std::to_string(c.v[i].key) + "\"]";
		ev_long(s + "]]"); }
	out.close();
	DIR* dd = opendir(g_dir.c_str()); std::vector<std::string> rm;
	while(auto* e = readdir(dd)) if(e->d_name[0] != '.') rm.push_back(e->d_name);
	closedir(dd);
	for(auto& n : rm) unlink((d + n).c_str());
}
int main(int argc, char** argv)
{
	FILE* fo = fopen(argv[1], "w");
	g_dir = argv[2]; mkdir(g_dir.c_str(), 0700);
	std::cout.setstate(std::ios::failbit);
	std::string line; long runs = 0, distinct = 0, abn = 0;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); int shape, nL, nR; auto* j = new job(); scenario_t sc;
		is >> j->variant >> j->th >> j->k >> j->lcut >> j->rcut >> g_read_chunk_size >> shape >> nL >> nR >> sc.runs >> sc.dfs >> sc.free_runs >> j->seed;
		g_write_chunk_size = 64;
		sc.seed = j->seed; sc.mem_rate = 12; sc.step_limit = 2000000;
		uint64_t r = mix(j->seed); const uint64_t mask = (1ull << j->k) - 1;
		for(int i = 0; i < nL; ++i) { r = mix(r + 1); j->L.push_back(shape == 2 ? i : shape == 3 ? mask - (r & 7) : r & mask); j->used.push_back(j->variant != 1 || (shape == 1 ? r % 3 == 0 : shape == 4 ? (i / 16) % 2 == 0 : r % 4 != 0)); }
		uint64_t m = 0; for(auto u : j->used) m += u;
		for(int i = 0; i < nR && m; ++i) {
			r = mix(r + 2); rent e;
			e.pos = shape == 1 ? mix(r + 1) % std::max<uint64_t>(1, m / 3) : shape == 5 ? m - 1 - (mix(r + 1) % std::min<uint64_t>(m, 3)) : mix(r + 1) % m;
			e.off = std::min<uint64_t>(1023, std::min<uint64_t>(m - 1 - e.pos, shape == 5 ? m : mix(r + 3) % (shape == 2 ? 4 : 300)));
			e.key = j->variant == 2 && shape == 1 ? r & 3 : (uint64_t(i) * 2654435761u) & mask;
			j->R.push_back(e);
		}
		std::stable_sort(j->R.begin(), j->R.end(), [](const rent& a, const rent& b) { return a.pos < b.pos; });
		sc.body = [=] { body(*j); };
		sc.head = "\"sc\":\"" + line + "\"";
		auto st = run_scenario(sc, fo);
		runs += st.runs; distinct += st.distinct; abn += st.abnormal;
	}
	fclose(fo);
	printf("{\"runs\":%ld,\"distinct\":%ld,\"abnormal\":%ld}\n", runs, distinct, abn);
	return 0;
}
