// Drives the real forward propagation.
// match OUT SCRATCH < lines
//  case type(2|4|7) k threads blockmode nruns nfree seed nq qstart gapmode percount dupmode
//  real k threads lb idseed rchunk wchunk
#include <cstdint>
#include <cstddef>
#include <array>
#include <iostream>
#include <chia/phase1.hpp>
#include <chia/DiskSort.hpp>
#include "runner.h"
#include <algorithm>
#include <map>
#include <mutex>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace phase1;
static std::string g_dir;
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }

static void setm(entry_1& e, uint64_t r, int k) { e.x = r & ((1ull << k) - 1); }
template<int N> static void setm(entry_xm<N>& e, uint64_t r, int k) { e.pos = 0; e.off = 0; for(auto& b : e.meta) { r = mix(r + 1); b = r; } }

// a left table that is delivered in chosen blocks
template<class T> struct left_t {
	std::vector<T> data; std::vector<size_t> cuts;
	void read(Processor<std::pair<std::vector<T>, size_t>>* out, int, int = -1) {
		size_t p = 0;
		for(auto c : cuts) { std::pair<std::vector<T>, size_t> b; b.first.assign(data.begin() + p, data.begin() + c); b.second = p; p = c; out->take(b); }
	}
};
template<class S> struct right_t {
	std::mutex m; std::vector<S> all; bool fin = false; int caches = 0; bool late = false;
	struct WriteCache { right_t* r; std::vector<S> v; void add(const S& e) { if(r->fin) r->late = true; v.push_back(e); } void flush() { std::lock_guard<std::mutex> l(r->m); for(auto& e : v) r->all.push_back(e); v.clear(); } ~WriteCache() { flush(); } };
	std::shared_ptr<WriteCache> add_cache() { auto c = std::make_shared<WriteCache>(); c->r = this; return c; }
	void finish() { fin = true; }
};
static std::string rd(const tmp_entry_1& e) { return std::to_string(e.x); }

template<class E> static std::vector<E> read_table(const table_t& info) {
	struct col : Processor<std::pair<std::vector<E>, size_t>> { std::vector<E> v; void take(std::pair<std::vector<E>, size_t>& b) override { for(auto& e : b.first) v.push_back(e); } } c;
	if(info.num_entries) { DiskTable<E> t(info); t.read(&c, 1); }
	return c.v;
}
template<class S> static bool same(const S& a, const S& b, int mb) { return a.y == b.y && a.pos == b.pos && a.off == b.off && !memcmp(a.meta.data(), b.meta.data(), mb); }
static bool same(const entry_7& a, const entry_7& b, int) { return a.y == b.y && a.pos == b.pos && a.off == b.off; }

template<class T, class S, class R> static void case_body(int Ri, int k, int th, const std::vector<uint64_t>& ys, const std::vector<size_t>& cuts, uint64_t seed, bool table7)
{
	initialize();
	left_t<T> L; L.cuts = cuts;
	uint64_t r = mix(seed + 5);
	for(auto y : ys) { T e; memset(&e, 0, sizeof(e)); e.y = y; r = mix(r + 3); setm(e, r, k); e.y = y; L.data.push_back(e); }
	std::string s = "[\"L\",[";
	for(size_t i = 0; i < ys.size(); ++i) s += (i ? ",[" : "[") + std::to_string(ys[i] / kBC) + "," + std::to_string(ys[i] % kBC) + "]";
	ev_long(s + "]]");
	right_t<S>* rs = new right_t<S>();
	uint64_t n = 0; std::vector<S> out;
	std::vector<std::string> want;
	table_t li;
	{
		DiskTable<R> lt(g_dir + "/l.tmp");
		if(table7) {
			DiskTable<S> rt(g_dir + "/r.tmp");
			n = compute_table<T, S, R, left_t<T>, right_t<S>>(Ri, k, th, &L, nullptr, &lt, &rt);
			out = read_table<S>(rt.get_info());
		} else {
			n = compute_table<T, S, R, left_t<T>, right_t<S>>(Ri, k, th, &L, rs, &lt);
			if(!rs->fin || rs->late) n = ~0u;
			out = rs->all;
		}
		li = lt.get_info();
	}
	// the stored left table is the left table, in order
	auto st = read_table<R>(li);
	bool stored = st.size() == L.data.size();
	for(size_t i = 0; stored && i < st.size(); ++i) { R t; memset(&t, 0, sizeof(t)); t.assign(L.data[i]); uint8_t a[R::disk_size], b[R::disk_size]; t.write(a); st[i].write(b); if(memcmp(a, b, sizeof(a))) stored = false; }
	FxCalculator<T, S> fx(k, Ri);
	const int mb = Ri < 7 ? ((kVectorLens[Ri + 1] * k + 7) / 8) : 0;
	s = "[\"R\"," + std::to_string(n) + "," + (stored ? "1" : "0") + ",[";
	for(size_t i = 0; i < out.size(); ++i) {
		const uint64_t p = out[i].pos, q = p + out[i].off;
		bool agree = p < L.data.size() && q < L.data.size();
		if(agree) { S e; memset(&e, 0, sizeof(e)); e.pos = out[i].pos; e.off = out[i].off; fx.evaluate(L.data[p], L.data[q], e); agree = same(e, out[i], mb); }
		s += (i ? ",[" : "[") + std::to_string(p) + "," + std::to_string(out[i].off) + "," + (agree ? "1" : "0") + "]";
	}
	ev_long(s + "]]");
	unlink((g_dir + "/l.tmp").c_str()); unlink((g_dir + "/r.tmp").c_str());
}

// ---- a complete forward propagation: every bucket of every table becomes one line
template<class T, class S, class X> static void real_level(FILE* out, const std::string& tag, int t, int k, const std::vector<T>& L, const std::vector<X>& right, std::vector<S>& R)
{
	FxCalculator<T, S> fx(k, t + 1);
	std::map<uint64_t, std::vector<std::pair<int, int>>> obs; long bad = 0;
	for(auto& e : right) {
		const uint64_t p = e.pos, q = p + e.off;
		S s; memset(&s, 0, sizeof(s));
		if(p >= L.size() || q >= L.size()) { bad++; R.push_back(s); continue; }
		s.pos = e.pos; s.off = e.off;
		fx.evaluate(L[p], L[q], s);
		R.push_back(s);
		obs[L[p].y / kBC].emplace_back(p, q);
	}
	size_t i = 0; long sum = 0; bool sorted = true;
	for(size_t j = 1; j < L.size(); ++j) if(L[j].y < L[j - 1].y) sorted = false;
	while(sorted && i < L.size()) {
		const uint64_t q = L[i].y / kBC;
		size_t j = i; while(j < L.size() && L[j].y / kBC == q) j++;
		size_t e = j; while(e < L.size() && L[e].y / kBC == q + 1) e++;
		fprintf(out, "{\"kind\":\"bucket\",\"tag\":\"%s\",\"t\":%d,\"q\":%llu,\"L\":[", tag.c_str(), t, (unsigned long long)q);
		for(size_t a = i; a < j; ++a) fprintf(out, "%s%d", a > i ? "," : "", int(L[a].y % kBC));
		fprintf(out, "],\"R\":[");
		for(size_t a = j; a < e; ++a) fprintf(out, "%s%d", a > j ? "," : "", int(L[a].y % kBC));
		fprintf(out, "],\"o\":[");
		auto& o = obs[q]; sum += o.size();
		for(size_t a = 0; a < o.size(); ++a) fprintf(out, "%s[%d,%d]", a ? "," : "", int(o[a].first - (long)i + 1), int(o[a].second - (long)j + 1));
		fprintf(out, "]}\n");
		i = j;
	}
	fprintf(out, "{\"kind\":\"table\",\"tag\":\"%s\",\"t\":%d,\"n\":%zu,\"right\":%zu,\"sum\":%ld,\"bad\":%ld,\"sorted\":%d}\n", tag.c_str(), t, L.size(), right.size(), sum, bad, (int)sorted);
}
static void real(FILE* out, int k, int th, int lb, uint64_t idseed)
{
	phase1::input_t p; p.k = k; for(int i = 0; i < 32; ++i) p.id[i] = mix(idseed + i);
	phase1::output_t o;
	phase1::compute(p, o, th, lb, "m", g_dir + "/", g_dir + "/");
	char tag[64]; snprintf(tag, sizeof(tag), "k%d th%d lb%d id%llu", k, th, lb, (unsigned long long)idseed);
	auto t1 = read_table<tmp_entry_1>(o.table[0]);
	std::vector<entry_1> L1; F1Calculator f1(k, p.id.data());
	for(auto& e : t1) { entry_1 blk[16]; f1.compute_block(e.x / 16 * 16, 16, blk); L1.push_back(blk[e.x % 16]); }
	std::vector<entry_2> L2; std::vector<entry_3> L3; std::vector<entry_4> L4; std::vector<entry_5> L5; std::vector<entry_6> L6; std::vector<entry_7> L7;
	std::vector<bool> seen(1u << k); long dup = 0; for(auto& e : t1) { if(e.x >> k || seen[e.x]) dup++; else seen[e.x] = true; }
	fprintf(out, "{\"kind\":\"first\",\"tag\":\"%s\",\"k\":%d,\"n\":%zu,\"dup\":%ld}\n", tag, k, t1.size(), dup);
	real_level<entry_1, entry_2>(out, tag, 1, k, L1, read_table<tmp_entry_x>(o.table[1]), L2);
	real_level<entry_2, entry_3>(out, tag, 2, k, L2, read_table<tmp_entry_x>(o.table[2]), L3);
	real_level<entry_3, entry_4>(out, tag, 3, k, L3, read_table<tmp_entry_x>(o.table[3]), L4);
	real_level<entry_4, entry_5>(out, tag, 4, k, L4, read_table<tmp_entry_x>(o.table[4]), L5);
	real_level<entry_5, entry_6>(out, tag, 5, k, L5, read_table<tmp_entry_x>(o.table[5]), L6);
	auto t7 = read_table<entry_7>(o.table[6]);
	real_level<entry_6, entry_7>(out, tag, 6, k, L6, t7, L7);
	long wrong = 0; for(size_t i = 0; i < t7.size(); ++i) if(t7[i].y != L7[i].y) wrong++;
	fprintf(out, "{\"kind\":\"last\",\"tag\":\"%s\",\"wrong\":%ld}\n", tag, wrong);
}

int main(int argc, char** argv)
{
	FILE* out = fopen(argv[1], "w");
	g_dir = argv[2]; mkdir(g_dir.c_str(), 0700);
	std::cout.setstate(std::ios::failbit);
	std::string line; long runs = 0, distinct = 0, abn = 0, no = 0;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); std::string kind; is >> kind;
		if(kind == "real") { int k, th, lb; uint64_t id; is >> k >> th >> lb >> id >> g_read_chunk_size >> g_write_chunk_size; real(out, k, th, lb, id); runs++; continue; }
		int type, k, th, bm, nq, gap, per, dup; uint64_t seed, q0; scenario_t sc;
		is >> type >> k >> th >> bm >> sc.runs >> sc.free_runs >> seed >> nq >> q0 >> gap >> per >> dup;
		sc.seed = seed; sc.mem_rate = 64; sc.step_limit = 4000000;
		std::vector<uint64_t> ys; uint64_t r = mix(seed); uint64_t q = q0; std::vector<uint64_t> last;
		const uint64_t ymax = 1ull << (k + 6);
		for(int b = 0; b < nq; ++b) {
			std::vector<uint64_t> cur; int n = per ? mix(r + 1) % (per + 1) : 0; if(b % 5 == 4 && gap == 2) n = std::min(1, per);
			for(int i = 0; i < n; ++i) {
				r = mix(r + i + 17);
				uint64_t v = mix(r) % kBC;
				if(!last.empty() && dup != 1 && i % 2) {       // aim at a match
					const int m = mix(r + 2) % 64, p = (q - 1) & 1; const uint64_t l = last[mix(r + 3) % last.size()];
					v = ((l / kC + m) % kB) * kC + (((2 * m + p) * (2 * m + p) + l) % kC);
				}
				if(dup == 2 && i % 3 == 0 && !cur.empty()) v = cur[mix(r + 4) % cur.size()];     // equal y
				if(dup == 3 && i % 4 == 0) v = i % 8 ? 0 : kBC - 1;
				cur.push_back(v);
			}
			if(dup == 4) {       // one value many times, opposite a few entries that match it
				cur.clear();
				if(b % 2 == 0) for(int i = 0; i <= b; ++i) cur.push_back(mix(r + i) % kBC);
				else { const int m = mix(r + 2) % 64, p = (q - 1) & 1; const uint64_t l = last[0]; cur.assign(250 + mix(r + 3) % 80, ((l / kC + m) % kB) * kC + (((2 * m + p) * (2 * m + p) + l) % kC)); }
			}
			for(auto v : cur) if(q * kBC + v < ymax) ys.push_back(q * kBC + v);
			last = cur;
			q += 1; if(gap == 1 && mix(r + 9) % 3 == 0) { q += 1 + mix(r + 8) % 2; last.clear(); }
		}
		std::sort(ys.begin(), ys.end());
		std::vector<size_t> cuts;
		if(bm == 0) cuts.push_back(ys.size());
		else if(bm == 1) { for(size_t i = 1; i <= ys.size(); ++i) if(i == ys.size() || ys[i] / kBC != ys[i - 1] / kBC) cuts.push_back(i); }
		else if(bm == 2) { for(size_t i = 1; i <= ys.size(); ++i) cuts.push_back(i); }
		else { size_t p = 0; while(p < ys.size()) { r = mix(r + 5); p = std::min(ys.size(), p + r % 40); cuts.push_back(p); } }
		const bool t7 = type == 7;
		sc.body = [=] {
			if(type == 2) case_body<entry_1, entry_2, tmp_entry_1>(2, k, th, ys, cuts, seed, false);
			else if(type == 4) case_body<entry_3, entry_4, tmp_entry_x>(4, k, th, ys, cuts, seed, false);
			else case_body<entry_6, entry_7, tmp_entry_x>(7, k, th, ys, cuts, seed, true);
		};
		no++;
		sc.head = "\"kind\":\"case\",\"sc\":\"" + line + "\"";
		auto st = run_scenario(sc, out);
		runs += st.runs; distinct += st.distinct; abn += st.abnormal;
	}
	fclose(out);
	printf("{\"runs\":%ld,\"distinct\":%ld,\"abnormal\":%ld}\n", runs, distinct, abn);
	return 0;
}
