#pragma once
// Drives the real DiskSort / DiskTable through their public interface.
// usage: disk OUT SCRATCHDIR < lines
//  hist ks rchunk wchunk runs seed | op args ; op args ; ...        (C06)
//  sort type ks lb rchunk wchunk threads threads_read writers n dist runs free dfs seed   (C05)
//  table type rchunk wchunk block threads n split runs free seed    (C07)
#include <cstdint>
#include <cstddef>
#include <array>
#include <chia/chia.h>
#include <chia/phase3.h>
#include <chia/DiskSort.hpp>
#include <chia/DiskTable.h>
#include "runner.h"
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <sstream>
#include <thread>

extern std::string g_dir;
typedef unsigned __int128 u128;

static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }

// ---------------------------------------------------------------- record types
struct rec_t {           // own small record: 2 byte key, 4 byte id
	uint64_t key = 0; uint32_t id = 0;
	static constexpr size_t disk_size = 6;
	size_t read(const uint8_t* b) { key = b[0] | b[1] << 8; memcpy(&id, b + 2, 4); return disk_size; }
	size_t write(uint8_t* b) const { b[0] = key; b[1] = key >> 8; memcpy(b + 2, &id, 4); return disk_size; }
};
struct rec_key { uint64_t operator()(const rec_t& r) { return r.key; } };

struct h_t { uint64_t h = 1469598103934665603ull; void add(u128 v) { h = mix(h ^ (uint64_t)v); h = mix(h + (uint64_t)(v >> 64)); } int d() const { return (int)(h >> 33); } };

template<class T> struct tr;     // make(key, rnd) / dig(entry) / key type
template<> struct tr<rec_t> { typedef rec_key K;
	static rec_t make(u128 k, uint64_t r) { rec_t e; e.key = (uint64_t)k; e.id = (uint32_t)r; return e; }
	static int dig(const rec_t& e) { h_t h; h.add(e.key); h.add(e.id); return h.d(); } };
template<> struct tr<phase1::entry_1> { typedef phase1::get_y<phase1::entry_1> K;
	static phase1::entry_1 make(u128 k, uint64_t r) { phase1::entry_1 e; e.y = (uint64_t)k; e.x = (uint32_t)r; return e; }
	static int dig(const phase1::entry_1& e) { h_t h; h.add(e.y); h.add(e.x); return h.d(); } };
template<int N> struct tr<phase1::entry_xm<N>> { typedef phase1::entry_xm<N> T; typedef phase1::get_y<T> K;
	static T make(u128 k, uint64_t r) { T e; e.y = (uint64_t)k; e.pos = (uint32_t)r; e.off = (r >> 32) & 1023; for(int i = 0; i < N; ++i) e.meta[i] = mix(r + i); return e; }
	static int dig(const T& e) { h_t h; h.add(e.y); h.add(e.pos); h.add(e.off); for(auto x : e.meta) h.add(x); return h.d(); } };
template<> struct tr<phase1::entry_7> { typedef phase1::entry_7 T; typedef phase1::get_y<T> K;
	static T make(u128 k, uint64_t r) { T e; e.y = (uint32_t)k; e.pos = (uint32_t)r; e.off = (r >> 32) & 1023; return e; }
	static int dig(const T& e) { h_t h; h.add(e.y); h.add(e.pos); h.add(e.off); return h.d(); } };
template<> struct tr<phase2::entry_x> { typedef phase2::entry_x T; typedef phase2::get_pos<T> K;
	static T make(u128 k, uint64_t r) { T e; e.pos = (uint32_t)k; e.key = (uint32_t)r; e.off = (r >> 32) & 1023; return e; }
	static int dig(const T& e) { h_t h; h.add(e.key); h.add(e.pos); h.add(e.off); return h.d(); } };
template<> struct tr<phase3::entry_lp> { typedef phase3::entry_lp T; typedef phase3::get_line_point<T> K;
	static T make(u128 k, uint64_t r) { T e; e.point = k; e.key = (uint32_t)r; return e; }
	static int dig(const T& e) { h_t h; h.add(e.point); h.add(e.key); return h.d(); } };
template<> struct tr<phase3::entry_np> { typedef phase3::entry_np T; typedef phase3::get_sort_key<T> K;
	static T make(u128 k, uint64_t r) { T e; e.key = (uint32_t)k; e.pos = (uint32_t)r; return e; }
	static int dig(const T& e) { h_t h; h.add(e.key); h.add(e.pos); return h.d(); } };
template<> struct tr<phase1::tmp_entry_1> { typedef phase1::tmp_entry_1 T;
	static T make(u128 k, uint64_t r) { T e; e.x = (uint32_t)r; return e; }
	static int dig(const T& e) { h_t h; h.add(e.x); return h.d(); } };
template<> struct tr<phase1::tmp_entry_x> { typedef phase1::tmp_entry_x T;
	static T make(u128 k, uint64_t r) { T e; e.pos = (uint32_t)r; e.off = (r >> 32) & 1023; return e; }
	static int dig(const T& e) { h_t h; h.add(e.pos); h.add(e.off); return h.d(); } };

template<class T> static std::string ent(const T& e) {
	u128 k = typename tr<T>::K{}(e);
	char b[80]; snprintf(b, sizeof(b), "[%d,%d,%d,%d]", (int)(uint64_t)((k >> 62) & 0x7fffffff), (int)(uint64_t)((k >> 31) & 0x7fffffff), (int)(uint64_t)(k & 0x7fffffff), tr<T>::dig(e));
	return b;
}


// -------------------------------------------------------------- directory view
extern std::map<std::string, std::string> g_foreign;
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void make_foreign(const std::string& prefix) {
	g_foreign.clear();
	for(std::string n : { prefix + ".sort_bucket_x.tmp", prefix + "2.sort_bucket_0.tmp", std::string("other.tmp"), prefix + ".tmp", prefix + ".sort_bucket_99.tmp",
			std::string("a") + prefix + ".sort_bucket_0.tmp", prefix + ".sort_bucket_0" }) {
		std::ofstream(g_dir + "/" + n) << "foreign " << n;
		g_foreign[n] = "foreign " + n;
	}
}
static void ls_event(size_t rec) {
	int files = 0; long bytes = 0; int ok = 1; size_t seen = 0;
	DIR* d = opendir(g_dir.c_str());
	while(auto* e = readdir(d)) {
		std::string n = e->d_name;
		if(n == "." || n == "..") continue;
		auto it = g_foreign.find(n);
		if(it != g_foreign.end()) { seen++; if(slurp(g_dir + "/" + n) != it->second) ok = 0; }
		else { files++; struct stat st; if(!stat((g_dir + "/" + n).c_str(), &st)) bytes += st.st_size; }
	}
	closedir(d);
	if(seen != g_foreign.size()) ok = 0;
	ev("[\"ls\",%d,%ld,%d]", files, bytes % (long)rec ? -1 : bytes / (long)rec, ok);
}
static void clean_dir() {
	DIR* d = opendir(g_dir.c_str());
	std::vector<std::string> v;
	while(auto* e = readdir(d)) { std::string n = e->d_name; if(n != "." && n != "..") v.push_back(n); }
	closedir(d);
	for(auto& n : v) unlink((g_dir + "/" + n).c_str());
}

template<class T> struct collect_t : Processor<std::pair<std::vector<T>, size_t>> {
	std::string out; bool first = true;
	void take(std::pair<std::vector<T>, size_t>& b) override {
		std::string s = first ? "" : ","; first = false;
		s += "[" + std::to_string(b.second) + ",[";
		for(size_t i = 0; i < b.first.size(); ++i) { if(i) s += ","; s += ent(b.first[i]); }
		out += s + "]]";
		if(vs_active()) vs_point();
	}
};

// files an earlier, killed run left behind under the same names
template<class T> void leftovers(int ks, int lb, const std::string& prefix, int n, uint64_t seed)
{
	DiskSort<T, typename tr<T>::K> old(ks, lb, prefix);
	for(int i = 0; i < n; ++i) old.add(tr<T>::make(((u128)mix(seed + i) << 64 | mix(seed + 2 * i)) % ((u128)1 << ks), mix(seed + 3 * i)));
	old.finish();
	old.set_keep_files(true);
}

// ------------------------------------------------------------------------ sort
template<class T> void sort_body(int ks, int lb, int threads, int threads_read, int writers, int n, int dist, uint64_t seed)
{
	clean_dir(); g_foreign.clear();
	typedef DiskSort<T, typename tr<T>::K> S;
	const u128 range = (u128)1 << ks;
	std::vector<T> data;
	uint64_t x = mix(seed + 77);
	for(int i = 0; i < n; ++i) {
		x = mix(x + i);
		u128 k = ((u128)mix(x + 1) << 64 | mix(x + 2)) % range;
		switch(dist) {
		case 1: k = k >> (ks / 2); break;                              // all in the first buckets
		case 2: k = range - 1 - (k >> (ks > 2 ? ks - 2 : 0)); break;   // top keys only
		case 3: k = (u128)(i % 3) * (range / 3); break;                // few distinct keys
		case 4: k = range > (u128)n ? range / n * (n - 1 - i) : (u128)0; break;  // descending
		case 5: k = ((u128)((i * 7) % (1 << lb)) << (ks - lb)) + (i % 2 ? ((u128)1 << (ks - lb)) - 1 : 0); break;  // bucket edges
		case 6: k = ((u128)((i * 5) % (1 << (2 * lb))) << (ks - 2 * lb)) + (i % 2 ? ((u128)1 << (ks - 2 * lb)) - 1 : 0); break;  // block edges
		case 7: k = 0; break;
		default: break;
		}
		data.push_back(tr<T>::make(k, dist == 3 && i % 5 == 0 ? 42 : n > 20000 ? (mix(x + 3) >> 32 << 32) + i : mix(x + 3)));      // many: all different
	}
	{ std::string a; for(int i = 0; i < n; ++i) a += (i ? "," : "") + ent(data[i]); ev_long("[\"adds\",0,[" + a + "],\"ok\"]"); }
	if(seed % 3 == 1) leftovers<T>(ks, lb, g_dir + "/q", 7 + n, seed);
	auto* s = new S(ks, lb, g_dir + "/q");
	if(writers == 0) { for(auto& e : data) s->add(e); }
	else {
		std::vector<std::thread> th;
		for(int w = 0; w < writers; ++w) th.emplace_back([&, w] {
			auto c = s->add_cache();
			for(int i = w; i < n; i += writers) c->add(data[i]);
			if(w % 2) c->flush();
		});
		for(auto& t : th) t.join();
	}
	s->finish();
	ev("[\"finish\",\"ok\"]");
	ls_event(T::disk_size);
	for(int rep = 0; rep < 1 + (dist == 6); ++rep) {
		if(rep && seed % 2) {            // reopened by a later object
			delete s; ev("[\"destroy\",\"ok\"]"); ls_event(T::disk_size);
			s = new S(ks, lb, g_dir + "/q", true); ev("[\"open\",%d,\"ok\"]", 1 << lb);
		}
		if(dist == 6) { s->set_keep_files(rep == 0); ev("[\"keep\",%d,\"ok\"]", rep == 0); }
		if(seed % 2 || dist == 6) {
			collect_t<T> c;
			s->read(&c, threads, threads_read);
			ev_long("[\"read\",[" + c.out + "],\"ok\"]");
		} else {     // through a downstream stage, as the phases do
			collect_t<T> c;
			Thread<std::pair<std::vector<T>, size_t>> st([&](std::pair<std::vector<T>, size_t>& b) { c.take(b); }, "x");
			s->read(&st, threads, threads_read);
			st.close();
			ev_long("[\"read\",[" + c.out + "],\"ok\"]");
		}
		ls_event(T::disk_size);
	}
	delete s;
	ev("[\"destroy\",\"ok\"]");
	ls_event(T::disk_size);
}

// ----------------------------------------------------------------------- table
template<class T> void table_body(int block, int threads, int n, int split, uint64_t seed)
{
	clean_dir(); g_foreign.clear();
	const std::string f = g_dir + "/t.tmp";
	uint64_t x = mix(seed + 99);
	if(seed % 3 == 1) std::ofstream(f) << std::string((n + 5) * T::disk_size, 'x');      // left behind by an earlier, killed run
	{
		auto* t = new DiskTable<T>(f);
		ev("[\"tnew\"]");
		for(int i = 0; i < n; ++i) {
			x = mix(x + i);
			const T e = tr<T>::make(0, x);
			t->write(e);
			ev("[\"write\",%d]", tr<T>::dig(e));
			if(split && i % split == split - 1) { t->flush(); ev("[\"flush\",%zu]", t->get_info().num_entries); }
		}
		if(split % 2) { t->close(); ev("[\"close\",%zu]", t->get_info().num_entries); }
		else { t->flush(); ev("[\"flush\",%zu]", t->get_info().num_entries); t->close(); ev("[\"close\",%zu]", t->get_info().num_entries); }
		auto info = t->get_info();
		auto rd = [&](const DiskTable<T>& tt) {
			struct col_t : Processor<std::pair<std::vector<T>, size_t>> {
				std::string out; bool first = true;
				void take(std::pair<std::vector<T>, size_t>& b) override {
					std::string s = first ? "[" : ",["; first = false;
					s += std::to_string(b.second) + ",[";
					for(size_t i = 0; i < b.first.size(); ++i) { if(i) s += ","; s += std::to_string(tr<T>::dig(b.first[i])); }
					out += s + "]]";
					if(vs_active()) vs_point();
				}
			} c;
			if(block > 0) tt.read(&c, threads, block); else tt.read(&c, threads);
			ev_long("[\"read\",[" + c.out + "]]");
		};
		rd(*t);
		delete t;
		if(info.num_entries) { DiskTable<T> r(info); rd(r); rd(r); ev("[\"close\",%zu]", r.get_info().num_entries); }
	}
}



// ----------------------------------------------------------- table beyond 4 GiB
struct wide_t {          // a record of 16 MB, stored in a sparse file
	uint32_t id = 0;
	static constexpr size_t disk_size = 16 << 20;
	size_t read(const uint8_t* b) { memcpy(&id, b + disk_size - 4, 4); return disk_size; }
	size_t write(uint8_t* b) const { memcpy(b + disk_size - 4, &id, 4); return disk_size; }
};
template<> struct tr<wide_t> { static int dig(const wide_t& e) { h_t h; h.add(e.id); return h.d(); } };
