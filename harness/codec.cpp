// codec OUT < vectors (ndjson {"t":type,"f":[[bytes]..]}): writes/reads groups of neighbouring records of one type
#include <cstdint>
#include <cstddef>
#include <array>
#include <chia/chia.h>
#include <chia/phase3.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
typedef std::vector<std::vector<int>> rec;
template<class V> static void put(V& v, const std::vector<int>& b) { v = 0; for(size_t i = 0; i < b.size(); ++i) v |= V(b[i]) << (8 * i); }
template<class V> static std::vector<int> get(const V& v, size_t n) {
	std::vector<int> o; V x = v; for(size_t i = 0; i < n; ++i) { o.push_back(i < sizeof(V) ? int((x >> (8 * i)) & 255) : 0); }
	if(n < sizeof(V)) { V r = v >> (8 * n); if(r) o.push_back(-1); }     // stray high bits
	return o;
}
template<size_t N> static void put(std::array<uint8_t, N>& v, const std::vector<int>& b) { for(size_t i = 0; i < N; ++i) v[i] = i < b.size() ? b[i] : 0; }
template<size_t N> static std::vector<int> get(const std::array<uint8_t, N>& v, size_t n) { return std::vector<int>(v.begin(), v.end()); }
#define F1(T, a) static void fill(T& e, const rec& r) { put(e.a, r[0]); } static rec dump(const T& e, const rec& r) { return {get(e.a, r[0].size())}; }
#define F2(T, a, b) static void fill(T& e, const rec& r) { put(e.a, r[0]); put(e.b, r[1]); } static rec dump(const T& e, const rec& r) { return {get(e.a, r[0].size()), get(e.b, r[1].size())}; }
#define F3(T, a, b, c) static void fill(T& e, const rec& r) { put(e.a, r[0]); put(e.b, r[1]); put(e.c, r[2]); } static rec dump(const T& e, const rec& r) { return {get(e.a, r[0].size()), get(e.b, r[1].size()), get(e.c, r[2].size())}; }
F2(phase1::entry_1, y, x)
F3(phase1::entry_7, y, pos, off)
F1(phase1::tmp_entry_1, x)
F2(phase1::tmp_entry_x, pos, off)
F3(phase2::entry_x, key, pos, off)
F2(phase3::entry_lp, point, key)
F2(phase3::entry_np, key, pos)
template<int N> static void fill(phase1::entry_xm<N>& e, const rec& r) { put(e.y, r[0]); put(e.pos, r[1]); put(e.off, r[2]); put(e.meta, r[3]); }
template<int N> static rec dump(const phase1::entry_xm<N>& e, const rec& r) { return {get(e.y, r[0].size()), get(e.pos, r[1].size()), get(e.off, r[2].size()), get(e.meta, r[3].size())}; }

static std::string js(const rec& r) { std::string s = "["; for(size_t i = 0; i < r.size(); ++i) { s += i ? ",[" : "["; for(size_t k = 0; k < r[i].size(); ++k) { if(k) s += ","; s += std::to_string(r[i][k]); } s += "]"; } return s + "]"; }

static int g_case = 0;
template<class T> static void group(const char* t, const std::vector<rec>& in, FILE* out) {
	const int n = in.size(), G = 32;
	const size_t S = T::disk_size;
	for(int mode = 0; mode < 3; ++mode) {
		const uint8_t fillb = mode == 0 ? 0x00 : mode == 1 ? 0xFF : 0xA5;
		std::vector<uint8_t> buf(n * S + 2 * G, fillb), img;
		uint8_t* b = buf.data() + G;
		bool clean = true;
		std::vector<size_t> ret;
		std::vector<int> order; for(int i = 0; i < n; ++i) order.push_back(mode == 1 ? n - 1 - i : i);
		if(mode == 2) for(int i = 0; i < n; ++i) order[i] = (i * 2) % n + (n % 2 == 0 && i * 2 >= n ? 1 : 0);
		for(int i : order) {
			alignas(16) uint8_t mem[sizeof(T)]; memset(mem, ~fillb, sizeof(mem));
			T* e = (T*)mem;
			fill(*e, in[i]);
			img = buf;
			ret.push_back(e->write(b + i * S));
			for(size_t k = 0; k < buf.size(); ++k) if((k < G + i * S || k >= G + (i + 1) * S) && buf[k] != img[k]) clean = false;
		}
		std::vector<rec> res(n);
		for(int q = 0; q < n; ++q) {
			const int i = order[n - 1 - q];
			alignas(16) uint8_t mem[sizeof(T)]; memset(mem, mode == 0 ? 0xFF : mode == 1 ? 0x00 : 0x5A, sizeof(mem));
			T* e = (T*)mem;
			img = buf;
			ret.push_back(e->read(b + i * S));
			if(buf != img) clean = false;
			res[i] = dump(*e, in[i]);
			// a decode must not depend on the neighbours either
			std::vector<uint8_t> b2(S + 2 * G, ~fillb); memcpy(b2.data() + G, b + i * S, S);
			memset(mem, 0x33, sizeof(mem)); e->read(b2.data() + G);
			if(dump(*e, in[i]) != res[i]) clean = false;
		}
		if(mode == 0) {      // and through a file
			FILE* f = tmpfile();
			for(int i = 0; i < n; ++i) { T e; fill(e, in[i]); if(!write_entry(f, e)) clean = false; }
			rewind(f);
			for(int i = 0; i < n; ++i) { T e; if(!read_entry(f, e)) clean = false; if(dump(e, in[i]) != res[i]) clean = false; }
			T e; if(read_entry(f, e)) clean = false;
			fclose(f);
		}
		std::string a, o, r;
		for(int i = 0; i < n; ++i) { a += (i ? "," : "") + js(in[i]); o += (i ? "," : "") + js(res[i]); }
		for(size_t i = 0; i < ret.size(); ++i) r += (i ? "," : "") + std::to_string(ret[i]);
		fprintf(out, "{\"t\":\"%s\",\"size\":%zu,\"ret\":[%s],\"in\":[%s],\"out\":[%s],\"clean\":%d}\n", t, S, r.c_str(), a.c_str(), o.c_str(), (int)clean);
	}
}
static void run(const std::string& t, const std::vector<rec>& v, FILE* out) {
	using namespace phase1;
	if(v.empty()) return;
	if(t == "e1") group<entry_1>("e1", v, out); else if(t == "e2") group<entry_2>("e2", v, out); else if(t == "e3") group<entry_3>("e3", v, out);
	else if(t == "e4") group<entry_4>("e4", v, out); else if(t == "e5") group<entry_5>("e5", v, out); else if(t == "e6") group<entry_6>("e6", v, out);
	else if(t == "e7") group<phase1::entry_7>("e7", v, out); else if(t == "t1") group<tmp_entry_1>("t1", v, out); else if(t == "tx") group<tmp_entry_x>("tx", v, out);
	else if(t == "p2") group<phase2::entry_x>("p2", v, out); else if(t == "lp") group<phase3::entry_lp>("lp", v, out); else if(t == "np") group<phase3::entry_np>("np", v, out);
	else { fprintf(stderr, "type %s\n", t.c_str()); exit(3); }
}
int main(int argc, char** argv) {
	FILE* out = fopen(argv[1], "w");
	char* line = nullptr; size_t cap = 0; ssize_t len;
	std::string cur; std::vector<rec> v;
	while((len = getline(&line, &cap, stdin)) > 0) {
		std::string s(line, len);
		size_t p = s.find("\"t\":\""); if(p == std::string::npos) continue;
		std::string t = s.substr(p + 5, s.find('"', p + 5) - p - 5);
		p = s.find("\"f\":") + 5;
		rec r; int depth = 1; int num = -1;
		for(; depth > 0; ++p) { char c = s[p];
			if(c == '[') { depth++; r.emplace_back(); }
			else if(c >= '0' && c <= '9') num = (num < 0 ? 0 : num) * 10 + c - '0';
			else { if(num >= 0) { r.back().push_back(num); num = -1; } if(c == ']') depth--; } }
		if(t != cur || v.size() == 5) { run(cur, v, out); v.clear(); cur = t; }
		v.push_back(r);
	}
	run(cur, v, out);
	fclose(out);
	return 0;
}
