// fx OUT < lines:  tree k idhex x1 x2 ... x64     |     f1 k idhex threads
#include <cstdint>
#include <cstddef>
#include <array>
#include <iostream>
#include <chia/phase1.hpp>
#include <chia/DiskSort.hpp>
#include <map>
#include <mutex>
#include <sstream>
using namespace phase1;
static std::string limbs(uint64_t v) { return "[" + std::to_string(v & 65535) + "," + std::to_string((v >> 16) & 65535) + "," + std::to_string((v >> 32)) + "]"; }
static std::vector<uint8_t> unhex(const std::string& s) { std::vector<uint8_t> v; for(size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(strtoul(s.substr(i, 2).c_str(), 0, 16)); return v; }
static std::string idjs(const std::vector<uint8_t>& id) { std::string s; for(auto b : id) s += (s.empty() ? "" : ",") + std::to_string(b); return "[" + s + "]"; }

template<class T, class S> static std::vector<S> up(int k, int t, const std::vector<T>& in, std::string& ys) {
	std::vector<S> out;
	FxCalculator<T, S> fx(k, t);
	ys += ",[";
	for(size_t i = 0; i + 1 < in.size(); i += 2) {
		alignas(16) uint8_t mem[sizeof(S)]; memset(mem, 0xA5, sizeof(mem));
		S& e = *(S*)mem; e.pos = 0; e.off = 0;
		fx.evaluate(in[i], in[i + 1], e);
		ys += (i ? "," : "") + limbs(e.y);
		out.push_back(e);
	}
	ys += "]";
	return out;
}
struct sink_t {
	std::mutex m; std::map<uint64_t, std::vector<std::pair<int, uint64_t>>> g; uint64_t total = 0, other = 0; bool fin = false; int k;
	struct WriteCache { sink_t* s; std::vector<entry_1> v;
		void add(const entry_1& e) { v.push_back(e); }
		void flush() { std::lock_guard<std::mutex> l(s->m); for(auto& e : v) { s->total++; if(uint64_t(e.x) >> s->k) s->other++; s->g[uint64_t(e.x) >> 9].emplace_back(e.x & 511, e.y); } v.clear(); }
		~WriteCache() { flush(); } };
	std::shared_ptr<WriteCache> add_cache() { auto c = std::make_shared<WriteCache>(); c->s = this; return c; }
	void finish() { fin = true; }
};
int main(int argc, char** argv) {
	FILE* out = fopen(argv[1], "w");
	std::cout.setstate(std::ios::failbit);
	std::string line;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); std::string kind, ids; int k; is >> kind >> k >> ids;
		auto id = unhex(ids);
		if(kind == "tree") {
			std::vector<uint64_t> xs; uint64_t x; while(is >> x) xs.push_back(x);
			std::string xj, ys = "[";
			std::vector<entry_1> e1;
			F1Calculator f1(k, id.data());
			for(size_t i = 0; i < xs.size(); ++i) {
				entry_1 blk[16];
				const uint64_t base = xs[i] / 16 * 16;       // as compute_f1 calls it: 16 aligned entries
				f1.compute_block(base, 16, blk);
				e1.push_back(blk[xs[i] - base]);
				if(e1.back().x != xs[i]) e1.back().y = ~0ull >> 16;
				xj += (i ? "," : "") + limbs(xs[i]);
				ys += (i ? "," : "") + limbs(e1.back().y);
			}
			ys += "]";
			auto e2 = up<entry_1, entry_2>(k, 2, e1, ys);
			if(e2.size() > 1) { auto e3 = up<entry_2, entry_3>(k, 3, e2, ys);
			if(e3.size() > 1) { auto e4 = up<entry_3, entry_4>(k, 4, e3, ys);
			if(e4.size() > 1) { auto e5 = up<entry_4, entry_5>(k, 5, e4, ys);
			if(e5.size() > 1) { auto e6 = up<entry_5, entry_6>(k, 6, e5, ys);
			if(e6.size() > 1) up<entry_6, entry_7>(k, 7, e6, ys); } } } }
			fprintf(out, "{\"kind\":\"tree\",\"k\":%d,\"id\":%s,\"xs\":[%s],\"ys\":[%s]}\n", k, idjs(id).c_str(), xj.c_str(), ys.c_str());
		} else {
			int th; is >> th;
			sink_t s; s.k = k;
			compute_f1(id.data(), k, th, &s);
			fprintf(out, "{\"kind\":\"f1all\",\"k\":%d,\"groups\":%zu,\"total\":%llu,\"other\":%llu,\"line\":\"%s\"}\n", k, s.g.size(), (unsigned long long)s.total, (unsigned long long)s.other, line.c_str());
			for(auto& g : s.g) {
				if(g.first >> (k - 9)) continue;
				fprintf(out, "{\"kind\":\"f1\",\"k\":%d,\"id\":%s,\"g\":%llu,\"e\":[", k, idjs(id).c_str(), (unsigned long long)g.first);
				bool f = true; for(auto& e : g.second) { fprintf(out, "%s[%d,%s]", f ? "" : ",", e.first, limbs(e.second).c_str()); f = false; }
				fprintf(out, "]}\n");
			}
		}
	}
	fclose(out);
	return 0;
}
