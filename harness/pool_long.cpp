// Long free-running use of a pool: pool_long OUT < lines "n threads seed outstage"
// Records what came out as maximal runs of consecutive items.
#include <cstdint>
#include <cstddef>
#include <iostream>
#include <sstream>
#include <chia/chia.h>
#include <chia/ThreadPool.h>
#include <set>
#include <unistd.h>
struct sink : Processor<uint64_t> {
	std::vector<std::pair<uint64_t, uint64_t>> runs;
	void take(uint64_t& v) override { if(!runs.empty() && runs.back().first + runs.back().second == v) runs.back().second++; else if(runs.size() < 50) runs.emplace_back(v, 1); }
};
int main(int argc, char** argv)
{
	FILE* fo = fopen(argv[1], "w"); std::string line;
	while(std::getline(std::cin, line)) {
		std::istringstream is(line); uint64_t n, seed; int th, st; is >> n >> th >> seed >> st;
		sink s; std::mutex m; std::set<const void*> locals;
		{
			Thread<uint64_t> stage([&](uint64_t& v) { s.take(v); }, "out");
			Processor<uint64_t>* out = st ? (Processor<uint64_t>*)&stage : &s;
			ThreadPool<uint64_t, uint64_t, uint64_t> pool([&](uint64_t& v, uint64_t& o, uint64_t& local) {
				if(!local++) { std::lock_guard<std::mutex> l(m); locals.insert(&local); }
				const uint64_t x = v * 0x9E3779B97F4A7C15ull + seed;
				if(((v + 1) & 0xff) == 0) usleep(300);           // slow just before a counter would wrap
				else if((x >> 56) == 0) usleep(100);
				o = v;
			}, out, th, "pool");
			for(uint64_t i = 0; i < n; ++i) pool.take_copy(i);
			pool.close(); stage.close();
		}
		std::string r; for(auto& x : s.runs) r += (r.empty() ? "" : ",") + ("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]");
		fprintf(fo, "{\"sc\":\"%s\",\"n\":%ld,\"th\":%d,\"runs\":[%s],\"locals\":%ld}\n", line.c_str(), long(n), th, r.c_str(), long(locals.size()));
	}
	fclose(fo); return 0;
}
