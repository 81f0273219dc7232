// Compresses delta sequences with the real encoder and the real park writer.
// ans OUT < lines: "ans t shape n seed" | "park t k shape n seed" | "race t n threads seed"
//   (the scheduled build: "race t n threads seed" is one schedule of the first uses of a table)
// One forked child per line, so that a crash is an observation.
#include <cstdint>
#include <cstddef>
#include <iostream>
#include <chia/chia.h>
#include <chia/phase3.hpp>
#include <chia/DiskSort.hpp>
#include <sstream>
#include <cmath>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#ifdef VSCHED
#include "vsched.h"
static void stalled(const char*) { _exit(77); }
#endif
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static double R(int t) { return t == 7 ? kC3R : kRValues[t - 1]; }
static std::vector<uint8_t> make(int t, int shape, int n, uint64_t seed)
{
	std::vector<uint8_t> d(n); uint64_t r = mix(seed + 99);
	const int top = t == 7 ? 115 : 254;          // largest delta that has a code
	for(int i = 0; i < n; ++i) {
		r = mix(r + i); const double u = ((r >> 11) + 0.5) / 9007199254740992.0;
		const int g = std::min<int>(top, int(-log(u) * R(t)));       // typical
		switch(shape) {
			case 0: d[i] = g; break;
			case 1: d[i] = seed % 256; break;                         // constant
			case 2: d[i] = i == n - 1 ? seed % (top + 1) : g; break;  // one outlier, at the end
			case 3: d[i] = i == 0 ? seed % (top + 1) : g; break;      // ... at the start
			case 4: d[i] = r % (top + 1); break;                      // incompressible
			case 5: d[i] = std::min<int>(top, int(-log(u) * R(t) * 1.6)); break;
			case 6: d[i] = i % (top + 1); break;
			case 7: d[i] = i == n / 2 ? 255 - seed % (255 - top) : g; break;    // one that has no code
			case 8: d[i] = (r & 15) ? 0 : g; break;
			default: d[i] = i == n / 2 ? top - seed % 3 : g;          // the last ones that have
		}
	}
	return d;
}
static std::string arr(const std::vector<uint8_t>& v) { std::string s = "["; for(size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
static std::string enc(int t, const std::vector<uint8_t>& d)
{
	std::vector<uint8_t> out(d.size() * 8 + 64); std::string res = "ok";
	try { out.resize(Encoding::ANSEncodeDeltas(d, R(t), out.data())); } catch(std::exception& e) { res = "error"; out.clear(); }
	return "{\"kind\":\"ans\",\"t\":" + std::to_string(t) + ",\"d\":" + arr(d) + ",\"res\":\"" + res + "\",\"b\":" + arr(out) + "}\n";
}
int main(int argc, char** argv)
{
	FILE* fo = fopen(argv[1], "w"); std::string line; long n = 0;
	while(std::getline(std::cin, line)) {
		++n; int fd[2]; if(pipe(fd)) return 2;
		const pid_t pid = fork();
		if(!pid) {
			close(fd[0]); freopen("/dev/null", "w", stderr); std::cout.setstate(std::ios::failbit);
			std::istringstream is(line); std::string kind, s; int t, k, shape, num, th; uint64_t seed; is >> kind >> t;
			if(kind == "ans") { is >> shape >> num >> seed; s = enc(t, make(t, shape, num, seed)); }
			else if(kind == "park") {
				is >> k >> shape >> num >> seed; const auto d = make(t, shape, num, seed); std::string res = "ok";
				auto* buf = new std::vector<uint8_t>(phase3::CalculateParkSize(k, t), 0xA5); ParkBits stubs;
				for(int i = 0; i < num; ++i) stubs.AppendValue(0, k - kStubMinusBits);
				try { phase3::WritePark(0, d, stubs, k, t, buf->data(), buf->size()); } catch(std::exception& e) { res = "error"; buf->clear(); }
				s = "{\"kind\":\"park\",\"t\":" + std::to_string(t) + ",\"k\":" + std::to_string(k) + ",\"must\":" + (shape == 0 || shape == 2 || shape == 3 ? "1" : "0") + ",\"d\":" + arr(d) + ",\"res\":\"" + res + "\",\"b\":" + arr(*buf) + "}\n";
			} else {
				is >> num >> th >> seed; std::vector<std::string> o(th); std::vector<std::thread> ts; std::vector<std::vector<uint8_t>> ds;
				for(int i = 0; i < th; ++i) ds.push_back(make(t, 0, num, seed + i));
#ifdef VSCHED
				vs_config c; c.seed = seed; c.mem = seed & 1; c.mode = seed % 3 ? VS_RANDOM : VS_PCT; c.sticky = seed % 3 == 1 ? 60 : 0; c.pct_steps = 40; c.step_limit = 1ull << 40;
				vs_on_stall(stalled); vs_begin(c);
				for(int i = 0; i < th; ++i) ts.emplace_back([&, i] { o[i] = enc(t, ds[i]); });
				for(auto& x : ts) x.join();
				vs_end();
#else
				std::atomic<int> go{0};
				for(int i = 0; i < th; ++i) ts.emplace_back([&, i] { ++go; while(go < th); o[i] = enc(t, ds[i]); });
				for(auto& x : ts) x.join();
#endif
				for(auto& x : o) s += x;
			}
			for(size_t i = 0; i < s.size();) { const auto w = write(fd[1], s.data() + i, s.size() - i); if(w <= 0) break; i += w; }
			close(fd[1]); _exit(0);
		}
		close(fd[1]); std::string s; char b[65536]; ssize_t r; while((r = read(fd[0], b, sizeof(b))) > 0) s.append(b, r);
		close(fd[0]); int st = 0; waitpid(pid, &st, 0);
		if(st) s = "{\"kind\":\"crash\",\"sc\":\"" + line + "\",\"status\":" + std::to_string(st) + "}\n";
		else s.insert(s.size() - 2, ",\"sc\":\"" + line + "\"");
		fputs(s.c_str(), fo);
	}
	fclose(fo); printf("{\"runs\":%ld}\n", n); return 0;
}
