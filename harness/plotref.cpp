// Independent reader of finished plots and reference plotter (shares no code with the plotter).
//   ref   idhex k F7FILE SEED OUT         all tables forward; writes the sorted final values (binary u64) and
//                                         sample cases (complete trees, complete bucket pairs) for the TLA+ judge
//   check PLOT ANSTAB F7FILE IDHEX K SEED NPROOFS OUT   reads a plot completely, follows every stored pointer
#include "stub/blake3.h"
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <functional>
typedef unsigned __int128 u128;
typedef uint64_t u64;
static u64 mix(u64 x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
static const int META[8] = {0, 1, 2, 4, 4, 3, 2, 0};
struct entry { u64 y; u128 m; };
// ---- ChaCha8 keystream, key = 1 || id[0..30]
struct chacha {
	uint32_t s[16];
	static uint32_t rl(uint32_t x, int n) { return x << n | x >> (32 - n); }
	chacha(const std::vector<uint8_t>& id) {
		uint8_t key[32]; key[0] = 1; memcpy(key + 1, id.data(), 31);
		const char* c = "expand 32-byte k"; memcpy(s, c, 16); memcpy(s + 4, key, 32); memset(s + 12, 0, 16);
	}
	void block(u64 n, uint8_t* out) const {
		uint32_t x[16], z[16]; memcpy(z, s, 64); z[12] = n; z[13] = n >> 32; memcpy(x, z, 64);
		auto q = [&](int a, int b, int c, int d) { x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 12); x[a] += x[b]; x[d] = rl(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rl(x[b] ^ x[c], 7); };
		for(int r = 0; r < 4; ++r) { q(0,4,8,12); q(1,5,9,13); q(2,6,10,14); q(3,7,11,15); q(0,5,10,15); q(1,6,11,12); q(2,7,8,13); q(3,4,9,14); }
		for(int i = 0; i < 16; ++i) { x[i] += z[i]; memcpy(out + 4 * i, &x[i], 4); }
	}
};
struct bitw { uint8_t b[128] = {}; int n = 0; void put(u128 v, int len) { for(int i = len - 1; i >= 0; --i, ++n) if((v >> i) & 1) b[n >> 3] |= 0x80 >> (n & 7); } };
static u128 getbits(const uint8_t* b, u64 s, int n) { u128 v = 0; for(int i = 0; i < n; ++i) v = v << 1 | ((b[(s + i) >> 3] >> (7 - ((s + i) & 7))) & 1); return v; }
static entry F1(const chacha& c, int k, u64 x)
{
	uint8_t b[128]; const u64 bit = x * k, blk = bit / 512; c.block(blk, b); c.block(blk + 1, b + 64);
	entry e; e.y = (u64(getbits(b, bit % 512, k)) << 6) | (x >> (k - 6)); e.m = x; return e;
}
static entry FX(int k, int t, const entry& L, const entry& R)
{
	bitw w; w.put(L.y, k + 6); w.put(L.m, META[t - 1] * k); w.put(R.m, META[t - 1] * k);
	blake3_hasher h; blake3_hasher_init(&h); blake3_hasher_update(&h, w.b, (w.n + 7) / 8); uint8_t o[32]; blake3_hasher_finalize(&h, o, 32);
	entry e; e.y = getbits(o, 0, t == 7 ? k : k + 6); e.m = t == 7 ? 0 : t < 4 ? (L.m << (META[t - 1] * k)) | R.m : getbits(o, k + 6, META[t] * k); return e;
}
static const u64 B = 119, C = 127, BC = B * C;
static bool match(u64 l, u64 r)
{
	if(r / BC != l / BC + 1) return false;
	const u64 p = (l / BC) % 2, bl = (l % BC) / C, cl = l % C, br = (r % BC) / C, cr = r % C; (void)cl;
	const u64 cL = (l % BC) % C, cR = (r % BC) % C; (void)cr;
	for(u64 m = 0; m < 64; ++m)
		if((br + B - bl) % B == m % B && (cR + C - cL) % C == ((2 * m + p) * (2 * m + p)) % C) return true;
	return false;
}
static std::vector<uint8_t> hex(const std::string& s) { std::vector<uint8_t> r; for(size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(std::stoul(s.substr(i, 2), nullptr, 16)); return r; }
static std::string num2(u64 v) { return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 0xffff) + "]"; }          // as in CheckTrace
static std::string limbs16(u64 v) { std::string s = "["; for(int i = 0; i < 4; ++i) s += (i ? "," : "") + std::to_string((v >> (16 * i)) & 0xffff); return s + "]"; }
static std::string limbs12(u128 v) { std::string s = "["; for(int i = 0; i < 6; ++i) s += (i ? "," : "") + std::to_string(int((v >> (12 * i)) & 0xfff)); return s + "]"; }
template<class T, class F> static std::string arr(const T& v, F f) { std::string s = "["; bool c = false; for(auto& x : v) { if(c) s += ","; s += f(x); c = true; } return s + "]"; }
template<class T> static std::string ints(const T& v) { return arr(v, [](auto x) { return std::to_string((long long)x); }); }

static int do_ref(char** a)
{
	const auto id = hex(a[0]); const int k = atoi(a[1]); u64 seed = strtoull(a[3], 0, 10); FILE* out = fopen(a[4], "w");
	const chacha cc(id);
	struct node { u64 l, r; };
	std::vector<std::vector<entry>> T(8); std::vector<std::vector<node>> P(8);
	for(u64 x = 0; x < (u64(1) << k); ++x) { T[1].push_back(F1(cc, k, x)); P[1].push_back({x, 0}); }
	for(int t = 1; t < 7; ++t) {
		std::vector<u64> ord(T[t].size()); for(u64 i = 0; i < ord.size(); ++i) ord[i] = i;
		std::sort(ord.begin(), ord.end(), [&](u64 i, u64 j) { return T[t][i].y < T[t][j].y; });
		std::map<u64, std::pair<u64, u64>> bk;                    // bucket -> range in ord
		for(u64 i = 0; i < ord.size(); ++i) { const u64 q = T[t][ord[i]].y / BC; auto it = bk.find(q); if(it == bk.end()) bk[q] = {i, i + 1}; else it->second.second = i + 1; }
		const u64 pick = mix(seed + t) % std::max<size_t>(bk.size(), 1); u64 nb = 0;
		for(auto& e : bk) {
			const u64 q = e.first; const bool smp = nb++ == pick; auto rt = bk.find(q + 1); std::vector<std::array<u64, 2>> pr; std::vector<u64> L, R;
			if(rt != bk.end()) {
				std::vector<std::vector<u64>> pos(BC);
				for(u64 j = rt->second.first; j < rt->second.second; ++j) pos[T[t][ord[j]].y % BC].push_back(ord[j]);
				for(u64 i = e.second.first; i < e.second.second; ++i) {
					const auto& l = T[t][ord[i]]; const u64 p = q % 2, b = (l.y % BC) / C, c = (l.y % BC) % C;
					for(u64 m = 0; m < 64; ++m)
						for(u64 j : pos[((b + m) % B) * C + ((2 * m + p) * (2 * m + p) + c) % C]) {
							P[t + 1].push_back({ord[i], j}); T[t + 1].push_back(FX(k, t + 1, l, T[t][j]));
							if(smp) pr.push_back({l.y % BC, T[t][j].y % BC});
						}
				}
				if(smp) for(u64 j = rt->second.first; j < rt->second.second; ++j) R.push_back(T[t][ord[j]].y % BC);
			}
			if(smp) {
				for(u64 i = e.second.first; i < e.second.second; ++i) L.push_back(T[t][ord[i]].y % BC);
				std::sort(pr.begin(), pr.end());
				fprintf(out, "{\"kind\":\"bucket\",\"t\":%d,\"par\":%d,\"L\":%s,\"R\":%s,\"pairs\":%s}\n", t, int(q % 2), ints(L).c_str(), ints(R).c_str(), arr(pr, [](auto& x) { return ints(x); }).c_str());
			}
		}
	}
	for(int s = 0; s < 2 && T[7].size(); ++s) {                      // complete trees of the reference
		u64 i = mix(seed + 77 + s) % T[7].size(); std::vector<u64> cur{i};
		for(int t = 7; t > 1; --t) { std::vector<u64> n; for(u64 c : cur) { n.push_back(P[t][c].l); n.push_back(P[t][c].r); } cur = n; }
		fprintf(out, "{\"kind\":\"tree\",\"k\":%d,\"id\":%s,\"xs\":%s,\"f7\":%s}\n", k, ints(id).c_str(), arr(cur, limbs16).c_str(), num2(T[7][i].y).c_str());
	}
	std::vector<u64> f7; for(auto& e : T[7]) f7.push_back(e.y); std::sort(f7.begin(), f7.end());
	FILE* f = fopen(a[2], "wb"); fwrite(f7.data(), 8, f7.size(), f); fclose(f); fclose(out);
	printf("{\"n\":%zu}\n", f7.size());
	return 0;
}

static std::vector<std::vector<int>> g_tab;
static bool ans(int t, const uint8_t* b, int sz, size_t max, std::vector<int>& out)
{
	static const int which[8] = {0, 0, 1, 1, 2, 3, 4, 5};
	const auto& D = g_tab[which[t]];
	if(sz < 4 || !b[sz - 1]) return false;
	int hb = 31 - __builtin_clz(b[sz - 1]); long p = 8 * (sz - 1) + hb;
	if(p < 28) return false;
	auto get = [&](long p, int n) { int v = 0; for(int i = 0; i < n; ++i) { const long q = p - n + i; v |= ((b[q >> 3] >> (q & 7)) & 1) << i; } return v; };
	int s1 = get(p, 14), s2 = get(p - 14, 14); p -= 28;
	while(out.size() < max) {
		const int e = D[s1], nb = (e >> 8) & 15;
		out.push_back(e & 255);
		if(nb > p) { if(p) return false; out.push_back(D[s2] & 255); return true; }
		const int n = (e >> 12) + get(p, nb); p -= nb; s1 = s2; s2 = n;
	}
	return false;
}
static void unsquare(u128 lp, u64& x, u64& y)
{	// largest x with x(x-1)/2 <= lp
	u64 lo = 0, hi = u64(1) << 40;
	while(lo < hi) { const u64 m = lo + (hi - lo + 1) / 2; if(u128(m) * (m - 1) / 2 <= lp) lo = m; else hi = m - 1; }
	x = lo; y = lp - u128(lo) * (lo ? lo - 1 : 0) / 2;
}
static int do_check(char** a)
{
	std::vector<uint8_t> b; { std::ifstream f(a[0], std::ios::binary); b.assign(std::istreambuf_iterator<char>(f), {}); }
	{ std::ifstream f(a[1]); std::string l; while(std::getline(f, l)) { std::vector<int> v; std::string c; for(char& ch : l) if(ch == '[' || ch == ']' || ch == ',') ch = ' '; std::istringstream is(l); int x; while(is >> x) v.push_back(x); g_tab.push_back(v); } }
	std::vector<u64> f7; { FILE* f = fopen(a[2], "rb"); u64 v; while(fread(&v, 8, 1, f) == 1) f7.push_back(v); fclose(f); }
	const auto id = hex(a[3]); const int k = atoi(a[4]); const u64 seed = strtoull(a[5], 0, 10); const int np = atoi(a[6]); FILE* out = fopen(a[7], "w");
	const chacha cc(id);
	std::string why; u64 total = 0, reach = 0;
	auto stats = [&](u64 bad) { fprintf(out, "{\"kind\":\"all\",\"entries\":%llu,\"reached\":%llu,\"bad\":%llu,\"why\":\"%s\"}\n", (unsigned long long)total, (unsigned long long)reach, (unsigned long long)bad, why.c_str()); fclose(out); printf("{\"entries\":%llu,\"bad\":%llu}\n", (unsigned long long)total, (unsigned long long)bad); return 0; };
	if(b.size() < 60) { why = "short file"; return stats(1); }
	const int fl = b[52] << 8 | b[53], ml = b[54 + fl] << 8 | b[55 + fl]; const u64 hs = 56 + fl + ml + 80;
	if(hs > b.size()) { why = "short header"; return stats(1); }
	u64 ptr[12] = {}; for(int i = 1; i <= 10; ++i) ptr[i] = u64(getbits(&b[hs - 80 + (i - 1) * 8], 0, 64)); ptr[11] = b.size();
	fprintf(out, "{\"kind\":\"head\",\"k\":%d,\"id\":%s,\"n\":%zu,\"ml\":%d,\"bytes\":%s,\"size\":%zu", k, ints(id).c_str(), f7.size(), ml, ints(std::vector<uint8_t>(b.begin(), b.begin() + hs)).c_str(), b.size());
	if(const char* m = getenv("MEMO")) fprintf(out, ",\"memo\":%s", ints(hex(m)).c_str()); else fprintf(out, ",\"memo\":[]");
	fprintf(out, "}\n");
	for(int i = 1; i <= 10; ++i) if(ptr[i] > ptr[i + 1] || ptr[i] < hs) { why = "pointers not increasing"; return stats(1); }
	const u64 lpb = (2 * k + 7) / 8, stb = (2047 * (k - 3) + 7) / 8;
	std::vector<std::vector<u128>> LP(8); u64 bad = 0; std::vector<std::string> parks;
	std::vector<std::vector<u64>> parkoff(8), parkn(8), parkbase(8);
	for(int t = 1; t <= 6; ++t) {
		const u64 ps = lpb + stb + ((t == 1 ? 2047 * 56 / 10 : 2047 * 35 / 10) + 7) / 8;
		if((ptr[t + 1] - ptr[t]) % ps) { why = "table size"; return stats(1); }
		const u64 n = (ptr[t + 1] - ptr[t]) / ps;
		for(u64 p = 0; p < n; ++p) {
			const uint8_t* q = &b[ptr[t] + p * ps]; const uint8_t* d = q + lpb + stb; const int w = d[0] | d[1] << 8, sz = w & 0x7fff; std::vector<int> ds;
			bool ok = lpb + stb + 2 + sz <= ps;
			if(ok) { if(w & 0x8000) ds.assign(d + 2, d + 2 + sz); else ok = ans(t, d + 2, sz, 2050, ds); }
			if(!ok || ds.size() > 2047 || (p + 1 < n && ds.size() != 2047)) { why = "park of table " + std::to_string(t) + " not decodable"; return stats(1); }
			parkoff[t].push_back(q - b.data()); parkn[t].push_back(ds.size() + 1); parkbase[t].push_back(LP[t].size());
			u128 lp = getbits(q, 0, 2 * k); LP[t].push_back(lp);
			for(size_t i = 0; i < ds.size(); ++i) { lp += (u128(ds[i]) << (k - 3)) + getbits(q + lpb, i * (k - 3), k - 3); LP[t].push_back(lp); }
		}
	}
	// final positions and which entries are reachable
	const u64 n7 = f7.size(), p7s = ((k + 1) * 2048 + 7) / 8; std::vector<u64> pos7;
	for(u64 i = 0; i < n7; ++i) { const u64 o = ptr[7] + (i / 2048) * p7s; if(o + p7s > ptr[8]) { why = "P7 too short"; return stats(1); } pos7.push_back(u64(getbits(&b[o], (i % 2048) * (k + 1), k + 1))); }
	std::vector<std::vector<char>> used(8); for(int t = 1; t <= 6; ++t) used[t].assign(LP[t].size(), 0);
	for(u64 i = 0; i < n7; ++i) if(pos7[i] >= LP[6].size()) { why = "final position out of range"; return stats(1); } else used[6][pos7[i]] = 1;
	for(int t = 6; t > 1; --t) for(u64 i = 0; i < LP[t].size(); ++i) if(used[t][i]) {
		u64 x, y; unsquare(LP[t][i], x, y); if(x >= LP[t - 1].size() || y >= LP[t - 1].size()) { why = "pointer of table " + std::to_string(t) + " out of range"; return stats(1); } used[t - 1][x] = used[t - 1][y] = 1; }
	std::vector<std::vector<entry>> E(8); std::vector<std::vector<std::array<u64, 2>>> ch(8);
	for(int t = 1; t <= 6; ++t) {
		E[t].resize(LP[t].size()); ch[t].resize(LP[t].size());
		for(u64 i = 0; i < LP[t].size(); ++i) {
			++total; if(!used[t][i]) continue; ++reach;
			u64 x, y; unsquare(LP[t][i], x, y);
			if(t == 1 && (x >> k)) { ++bad; if(why.empty()) why = "x too large"; continue; }
			const entry ex = t == 1 ? F1(cc, k, x) : E[t - 1][x], ey = t == 1 ? F1(cc, k, y) : E[t - 1][y];
			if(match(ex.y, ey.y)) { E[t][i] = FX(k, t + 1, ex, ey); ch[t][i] = {x, y}; }
			else if(match(ey.y, ex.y)) { E[t][i] = FX(k, t + 1, ey, ex); ch[t][i] = {y, x}; }
			else { ++bad; if(why.empty()) why = "no match in table " + std::to_string(t) + " entry " + std::to_string(i); }
		}
	}
	// values answered by following the pointers, in the order in which they are listed
	for(u64 i = 0; i < n7; ++i) if(E[6][pos7[i]].y != f7[i]) { ++bad; if(why.empty()) why = "proof of final value " + std::to_string(i) + " yields another value"; }
	// the listed values themselves
	{	const u64 w = (k + 7) / 8, n1 = (n7 + 9999) / 10000, c3 = k < 20 ? 10000 : 3000;
		if(ptr[9] - ptr[8] != (n1 + 1) * w || ptr[11] - ptr[10] != n1 * c3 || ptr[10] - ptr[9] != (n1 ? 2 : 1) * w) { why = "checkpoint table size"; return stats(1); }
		for(u64 i = 0; i < n1; ++i) {
			u64 v = u64(getbits(&b[ptr[8] + i * w], 0, k)), m = std::min<u64>(10000, n7 - i * 10000); const uint8_t* d = &b[ptr[10] + i * c3]; const int sz = d[0] << 8 | d[1]; std::vector<int> ds;
			if(u64(sz) + 2 > c3 || (sz && !ans(7, d + 2, sz, m + 8, ds))) { ++bad; why = "checkpoint park not decodable"; break; }
			ds.resize(std::max<size_t>(ds.size(), m)); bool ok = v == f7[i * 10000];
			for(u64 j = 1; j < m; ++j) { v += ds[j - 1]; if(v != f7[i * 10000 + j]) ok = false; }
			if(!ok) { ++bad; if(why.empty()) why = "final value differs near " + std::to_string(i * 10000); }
		}
		if(n1 && u64(getbits(&b[ptr[9]], 0, k)) != f7[0]) { ++bad; why = "C2"; }
	}
	std::vector<u64> smp; for(int s = 0; s < np && n7; ++s) smp.push_back(mix(seed + s) % n7);
	if(n7 && np > 1) { smp[0] = 0; smp[1] = n7 - 1; }
	fprintf(out, "{\"kind\":\"fin\",\"k\":%d,\"n\":%zu,\"oC1\":%llu,\"oC2\":%llu,\"oC3\":%llu,\"bytes\":%s,\"f7\":%s,\"smp\":%s}\n", k, f7.size(), (unsigned long long)(ptr[8] - ptr[7]), (unsigned long long)(ptr[9] - ptr[7]), (unsigned long long)(ptr[10] - ptr[7]),
		ints(std::vector<uint8_t>(b.begin() + ptr[7], b.end())).c_str(), arr(f7, num2).c_str(), arr(smp, [&](u64 i) { return "[" + std::to_string(i + 1) + "," + num2(pos7[i]) + "]"; }).c_str());
	std::vector<std::map<u64, char>> touched(8);
	for(size_t s = 0; s < smp.size(); ++s) {
		std::vector<std::string> lev; std::vector<u64> cur{pos7[smp[s]]};
		for(int t = 6; t >= 1; --t) {
			lev.push_back(arr(cur, [&](u64 p) { return "[" + limbs12(p) + "," + limbs12(LP[t][p]) + "]"; }));
			if(s < 2) for(u64 p : cur) touched[t][p / 2048] = 1;
			std::vector<u64> n; for(u64 p : cur) { n.push_back(ch[t][p][0]); n.push_back(ch[t][p][1]); } cur = n;
		}
		std::string l = "["; for(size_t i = 0; i < lev.size(); ++i) l += (i ? "," : "") + lev[i]; l += "]";
		fprintf(out, "{\"kind\":\"proof\",\"k\":%d,\"id\":%s,\"xs\":%s,\"f7\":%s,\"lev\":%s}\n", k, ints(id).c_str(), arr(cur, limbs16).c_str(), num2(f7[smp[s]]).c_str(), l.c_str());
	}
	for(int t = 1; t <= 6; ++t) { int c = 0; touched[t][parkn[t].size() - 1] = 1;
		for(auto it = touched[t].rbegin(); it != touched[t].rend() && c < 2; ++it, ++c) { const u64 p = it->first; if(p >= parkn[t].size()) continue;
			const u64 ps = lpb + stb + ((t == 1 ? 2047 * 56 / 10 : 2047 * 35 / 10) + 7) / 8;
			fprintf(out, "{\"kind\":\"park\",\"k\":%d,\"t\":%d,\"n\":%llu,\"bytes\":%s,\"pts\":%s}\n", k, t, (unsigned long long)parkn[t][p],
				ints(std::vector<uint8_t>(b.begin() + parkoff[t][p], b.begin() + parkoff[t][p] + ps)).c_str(), arr(std::vector<u128>(LP[t].begin() + parkbase[t][p], LP[t].begin() + parkbase[t][p] + parkn[t][p]), limbs12).c_str()); } }
	return stats(bad);
}
int main(int argc, char** argv)
{
	if(argc == 7 && !strcmp(argv[1], "ref")) return do_ref(argv + 2);
	if(argc == 10 && !strcmp(argv[1], "check")) return do_check(argv + 2);
	return 9;
}
