// Stand-ins for the libraries of the main program which are not here: libsodium, bech32, bls (toy group).
// Sleeping is cut short: a retry after five minutes comes after some milliseconds.
#include "bls.hpp"
#include "libbech32.h"
#include "sodium.h"
#include <cstdio>
#include <cstdlib>
#include <time.h>
#include <errno.h>
#include <unistd.h>
#include <sys/random.h>
#include <sys/syscall.h>

extern "C" int nanosleep(const struct timespec* req, struct timespec*)
{
	struct timespec ts = *req;
	if(ts.tv_sec > 0 || ts.tv_nsec > 20000000) { ts.tv_sec = 0; ts.tv_nsec = 20000000; }
	syscall(SYS_nanosleep, &ts, NULL);		// signals end it early, which is fine
	return 0;
}
extern "C" int clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec* rem)
{
	if(flags) { struct timespec ts = {0, 20000000}; return nanosleep(&ts, rem); }
	return nanosleep(req, rem);
}
extern "C" unsigned sleep(unsigned s) { struct timespec ts = {(time_t)s, 0}; nanosleep(&ts, NULL); return 0; }
extern "C" int usleep(useconds_t u) { struct timespec ts = {0, (long)(u < 20000 ? u : 20000) * 1000}; return nanosleep(&ts, NULL); }

extern "C" int sodium_init(void) { return 0; }
extern "C" void sodium_memzero(void* p, size_t n) { memset(p, 0, n); }
extern "C" void randombytes_buf(void* buf, size_t size)
{
	if(const char* seed = getenv("RANDSEED")) {			// reproducible: the n-th request gets H(seed, n, 0), H(seed, n, 1), ...
		static uint32_t calls = 0;
		uint8_t in[12], out[32];
		bls::Util::IntToFourBytes(in, atol(seed)); bls::Util::IntToFourBytes(in + 4, calls++);
		for(size_t i = 0; i < size; ++i) {
			if(i % 32 == 0) { bls::Util::IntToFourBytes(in + 8, i / 32); bls::toy_sha256(in, 12, out); }
			((uint8_t*)buf)[i] = out[i % 32];
		}
	}
	else for(size_t i = 0; i < size;) { ssize_t g = getrandom((char*)buf + i, size - i, 0); if(g > 0) i += g; }
	if(const char* f = getenv("RANDLOG")) {
		if(FILE* o = fopen(f, "a")) { fprintf(o, "%s\n", bls::Util::HexStr((uint8_t*)buf, size).c_str()); fclose(o); }
	}
}
extern "C" uint32_t randombytes_random(void) { uint32_t v; randombytes_buf(&v, 4); return v; }

namespace bls {
void toy_sha256(const uint8_t* in, size_t n, uint8_t* out)
{
	static const uint32_t K[64] = {
		0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
		0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
		0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
		0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
	uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
	vector<uint8_t> m(in, in + n);
	m.push_back(0x80);
	while(m.size() % 64 != 56) m.push_back(0);
	for(int i = 7; i >= 0; --i) m.push_back((uint64_t(n) * 8) >> (8 * i));
	auto R = [](uint32_t x, int r) { return (x >> r) | (x << (32 - r)); };
	for(size_t o = 0; o < m.size(); o += 64) {
		uint32_t w[64];
		for(int i = 0; i < 16; ++i) w[i] = Util::FourBytesToInt(&m[o + 4 * i]);
		for(int i = 16; i < 64; ++i) w[i] = w[i-16] + (R(w[i-15],7)^R(w[i-15],18)^(w[i-15]>>3)) + w[i-7] + (R(w[i-2],17)^R(w[i-2],19)^(w[i-2]>>10));
		uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],q=h[7];
		for(int i = 0; i < 64; ++i) {
			uint32_t t1 = q + (R(e,6)^R(e,11)^R(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i];
			uint32_t t2 = (R(a,2)^R(a,13)^R(a,22)) + ((a&b)^(a&c)^(b&c));
			q=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
		}
		h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; h[4]+=e; h[5]+=f; h[6]+=g; h[7]+=q;
	}
	for(int i = 0; i < 8; ++i) Util::IntToFourBytes(out + 4 * i, h[i]);
}
static std::array<uint8_t, 32> H(uint8_t tag, const uint8_t* p, size_t n)
{
	vector<uint8_t> v(1, tag); v.insert(v.end(), p, p + n);
	std::array<uint8_t, 32> r; toy_sha256(v.data(), v.size(), r.data()); return r;
}
PrivateKey CoreMPL::KeyGen(const Bytes& seed)
{
	if(seed.size() < 32) throw std::invalid_argument("Seed size must be at least 32 bytes");
	PrivateKey k; k.d = H(1, seed.begin(), seed.size()); return k;
}
static PrivateKey child(uint8_t tag, const PrivateKey& sk, uint32_t i)
{
	uint8_t b[36]; memcpy(b, sk.d.data(), 32); Util::IntToFourBytes(b + 32, i);
	PrivateKey k; k.d = H(tag, b, 36); return k;
}
PrivateKey CoreMPL::DeriveChildSk(const PrivateKey& sk, uint32_t i) { return child(2, sk, i); }
PrivateKey CoreMPL::DeriveChildSkUnhardened(const PrivateKey& sk, uint32_t i) { return child(4, sk, i); }
G1Element PrivateKey::GetG1Element() const
{
	const auto h = H(3, d.data(), 32);
	G1Element e; e.v = (((uint32_t(h[0]) & 63) << 24) | (h[1] << 16) | (h[2] << 8) | h[3]) % kToyPrime; return e;
}
}

namespace bech32 {
DecodedResult decode(const std::string& str)
{
	static const std::string cs = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
	DecodedResult r;
	if(str.size() > 90) throw std::runtime_error("bech32 string too long");
	if(str.size() < 8) throw std::runtime_error("bech32 string too short");
	bool lo = false, up = false;
	std::string s;
	for(unsigned char c : str) {
		if(c < 33 || c > 126) throw std::runtime_error("bech32 string contains invalid character");
		lo |= c >= 'a' && c <= 'z'; up |= c >= 'A' && c <= 'Z';
		s += char(tolower(c));
	}
	if(lo && up) throw std::runtime_error("bech32 string is mixed case");
	const auto p = s.rfind('1');
	if(p == std::string::npos) throw std::runtime_error("separator character is missing");
	if(p == 0 || p + 7 > s.size()) throw std::runtime_error("invalid separator position");
	std::vector<unsigned char> v, d;
	for(size_t i = 0; i < p; ++i) v.push_back(s[i] >> 5);
	v.push_back(0);
	for(size_t i = 0; i < p; ++i) v.push_back(s[i] & 31);
	for(size_t i = p + 1; i < s.size(); ++i) {
		const auto q = cs.find(s[i]);
		if(q == std::string::npos) throw std::runtime_error("data part contains invalid character");
		d.push_back(q);
	}
	v.insert(v.end(), d.begin(), d.end());
	uint32_t c = 1;
	for(auto x : v) {
		static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
		const uint32_t b = c >> 25;
		c = ((c & 0x1ffffff) << 5) ^ x;
		for(int i = 0; i < 5; ++i) if((b >> i) & 1) c ^= G[i];
	}
	if(c != 1 && c != 0x2bc830a3) return r;
	r.encoding = c == 1 ? Bech32 : Bech32m;
	r.hrp = s.substr(0, p);
	r.dp.assign(d.begin(), d.end() - 6);
	return r;
}
}
