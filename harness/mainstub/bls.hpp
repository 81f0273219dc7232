// Stand-in for bls-signatures with the same interface and a toy group: the integers modulo a prime.
// Everything is a fixed function of its input (built on SHA-256), so that results can be computed independently.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
using std::vector;
using std::string;
namespace bls {
using std::vector;
constexpr uint32_t kToyPrime = 998244353;
void toy_sha256(const uint8_t* in, size_t n, uint8_t* out);

class Bytes {
public:
	Bytes(const uint8_t* p, size_t n) : p(p), n(n) {}
	Bytes(const vector<uint8_t>& v) : p(v.data()), n(v.size()) {}
	const uint8_t* begin() const { return p; }
	size_t size() const { return n; }
	const uint8_t& operator[](int i) const { return p[i]; }
private:
	const uint8_t* p;
	size_t n;
};
class Util {
public:
	static void Hash256(uint8_t* out, const uint8_t* in, size_t n) { toy_sha256(in, n, out); }
	static std::string HexStr(const uint8_t* p, size_t n) {
		static const char* d = "0123456789abcdef";
		std::string s;
		for(size_t i = 0; i < n; ++i) { s += d[p[i] >> 4]; s += d[p[i] & 15]; }
		return s;
	}
	static std::string HexStr(const vector<uint8_t>& v) { return HexStr(v.data(), v.size()); }
	template<size_t N> static std::string HexStr(const std::array<uint8_t, N>& v) { return HexStr(v.data(), N); }
	static uint32_t FourBytesToInt(const uint8_t* p) { return (uint32_t(p[0]) << 24) | (uint32_t(p[1]) << 16) | (uint32_t(p[2]) << 8) | p[3]; }
	static void IntToFourBytes(uint8_t* p, uint32_t v) { for(int i = 0; i < 4; ++i) p[i] = v >> (24 - 8 * i); }
};
// 48 bytes: 0xa0, value (4 bytes, big endian), 43 bytes 0x11
class G1Element {
public:
	static const size_t SIZE = 48;
	G1Element() {}
	static G1Element FromBytes(const Bytes& b) {
		if(b.size() != SIZE) throw std::invalid_argument("G1Element::FromBytes: Invalid size");
		G1Element e;
		e.v = Util::FourBytesToInt(b.begin() + 1);
		bool ok = b[0] == 0xa0 && e.v < kToyPrime;
		for(int i = 5; i < 48; ++i) ok &= b[i] == 0x11;
		if(!ok) throw std::invalid_argument("G1 element is invalid");
		return e;
	}
	static G1Element FromByteVector(const vector<uint8_t>& v) { return FromBytes(Bytes(v)); }
	vector<uint8_t> Serialize() const {
		vector<uint8_t> r(SIZE, 0x11);
		r[0] = 0xa0;
		Util::IntToFourBytes(r.data() + 1, v);
		return r;
	}
	std::array<uint8_t, SIZE> SerializeToArray() const {
		const auto s = Serialize();
		std::array<uint8_t, SIZE> a;
		std::copy(s.begin(), s.end(), a.begin());
		return a;
	}
	bool IsValid() const { return true; }
	void CheckValid() const {}
	friend bool operator==(const G1Element& a, const G1Element& b) { return a.v == b.v; }
	friend bool operator!=(const G1Element& a, const G1Element& b) { return a.v != b.v; }
	friend G1Element& operator+=(G1Element& a, const G1Element& b) { a.v = (uint64_t(a.v) + b.v) % kToyPrime; return a; }
	friend G1Element operator+(const G1Element& a, const G1Element& b) { G1Element r = a; r += b; return r; }
	uint32_t v = 0;
};
class PrivateKey {
public:
	static const size_t PRIVATE_KEY_SIZE = 32;
	PrivateKey() {}
	static PrivateKey FromBytes(const Bytes& b) {
		if(b.size() != 32) throw std::invalid_argument("PrivateKey::FromBytes: Invalid size");
		PrivateKey k; memcpy(k.d.data(), b.begin(), 32); return k;
	}
	static PrivateKey FromByteVector(const vector<uint8_t>& v) { return FromBytes(Bytes(v)); }
	G1Element GetG1Element() const;
	vector<uint8_t> Serialize() const { return vector<uint8_t>(d.begin(), d.end()); }
	void Serialize(uint8_t* p) const { memcpy(p, d.data(), 32); }
	friend bool operator==(const PrivateKey& a, const PrivateKey& b) { return a.d == b.d; }
	std::array<uint8_t, 32> d = {};
};
class CoreMPL {
public:
	PrivateKey KeyGen(const vector<uint8_t>& seed) { return KeyGen(Bytes(seed)); }
	PrivateKey KeyGen(const Bytes& seed);
	G1Element SkToG1(const PrivateKey& sk) { return sk.GetG1Element(); }
	PrivateKey DeriveChildSk(const PrivateKey& sk, uint32_t i);
	PrivateKey DeriveChildSkUnhardened(const PrivateKey& sk, uint32_t i);
};
class BasicSchemeMPL : public CoreMPL {};
class AugSchemeMPL : public CoreMPL {};
class PopSchemeMPL : public CoreMPL {};
class BLS { public: static bool Init() { return true; } };
}
