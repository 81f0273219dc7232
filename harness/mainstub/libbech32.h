// stand-in for libbech32: decoding of bech32/bech32m strings (BIP-173, BIP-350)
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <stdexcept>
namespace bech32 {
enum Encoding { Invalid, Bech32, Bech32m };
struct DecodedResult {
	Encoding encoding = Invalid;
	std::string hrp;
	std::vector<unsigned char> dp;
};
DecodedResult decode(const std::string& str);
}
