// plot k idhex memohex|- threads lb lb3 rchunk wchunk multi2 name tmp/ tmp2/ out/
// header k idhex memolen seed file     (the header writer alone; prints the size it returns)
#include "phases.h"
#include <chia/settings.h>
static std::vector<uint8_t> hex(const std::string& s) { std::vector<uint8_t> r; if(s != "-") for(size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(std::stoul(s.substr(i, 2), nullptr, 16)); return r; }
int main(int argc, char** argv)
{
	std::string what = argv[1];
	if(what == "header") {
		const auto id = hex(argv[3]); std::vector<uint8_t> memo(std::stoul(argv[4])); uint64_t s = std::stoul(argv[5]);
		for(auto& b : memo) { s = s * 6364136223846793005ull + 1442695040888963407ull; b = s >> 56; }
		FILE* f = fopen(argv[6], "wb");
		const auto n = write_header(f, std::stoi(argv[2]), id.data(), memo.data(), memo.size());
		if(fclose(f)) return 3;
		std::cout << "\nRET " << n << std::endl;
		return 0;
	}
	if(argc != 15) return 9;
	phase1::input_t in; in.k = std::stoi(argv[2]);
	const auto id = hex(argv[3]); std::copy(id.begin(), id.end(), in.id.begin());
	in.memo = hex(argv[4]);
	const int nt = std::stoi(argv[5]), lb = std::stoi(argv[6]), lb3 = std::stoi(argv[7]);
	g_read_chunk_size = std::stoul(argv[8]); g_write_chunk_size = std::stoul(argv[9]); phase2::g_thread_multi = std::stoi(argv[10]);
	const std::string name = argv[11], d1 = argv[12], d2 = argv[13], d3 = argv[14];
	in.plot_name = name;
	phase1::output_t o1; phase2::output_t o2; phase3::output_t o3; phase4::output_t o4;
	run_phase1(in, o1, nt, lb, name, d1, d2);
	run_phase2(o1, o2, nt, lb3, name, d1, d2);
	run_phase3(o2, o3, nt, lb3, name, d1, d2, d3);
	run_phase4(o3, o4, nt, lb3, name, d1, d2, d3);
	std::cout << "\nPLOT " << o4.plot_file_name << " " << o4.plot_size << std::endl;
	return 0;
}
