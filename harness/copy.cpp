// copy SRC DST RCHUNK [tries]: moves a file with the real code.  0: reported success, 3: reported failure
#include <chia/copy.h>
#include <csignal>
#include <iostream>
int main(int argc, char** argv)
{
	signal(SIGXFSZ, SIG_IGN);
	g_read_chunk_size = std::stoul(argv[3]);
	const int tries = argc > 4 ? std::stoi(argv[4]) : 1;
	for(int i = 0; i < tries; ++i) {
		try { final_copy(argv[1], argv[2]); return 0; }
		catch(const std::exception& ex) { std::cerr << ex.what() << std::endl; }
	}
	return 3;
}
