// what lies in a plot file before the section under test: a pattern, then (for large offsets) a hole
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
static int before_pat(uint64_t i) { return (0x5a ^ (i * 7)) & 0xff; }
static const uint64_t before_max = 8192;
static int dif(uint64_t a, uint64_t b) { const int64_t d = int64_t(a - b); return d > 1000000000 || d < -1000000000 ? -1 : int(d); }
static bool can_sparse(const std::string& fn, uint64_t n)
{
	int fd = open(fn.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	bool ok = fd >= 0 && ftruncate(fd, n + (1 << 20)) == 0 && (lseek(fd, 0, SEEK_DATA) < 0);
	if(fd >= 0) close(fd);
	unlink(fn.c_str());
	return ok;
}
static void make_before(const std::string& fn, uint64_t n)
{
	FILE* f = fopen(fn.c_str(), "wb");
	for(uint64_t i = 0; i < n && i < before_max; ++i) fputc(before_pat(i), f);
	fflush(f);
	if(n > before_max && ftruncate(fileno(f), n)) perror("ftruncate");
	fclose(f);
}
static bool same_before(const std::string& fn, uint64_t n, int64_t skip_from, int64_t skip_to)
{
	int fd = open(fn.c_str(), O_RDONLY); bool ok = true;
	std::vector<uint8_t> b(before_max); const uint64_t m = n < before_max ? n : before_max;
	if(pread(fd, b.data(), m, 0) != ssize_t(m)) ok = false;
	for(uint64_t i = 0; ok && i < m; ++i) if(!(int64_t(i) >= skip_from && int64_t(i) < skip_to) && b[i] != before_pat(i)) ok = false;
	uint64_t p = before_max;
	while(ok && p < n) {
		const off_t d = lseek(fd, p, SEEK_DATA);
		if(d < 0 || uint64_t(d) >= n) break;
		p = d; const uint64_t c = n - p < 4096 ? n - p : 4096;
		if(pread(fd, b.data(), c, p) != ssize_t(c)) { ok = false; break; }
		for(uint64_t i = 0; i < c; ++i) if(b[i]) ok = false;
		p += c;
	}
	close(fd);
	return ok;
}
