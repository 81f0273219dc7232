// stand-in for libsodium: only what random numbers need
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int sodium_init(void);
void randombytes_buf(void* buf, size_t size);
uint32_t randombytes_random(void);
void sodium_memzero(void* p, size_t n);
}
