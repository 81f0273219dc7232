#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
// single-chunk BLAKE3 (inputs up to 1024 bytes), portable
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { uint8_t buf[1024]; size_t len; } blake3_hasher;
void blake3_hasher_init(blake3_hasher*);
void blake3_hasher_update(blake3_hasher*, const void*, size_t);
void blake3_hasher_finalize(const blake3_hasher*, uint8_t*, size_t);
#ifdef __cplusplus
}
#endif
