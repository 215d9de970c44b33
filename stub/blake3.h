// BLAKE3 interface for the verifier: the hash is an external function (replaced by a contract in the harness).
#pragma once
#include <stdint.h>
#include <stddef.h>
typedef struct { uint8_t buf[128]; size_t len; } blake3_hasher;
extern "C" {
void blake3_hasher_init(blake3_hasher*);
void blake3_hasher_update(blake3_hasher*, const void*, size_t);
void blake3_hasher_finalize(const blake3_hasher*, uint8_t*, size_t);
}
