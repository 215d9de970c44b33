// BLAKE3 stand-in for native replay: the repository's BLAKE3 submodule is empty in this sandbox.
// Unkeyed hash of up to 1024 bytes (one chunk), which is all the plotter uses.
#pragma once
#include <stdint.h>
#include <string.h>
#include <stddef.h>
typedef struct { uint8_t buf[1024]; size_t len; } blake3_hasher;
static inline void b3_g(uint32_t* v, int a, int b, int c, int d, uint32_t x, uint32_t y) {
#define B3R(w, n) (((w) >> (n)) | ((w) << (32 - (n))))
	v[a] = v[a] + v[b] + x; v[d] = B3R(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = B3R(v[b] ^ v[c], 12);
	v[a] = v[a] + v[b] + y; v[d] = B3R(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = B3R(v[b] ^ v[c], 7);
}
static inline void blake3_hasher_init(blake3_hasher* h) { h->len = 0; memset(h->buf, 0, sizeof(h->buf)); }
static inline void blake3_hasher_update(blake3_hasher* h, const void* in, size_t n) { if(h->len + n > 1024) __builtin_trap(); memcpy(h->buf + h->len, in, n); h->len += n; }
static inline void blake3_hasher_finalize(const blake3_hasher* h, uint8_t* out, size_t n) {
	static const uint32_t IV[8] = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
	static const uint8_t P[16] = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
	uint32_t cv[8]; memcpy(cv, IV, 32);
	size_t nb = h->len ? (h->len + 63) / 64 : 1;
	for(size_t b = 0; b < nb; ++b) {
		uint32_t m[16], t[16]; uint8_t blk[64] = {0};
		size_t bl = h->len - b * 64; if(bl > 64) bl = 64;
		memcpy(blk, h->buf + b * 64, bl); memcpy(m, blk, 64);
		uint32_t fl = (b == 0 ? 1 : 0) | (b == nb - 1 ? 2 | 8 : 0);
		uint32_t v[16]; memcpy(v, cv, 32); memcpy(v + 8, IV, 16); v[12] = 0; v[13] = 0; v[14] = bl; v[15] = fl;
		for(int r = 0; r < 7; ++r) {
			b3_g(v, 0, 4, 8, 12, m[0], m[1]); b3_g(v, 1, 5, 9, 13, m[2], m[3]); b3_g(v, 2, 6, 10, 14, m[4], m[5]); b3_g(v, 3, 7, 11, 15, m[6], m[7]);
			b3_g(v, 0, 5, 10, 15, m[8], m[9]); b3_g(v, 1, 6, 11, 12, m[10], m[11]); b3_g(v, 2, 7, 8, 13, m[12], m[13]); b3_g(v, 3, 4, 9, 14, m[14], m[15]);
			for(int i = 0; i < 16; ++i) t[i] = m[P[i]];
			memcpy(m, t, 64);
		}
		for(int i = 0; i < 8; ++i) cv[i] = v[i] ^ v[i + 8];
	}
	if(n > 32) __builtin_trap();
	memcpy(out, cv, n);
}
