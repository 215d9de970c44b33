// C10: ChaCha8 key stream and the first table.
#include <chia/phase1.hpp>
#include "vc.h"

// ---- specification of ChaCha8 (quarter round on a 4x4 state, 64-bit counter in words 12,13)
static u32 rotl(u32 v, int n) { return (v << n) | (v >> (32 - n)); }
static void qr(u32* x, int a, int b, int c, int d) {
	x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 16);
	x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 12);
	x[a] += x[b]; x[d] = rotl(x[d] ^ x[a], 8);
	x[c] += x[d]; x[b] = rotl(x[b] ^ x[c], 7);
}
static void spec_block(const u32* key, u32 c0, u32 c1, u32 iv0, u32 iv1, u32* out) {
	u32 s[16] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 }, x[16];
	for(int i = 0; i < 8; ++i) s[4 + i] = key[i];
	s[12] = c0; s[13] = c1; s[14] = iv0; s[15] = iv1;
	for(int i = 0; i < 16; ++i) x[i] = s[i];
	for(int r = 0; r < 4; ++r) {
		for(int c = 0; c < 4; ++c) qr(x, c, 4 + c, 8 + c, 12 + c);
		for(int c = 0; c < 4; ++c) qr(x, c, 4 + (c + 1) % 4, 8 + (c + 2) % 4, 12 + (c + 3) % 4);
	}
	for(int i = 0; i < 16; ++i) out[i] = x[i] + s[i];
}
static u32 le32(const u8* p) { u32 v; memcpy(&v, p, 4); return v; }

VC_HARNESS(C10_keystream) {
	u8 key[32]; u32 kw[8];
	for(int i = 0; i < 8; ++i) { kw[i] = vc_u32("key"); for(int j = 0; j < 4; ++j) key[4 * i + j] = kw[i] >> (8 * j); }
	u64 wrap = vc_case("wrap", 0, 4); u32 lo = vc_u32("ctr_lo"); if(wrap) lo = u32(0) - u32(wrap); else vc_assume(lo <= 0xfffffff8u); u32 hi = vc_u32("ctr_hi"); u64 ctr = (u64(hi) << 32) | lo; u64 n = vc_case("blocks", 0, 4);
	chacha8_ctx ctx; vc_havoc(&ctx, sizeof(ctx));
	u8 iv[8]; bool has_iv = vc_case("has_iv", 0, 1); u32 i0 = has_iv ? vc_u32("iv0") : 0, i1 = has_iv ? vc_u32("iv1") : 0;
	for(int j = 0; j < 4; ++j) { iv[j] = i0 >> (8 * j); iv[4 + j] = i1 >> (8 * j); }
	chacha8_keysetup(&ctx, key, 256, has_iv ? iv : 0);
	u8 out[5 * 64]; for(int i = 0; i < 5 * 64; ++i) out[i] = 0x5A;
	chacha8_get_keystream(&ctx, ctr, n, out);
	u32 want[16];
	for(u64 b = 0; b < n; ++b) {
		u32 c0 = lo + b, c1 = hi; if(c0 < b) c1 = hi + 1;     // 64-bit counter
		spec_block(kw, c0, c1, i0, i1, want);
		for(int i = 0; i < 16; ++i) vc_assert(le32(out + 64 * b + 4 * i) == want[i], "key stream word");
	}
	for(u64 i = n * 64; i < 5 * 64; ++i) vc_assert(out[i] == 0x5A, "nothing written past the requested blocks");
	vc_cover("keystream");
}
VC_HARNESS(C10_keystream_128) {                            // 128-bit keys: constants and key repeated
	u8 key[16]; u32 kw[4];
	for(int i = 0; i < 4; ++i) { kw[i] = vc_u32("key"); for(int j = 0; j < 4; ++j) key[4 * i + j] = kw[i] >> (8 * j); }
	chacha8_ctx ctx; vc_havoc(&ctx, sizeof(ctx));
	chacha8_keysetup(&ctx, key, 128, 0);
	const u32 tau[4] = { 0x61707865, 0x3120646e, 0x79622d36, 0x6b206574 };
	for(int i = 0; i < 4; ++i) { vc_assert(ctx.input[i] == tau[i], "tau"); vc_assert(ctx.input[4 + i] == kw[i] && ctx.input[8 + i] == kw[i], "key words"); }
	vc_assert(ctx.input[14] == 0 && ctx.input[15] == 0, "zero IV");
	vc_cover("128");
}
// ---- F1: key derivation
VC_HARNESS(C10_f1_key) {
	u8 id[32]; for(int i = 0; i < 32; ++i) id[i] = vc_u8("id");
	phase1::F1Calculator F1(32, id);
	for(int i = 0; i < 32; ++i) {
		u8 want = i == 0 ? 1 : id[i - 1];
		vc_assert(u8(F1.enc_ctx_.input[4 + i / 4] >> (8 * (i % 4))) == want, "cipher key is 01 || id[0..30]");
	}
	vc_assert(F1.enc_ctx_.input[14] == 0 && F1.enc_ctx_.input[15] == 0, "zero IV");
	vc_cover("key");
}
// ---- F1: y of x is the k-bit slice of the stream at bit x*k.  The stream is a function of the byte index
// (contract of chacha8_get_keystream proved above).
static u8 g_id[32];
static u8 stream_byte(u64 i) {
#if VC_SYMBOLIC
	return u8(vc_uf1("keystream", i));
#else
	u8 key[32]; u32 kw[8], w[16]; key[0] = 1; for(int j = 0; j < 31; ++j) key[j + 1] = g_id[j];
	for(int j = 0; j < 8; ++j) kw[j] = le32(key + 4 * j);
	spec_block(kw, i / 64, (i / 64) >> 32, 0, 0, w); return w[i % 64 / 4] >> (8 * (i % 4));
#endif
}
static u64 g_start;
static void keystream_contract(const chacha8_ctx*, u64 pos, u32 n, u8* c) {
	u64 m = vc_split(n, 0, 4);
	vc_require(pos == g_start, "the block that contains bit first_x*k is requested");
	for(u64 i = 0; i < m * 64; ++i) c[i] = stream_byte(g_start * 64 + i);
}
static u64 spec_y(u64 base_byte, u64 bit, int k, u64 x) {            // stream offset = base_byte*8 + bit
	u64 r = 0; u64 b0 = bit / 8;
	for(int i = 0; i < 6; ++i) r = (r << 8) | stream_byte(base_byte + b0 + i);   // 48 bits >= 7 + 34
	r = (r >> (48 - bit % 8 - k)) & ((1ull << k) - 1);
	return (r << 6) | (x >> (k - 6));
}
VC_HARNESS(C10_compute_block) {
	int k = vc_case("k", KMAX == 32 ? 16 : 32, KMAX); u64 r = vc_case("r", 0, 31), q = vc_range("q", 0, (1ull << KMAX) / 512 - 1);
	u64 first = q * 512 + r * 16;
	vc_assume(first + 16 <= (1ull << k));
	for(int i = 0; i < 32; ++i) g_id[i] = VC_SYMBOLIC ? i : vc_u8("id");
	g_start = q * k + r * 16 * k / 512;
	vc_replace("^chacha8_get_keystream$", (void*)keystream_contract);
	phase1::F1Calculator F1(k, g_id);
	phase1::entry_1 out[17]; vc_havoc(out, sizeof(out));
	u64 gy = out[16].y, gx = out[16].x;
	F1.compute_block(first, 16, out);
	bool okx = true, oky = true;
	for(u64 i = 0; i < 16; ++i) {
		okx = okx & (u64(out[i].x) == first + i);
		oky = oky & (u64(out[i].y) == spec_y(q * k * 64, (r * 16 + i) * k, k, first + i));
	}
	vc_assert(okx, "entry i of the block is x = first + i");
	vc_assert(oky, "y is the k-bit key stream slice at bit x*k, extended by the top bits of x");
	vc_assert(out[16].y == gy && out[16].x == gx, "nothing written past the block");
	vc_cover("block");
}
