// C09: bit packing.
#include <chia/bits.hpp>
#include "vc.h"

static u64 be(u64 x) { return __builtin_bswap64(x); }
static u64 mask(u64 n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static bool wbit(const u64* p, u64 j) { return (be(p[j / 64]) >> (63 - j % 64)) & 1; }
static bool bbit(const u8* p, u64 j) { return (p[j / 8] >> (7 - j % 8)) & 1; }
static bool vbit(u64 v, u64 n, u64 j) { return (v >> (n - 1 - j)) & 1; }     // bit j (from the left) of an n-bit value

// the first x bits of a word, counted from the most significant one
static u64 top(int64_t x) { return x <= 0 ? 0 : x >= 64 ? ~0ull : ~(~0ull >> x); }

// ---- free functions on big-endian word buffers
VC_HARNESS(C09_write_bits) {
	u64 d[10], old[10];
	for(int i = 0; i < 10; ++i) old[i] = d[i] = vc_u64("dst");
	u64 off = vc_case("off", 0, 575), n = vc_range("n", 1, 64), v = vc_u64("value");
	vc_assume(n == 64 || v < (1ull << n));
	vc_assert((u64)write_bits(d, v, off, n) == off + n, "write_bits returns the end offset");
	u64 V = v << (64 - n), w = off / 64, o = off % 64;
	bool ok = true;
	for(u64 i = 0; i < 10; ++i) {
		u64 in = i == w ? V >> o : i == w + 1 && o ? V << (64 - o) : 0;
		ok = ok & (be(d[i]) == (be(old[i]) | in));
	}
	vc_assert(ok, "every bit inside the range takes the value, every other bit is untouched");
	vc_cover("write_bits");
}
static void append_bits_contract(const u64 off) {
	u64 d[10], old[10], s[5];
	for(int i = 0; i < 5; ++i) s[i] = vc_u64("src");
	u64 n = vc_range("n", 0, 272);
	for(int i = 0; i < 10; ++i) old[i] = d[i] = vc_u64("dst");
	vc_assert((u64)append_bits(d, s, off, n) == off + n, "append_bits returns the end offset");
	u64 w = off / 64, o = off % 64;
	bool ok = true;
	for(u64 i = 0; i < 10; ++i) {
		u64 in = 0;
		if(i >= w && i - w < 5) in |= be(s[i - w]) >> o;
		if(i > w && i - w - 1 < 5 && o) in |= be(s[i - w - 1]) << (64 - o);
		in &= top(int64_t(off + n) - int64_t(64 * i)) & ~top(int64_t(off) - int64_t(64 * i));
		ok = ok & (be(d[i]) == (be(old[i]) | in));
	}
	vc_assert(ok, "appended bits equal the source bits, all others unchanged");
	vc_cover("append_bits");
}
// bit offsets at which the plotter appends (0, meta, k+6, k+6+meta for k = 32 and 34); thorough: every offset up to 191
static const u64 APP_OFF[] = { 0, 32, 34, 38, 40, 64, 68, 70, 74, 96, 102, 106, 108, 128, 134, 136, 142, 166, 176 };
VC_HARNESS(C09_append_bits) { append_bits_contract(APP_OFF[vc_case("off", 0, 18)]); }
VC_HARNESS(C09_T_append_bits) { append_bits_contract(vc_case("off", 0, 191)); }
static void slice_bits_contract(const u64 off) {
	u64 d[5] = {}, s[5];
	for(int i = 0; i < 4; ++i) s[i] = vc_u64("src");
	s[4] = 0;
	u64 n = vc_range("n", 0, 256);
	vc_assume(off + n <= 256);
	vc_assert((u64)slice_bits(d, s, off, n) == n, "slice_bits returns the length");
	u64 w = off / 64, o = off % 64;
	bool ok = true;
	for(u64 i = 0; i < 5; ++i) {
		u64 in = i + w < 4 ? be(s[i + w]) << o : 0;
		if(i + w + 1 < 4 && o) in |= be(s[i + w + 1]) >> (64 - o);
		ok = ok & (be(d[i]) == (in & top(int64_t(n) - int64_t(64 * i))));
	}
	vc_assert(ok, "slice holds exactly the source bits, zero padded");
	vc_cover("slice_bits");
}
static const u64 OFF_slice_bits[] = { 0, 1, 22, 31, 38, 40, 63, 64, 65, 100, 127, 128, 129, 191, 192, 255 };
VC_HARNESS(C09_slice_bits) { slice_bits_contract(OFF_slice_bits[vc_case("off", 0, 15)]); }
VC_HARNESS(C09_T_slice_bits) { slice_bits_contract(vc_case("off", 0, 255)); }
// ---- Util byte conversions and slices
VC_HARNESS(C09_util_bytes) {
	u8 b[16]; u64 v = vc_u64("v"); u16 w = vc_u16("w");
	Util::IntToEightBytes(b, v);
	for(int i = 0; i < 8; ++i) vc_assert(b[i] == u8(v >> (56 - 8 * i)), "IntToEightBytes big-endian");
	vc_assert(Util::EightBytesToInt(b) == v, "EightBytesToInt inverse");
	Util::IntToTwoBytes(b, w); vc_assert(b[0] == (w >> 8) && b[1] == (w & 255), "IntToTwoBytes big-endian");
	vc_assert(Util::TwoBytesToInt(b) == w, "TwoBytesToInt inverse");
	Util::IntToTwoBytesLE(b, w); vc_assert(b[1] == (w >> 8) && b[0] == (w & 255), "IntToTwoBytesLE little-endian");
	u64 hi = vc_u64("hi");
	Util::IntTo16Bytes(b, (uint128_t(hi) << 64) | v);
	for(int i = 0; i < 8; ++i) { vc_assert(b[i] == u8(hi >> (56 - 8 * i)), "IntTo16Bytes high"); vc_assert(b[8 + i] == u8(v >> (56 - 8 * i)), "IntTo16Bytes low"); }
	u32 nb = vc_u32("nb"); vc_assume(nb < 0xfffffff0u);
	u32 al = Util::ByteAlign(nb); vc_assert(al % 8 == 0 && al >= nb && al - nb < 8, "ByteAlign rounds up to a byte");
	vc_cover("util");
}
// 64 bits starting at bit s of a big-endian byte string
static u64 window(const u8* b, u64 s) {
	u64 r = 0; for(u64 i = 0; i < 8; ++i) r = (r << 8) | b[s / 8 + i];
	if(s % 8) r = (r << (s % 8)) | (b[s / 8 + 8] >> (8 - s % 8));
	return r;
}
VC_HARNESS(C09_slice_int64) {
	u8 b[48]; for(int i = 0; i < 48; ++i) b[i] = vc_u8("b");
	u32 s = vc_case("start", 0, 255), n = vc_range("n", 1, 64);
	vc_assume(s + n <= 64 || s % 8 + n <= 64);
	vc_assert(Util::SliceInt64FromBytes(b, s, n) == window(b, s) >> (64 - n), "SliceInt64FromBytes returns exactly the n bits");
	vc_cover("slice64");
}
VC_HARNESS(C09_slice_int64_full) {
	u8 b[48]; for(int i = 0; i < 48; ++i) b[i] = vc_u8("b");
	u32 s = vc_case("start", 0, 255), n = vc_range("n", 1, 64);
	vc_assert(Util::SliceInt64FromBytesFull(b, s, n) == window(b, s) >> (64 - n), "SliceInt64FromBytesFull returns exactly the n bits");
	vc_cover("slice64full");
}
static void slice_int128_contract(const u64 s) {
	u8 b[48]; for(int i = 0; i < 48; ++i) b[i] = vc_u8("b");
	u32 n = vc_range("n", 1, 128);
	uint128_t W = (uint128_t(window(b, s)) << 64) | window(b, s + 64);
	vc_assert(Util::SliceInt128FromBytes(b, s, n) == W >> (128 - n), "SliceInt128FromBytes returns exactly the n bits");
	vc_cover("slice128");
}
static const u64 OFF_slice_int128[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 31, 32, 33, 63, 64, 65, 96, 127 };
VC_HARNESS(C09_slice_int128) { slice_int128_contract(OFF_slice_int128[vc_case("s", 0, 17)]); }
VC_HARNESS(C09_T_slice_int128) { slice_int128_contract(vc_case("s", 0, 127)); }
// ---- BitsGeneric: representation invariant  Inv: words are full except the last, which holds last_size_ bits
// (1..64) and nothing above them.
template<class V> struct cap;
template<> struct cap<SmallVector> { static const u64 n = 10; };
template<> struct cap<ParkVector> { static const u64 n = 2048; };
template<class V> void append_contract() {
	BitsGeneric<V> B; u64 N = cap<V>::n;
	u64 c = vc_range("words", 0, N - 1);
	u64 last = vc_case("last_size", 0, 64);
	u64* w = (u64*)vc_array("v", N, 8, "0:8");
	// arbitrary state satisfying Inv
	for(u64 q = 0; q < (VC_SYMBOLIC ? 0 : N); ++q) B.values_.v_[q] = w[q];
	if(VC_SYMBOLIC) vc_havoc_region(&B, 8, "0:8");
	B.values_.count_ = c; B.last_size_ = last;
	if(c == 0) vc_assume(last == 0); else vc_assume(last >= 1);
	u64 lw = c ? B.values_.v_[c - 1] : 0;
	vc_assume(c == 0 || last == 64 || lw < (1ull << last));
	u64 q = vc_range("frame_word", 0, N - 1), oq = B.values_.v_[q];
	u64 size0 = B.GetSize();
	vc_assert(size0 == (c ? (c - 1) * 64 + last : 0), "GetSize");
	u64 len = vc_range("len", 1, 64), v = vc_u64("value");
	vc_assume(len == 64 || v < (1ull << len));
	B.AppendValue(v, len);
	vc_assert(B.GetSize() == size0 + len, "AppendValue grows the size by the length");
	u64 c1 = B.values_.count_, l1 = B.last_size_;
	vc_assert(c1 >= 1 && l1 >= 1 && l1 <= 64 && (l1 == 64 || B.values_.v_[c1 - 1] < (1ull << l1)), "representation invariant kept");
	vc_assert(!(q + 1 < c) || B.values_.v_[q] == oq, "full words before the last are untouched");
	// last word(s) hold  old-last ++ value, left-aligned
	u64 nl = c ? last : 0;
	u128v W = 0; if(nl) W = u128v(lw) << (128 - nl);
	W |= u128v(v) << (128 - nl - len);
	u64 base = c ? c - 1 : 0;                         // word that holds the first of those bits
	vc_assert(c1 == base + (nl + len > 64 ? 2 : 1), "number of words");
	if(c1 == base + 1) vc_assert(B.values_.v_[base] << (64 - l1) == u64(W >> 64), "content is the old content followed by the value");
	else vc_assert(B.values_.v_[base] == u64(W >> 64) && B.values_.v_[base + 1] << (64 - l1) == u64(W), "content is the old content followed by the value");
	vc_cover("append");
}
VC_HARNESS(C09_append_small) { append_contract<SmallVector>(); }
VC_HARNESS(C09_append_park) { append_contract<ParkVector>(); }
// construction from a value, concatenation, conversion to bytes, slicing for the small (key-sized) strings
VC_HARNESS(C09_bits_value) {
	u64 n = vc_case("n", 1, 64), v = vc_u64("v"); vc_assume(n == 64 || v < (1ull << n));
	Bits b(v, n);
	vc_assert(b.GetSize() == n, "Bits(value,size) size"); vc_assert(b.GetValue() == v, "Bits(value,size) value");
	u8 out[16]; for(int i = 0; i < 16; ++i) out[i] = 0xAA;
	b.ToBytes(out);
	for(u64 i = 0; i < 16; ++i) vc_assert(out[i] == (i < (n + 7) / 8 ? u8((v << (64 - n)) >> (56 - 8 * i)) : 0xAA), "ToBytes: big-endian, zero padded to the byte, nothing beyond");
	vc_cover("bits value");
}
VC_HARNESS(C09_bits_value128) {
	u64 n = vc_case("n", 65, 128), hi = vc_u64("hi"), lo = vc_u64("lo"); vc_assume(n == 128 || hi < (1ull << (n - 64)));
	Bits b((uint128_t(hi) << 64) | lo, n);
	vc_assert(b.GetSize() == n, "Bits(value128,size) size");
	u8 out[24] = {}; b.ToBytes(out);
	u128v W = ((u128v(hi) << 64) | lo) << (128 - n);
	vc_assert(window(out, 0) == u64(W >> 64) && window(out, 64) == u64(W), "ToBytes of a 65..128-bit value");
	vc_cover("bits value128");
}
static void bits_concat_contract(const u64 n1) {
	u64 n2 = vc_range("n2", 1, 64), v1 = vc_u64("v1"), v2 = vc_u64("v2");
	vc_assume((n1 == 64 || v1 < (1ull << n1)) && (n2 == 64 || v2 < (1ull << n2)));
	Bits a(v1, n1), b(v2, n2); 
	Bits c = a + b; Bits d(v1, n1); d += b;
	vc_assert(c.GetSize() == n1 + n2 && d.GetSize() == n1 + n2, "concatenation size");
	u8 o1[24] = {}, o2[24] = {}; c.ToBytes(o1); d.ToBytes(o2);
	u128v W = (u128v(v1) << (128 - n1)) | (u128v(v2) << (128 - n1 - n2));
	vc_assert(window(o1, 0) == u64(W >> 64) && window(o1, 64) == u64(W), "operator+ content");
	vc_assert(window(o2, 0) == u64(W >> 64) && window(o2, 64) == u64(W), "operator+= content");
	vc_cover("concat");
}
static const u64 OFF_bits_concat[] = { 1, 2, 8, 15, 16, 17, 31, 32, 33, 34, 40, 48, 62, 63, 64 };
VC_HARNESS(C09_bits_concat) { bits_concat_contract(OFF_bits_concat[vc_case("n1", 0, 14)]); }
VC_HARNESS(C09_T_bits_concat) { bits_concat_contract(vc_case("n1", 1, 64)); }
static void bits_slice_contract(const u64 s) {
	u64 n = vc_range("n", 1, 128), e = vc_range("e", 1, 128);
	vc_assume(s < e && e <= n);
	u64 A = vc_u64("A"), Bw = vc_u64("B");                  // left-aligned content
	Bits a;
	if(n <= 64) { vc_assume((A & ~top(n)) == 0 && Bw == 0); a.AppendValue(A >> (64 - n), n); }
	else { vc_assume((Bw & ~top(n - 64)) == 0); a.AppendValue(A, 64); a.AppendValue(Bw >> (128 - n), n - 64); }
	Bits r = a.Slice(s, e);
	vc_assert(r.GetSize() == e - s, "Slice length");
	u8 o[24] = {}; r.ToBytes(o);
	u128v W = ((u128v(A) << 64) | Bw) << s;
	vc_assert(window(o, 0) == (u64(W >> 64) & top(e - s)) && window(o, 64) == (u64(W) & top(int64_t(e - s) - 64)), "Slice content");
	if(e - s <= 64) vc_assert(r.GetValue() == (u64(W >> 64) >> (64 - (e - s))), "Slice value");
	vc_cover("slice");
}
static const u64 OFF_bits_slice[] = { 0, 1, 8, 31, 32, 33, 63, 64, 65, 100 };
VC_HARNESS(C09_bits_slice) { bits_slice_contract(OFF_bits_slice[vc_case("s", 0, 9)]); }
VC_HARNESS(C09_T_bits_slice) { bits_slice_contract(vc_case("s", 0, 127)); }
// ToBytes of a park: loop over all words, arbitrary number of words
static u8* g_out; static u64 g_q; static const ParkBits* g_B;
static void inv_tobytes(u64 n) {
	u64 c = g_B->values_.count_;
	vc_inv(n < c, "word index in range");
	// an arbitrary already converted word
	if(g_q < n) vc_inv(Util::EightBytesToInt(g_out + g_q * 8) == g_B->values_.v_[g_q], "converted words");
}
VC_HARNESS(C09_park_tobytes) {
	static ParkBits B;
	u64 c = vc_range("words", 1, 2048), last = vc_case("last_size", 1, 64);
	u64* w = (u64*)vc_array("v", 2048, 8, "0:8");
	for(u64 q = 0; q < (VC_SYMBOLIC ? 0 : 2048); ++q) B.values_.v_[q] = w[q];
	if(VC_SYMBOLIC) vc_havoc_region(&B, 8, "0:8");
	B.values_.count_ = c; B.last_size_ = last;
	u8* out = (u8*)vc_array("out", (c - 1) * 8 + (last + 7) / 8, 1, "0:1");
	u64 q = vc_range("q", 0, 2047); vc_assume(q < c);
	g_out = out; g_q = q; g_B = &B;
	vc_loop("ToBytes", (void*)inv_tobytes, 0);
	B.ToBytes(out);
	if(q + 1 < c) vc_assert(Util::EightBytesToInt(out + q * 8) == B.values_.v_[q], "full word q at byte 8q, big-endian");
	else {
		u64 lw = B.values_.v_[c - 1] << (64 - last);
		u64 i = vc_range("i", 0, 7); vc_assume(i < (last + 7) / 8);
		vc_assert(out[q * 8 + i] == u8(lw >> (56 - 8 * i)), "last word, zero padded to a byte");
	}
	vc_cover("park tobytes");
}
