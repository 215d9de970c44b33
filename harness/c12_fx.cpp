// C12: f2..f7.  BLAKE3 is an external function: its input is captured and its output arbitrary (symbolic), or the
// real hash (native).
#include <chia/phase1.hpp>
#include "vc.h"
using namespace phase1;
static u8 H[32]; static const u8* g_in; static u64 g_len; static u8 g_buf[64]; static int g_calls, g_init, g_fin;
static const int VL[9] = { 0, 0, 1, 2, 4, 4, 3, 2, 0 };
static u64 ones(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static u64 bits(const u8* p, u64 off, int n) {              // n <= 64 bits at bit offset off, big-endian
	u64 b = off / 8; int s = off % 8; u64 w = 0;
	int nb = (s + n + 7) / 8;
	if(nb <= 8) { for(int i = 0; i < nb; ++i) w = (w << 8) | p[b + i]; w >>= nb * 8 - s - n; }
	else { for(int i = 0; i < 8; ++i) w = (w << 8) | p[b + i]; int r = s + n - 64; w = (w << r) | (p[b + 8] >> (8 - r)); }
	return w & ones(n);
}
static bool same(const u8* a, u64 ao, const u8* b, u64 bo, int n) {
	bool ok = true;
	for(int i = 0; i < n; i += 32) { int w = n - i < 32 ? n - i : 32; ok = ok & (bits(a, ao + i, w) == bits(b, bo + i, w)); }
	return ok;
}
static void h_init(blake3_hasher*) { g_init++; g_len = 0; }
static void h_update(blake3_hasher*, const void* p, size_t n) {
	vc_require(g_init == 1, "hash initialised"); vc_require(n + g_len <= 64, "hash input fits one block"); g_calls++;
	for(u64 i = 0; i < n; ++i) g_buf[g_len + i] = ((const u8*)p)[i];
	g_len += n;
}
static void h_final(const blake3_hasher*, u8* out, size_t n) { vc_require(n == 32, "32 byte digest"); vc_require(g_init == 1, "hash initialised"); g_fin++; for(int i = 0; i < 32; ++i) out[i] = H[i]; }

template<typename T> struct Meta { static void get(const T& e, u8* m, int k) { memcpy(m, e.meta.data(), e.meta.size()); } };
template<> struct Meta<entry_1> { static void get(const entry_1& e, u8* m, int k) { u64 v = u64(e.x) << (64 - k); for(int i = 0; i < 8; ++i) m[i] = v >> (56 - 8 * i); } };
template<typename T> struct Fill { static void go(T& e, int t, int k) { e.pos = vc_range("pos", 0, (1ull << PMAX) - 1); e.off = vc_range("off", 0, 1023); for(size_t i = 0; i < e.meta.size(); ++i) e.meta[i] = vc_u8("meta"); } };
template<> struct Fill<entry_1> { static void go(entry_1& e, int, int k) { e.x = vc_range("x", 0, (1ull << KMAX) - 1); vc_assume(e.x <= ones(k)); } };

template<typename T, typename S> static void fx(int t) {
	int k = vc_case("k", KMAX == 32 ? 16 : 32, KMAX);
	T L, R; S out;
	L.y = vc_range("yl", 0, (1ull << 40) - 1); R.y = vc_range("yr", 0, (1ull << 40) - 1);
	vc_assume(L.y <= ones(k + 6) && R.y <= ones(k + 6));
	Fill<T>::go(L, t, k); Fill<T>::go(R, t, k);
	for(int i = 0; i < 32; ++i) H[i] = VC_SYMBOLIC ? vc_u8("digest") : 0;
	u64 p0 = vc_range("outpos", 0, (1ull << PMAX) - 1), o0 = vc_range("outoff", 0, 1023);
	out.pos = p0; out.off = o0;
	g_calls = g_init = g_fin = 0;
	vc_replace("^blake3_hasher_init$", (void*)h_init); vc_replace("^blake3_hasher_update$", (void*)h_update); vc_replace("^blake3_hasher_finalize$", (void*)h_final);
	FxCalculator<T, S> F(k, t);
	F.evaluate(L, R, out);
	u8 lm[24] = {}, rm[24] = {}; Meta<T>::get(L, lm, k); Meta<T>::get(R, rm, k);
	int mb = VL[t] * k, total = k + 6 + 2 * mb;
#if VC_SYMBOLIC
	vc_assert(g_fin == 1, "hash finished once");
	vc_assert(g_len == u64(total + 7) / 8, "hash input length");
	bool ok = bits(g_buf, 0, k + 6) == L.y;
	vc_assert(ok, "hash input starts with the left y");
	vc_assert(same(g_buf, k + 6, lm, 0, mb), "then the left metadata");
	vc_assert(same(g_buf, k + 6 + mb, rm, 0, mb), "then the right metadata");
	if(total % 8) vc_assert(bits(g_buf, total, 8 - total % 8) == 0, "zero padding");
#else
	u8 in[64] = {}; auto put = [&](u64 o, int b) { if(b) in[o / 8] |= 0x80 >> (o % 8); };
	for(int i = 0; i < k + 6; ++i) put(i, (L.y >> (k + 5 - i)) & 1);
	for(int i = 0; i < mb; ++i) { put(k + 6 + i, bits(lm, i, 1)); put(k + 6 + mb + i, bits(rm, i, 1)); }
	blake3_hasher h; blake3_hasher_init(&h); blake3_hasher_update(&h, in, (total + 7) / 8); blake3_hasher_finalize(&h, H, 32);
#endif
	vc_assert(u64(out.y) == bits(H, 0, t < 7 ? k + 6 : k), "y is the leading digest bits");
	if constexpr(!std::is_same<S, entry_7>::value) {
		const u8* m = out.meta.data();
		if(t < 4) vc_assert(same(m, 0, lm, 0, mb) & same(m, mb, rm, 0, mb), "metadata is left || right");
		else vc_assert(same(m, 0, H, k + 6, VL[t + 1] * k), "metadata is the next digest bits");
		vc_assert(u64(VL[t + 1] * k) <= 8 * out.meta.size(), "metadata fits the entry");
	}
	vc_assert(u64(out.pos) == p0 && u64(out.off) == o0, "position fields untouched");
	vc_cover("fx");
}
VC_HARNESS(C12_f2) { fx<entry_1, entry_2>(2); }
VC_HARNESS(C12_f3) { fx<entry_2, entry_3>(3); }
VC_HARNESS(C12_f4) { fx<entry_3, entry_4>(4); }
VC_HARNESS(C12_f5) { fx<entry_4, entry_5>(5); }
VC_HARNESS(C12_f6) { fx<entry_5, entry_6>(6); }
VC_HARNESS(C12_f7) { fx<entry_6, entry_7>(7); }
