// C06: line points.  T(0) = 0, T(n+1) = T(n) + n is the triangle number; GetXEnc computes T (step lemma on
// the real code), T is monotone (induction), hence SquareToLinePoint/LinePointToSquare are inverse.
#include <queue>
#include <thread>
#include <cmath>
#include <map>
#include <chia/encoding.hpp>
#include "vc.h"
typedef uint128_t U;
static const u64 D = u64(1) << 36;           // beyond every table position of k <= 34 (PMAX = 35)
static const U BIG = U(1) << 70;
// ---- GetXEnc(n+1) == GetXEnc(n) + n, GetXEnc(0) == 0: GetXEnc is T on [0, 2^36]
VC_HARNESS(C06_triangle_step) {
	vc_assert(Encoding::GetXEnc(0) == 0, "T(0) = 0");
	u64 h = vc_range("h", 0, D / 2);
	if(vc_case("odd", 0, 1)) {
		u64 n = 2 * h + 1;
		vc_assert(Encoding::GetXEnc(n + 1) == Encoding::GetXEnc(n) + n, "T(n+1) = T(n) + n, n odd");
	} else if(h) {
		u64 n = 2 * h;
		vc_assert(Encoding::GetXEnc(n + 1) == Encoding::GetXEnc(n) + n, "T(n+1) = T(n) + n, n even");
	} else vc_assert(Encoding::GetXEnc(1) == 0, "T(1) = 0");
	vc_cover("step");
}
// beyond the position range the value is larger than every line point
VC_HARNESS(C06_triangle_large) {
	u64 n = vc_u64("n"); vc_assume(n >= D);
	vc_assert(Encoding::GetXEnc(n) >= BIG, "T(n) >= 2^70 for n >= 2^36");
	vc_cover("large");
}
// ---- induction: x < n <= 2^36 implies T(n) >= T(x) + x, and T(n) <= n * 2^36
static U g_t, g_t0; static u64 g_n0, g_n, g_cnt;
static void inv_mono(u64 i) {
	vc_inv(i <= g_cnt && g_n == g_n0 + i, "index");
	vc_inv(g_t >= g_t0 && g_t <= (U(g_n) << 36), "T(x) + x <= T(n) <= n * 2^36");
}
VC_HARNESS(C06_monotone) {
	u64 x = vc_range("x", 0, D - 1), n = vc_range("n", 0, D); vc_assume(n > x);
#if VC_SYMBOLIC
	U tx = (U(vc_u64("tx_hi")) << 64) | vc_u64("tx_lo");         // T(x), by induction hypothesis bounded
	vc_assume(tx <= (U(x) << 36));
	g_n0 = x + 1; g_cnt = n - (x + 1); g_t0 = tx + x; g_t = g_t0; g_n = g_n0;         // T(x+1) = T(x) + x
	vc_assert(g_t >= tx && g_t <= (U(x + 1) << 36), "bound of T(x+1)");
	vc_loop("C06_monotone", (void*)inv_mono, 0);
	for(u64 i = 0; i < n - (x + 1); ++i) { g_t += g_n; g_n++; }   // T(n+1) = T(n) + n
	vc_assert(g_n == n, "reached n");
	vc_assert(g_t >= tx + x, "T(n) >= T(x) + x");
	vc_cover("mono");
#else
	vc_assert(Encoding::GetXEnc(n) >= Encoding::GetXEnc(x) + x, "T(n) >= T(x) + x");
#endif
}
// ---- contract of GetXEnc used by its callers: T, monotone around the pair's larger position X
static U g_TX; static u64 g_X, g_ask; static bool g_asked;
static U xenc_contract(u64 n) {
	U t = (U(vc_u64("t_hi")) << 64) | vc_u64("t_lo");
	if(n == g_X) vc_assume(t == g_TX);
	else if(n < g_X) vc_assume(t + n <= g_TX && t <= g_TX);
	else if(n < D) vc_assume(t >= g_TX + g_X);
	else vc_assume(t >= BIG);
	return t;
}
static void inv_bits(u64 i, u64 x) {
	vc_inv(i <= 64, "bit index");
	u64 rest = i == 0 ? ~u64(0) : (u64(1) << ((64 - i) & 63)) - 1;      // bits not yet decided
	vc_inv((i == 64 && x == g_X) || (i < 64 && x == (g_X & ~rest)), "bits of the root decided so far");
}
VC_HARNESS(C06_roundtrip) {
	u64 x = vc_range("x", 0, (u64(1) << 35) - 1), y = vc_range("y", 0, (u64(1) << 35) - 1);
	vc_assume(x > y);
#if VC_SYMBOLIC
	g_X = x; g_TX = (U(vc_u64("T_hi")) << 64) | vc_u64("T_lo");
	vc_assume(g_TX <= (U(x) << 34));                               // T(x) = x(x-1)/2 <= x * 2^34
	vc_replace("Encoding::GetXEnc", (void*)xenc_contract);
	vc_loop_now("LinePointToSquare", (void*)inv_bits, 1);
#endif
	U a = Encoding::SquareToLinePoint(x, y), b = Encoding::SquareToLinePoint(y, x);
	vc_assert(a == b, "independent of the order");
	auto p = Encoding::LinePointToSquare(a);
	vc_assert(p.first == x && p.second == y, "decodes to the pair, larger first");
	vc_cover("roundtrip");
}
// ---- a k-bit pair needs 2k-1 bits
static u64 g_k;
static U xenc_bound(u64 n) {
	U t = (U(vc_u64("t_hi")) << 64) | vc_u64("t_lo"), top = U((u64(1) << g_k) - 1) << (g_k - 1);  // T(2^k) = 2^(k-1) (2^k - 1)
	vc_assume(t + n <= top && t <= top);
	return t;
}
VC_HARNESS(C06_width) {
	g_k = vc_case("k", 16, 35);
	u64 K2 = u64(1) << g_k;
	vc_assert(Encoding::GetXEnc(K2) == (U(K2 - 1) << (g_k - 1)), "T(2^k)");
	u64 x = vc_range("x", 0, (u64(1) << 35) - 1), y = vc_range("y", 0, (u64(1) << 35) - 1);
	vc_assume(x < K2 && y < x);
	vc_replace("Encoding::GetXEnc", (void*)xenc_bound);
	vc_assert(Encoding::SquareToLinePoint(x, y) < (U(1) << (2 * g_k - 1)), "fits 2k-1 bits");
	vc_assert(Encoding::SquareToLinePoint(y, x) < (U(1) << (2 * g_k - 1)), "fits 2k-1 bits (other order)");
	vc_cover("width");
}
// full-range inverse as used by verifiers (bounded cross-check)
#if !VC_SYMBOLIC
VC_BOUNDED(C06_native) {
	u64 k = vc_range("k", 2, 40), x = vc_range("x", 1, (u64(1) << k) - 1), y = vc_range("y", 0, x - 1);
	U a = Encoding::SquareToLinePoint(x, y);
	vc_assert(a == Encoding::SquareToLinePoint(y, x), "independent of the order");
	vc_assert(a < (U(1) << (2 * k - 1)), "fits 2k-1 bits");
	auto p = Encoding::LinePointToSquare(a);
	vc_assert(p.first == x && p.second == y, "decodes to the pair");
}
#endif
