// Independent reference of the proof-of-space definition and of the plot file format (native oracle).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <map>
#include <queue>
#include <algorithm>
#include <array>
#include "blake3.h"
typedef unsigned __int128 R128;
namespace ref {
static const int EXTRA = 6, EPP = 2048; static const uint64_t RB = 119, RC = 127, RBC = 119 * 127;
static const double RV[7] = {4.7, 2.75, 2.75, 2.7, 2.6, 2.45};
static const int VL[8] = {0, 0, 1, 2, 4, 4, 3, 2};
inline uint64_t ceil8(double bits) { uint64_t b = (uint64_t)(uint32_t)bits; return (b + 7) / 8; }
inline uint64_t lp_size(int k) { return (2 * k + 7) / 8; }
inline uint64_t stub_size(int k) { return ((EPP - 1) * (k - 3) + 7) / 8; }
inline uint64_t delta_size(int k, int t) { return ceil8((EPP - 1) * (t == 1 ? 5.6 : 3.5)); }
inline uint64_t park_size(int k, int t) { return lp_size(k) + stub_size(k) + delta_size(k, t); }
inline uint64_t c3_size(int k) { return k < 20 ? 10000 : ceil8(2.4 * 10000); }
inline uint64_t p7_size(int k) { return ((k + 1) * EPP + 7) / 8; }

// ---- ChaCha8, 64-bit counter
inline void chacha8_block(const uint8_t key[32], uint64_t ctr, uint8_t out[64]) {
	uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
	memcpy(s + 4, key, 32); s[12] = ctr; s[13] = ctr >> 32; s[14] = s[15] = 0;
	uint32_t x[16]; memcpy(x, s, 64);
	auto q = [&](int a, int b, int c, int d) {
		auto rot = [](uint32_t v, int n) { return (v << n) | (v >> (32 - n)); };
		x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 16); x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 12);
		x[a] += x[b]; x[d] = rot(x[d] ^ x[a], 8); x[c] += x[d]; x[b] = rot(x[b] ^ x[c], 7);
	};
	for(int r = 0; r < 4; ++r) { q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15); q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14); }
	for(int i = 0; i < 16; ++i) x[i] += s[i];
	memcpy(out, x, 64);
}
struct F1 {
	uint8_t key[32]; int k; uint64_t cb = ~0ull; uint8_t blk[64];
	F1(const uint8_t* id, int k) : k(k) { key[0] = 1; memcpy(key + 1, id, 31); }
	int bit(uint64_t i) { uint64_t b = i / 512; if(b != cb) { chacha8_block(key, b, blk); cb = b; } i %= 512; return (blk[i / 8] >> (7 - i % 8)) & 1; }
	uint64_t y(uint64_t x) { uint64_t v = 0; for(int i = 0; i < k; ++i) v = v * 2 + bit(x * k + i); return (v << EXTRA) | (x >> (k - EXTRA)); }
};
struct BitW { std::vector<uint8_t> b; size_t n = 0; void add(R128 v, int w) { for(int i = w - 1; i >= 0; --i) { if(n % 8 == 0) b.push_back(0); if((v >> i) & 1) b[n / 8] |= 0x80 >> (n % 8); ++n; } } };
inline R128 bits_at(const uint8_t* p, uint64_t pos, int w) { R128 v = 0; for(int i = 0; i < w; ++i) { uint64_t q = pos + i; v = v * 2 + ((p[q / 8] >> (7 - q % 8)) & 1); } return v; }
struct YM { uint64_t y; R128 m; };
// evaluate table t (2..7) from two entries of table t-1
inline YM fx(int k, int t, const YM& L, const YM& R) {
	int mb = VL[t] * k;
	BitW in; in.add(L.y, k + EXTRA); in.add(L.m, mb); in.add(R.m, mb);
	blake3_hasher h; uint8_t o[40] = {0}; blake3_hasher_init(&h); blake3_hasher_update(&h, in.b.data(), in.b.size()); blake3_hasher_finalize(&h, o, 32);
	YM r; int yb = k + (t < 7 ? EXTRA : 0);
	r.y = (uint64_t)bits_at(o, 0, yb); r.m = 0;
	if(t < 4) r.m = (L.m << mb) | R.m;
	else if(t < 7) r.m = bits_at(o, k + EXTRA, VL[t + 1] * k);
	return r;
}
inline bool is_match(uint64_t yl, uint64_t yr) {
	if(yl / RBC + 1 != yr / RBC) return false;
	uint64_t p = (yl / RBC) % 2, bl = (yl % RBC) / RC, br = (yr % RBC) / RC, cl = yl % RBC % RC, cr = yr % RBC % RC;
	uint64_t m = (br + RB - bl) % RB;
	if(m >= 64) return false;
	uint64_t d = (cr + RC - cl) % RC;
	return d == ((2 * m + p) * (2 * m + p)) % RC;
}
// all matches of a y-sorted table, as (left index, right - left)
inline std::vector<std::pair<uint64_t, uint64_t>> matches(const std::vector<uint64_t>& y) {
	std::vector<std::pair<uint64_t, uint64_t>> out;
	size_t n = y.size(), a = 0;
	while(a < n) {
		size_t b = a; while(b < n && y[b] / RBC == y[a] / RBC) ++b;
		size_t c = b; while(c < n && y[c] / RBC == y[a] / RBC + 1) ++c;
		if(c > b) {
			std::map<uint64_t, std::vector<size_t>> by;
			for(size_t i = b; i < c; ++i) by[y[i] % RBC].push_back(i);
			for(size_t i = a; i < b; ++i) {
				uint64_t p = (y[i] / RBC) % 2, bl = (y[i] % RBC) / RC, cl = y[i] % RBC % RC;
				for(uint64_t m = 0; m < 64; ++m) {
					uint64_t t = ((bl + m) % RB) * RC + (cl + (2 * m + p) * (2 * m + p)) % RC;
					auto it = by.find(t);
					if(it != by.end()) for(size_t j : it->second) out.push_back({i, j - i});
				}
			}
		}
		a = b;
	}
	return out;
}
inline R128 line_point(uint64_t a, uint64_t b) { if(a < b) std::swap(a, b); return (R128)a * (a - 1) / 2 + b; }
inline std::pair<uint64_t, uint64_t> square(R128 lp) { uint64_t x = 0; for(int i = 40; i >= 0; --i) { uint64_t n = x + (1ull << i); if((R128)n * (n - 1) / 2 <= lp) x = n; } return {x, (uint64_t)(lp - (R128)x * (x - 1) / 2)}; }

// ---- ANS
inline std::vector<short> norm_count(double R) {
	std::vector<double> dpdf; int N = 0; double E = 2.718281828459, T = 1e-50; int Q = 1 << 14;
	double p = 1 - pow((E - 1) / E, 1.0 / R);
	while(p > T && N < 255) { dpdf.push_back(p); N++; p = (pow(E, 1.0 / R) - 1) * pow(E - 1, 1.0 / R); p /= pow(E, ((N + 1) / R)); }
	std::vector<short> ans(N, 1);
	auto cmp = [&](int i, int j) { return dpdf[i] * (log2(ans[i] + 1) - log2(ans[i])) < dpdf[j] * (log2(ans[j] + 1) - log2(ans[j])); };
	std::priority_queue<int, std::vector<int>, decltype(cmp)> pq(cmp);
	for(int i = 0; i < N; ++i) pq.push(i);
	for(int todo = 0; todo < Q - N; ++todo) { int i = pq.top(); pq.pop(); ans[i]++; pq.push(i); }
	for(int i = 0; i < N; ++i) if(ans[i] == 1) ans[i] = -1;
	return ans;
}
struct Ans {
	struct D { uint16_t next; uint8_t sym, nb; };
	std::vector<D> t; std::vector<short> cnt;
	Ans(double R) : t(1 << 14) {
		cnt = norm_count(R);
		const int size = 1 << 14, mask = size - 1, step = (size >> 1) + (size >> 3) + 3;
		int high = size - 1; std::vector<int> nx(cnt.size());
		for(size_t s = 0; s < cnt.size(); ++s) if(cnt[s] == -1) { t[high--].sym = s; nx[s] = 1; } else nx[s] = cnt[s];
		int pos = 0;
		for(size_t s = 0; s < cnt.size(); ++s) for(int i = 0; i < cnt[s]; ++i) { t[pos].sym = s; do pos = (pos + step) & mask; while(pos > high); }
		for(int u = 0; u < size; ++u) { int st = nx[t[u].sym]++; int hb = 31 - __builtin_clz(st); t[u].nb = 14 - hb; t[u].next = (st << t[u].nb) - size; }
	}
	// decodes exactly n symbols; false if the stream does not hold exactly n symbols
	bool decode(const uint8_t* in, size_t len, size_t n, std::vector<uint8_t>& out) const {
		out.clear();
		if(!len || !in[len - 1]) return false;
		int64_t p = (int64_t)len * 8 - 8 + (31 - __builtin_clz((uint32_t)in[len - 1]));
		auto rd = [&](int w) { uint32_t v = 0; for(int i = 0; i < w; ++i) { p--; v = v * 2 + (p >= 0 ? (in[p / 8] >> (p % 8)) & 1 : 0); } return v; };
		uint32_t s[2]; s[0] = rd(14); s[1] = rd(14);
		if(p < 0) return false;
		for(size_t i = 0; i < n; ++i) {
			const D& d = t[s[i & 1]];
			out.push_back(d.sym);
			if(i + 2 < n) s[i & 1] = d.next + rd(d.nb);
		}
		return p == 0;
	}
};
inline const Ans& ans(double R) { static std::map<double, Ans*> m; auto& a = m[R]; if(!a) a = new Ans(R); return *a; }
// decodes one park of n line points (1-based file table t); returns error text or empty
inline std::string decode_park(const uint8_t* p, int k, int t, size_t n, std::vector<R128>& out) {
	R128 lp = bits_at(p, 0, 2 * k);
	out.push_back(lp);
	const uint8_t* st = p + lp_size(k); const uint8_t* de = st + stub_size(k);
	for(uint64_t i = (n - 1) * (k - 3); i < stub_size(k) * 8; ++i) if(bits_at(st, i, 1)) return "stub padding not zero";
	unsigned sz = de[0] | de[1] << 8; std::vector<uint8_t> d;
	if(sz & 0x8000) { sz &= 0x7fff; if(sz != n - 1) return "uncompressed delta count"; d.assign(de + 2, de + 2 + sz); }
	else if(n - 1 < 1 && sz == 0) {}
	else if(!ans(RV[t - 1]).decode(de + 2, sz, n - 1, d)) return "delta stream does not hold exactly the expected number of deltas";
	if(2 + sz > delta_size(k, t)) return "deltas exceed the park";
	for(uint64_t i = 2 + sz; i < delta_size(k, t); ++i) if(de[i]) return "park padding not zero";
	for(size_t i = 0; i + 1 < n; ++i) { lp += ((R128)d[i] << (k - 3)) + bits_at(st, i * (k - 3), k - 3); out.push_back(lp); }
	return "";
}
}
