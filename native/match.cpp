// Runs the real compute_matches (slicing, matching, evaluation; real threads) on generated sorted tables with gaps, small
// and duplicate groups, cut into arbitrary blocks, and compares with the reference.   match WANT seed seconds
#define VC_NOHARNESS 1
#include <chia/phase1.hpp>
#include "ref.h"
#include <random>
#include <set>
#include <tuple>
#include <iostream>
#include <sstream>
#include <unistd.h>
using namespace phase1;
static std::string S(uint64_t x) { return std::to_string(x); }
static int fails; static long runs[3]; static std::string want;
static void fail(const char* c, const std::string& w) { if(want == c && fails++ < 5) printf("FAIL %s: %s\n", c, w.c_str()); }
typedef std::tuple<uint64_t, uint64_t, uint64_t, std::vector<uint8_t>> Row;
template<class E> static std::vector<uint8_t> meta(const E& e, int bytes) { return std::vector<uint8_t>(e.meta.begin(), e.meta.begin() + bytes); }
template<> std::vector<uint8_t> meta(const entry_7&, int) { return {}; }
template<class E> static void put(E& e, int k, int t, uint64_t y, R128 m, uint64_t i) { e.y = y; e.pos = i; e.off = i % 1000; ref::BitW b; b.add(m, ref::VL[t + 1] * k); e.meta = {}; memcpy(e.meta.data(), b.b.data(), b.b.size()); }
static void put(entry_1& e, int k, int, uint64_t y, R128 m, uint64_t) { e.y = y; e.x = m; }
template<class T, class U> static void one(int t, int k, std::mt19937_64& rng, const char* seed, long it) {
	const uint64_t G = (uint64_t(1) << (k + 6)) / ref::RBC, ng = 1 + rng() % 8; uint64_t g = rng() % 4 ? rng() % G : rng() % 2 ? 0 : G - std::min(G, ng);
	std::vector<uint64_t> ys; int big = rng() % 6 == 0 ? 300 : 12;
	for(uint64_t i = 0; i < ng; ++i) {
		size_t b = ys.size(), n = 1 + rng() % big;
		for(size_t j = 0; j < n; ++j) { uint64_t r = rng() % ref::RBC; if(b && rng() % 4) { uint64_t l = ys[rng() % b], m = rng() % 64, p = (l / ref::RBC) % 2; r = (((l % ref::RBC) / ref::RC + m) % ref::RB) * ref::RC + (l % ref::RBC % ref::RC + (2 * m + p) * (2 * m + p)) % ref::RC; } else if(j && rng() % 4 == 0) r = ys.back() % ref::RBC;
			uint64_t y = g * ref::RBC + r; if(y < (uint64_t(1) << (k + 6))) ys.push_back(y); }
		g += rng() % 3 ? 1 : 1 + rng() % 3;
	}
	std::sort(ys.begin(), ys.end()); const R128 mask = (R128(1) << 64 << (ref::VL[t] * k > 64 ? ref::VL[t] * k - 64 : 0)) - 1; std::vector<ref::YM> L; std::vector<T> in;
	for(auto y : ys) { int mb = ref::VL[t] * k; R128 m = (R128(rng()) << 64) | rng(); if(mb < 128) m &= (R128(1) << mb) - 1; L.push_back({y, m}); T e; put(e, k, t - 1, y, m, L.size()); in.push_back(e); }
	struct Src { std::vector<T>& in; std::mt19937_64& rng; void read(Processor<std::pair<std::vector<T>, size_t>>* out, int, int = 1) { for(size_t a = 0; a < in.size();) { size_t n = 1 + rng() % (rng() % 2 ? 3 : 400); n = std::min(n, in.size() - a); std::pair<std::vector<T>, size_t> b; b.first.assign(in.begin() + a, in.begin() + a + n); b.second = a; a += n; out->take(b); } } } src{in, rng};
	struct Dst { std::vector<U> all; std::mutex m; bool fin = false; struct WriteCache { Dst* d; void add(const U& e) { std::lock_guard<std::mutex> l(d->m); d->all.push_back(e); } }; std::shared_ptr<WriteCache> add_cache() { auto c = std::make_shared<WriteCache>(); c->d = this; return c; } void finish() { fin = true; } } dst;
	struct Tmp : Processor<std::vector<T>> { std::vector<T> all; void take(std::vector<T>& v) override { all.insert(all.end(), v.begin(), v.end()); } } tmp;
	struct Tab : Processor<std::vector<U>> { std::vector<U> all; std::mutex m; void take(std::vector<U>& v) override { std::lock_guard<std::mutex> l(m); all.insert(all.end(), v.begin(), v.end()); } } tab;
	int nt = 1 + rng() % 6; bool last = t == 7; std::string w = " (table " + S(t) + ", k=" + S(k) + ", " + S(ys.size()) + " entries, " + S(nt) + " threads, seed " + seed + ", case " + S(it) + ")";
	uint64_t n = 0; try { n = compute_matches<T, U, tmp_entry_x>(t, k, nt, &src, last ? (Dst*)nullptr : &dst, &tmp, last ? &tab : (Tab*)nullptr); } catch(const std::exception& e) { fail("C11", std::string("refused: ") + e.what() + w); return; }
	auto& res = last ? tab.all : dst.all; const int mb = t < 7 ? (ref::VL[t + 1] * k + 7) / 8 : 0; std::vector<Row> got, exp; std::vector<std::pair<uint64_t, uint64_t>> gp, ep;
	for(auto& e : res) { got.emplace_back(e.pos, e.off, e.y, meta(e, mb)); gp.push_back({e.pos, e.off}); }
	for(auto& m : ref::matches(ys)) { auto r = ref::fx(k, t, L[m.first], L[m.first + m.second]); ref::BitW b; if(t < 7) b.add(r.m, ref::VL[t + 1] * k); exp.emplace_back(m.first, m.second, r.y, b.b); ep.push_back(m); }
	std::sort(gp.begin(), gp.end()); std::sort(ep.begin(), ep.end()); std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end()); runs[0]++; runs[1] += ep.size(); runs[2] += !ep.empty();
	if(gp != ep) fail("C11", "matches differ: " + S(gp.size()) + " reported, " + S(ep.size()) + " expected" + w);
	else if(got != exp) fail("C12", "values of the next table differ" + w);
	if(n != ep.size()) fail("C11", "number of matches " + S(n) + ", expected " + S(ep.size()) + w);
	if(!last && !dst.fin) fail("C18", "sort not finished" + w);
	bool same = tmp.all.size() == in.size(); for(size_t i = 0; same && i < in.size(); ++i) same = tmp.all[i].y == in[i].y; if(!same) fail("C18", "left table not passed on in order" + w);
}
int main(int argc, char** argv) {
	want = argv[1]; std::mt19937_64 rng(atoll(argv[2])); const double secs = atof(argv[3]); const auto t0 = std::chrono::steady_clock::now(); std::ostringstream nul; std::cout.rdbuf(nul.rdbuf()); std::cerr.rdbuf(nul.rdbuf()); initialize();
	for(long it = 0; fails < 5 && (it < 12 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs); ++it) {
		int t = 2 + it % 6, k = rng() % 2 ? 32 : 16 + rng() % 17;
		switch(t) { case 2: one<entry_1, entry_2>(t, k, rng, argv[2], it); break; case 3: one<entry_2, entry_3>(t, k, rng, argv[2], it); break; case 4: one<entry_3, entry_4>(t, k, rng, argv[2], it); break;
			case 5: one<entry_4, entry_5>(t, k, rng, argv[2], it); break; case 6: one<entry_5, entry_6>(t, k, rng, argv[2], it); break; case 7: one<entry_6, entry_7>(t, k, rng, argv[2], it); break; }
	}
	printf("RUN %s_tables executions=%ld\nRUN %s_pairs executions=%ld\n", argv[1], runs[0], argv[1], runs[1]); fflush(stdout); _exit(fails ? 1 : 0);
}
