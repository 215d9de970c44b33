// Native execution of the contract harnesses against the real code and the real C++ library:
// used to replay a verifier counterexample and to search for a failing input.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <chrono>
#include <unistd.h>
#include <signal.h>
#define VC_SYMBOLIC 0
struct vc_skip {};
struct vc_failed { std::string label; };
namespace vcn {
struct H { const char* name; void (*fn)(); };
inline std::vector<H>& list() { static std::vector<H> v; return v; }
struct Reg { Reg(const char* n, void (*f)()) { list().push_back({n, f}); } };
inline u64& rs() { static u64 s = 88172645463325252ull; return s; }
inline u64 rnd() { u64& x = rs(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 2685821657736338717ull; }
inline std::map<std::string, u64>& model() { static std::map<std::string, u64> m; return m; }
inline std::map<std::string, std::map<std::string, u64>>& amodel() { static std::map<std::string, std::map<std::string, u64>> m; return m; }
inline bool& use_model() { static bool b = false; return b; }
inline std::vector<std::pair<std::string, u64>>& log() { static std::vector<std::pair<std::string, u64>> l; return l; }
inline std::map<std::string, int>& cnt() { static std::map<std::string, int> c; return c; }
inline std::vector<void*>& blocks() { static std::vector<void*> b; return b; }
inline u64 biased(u64 lo, u64 hi) {
	u64 span = hi - lo;
	u64 r = rnd() >> 8;
	switch(rnd() >> 60) {
		case 0: return lo; case 1: return hi;
		case 2: return lo + (span ? r % (span < 16 ? span + 1 : 16) : 0);
		case 3: return hi - (span ? r % (span < 16 ? span + 1 : 16) : 0);
		case 4: case 5: { u64 p = u64(1) << (r % 64); u64 v = p + ((r >> 10) % 3) - 1; if(span == ~0ull) return v; return lo + v % (span + 1); }
		case 6: { u64 m = ~0ull >> (r % 64); u64 v = rnd() & m; if(span == ~0ull) return v; return lo + v % (span + 1); }
	}
	if(span == ~0ull) return rnd();
	return lo + rnd() % (span + 1);
}
inline u64 get(const char* name, u64 lo, u64 hi) {
	std::string n = name; int c = cnt()[n]++;
	if(c) n += "#" + std::to_string(c);
	u64 v;
	auto it = model().find(n);
	if(use_model()) { v = it != model().end() ? it->second : lo; if(v < lo || v > hi) v = lo; }
	else v = biased(lo, hi);
	log().push_back({n, v});
	return v;
}
}
inline u8 vc_u8(const char* n) { return vcn::get(n, 0, 0xff); }
inline u16 vc_u16(const char* n) { return vcn::get(n, 0, 0xffff); }
inline u32 vc_u32(const char* n) { return vcn::get(n, 0, 0xffffffffull); }
inline u64 vc_u64(const char* n) { return vcn::get(n, 0, ~0ull); }
inline u64 vc_range(const char* n, u64 lo, u64 hi) { return vcn::get(n, lo, hi); }
inline u64 vc_case(const char* n, u64 lo, u64 hi) { return vcn::get(n, lo, hi); }
inline u64 vc_split(u64 x, u64, u64) { return x; }
inline void vc_assume(bool b) { if(!b) throw vc_skip(); }
inline void vc_assert(bool b, const char* l) { if(!b) throw vc_failed{l}; }
inline void vc_require(bool b, const char* l) { if(!b) throw vc_failed{l}; }
inline void vc_inv(bool, const char*) {}
inline bool vc_inv_assuming() { return false; }
inline void vc_cover(const char*) {}
inline void vc_unreachable(const char* l) { throw vc_failed{l}; }
inline void vc_define(bool, const char*) {}
inline void vc_trust(bool, const char*) {}
inline void vc_replace(const char*, void*) {}
inline void vc_loop(const char*, void*, int) {}
inline void vc_loop_now(const char*, void*, int) {}
inline void vc_print(const char*, u64) {}
inline void vc_pc() {}
inline u64 vc_ite(bool c, u64 a, u64 b) { return c ? a : b; }
inline bool vc_concrete(u64) { return true; }
inline void vc_havoc(void* p, u64 n) { for(u64 i = 0; i < n; ++i) ((u8*)p)[i] = vcn::rnd() >> 33; }
inline void vc_havoc_region(void*, u64, const char*) {}
inline void* vc_array(const char* name, u64 count, u64 stride, const char* slots) {
	std::string n = name; int c = vcn::cnt()["[]" + n]++;
	if(c) n += "#" + std::to_string(c);
	if(count * stride > (u64(1) << 28)) throw vc_skip();
	u8* p = (u8*)malloc(count * stride + 64);
	vcn::blocks().push_back(p);
	int mode = vcn::rnd() >> 61;
	for(u64 i = 0; i < count * stride; ++i) p[i] = mode == 0 ? 0 : mode == 1 ? 0xff : mode == 2 ? (vcn::rnd() >> 60 == 0 ? vcn::rnd() >> 32 : 0) : vcn::rnd() >> 32;
	if(vcn::use_model()) {
		memset(p, 0, count * stride);
		for(int pass = 0; pass < 2; ++pass) for(auto& kv : vcn::amodel()[n]) {
			int cc, w; char idx[64];
			if(sscanf(kv.first.c_str(), "%d,%d,%63s", &cc, &w, idx) != 3) continue;
			if(idx[0] == '*') { if(pass == 0) for(u64 i = 0; i < count; ++i) memcpy(p + i * stride + cc, &kv.second, w > 8 ? 8 : w); }
			else if(pass == 1) { u64 i = strtoull(idx, 0, 10); if(i < count) memcpy(p + i * stride + cc, &kv.second, w > 8 ? 8 : w); }
		}
	}
	return p;
}
namespace vcn {
inline const char*& cur() { static const char* c = "?"; return c; }
inline void on_sig(int s) {
	printf("FAIL %s: crash (signal %d)\n", cur(), s);
	int k = 0;
	for(auto& kv : log()) { if(k++ > 400) break; printf("INPUT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second); }
	fflush(stdout); _exit(1);
}
inline void catch_signals() {
	static char stk[65536]; stack_t ss{}; ss.ss_sp = stk; ss.ss_size = sizeof(stk); sigaltstack(&ss, 0);
	struct sigaction sa{}; sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK;
	for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, 0);
}
}
#define VC_HARNESS(name) static void name(); static vcn::Reg vc_reg_##name(#name, &name); static void name()
#define VC_BOUNDED VC_HARNESS
#ifndef VC_NO_MAIN
// usage: prog HARNESS|all seconds seed        (search)      exit 1 + "FAIL ..." lines on failure
//        prog HARNESS model.txt               (replay of a model: "name value" / "@arr c,w,i value" lines)
int main(int argc, char** argv) {
	std::string want = argc > 1 ? argv[1] : "all";
	std::string what = argc > 2 ? argv[2] : "1";
	bool model = what.find('.') != std::string::npos && access(what.c_str(), R_OK) == 0;
	if(model) {
		vcn::use_model() = true;
		std::ifstream in(what); std::string line;
		while(std::getline(in, line)) {
			std::istringstream s(line); std::string a, b, c;
			s >> a >> b;
			if(a[0] == '@') { s >> c; vcn::amodel()[a.substr(1)][b] = strtoull(c.c_str(), 0, 10); }
			else vcn::model()[a] = strtoull(b.c_str(), 0, 10);
		}
	}
	double secs = atof(what.c_str());
	vcn::catch_signals();
	u64 seed = argc > 3 ? strtoull(argv[3], 0, 10) : 1;
	int bad = 0;
	size_t todo = 0;
	for(auto& h : vcn::list()) if(want == "all" || want == h.name) ++todo;
	for(auto& h : vcn::list()) {
		if(want != "all" && want != h.name) continue;
		auto t0 = std::chrono::steady_clock::now();
		u64 n = 0, ok = 0;
		vcn::cur() = h.name;
		vcn::rs() = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull);
		for(int i = 0; i < 8; ++i) vcn::rnd();
		while(true) {
			vcn::cnt().clear(); vcn::log().clear();
			std::string fail; bool f = false;
			try { h.fn(); ++ok; }
			catch(const vc_skip&) {}
			catch(const vc_failed& e) { f = true; fail = e.label; }
			catch(const std::exception& e) { f = true; fail = std::string("uncaught exception: ") + e.what(); }
			for(void* p : vcn::blocks()) free(p);
			vcn::blocks().clear();
			++n;
			if(f) {
				printf("FAIL %s: %s\n", h.name, fail.c_str());
				int k = 0;
				for(auto& kv : vcn::log()) { if(k++ > 400) break; printf("INPUT %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second); }
				printf("SEED %llu ITER %llu\n", (unsigned long long)seed, (unsigned long long)n);
				bad = 1; break;
			}
			if(model) break;
			double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
			if(el > secs / todo) break;
		}
		printf("RUN %s executions=%llu meeting_precondition=%llu\n", h.name, (unsigned long long)n, (unsigned long long)ok);
		fflush(stdout);
	}
	return bad;
}
#endif
