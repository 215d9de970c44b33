// C10: compute_f1 evaluates every x of [0, 2^k) exactly once and hands every entry to the sort.
// Thread pools are contract points (C04); F1Calculator::compute_block is used by its contract (c10_f1.cpp).
#include <chia/phase1.hpp>
#include "vc.h"
using namespace phase1;
static int g_k; static u8 g_id[32];
static u64 g_Z, g_blocks, g_cb, g_adds;
static std::vector<entry_1>* g_in; static entry_1* g_out; static bool g_finish, g_stage2, g_cachemade;
struct FakeDS {
	struct WriteCache {
		void add(const entry_1& e) {
			vc_assert(&e == &(*g_in)[g_adds], "entries of a block are added in turn, each once");
			g_adds++;
		}
	};
	std::shared_ptr<WriteCache> add_cache() { g_cachemade = true; return std::make_shared<WriteCache>(); }
	void finish() { g_finish = true; }
};
static u64 g_first, g_done;
static void compute_block_contract(F1Calculator* F, u64 first, u64 n, entry_1* block) {
	if(g_cb == 0) { g_first = first; g_out = block; g_done = 0; }
	vc_require(first == g_first + g_done, "consecutive x, none skipped");
	vc_require(n >= 1 && n <= 16 && n % 16 == 0, "the block size compute_block is specified for");
	vc_require(block == g_out + g_done, "results of consecutive calls are adjacent");
	vc_require(F->k_ == g_k, "calculator set up for this k");
	g_done += n; g_cb++;
}
typedef ThreadPool<u64, std::vector<entry_1>, size_t> P1;
typedef ThreadPool<std::vector<entry_1>, size_t, std::shared_ptr<FakeDS::WriteCache>> P2;
static void inv_blocks(u64 n) { vc_inv(n <= (1ull << g_k) / g_Z, "block number in range"); }
static void inv_adds(u64 n) { vc_inv(n <= g_in->size(), "entry index in range"); }
static P1* g_p1; static P2* g_p2;
template<> struct VcPoolHook<u64, std::vector<entry_1>, size_t> {
	static void create(P1* p) {                       // one arbitrary block b
		u64 b = vc_range("b", 0, (1ull << 34) - 1);
		g_cb = 0;
		std::vector<entry_1> out; size_t l = 0; u64 bb = b;
		p->execute(bb, out, l);
		g_Z = out.size();
		vc_assert(g_Z == g_done && out.data() == g_out, "the results are what the block returns");
		vc_assert(g_first == b * g_Z, "block b covers x in [b*Z, (b+1)*Z)");
		vc_assert(p->output == g_p2, "results go to the stage that feeds the sort");
		vc_cover("block");
	}
	static void take(P1*, u64& i) { vc_assert(i == g_blocks, "block numbers are handed out consecutively"); g_blocks++; }
	static void close(P1* p) {
		vc_assert(g_blocks == (1ull << g_k) / g_Z && g_blocks * g_Z == (1ull << g_k), "all blocks of [0, 2^k) handed out");
	}
};
template<> struct VcPoolHook<std::vector<entry_1>, size_t, std::shared_ptr<FakeDS::WriteCache>> {
	static void create(P2* p) { g_p2 = p; }
	static void take(P2*, std::vector<entry_1>&) {}
	static void close(P2* p) {
		g_stage2 = true;
		std::vector<entry_1> in; in.resize(vc_range("m", 0, 65536)); size_t o = 0; std::shared_ptr<FakeDS::WriteCache> c;
		if(vc_case("cached", 0, 1)) c = std::make_shared<FakeDS::WriteCache>();
		g_in = &in; g_adds = 0;
		p->execute(in, o, c);
		vc_assert(g_adds == in.size(), "every entry of the block is added to the sort");
		vc_assert(!g_finish, "sort not finished before all entries are added");
		vc_cover("adds");
	}
};
VC_HARNESS(C10_compute_f1) {
	g_k = vc_range("k", 16, KMAX);
	vc_replace("F1Calculator::compute_block", (void*)compute_block_contract);
	vc_loop("compute_f1", (void*)inv_blocks, 0); vc_loop("compute_f1", (void*)inv_adds, 0);
	FakeDS ds; int nt = vc_range("threads", 1, 64);
	g_finish = false;
	compute_f1(g_id, g_k, nt, &ds);
	vc_assert(g_finish && g_stage2, "sort finished");
	vc_cover("f1");
}
