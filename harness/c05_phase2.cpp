// C05: bitfield, rank index, and the phase 2 marking/renumbering stages.
#include "io_mem.h"
#include <chia/phase2.hpp>
typedef phase1::tmp_entry_x TX; typedef phase2::entry_x EX; typedef phase2::entry_7 E7;
static u64* words(bitfield& b) { return (u64*)b.buffer_.get(); }
static bool wbit(const u64* w, u64 i) { return (w[i / 64] >> (i % 64)) & 1; }
#if VC_SYMBOLIC
// PopCount is a single instruction in inline assembly; its meaning (number of set bits, see C05_rank) is assumed
static u64 pc(u64 x) { return vc_uf1("popcount", x); }
static u64 pc_contract(u64 x) { return pc(x); }
static u64 NW; static u64* g_w;
static void mk(bitfield& b, const char* name) {          // arbitrary bit field of NW words
	u64* w = (u64*)vc_array(name, NW, 8, "0:8");
	*(u64**)&b.buffer_ = w; b.size_ = NW; }
static void drop(bitfield& b) { *(u64**)&b.buffer_ = nullptr; }
#define NWORDS() NW = vc_range("words", 1, u64(1) << 34)
VC_HARNESS(C05_bits) {
	NWORDS(); bitfield b(0); mk(b, "w"); u64 i = vc_range("i", 0, u64(1) << 40), j = vc_range("j", 0, u64(1) << 40); vc_assume(i < 64 * NW && j < 64 * NW);
	u64* w = words(b); bool old = wbit(w, j);
	vc_assert(b.get(j) == old, "get returns the bit");
	vc_assert((u64)b.size() == 64 * NW, "size in bits");
	b.set(i);
	vc_assert(words(b) == w && wbit(w, j) == (old | (i == j)), "set changes exactly the one bit");
	vc_assert(b.get(i), "a bit that was set is seen");
	vc_cover("bits"); drop(b);
}
VC_HARNESS(C05_set_shared) {       // set is thread-safe: other threads set bits of the same words at any moment
	NWORDS(); bitfield b(0); mk(b, "w"); u64 i = vc_range("i", 0, u64(1) << 40); vc_assume(i < 64 * NW); u64* w = words(b);
	vc_interfere(w); b.set(i); vc_interfere(nullptr);
	vc_assert(wbit(w, i), "the bit is set"); vc_cover("set"); drop(b);
}
static u64 g_q; static bitfield* g_b;
static void inv_clear(u64 n) { vc_inv(n <= NW, "index"); vc_inv((n <= g_q) | (g_w[g_q] == 0), "words seen are zero"); }
VC_HARNESS(C05_clear) {
	NWORDS(); bitfield b(0); mk(b, "w"); g_w = words(b); g_q = vc_range("q", 0, u64(1) << 34); vc_assume(g_q < NW);
	vc_loop("bitfield::clear", (void*)inv_clear, 0);
	b.clear();
	vc_assert(g_w[g_q] == 0, "all bits cleared"); vc_cover("clear"); drop(b);
}
static u64 ctor_bits;
static void clear_stub(bitfield* b) { g_b = b; g_w = words(*b); }
VC_HARNESS(C05_ctor) {
	u64 n = vc_range("bits", 1, u64(1) << 40); vc_replace("bitfield::clear", (void*)clear_stub); g_b = nullptr;
	{ bitfield b(n); vc_assert(g_b == &b, "a new bit field is cleared"); vc_assert((u64)b.size() >= n && (u64)b.size() < n + 64, "large enough");
	  u64 i = vc_range("i", 0, u64(1) << 40); vc_assume(i < n); b.set(i); vc_assert(b.get(i), "every bit has its place"); vc_cover("ctor"); }
}
// number of set bits in the first w words (defined by recursion), and in the first p bits
static u64 CN(u64 w) { return vc_uf1("cnt", w); }
static void defCN(u64 w) { vc_define(CN(0) == 0 && CN(w + 1) == CN(w) + pc(g_w[w]), "number of set bits in the first w words"); }
static u64 RANK(u64 p) { return CN(p / 64) + (p % 64 ? pc(g_w[p / 64] & ((u64(1) << (p % 64)) - 1)) : 0); }
VC_HARNESS(C05_rank) {             // RANK counts the set bits below p, for popcount = number of set bits
	u64 t = vc_case("bit", 0, 63), x = vc_u64("word"); u64 lo = (u64(1) << t) - 1, hi = t == 63 ? ~u64(0) : (u64(1) << (t + 1)) - 1;
	vc_assert(u64(__builtin_popcountll(x & hi)) == __builtin_popcountll(x & lo) + ((x >> t) & 1), "each set bit counts once"); vc_cover("rank");
}
static u64 c_s, c_e;
static void inv_count(u64 n, u64 acc) {
	u64 w = c_s + n; vc_inv(w <= c_e, "index"); vc_inv(acc == CN(w) - CN(c_s), "bits counted so far");
	if(w < NW) vc_define(CN(w + 1) == CN(w) + pc(g_w[w]), "number of set bits in the first w words"); }
VC_HARNESS(C05_count) {
	NWORDS(); bitfield b(0); mk(b, "w"); g_w = words(b); u64 s = vc_range("s", 0, u64(1) << 34), e = vc_range("e", 0, u64(1) << 40); c_s = s; c_e = e / 64;
	vc_assume(s * 64 <= e && e <= NW * 64); vc_assume(CN(s) <= s * 64);
	vc_replace("Util::PopCount", (void*)pc_contract); vc_loop("bitfield::count", (void*)inv_count, 1);
	vc_assert((u64)b.count(s * 64, e) == RANK(e) - RANK(s * 64), "count is the number of set bits in the range"); vc_cover("count"); drop(b);
}
static u64 g_j; static bitfield_index* g_ix;
static u64 count_contract(const bitfield* b, int64_t s, int64_t e) { vc_require(b == g_b, "the bit field indexed"); vc_require(s >= 0 && s % 64 == 0 && s <= e && u64(e) <= NW * 64, "range inside the bit field"); return RANK(e) - RANK(s); }
static void* g_obj;
static std::vector<u64>* IX() { return (std::vector<u64>*)((u8*)g_obj + offsetof(bitfield_index, index_)); }
static u64 idx_n() { return (NW + 15) / 16; }
static void inv_ix(u64 n, u64 acc) {
	vc_inv(n <= idx_n(), "bucket in range"); vc_inv(IX()->size() == n, "one count per bucket");
	u64 w = 16 * n < NW ? 16 * n : NW; vc_inv(acc == CN(w), "running count");
	vc_inv((n <= g_j) | (IX()->d[g_j] == CN(16 * g_j)), "count before the bucket"); }
VC_HARNESS(C05_index) {
	NWORDS(); bitfield b(0); mk(b, "w"); g_w = words(b); g_b = &b; g_j = vc_range("j", 0, u64(1) << 30); vc_assume(g_j < idx_n());
	vc_define(CN(0) == 0, "no bits in no words");
	alignas(16) static u8 mem[sizeof(bitfield_index)]; g_obj = mem;
	vc_replace("bitfield::count", (void*)count_contract); vc_loop_now("bitfield_index::bitfield_index", (void*)inv_ix, 1);
	new(mem) bitfield_index(b);
	vc_assert(IX()->size() == idx_n() && IX()->d[g_j] == CN(16 * g_j), "the index holds the number of set bits before each bucket"); vc_cover("index"); drop(b);
}
VC_HARNESS(C05_lookup) {
	NWORDS(); bitfield b(0); mk(b, "w"); g_w = words(b); g_b = &b;
	alignas(16) static u8 mem[sizeof(bitfield_index)]; g_obj = mem; bitfield_index* ix = (bitfield_index*)mem; *(bitfield**)mem = &b;
	u64 pos = vc_range("pos", 0, u64(1) << 40), off = vc_range("off", 0, 65535); vc_assume(pos + off < NW * 64); vc_assume(b.get(pos) && b.get(pos + off));
	new(IX()) std::vector<u64>(); IX()->d = (u64*)vc_array("index", idx_n(), 8, "0:8"); IX()->n = idx_n(); vc_assume(IX()->d[pos / 1024] == CN(pos / 1024 * 16));
	// rank is monotone and at most the position (C05_rank)
	u64 bk = pos / 1024 * 1024, al = pos / 64 * 64; vc_assume(RANK(bk) <= RANK(al) & RANK(al) <= RANK(pos) & RANK(pos) <= RANK(pos + off) & RANK(pos + off) <= pos + off);
	vc_replace("bitfield::count", (void*)count_contract);
	auto r = ix->lookup(pos, off);
	vc_assert(r.first == RANK(pos), "position among the set bits"); vc_assert(r.second == RANK(pos + off) - RANK(pos), "distance among the set bits"); vc_cover("lookup"); drop(b);
}
// ---------------------------------------------------------------- compute_table
static int g_step; static bitfield *g_L, *g_R; static u64 g_nt, W, g_bit; static bool g_ixmade, g_fin, g_flush; static u64 g_N;
static std::vector<EX>* a_in; static u64 a_n;
template<class S> struct FakeDS {
	struct WriteCache { void add(const S& e) { vc_assert(&e == &(*(std::vector<S>*)a_in)[a_n], "entries of a block are added in turn, each once"); a_n++; } };
	std::shared_ptr<WriteCache> add_cache() { return std::make_shared<WriteCache>(); }
	void finish() { g_fin = true; }
};
template<class T, class S> struct Tab7 {};
template<class T> static u64 E_pos(u64 i) { return vc_uf1("pos", i); }
static u64 Epos(u64 i) { return vc_uf1("pos", i) & ((u64(1) << 35) - 1); }
static u64 Eoff(u64 i) { return vc_uf1("off", i) & 1023; }
static u64 Ey(u64 i) { return vc_uf1("y", i) & 0xffffffff; }
template<class T> static T entry(u64 i) { T e; e.pos = Epos(i); e.off = Eoff(i); if constexpr(std::is_same<T, E7>::value) e.y = Ey(i); vc_assume(u64(e.pos) == Epos(i)); return e; }
// the input block [m, m+c): every element read is the entry of the table at that index
template<class T> static T* block_elem(u64 i);
static bool kept(u64 i) { return g_R ? wbit(words(*g_R), i) : true; }
static u64 blk_m, blk_c; static u64* Lw;
static bool H(u64 n) { return vc_uf1("hit", n) & 1; }      // some kept entry among the first n of the block refers to the watched bit
template<class T> struct M {
	static std::vector<T>* in;
	static void at(u64 n) { u64 i = blk_m + n; T& e = in->d[n]; vc_define(u64(e.pos) == Epos(i) && u64(e.off) == Eoff(i), "entries of the table"); if constexpr(std::is_same<T, E7>::value) vc_define(u64(e.y) == Ey(i), "entries of the table"); }
	static bool hit(u64 i) { return kept(i) & ((Epos(i) == g_bit) | (Epos(i) + Eoff(i) == g_bit)); }
	static void inv_mark(u64 n) {
		vc_inv(n <= blk_c, "index");
		vc_inv(wbit(Lw, g_bit) == (wold | H(n)), "a bit is set exactly if it was set or a kept entry refers to it");
		if(n < blk_c) { at(n); vc_define(H(n + 1) == (H(n) | hit(blk_m + n)), "hit"); vc_assume(Epos(blk_m + n) + Eoff(blk_m + n) < 64 * NW); }
	}
	static bool wold;
};
template<class T> std::vector<T>* M<T>::in; template<class T> bool M<T>::wold;
template<class T> static const char* slots();
#ifdef CHIA_K34
template<> const char* slots<TX>() { return "0:8,8:2"; }
template<> const char* slots<E7>() { return "0:8,8:8,16:2"; }
template<> const char* slots<EX>() { return "0:8,8:8,16:2"; }
#else
template<> const char* slots<TX>() { return "0:4,4:2"; }
template<> const char* slots<E7>() { return "0:4,4:4,8:2"; }
template<> const char* slots<EX>() { return "0:4,4:4,8:2"; }
#endif
static u64 KC(u64 n) { return vc_uf1("kept", n); }         // kept entries among the first n of the block
static u64 rank_of(u64 p) { return vc_uf1("rank", p); }
template<class T, class S> struct R {
	static std::vector<S>* out;
	static bool good(const S& e, u64 i) { bool ok = (u64(e.pos) == rank_of(Epos(i))) & (u64(e.off) == ((rank_of(Epos(i) + Eoff(i)) - rank_of(Epos(i))) & 0xffff)); if constexpr(std::is_same<T, E7>::value) ok = ok & (u64(e.y) == Ey(i)); return ok; }
	static void inv_map(u64 n) {
		vc_inv(n <= blk_c, "index"); u64 i = blk_m + n;
		vc_define(KC(0) == 0, "kept entries so far"); vc_inv(KC(n) <= n, "count"); if(W < blk_c) vc_define(KC(W + 1) == KC(W) + kept(blk_m + W), "kept entries so far");
		if(n < blk_c) { M<T>::at(n); vc_define(KC(n + 1) == KC(n) + kept(i), "kept entries so far"); vc_assume(Epos(i) + Eoff(i) < 64 * NW); }
		vc_inv(out->size() == KC(n), "kept entries are output, dropped ones are not");
		if(W < n) { vc_inv((KC(W) <= W) & (KC(W + 1) <= KC(n)), "order"); if(kept(blk_m + W)) vc_inv(good(out->d[KC(W)], blk_m + W), "the entry, with renumbered references, in its place"); }
	}
};
template<class T, class S> std::vector<S>* R<T, S>::out;
template<class S> static Thread<std::vector<S>>* g_count; static std::vector<EX>* t_in; static u64 t_base, t_taken; static bool in_count; static void* t_target;
template<class S> static u64 keyof(const S& e) { if constexpr(std::is_same<S, EX>::value) return e.key; else return 0; }
template<class S> static void took(void* who, std::vector<S>& d) {
	vc_assert(in_count && who != (void*)g_count<S>, "entries are handed on by the counting stage only"); t_target = who; t_taken++;
	std::vector<S>* in = (std::vector<S>*)t_in; vc_assert(&d == in, "the block itself is handed on");
	if constexpr(std::is_same<S, EX>::value) if(W < in->size()) { vc_assert(u64(in->d[W].key) == t_base + W, "kept entries are numbered consecutively"); vc_cover("key"); }
}
template<typename S> struct VcThreadHook<std::vector<S>> { static void create(Thread<std::vector<S>>*) {} static void take(Thread<std::vector<S>>* t, std::vector<S>& d) { took<S>(t, d); } static void close(Thread<std::vector<S>>*) {} };
template<typename S, typename C> struct VcPoolHook<std::vector<S>, size_t, C> { typedef ThreadPool<std::vector<S>, size_t, C> P; static void create(P*) {} static void take(P* p, std::vector<S>& d) { took<S>(p, d); } static void close(P*) {} };
static u64 g_open; static int g_stage;
template<class T> static void mkblock(std::pair<std::vector<T>, size_t>& b) {
	blk_m = vc_range("m", 0, u64(1) << 35); blk_c = vc_range("c", 0, u64(1) << 30); vc_assume(blk_m + blk_c <= g_N); vc_assume(g_N <= 64 * NW);
	b.first.d = (T*)vc_array("block", blk_c, sizeof(T), slots<T>()); b.first.n = blk_c; b.second = blk_m; M<T>::in = &b.first; }
static u64 c_n; static u64* nw_cell;
template<class S> static void inv_cnt(u64 n) {
	std::vector<S>* in = (std::vector<S>*)t_in; vc_inv(n <= c_n, "index");
	if constexpr(std::is_same<S, EX>::value) { if(W < n) vc_inv(u64(in->d[W].key) == t_base + W, "numbered"); }
}
static void inv_turn(u64 n) { vc_inv(n <= c_n, "entry index in range"); }
static u64 fw_n; static void* fw_tab;
template<class S> static void table_write(DiskTable<S>* t, const S& e) { vc_assert(t == fw_tab && &e == &(*(std::vector<S>*)a_in)[a_n], "entries of a block are written in turn, each once"); a_n++; }
template<class S> static void table_flush(DiskTable<S>* t) { vc_assert(t == fw_tab, "the output table"); g_flush = true; }
static void index_ctor(bitfield_index* ix, const bitfield* b) { vc_assert(b == g_L && g_step == 1, "the index is built over the complete marks"); g_ixmade = true; }
static std::pair<u64, u64> lookup_contract(const bitfield_index*, u64 pos, u64 off) { vc_require(g_ixmade && pos + off < 64 * NW, "position in range"); vc_assume((rank_of(pos) <= pos) & (rank_of(pos) <= rank_of(pos + off)) & (rank_of(pos + off) - rank_of(pos) <= off)); return {rank_of(pos), rank_of(pos + off) - rank_of(pos)}; }
static void cleared(bitfield* b) { vc_assert(b == g_L && g_step == 0, "only the new marks are cleared, before marking"); words(*b)[g_bit / 64] = 0; g_open = 1; }
template<class T, class S, class DS> static void table_read(DiskTable<T>* t, Processor<std::pair<std::vector<T>, size_t>>* out, int nthreads, int) {
	vc_assert(nthreads >= 1, "reader threads"); vc_assert(t->num_entries == g_N && t->file_name == "TAB", "the table of this step");
	typedef std::pair<std::vector<T>, size_t> B;
	if(g_step == 0) {                                     // marking
		auto* p = (ThreadPool<B, size_t, size_t>*)out; vc_assert(g_open == 1, "marks cleared first");
		if(g_stage == 4) {
			words(*g_L)[g_bit / 64] = vc_u64("marks"); Lw = words(*g_L); M<T>::wold = wbit(Lw, g_bit); vc_define(H(0) == false, "hit"); B b; mkblock<T>(b); size_t o = 0, l = 0;
			vc_loop("compute_table<", (void*)M<T>::inv_mark, 0);
			p->execute(b, o, l);
			vc_assert(words(*g_L) == Lw && wbit(Lw, g_bit) == (M<T>::wold | H(blk_c)), "after a block: exactly the bits set before and those its kept entries refer to");
			vc_cover("mark"); vc_assume(false);
		}
		g_step = 1; return;
	}
	vc_assert(g_step == 1 && g_ixmade, "renumbering after the index was built"); g_step = 2;
	auto* p = (ThreadPool<B, std::vector<S>, size_t>*)out; g_count<S> = (Thread<std::vector<S>>*)p->output; vc_assert(p->output, "results are handed on");
	int c = g_stage;
	if(c == 0) {
		B b; mkblock<T>(b); W = vc_range("W", 0, u64(1) << 30); std::vector<S> o; o.d = (S*)vc_array("out", u64(1) << 31, sizeof(S), slots<S>()); size_t l = 0; R<T, S>::out = &o;
		vc_loop("compute_table<", (void*)R<T, S>::inv_map, 0);
		p->execute(b, o, l);
		vc_assert(o.size() == KC(blk_c), "kept entries and no others");
		if(W < blk_c && kept(blk_m + W)) { vc_assert(R<T, S>::good(o[KC(W)], blk_m + W), "in order, with renumbered references"); vc_cover("map"); }
		vc_assume(false);
	}
	if(c == 1) {                                          // a first block of any size, then another: numbers continue
		W = vc_range("W", 0, u64(1) << 30); in_count = true; t_taken = 0; t_base = 0;
		std::vector<S> v1, v2; c_n = vc_range("n1", 0, u64(1) << 30); v1.d = (S*)vc_array("v1", c_n, sizeof(S), slots<S>()); v1.n = c_n; t_in = (std::vector<EX>*)&v1;
		vc_loop("compute_table<", (void*)inv_cnt<S>, 0);
		g_count<S>->execute(v1); vc_assert(t_taken == 1, "each block is handed on once");
		t_base = c_n; c_n = vc_range("n2", 0, u64(1) << 30); v2.d = (S*)vc_array("v2", c_n, sizeof(S), slots<S>()); v2.n = c_n; t_in = (std::vector<EX>*)&v2;
		g_count<S>->execute(v2); vc_assert(t_taken == 2, "each block is handed on once"); vc_cover("count"); vc_assume(false);
	}
	if(c == 2) {                                          // the stage behind the counting stage stores each entry once
		std::vector<S> e; in_count = true; t_taken = 0; t_base = 0; t_in = (std::vector<EX>*)&e; c_n = 0; W = 0;
		e.n = 0; g_count<S>->execute(e); vc_assert(t_taken == 1, "each block is handed on once");
		std::vector<S> v; c_n = vc_range("n", 0, u64(1) << 30); v.d = (S*)vc_array("v", c_n, sizeof(S), slots<S>()); v.n = c_n; a_in = (std::vector<EX>*)&v; a_n = 0;
		vc_loop("compute_table<", (void*)inv_turn, 0);
		if(fw_tab) { ((Thread<std::vector<S>>*)t_target)->execute(v); }
		else { typedef std::shared_ptr<typename DS::WriteCache> C; C cache; size_t o = 0; if(vc_case("cached", 0, 1)) cache = std::make_shared<typename DS::WriteCache>(); ((ThreadPool<std::vector<S>, size_t, C>*)t_target)->execute(v, o, cache); vc_assert((bool)cache, "write cache kept"); }
		vc_assert(a_n == c_n, "every kept entry is stored once"); vc_assert(!g_fin && !g_flush, "not finished before"); vc_cover("store"); vc_assume(false);
	}
}
template<class T, class S, class DS> static void run_table(bool file, bool used) {
	g_stage = vc_case("stage", 0, 4);
	NWORDS(); bitfield L(0), U(0); mk(L, "L"); mk(U, "U"); g_L = &L; g_R = used ? &U : nullptr; g_step = 0; g_open = 0; phase2::g_thread_multi = vc_range("multi", 1, 4); g_fin = g_flush = g_ixmade = in_count = false;
	g_bit = vc_range("bit", 0, u64(1) << 40); vc_assume(g_bit < 64 * NW); g_N = vc_range("N", 1, u64(1) << 35);
	DS ds; DiskTable<S>* ft = (DiskTable<S>*)new u64[64]; fw_tab = file ? ft : nullptr; table_t tab; tab.file_name = "TAB"; tab.num_entries = g_N;
	vc_replace("bitfield::clear", (void*)cleared); vc_replace("bitfield_index::bitfield_index", (void*)index_ctor); vc_replace("bitfield_index::lookup", (void*)lookup_contract);
	vc_replace("DiskTable<.*>::read", (void*)table_read<T, S, DS>); vc_replace("DiskTable<.*>::write", (void*)table_write<S>); vc_replace("DiskTable<.*>::flush", (void*)table_flush<S>);
	phase2::compute_table<T, S, DS>(vc_range("index", 2, 7), vc_range("threads", 1, 64), file ? nullptr : &ds, file ? ft : nullptr, tab, &L, used ? &U : nullptr);
	vc_assert(g_step == 2 && g_fin == !file && g_flush == file, "output finished"); vc_cover("done"); drop(L); drop(U);
}
VC_HARNESS(C05_table_x) { run_table<TX, EX, FakeDS<EX>>(false, true); }
VC_HARNESS(C05_table_7) { run_table<E7, E7, FakeDS<E7>>(true, false); }
// ---------------------------------------------------------------- phase 2 as a whole: tables 7..2 in order, by the contract of compute_table
static FILE* io_fopen(const char*, const char*) { return (FILE*)8; } static size_t io_fwrite(const void*, size_t, size_t n, FILE*) { return n; } static int io_fclose(FILE*) { return 0; } static int io_fseek(FILE*, long, int) { return 0; }
static size_t io_fread(void*, size_t, size_t n, FILE*) { return n; } static int io_fflush(FILE*) { return 0; } static int io_ferror(FILE*) { return 0; } static int io_feof(FILE*) { return 0; } static int io_rename(const char*, const char*) { return 0; }
static const phase1::output_t* p_in; static int p_next; static bitfield *p_L, *p_x, *p_y; static DiskTable<E7>* p_t7; static phase2::DiskSortT* p_sort; static bool p_rm[8]; static std::string* p_names[8]; static int p_k, p_nt, p_ns; static u64 p_max, p_n7;
static int io_remove(const char* n) { int i = n[0] - '0'; vc_assert(n[0] >= '1' && n[0] <= '7' && n[1] == 0, "only input tables are removed"); vc_assert(i != 1 && i > p_next, "an input table is removed only after its use; table 1 is kept"); p_rm[i] = true; return 0; }
static void p_common(int R, int nt, const table_t* t, bitfield* L, const bitfield* U) {
	vc_assert(R == p_next && R >= 2 && nt == p_nt, "tables 7 to 2, in order"); vc_assert(t == &p_in->table[R - 1], "the table of this step"); vc_assert(!p_rm[R], "still there");
	vc_assert(R == 7 ? !U : U == p_L, "filtered by the marks of the step before"); vc_assert(L && L != U && L != p_L, "marks go to the other bit field");
	vc_assert((u64)L->size() >= p_max, "marks cover every table"); p_L = L; p_next--; }
static void table7_c(int R, int nt, phase2::DiskSort7* ds, DiskTable<E7>* f, const table_t* t, bitfield* L, const bitfield* U) { vc_assert(R == 7 && !ds && f, "table 7 is written unsorted"); p_t7 = f; f->num_entries = p_n7; p_common(R, nt, t, L, U); }
static void tablex_c(int R, int nt, phase2::DiskSortT* ds, DiskTable<EX>* f, const table_t* t, bitfield* L, const bitfield* U) { vc_assert(R < 7 && ds && !f && ds == p_sort, "the table goes to a new sort"); p_common(R, nt, t, L, U); }
static void sort_ctor(phase2::DiskSortT* s, int key, int logb, std::string* prefix, bool ro) { vc_assert(key == p_k && !ro, "positions of k bits"); for(int i = 0; i < p_ns; ++i) vc_assert(*prefix != *p_names[i], "files of its own"); p_names[p_ns++] = new std::string(*prefix); p_sort = s; }
static void sort_dtor(phase2::DiskSortT*) {}
static void noclear(bitfield*) {}
VC_HARNESS(C05_phase2) {
	p_k = vc_range("k", 16, KMAX); p_nt = vc_range("threads", 1, 64); p_ns = 0; p_next = 7; p_L = nullptr; p_n7 = vc_range("n7", 0, u64(1) << 35); p_max = 0; for(int i = 0; i < 8; ++i) p_rm[i] = false;
	phase1::output_t in; phase2::output_t out; p_in = &in; in.params.k = p_k; const char* nm[] = { "1", "2", "3", "4", "5", "6", "7" };
	int big = vc_case("largest_table", 0, 6);
	for(int i = 0; i < 7; ++i) { in.table[i].file_name = nm[i]; in.table[i].num_entries = i == big ? 1000000 : 100 + i; if(in.table[i].num_entries > p_max) p_max = in.table[i].num_entries; }
	vc_replace("phase2::compute_table<phase1::entry_7", (void*)table7_c); vc_replace("phase2::compute_table<phase1::tmp_entry_x", (void*)tablex_c);
	vc_replace("DiskSort<phase2::entry_x, .*>::DiskSort\\(", (void*)sort_ctor); vc_replace("DiskSort<phase2::entry_x, .*>::~DiskSort\\(", (void*)sort_dtor); vc_replace("bitfield::clear", (void*)noclear);
	phase2::compute(in, out, p_nt, vc_range("logb", 1, 16), "p", "t1/", "t2/");
	vc_assert(p_next == 1, "all tables processed"); vc_assert(out.bitfield_1.get() == p_L, "the kept set of table 1 is handed on"); vc_assert(out.table_1.file_name == "1" && out.table_1.num_entries == in.table[0].num_entries, "table 1 handed on");
	vc_assert(out.table_7.num_entries == p_n7, "table 7 handed on"); for(int i = 1; i <= 5; ++i) vc_assert((bool)out.sort[i], "sorted tables handed on"); vc_assert(out.params.k == p_k, "parameters handed on"); vc_cover("phase2");
}
#endif
