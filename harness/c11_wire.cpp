// C11/C12/C18, phase 1: slicing a sorted table into groups, the match and evaluate stages, and what becomes of the results.
// Thread stages by contract (C04), sorts and tables by contract (C02, C03), matcher and table function by contract (C11, C12).
//
// Slicing: after n entries of the sorted table the slicer's state is
//   group 0 = entries [off0, n), all of index ix0;  group 1 = entries [off1, off0), all of index ix1 < ix0 (if there is one)
// and every pair of adjacent groups that ended before has been handed on once.  One step is shown from an arbitrary such
// state with a block of zero to two entries; the last pair (still pending when the input ends) is shown separately.
#include "io.h"
#include <chia/phase1.hpp>
using namespace phase1;
#if VC_SYMBOLIC
typedef entry_3 T; typedef entry_4 S; typedef tmp_entry_x R;
#ifdef CHIA_K34
#define TS "0:8,8:8,16:2"
#else
#define TS "0:8,8:4,12:2"
#endif
static const char* SL = TS;
static int stage, nth, g_k, g_tab; static bool with_L, with_R, r_open;
typedef std::pair<std::vector<T>, size_t> IB;
struct LS { void read(Processor<IB>* out, int nt); }; struct RS { struct WriteCache { void add(const S& e); }; std::shared_ptr<WriteCache> add_cache(); void finish(); };
typedef std::shared_ptr<RS::WriteCache> WC;
struct PL : Processor<std::vector<T>> { void take(std::vector<T>& v) override; }; struct PR : Processor<std::vector<S>> { void take(std::vector<S>&) override { vc_assert(false, "results reach the table only through the evaluate stage"); } };
static LS g_ls; static RS g_rs; static PL g_pl; static PR g_pr; static Thread<IB>* g_read; static void *g_match, *g_eval, *g_radd; static bool *m_closed, *e_closed, *a_closed;
// ---- the slicer's state
static u64 ix0, ix1, of0, of1, n0; static bool has0, has1; static std::vector<T>*b0, *b1; static u64 W0, W1, y0w, y1w;
static std::array<u64, 2>* ixv() { return (std::array<u64, 2>*)vc_local("^unsigned long phase1::compute_matches<", "L_index"); }
static std::array<u64, 2>* ofv() { return (std::array<u64, 2>*)vc_local("^unsigned long phase1::compute_matches<", "L_offset"); }
static std::array<std::shared_ptr<std::vector<T>>, 2>* bkv() { return (std::array<std::shared_ptr<std::vector<T>>, 2>*)vc_local("^unsigned long phase1::compute_matches<", "L_bucket"); }
static void initial() { auto& i = *ixv(); auto& o = *ofv(); auto& b = *bkv(); vc_assert(i[0] == 0 && o[0] == 0 && !b[0] && !b[1], "no group before the first entry"); }
static std::vector<T>* mk(const char* nm, u64 n) { auto* v = new std::vector<T>(); v->d = (T*)vc_array(nm, (u64(1) << 20) + 4, sizeof(T), SL); v->n = n; return v; }
static const u64 GN = 1u << 20, PN = u64(1) << 36;
static void havoc_state() {
	auto& i = *ixv(); auto& o = *ofv(); auto& b = *bkv(); u64 c = vc_case("groups", 0, 2); has0 = c > 0; has1 = c > 1;
	ix0 = has0 ? vc_range("index0", 0, 1u << 26) : 0; ix1 = vc_range("index1", 0, 1u << 26); of1 = vc_range("offset1", 0, PN); of0 = vc_range("offset0", 0, PN); n0 = vc_range("entries", 0, PN);
	if(has1) vc_assume((ix1 < ix0) & (of1 < of0) & (of0 < n0)); else if(has0) vc_assume((of0 == 0) & (of1 == 0) & (n0 > 0)); else vc_assume((of0 == 0) & (of1 == 0) & (n0 == 0));
	vc_assume((of0 - of1 <= GN) & (n0 - of0 <= GN));
	i[0] = ix0; i[1] = ix1; o[0] = of0; o[1] = of1; b0 = b1 = nullptr;
	if(has0) { b0 = mk("group0", n0 - of0); b[0].p = b0; b[0].c = new size_t(1); W0 = vc_range("W0", 0, GN); vc_assume(W0 < n0 - of0); y0w = vc_range("y0w", 0, u64(1) << 40); b0->d[W0].y = y0w; }
	if(has1) { b1 = mk("group1", of0 - of1); b[1].p = b1; b[1].c = new size_t(1); W1 = vc_range("W1", 0, GN); vc_assume(W1 < of0 - of1); y1w = vc_range("y1w", 0, u64(1) << 40); b1->d[W1].y = y1w; }
}
// ---- stage 0: one block of entries
static int ne; static T ent[2]; static bool block_done, tmp_done; static int want, got; static u64 wo1[2]; static std::vector<T>*wb1[2], *wb0[2]; static u64 wn1[2], wn0[2];
static std::vector<T>* cur[2]; static std::vector<T>* g_blk;
static bool ent_eq(const T& a, const T& b) { return a.y == b.y && a.pos == b.pos && a.off == b.off; }
static void run_slice() {
	havoc_state(); ne = vc_case("block", 0, 2); IB b; b.second = n0; g_blk = &b.first; block_done = tmp_done = false;
	// what the two steps should do, computed on ghost state
	u64 gi0 = ix0, gi1 = ix1, go0 = of0, go1 = of1, gn = n0; bool h0 = has0, h1 = has1; std::vector<T>*v0 = b0, *v1 = b1; want = got = 0; bool fresh[2];
	for(int e = 0; e < ne; ++e) { T t; t.y = vc_range("y", 0, (u64(1) << 40) - 1); t.pos = vc_range("pos", 0, u64(1) << 31); t.off = vc_range("off", 0, 1023); for(auto& m : t.meta) m = 7; ent[e] = t; b.first.push_back(t); }
	for(int e = 0; e < ne; ++e) {
		u64 g = vc_range("g", 0, 1u << 27); vc_assume((g * 15113 <= ent[e].y) & (ent[e].y < g * 15113 + 15113)); vc_assume(g >= gi0);
		bool next = h0 ? g > gi0 : false; fresh[e] = !h0 || next;
		if(next) {
			if(h1 && gi1 + 1 == gi0) { wo1[want] = go1; wb1[want] = v1; wb0[want] = v0; wn1[want] = go0 - go1; wn0[want] = gn - go0; want++; }
			gi1 = gi0; go1 = go0; v1 = v0; h1 = h0; go0 = gn; v0 = nullptr;
		}
		gi0 = g; h0 = true; gn++;
	}
	g_read->execute(b);
	vc_assert(block_done && got == want, "every pair of adjacent groups that ended is handed on once, no other");
	vc_assert(tmp_done == with_L, "the block is passed on to the table file");
	auto& i = *ixv(); auto& o = *ofv(); auto& bk = *bkv();
	if(!h0) { initial(); vc_assume(false); }
	vc_assert(i[0] == gi0 && o[0] == go0, "current group"); vc_assert((bool)bk[0] && bk[0]->size() == gn - go0, "entries of the current group");
	vc_assert((bool)bk[1] == h1, "the group before is kept"); if(h1) { vc_assert(i[1] == gi1 && o[1] == go1 && bk[1]->size() == go0 - go1, "group before"); }
	if(ne) { vc_assert(ent_eq((*bk[0])[bk[0]->size() - 1], ent[ne - 1]), "the entry is appended to its group");
		if(ne == 2) { if(fresh[1]) vc_assert(ent_eq((*bk[1])[bk[1]->size() - 1], ent[0]), "the entry is appended to its group"); else vc_assert(ent_eq((*bk[0])[bk[0]->size() - 2], ent[0]), "the entry is appended to its group"); } }
	if(has0 && !fresh[0] && (ne < 2 || !fresh[1])) vc_assert((*bk[0])[W0].y == y0w, "earlier entries of the group stay"); 
	if(has0 && ne == 1 && fresh[0]) vc_assert((*bk[1])[W0].y == y0w, "the group before holds its entries");
	vc_cover("slice"); vc_assume(false);
}
template<class V> static void check_pairs(V& v) {
	got = v.size(); block_done = true; vc_assert(got == want, "every pair of adjacent groups that ended is handed on once, no other");
	for(int p = 0; p < want; ++p) { auto& m = v.d[p]; vc_assert(m.L_offset[1] == wo1[p], "position of the pair's left group");
		vc_assert((bool)m.L_bucket[1] && (bool)m.L_bucket[0] && m.L_bucket[1].get() != m.L_bucket[0].get(), "both groups"); vc_assert(m.L_bucket[1]->size() == wn1[p] && m.L_bucket[0]->size() == wn0[p], "complete groups");
		if(wb1[p]) vc_assert(m.L_bucket[1].get() == wb1[p] || (wb1[p] == b1 && (*m.L_bucket[1])[W1].y == y1w) || (wb1[p] == b0 && (*m.L_bucket[1])[W0].y == y0w), "left group"); if(wb0[p] == b0 && b0) vc_assert((*m.L_bucket[0])[W0].y == y0w, "right group");
		if(!wb0[p]) vc_assert(ent_eq((*m.L_bucket[0])[0], ent[0]), "right group"); }
	if(want) vc_cover("pairs");
}
void PL::take(std::vector<T>& v) { vc_assert(this == &g_pl && v.d == g_blk->d && (int)v.n == ne, "the sorted entries go to the table file unchanged"); for(int e = 0; e < ne; ++e) vc_assert(ent_eq(v[e], ent[e]), "the sorted entries go to the table file unchanged"); tmp_done = true; }
// ---- stage 1: the match stage
static int fm_n; static u64 fm_off[2]; static std::vector<T>*fm_l[2], *fm_r[2]; static std::vector<match_t<T>>* fm_out; static int found; static bool fm_final; static u64 fm_add;
static int find_contract(FxMatcher<T>*, const u64* off, std::vector<T>* l, std::vector<T>* r, std::vector<match_t<T>>* out) {
	vc_assert(*off == fm_off[fm_n] && l == fm_l[fm_n] && r == fm_r[fm_n], "left group with its position, right group after it"); if(fm_n) vc_assert(out == fm_out, "results of one block together"); fm_out = out; fm_n++;
	int c = vc_range("found", 0, 15113); u64 w = vc_range("kept", 0, 15113); vc_assume(w <= u64(c)); out->n += w; fm_add += w; return c; }
// ---- stage 2: the evaluate stage
static u64 cN, W; static std::vector<match_t<T>>* e_in; static std::vector<S>* e_out;
static u64 MP(u64 i) { return vc_uf1("mpos", i) & ((u64(1) << 31) - 1); } static u64 MO(u64 i) { return vc_uf1("moff", i) & 1023; } static u64 FY(u64 i) { return vc_uf1("fy", i); } static u64 e_n;
static void eval_contract(const FxCalculator<T, S>* F, const T* l, const T* r, S* e) { match_t<T>& m = e_in->d[e_n]; vc_assert(l == &m.left && r == &m.right, "the match's left and right entry"); vc_assert(F->k_ == g_k && F->table_index_ == g_tab, "table function of the right table"); e->y = FY(e_n); }
static void inv_eval(u64 n) { vc_inv(n <= cN, "index"); e_n = n; vc_inv(e_out->n == n, "one entry per match"); if(W < n) vc_inv((u64(e_out->d[W].pos) == MP(W)) & (u64(e_out->d[W].off) == MO(W)) & (e_out->d[W].y == FY(W)), "position, offset and value of the match");
	if(n < cN) vc_define(u64(e_in->d[n].pos) == MP(n) && u64(e_in->d[n].off) == MO(n), "matches"); }
static int reads, closes;
// ---- stage 3: adding to the sort
static u64 a_n; static std::vector<S>* a_in; static void inv_add(u64 n) { vc_inv(n <= cN, "index"); vc_inv(a_n == n, "each entry added once"); }
void RS::WriteCache::add(const S& e) { vc_assert(&e == &a_in->d[a_n], "entries are added in turn, each once"); a_n++; }
static bool fin; void RS::finish() { vc_assert(*m_closed && *e_closed && *a_closed, "the sort is finished after all entries were added"); fin = true; }
WC RS::add_cache() { vc_assert(this == &g_rs, "the sort of the right table"); return std::make_shared<WriteCache>(); }
// ---- wiring
static bool final_taken; static std::vector<match_t<T>>* final_m;
void LS::read(Processor<IB>* out, int nt) {
	vc_assert(out == (Processor<IB>*)g_read && nt >= 1 && !g_read->closed && !*m_closed, "sorted entries go to the slicer"); reads++; initial();
	if(stage == 0) run_slice();
	// the state when the input ends
	havoc_state(); fm_n = 0; fm_add = 0; fm_off[0] = of1; fm_l[0] = b1; fm_r[0] = b0;
}
template<> struct VcThreadHook<IB> { static void create(Thread<IB>* t) { g_read = t; } static void take(Thread<IB>*, IB&) {} static void close(Thread<IB>*) { closes++; vc_assert(reads == 1, "closed after the input"); } };
template<> struct VcPoolHook<std::vector<S>, size_t, WC> { typedef ThreadPool<std::vector<S>, size_t, WC> Q; static void create(Q* q) { g_radd = q; a_closed = &q->closed;
		if(stage == 3) { std::vector<S> in; cN = vc_range("c", 0, u64(1) << 30); in.d = (S*)vc_array("res", cN, sizeof(S), SL); in.n = cN; a_in = &in; a_n = 0; size_t o = 0; WC c; if(vc_case("cached", 0, 1)) c = std::make_shared<RS::WriteCache>(); vc_loop("compute_matches", (void*)inv_add, 0); q->execute(in, o, c); vc_assert(a_n == cN, "every entry is added to the sort"); vc_assert((bool)c, "write cache kept"); vc_cover("add"); vc_assume(false); } }
	static void take(Q*, std::vector<S>&) {} static void close(Q*) { closes++; vc_assert(*e_closed, "closed after its input"); } };
template<> struct VcPoolHook<std::vector<match_t<T>>, std::vector<S>, size_t> { typedef ThreadPool<std::vector<match_t<T>>, std::vector<S>, size_t> Q; static void create(Q* q) { g_eval = q; e_closed = &q->closed; vc_assert(q->output == (with_R ? (Processor<std::vector<S>>*)&g_pr : (Processor<std::vector<S>>*)(ThreadPool<std::vector<S>, size_t, WC>*)g_radd), "results go to the table file if there is one, else to the sort");
		if(stage == 2) { std::vector<match_t<T>> in; cN = vc_range("c", 0, u64(1) << 30); W = vc_range("W", 0, u64(1) << 30);
			static const char* ms =
#ifdef CHIA_K34
			"0:8,8:8,16:2,48:8,56:8,64:2,96:8,104:2";
#else
			"0:8,8:4,12:2,32:8,40:4,44:2,64:4,68:2";
#endif
			static_assert(sizeof(match_t<T>) == 2 * sizeof(T) + (KMAX > 32 ? 16 : 8), "layout");
			in.d = (match_t<T>*)vc_array("matches", cN, sizeof(match_t<T>), ms); in.n = cN; e_in = &in; std::vector<S> out; out.d = (S*)vc_array("out", u64(1) << 31, sizeof(S), SL); e_out = &out; size_t l = 0;
			vc_replace("FxCalculator<.*>::evaluate", (void*)eval_contract); vc_loop("compute_matches", (void*)inv_eval, 0);
			q->execute(in, out, l); vc_assert(out.size() == cN, "one entry per match"); if(W < cN) { vc_assert(u64(out[W].pos) == MP(W) && u64(out[W].off) == MO(W) && out[W].y == FY(W), "each match gives the entry of the next table with its position and offset"); vc_cover("eval"); } vc_assume(false); } }
	static void take(Q* q, std::vector<match_t<T>>& v) { vc_assert(!q->closed && *m_closed && fm_n == 1 && &v == fm_out && v.n == fm_add, "matches of the last pair are evaluated"); final_taken = true; }
	static void close(Q*) { closes++; vc_assert(reads == 1 && *m_closed, "closed after its input"); } };
template<class X> struct VcPoolHook<std::vector<X>, std::vector<match_t<T>>, FxMatcher<T>> { typedef ThreadPool<std::vector<X>, std::vector<match_t<T>>, FxMatcher<T>> Q; static void create(Q* q) { g_match = q; m_closed = &q->closed; vc_assert(q->output == (Processor<std::vector<match_t<T>>>*)(ThreadPool<std::vector<match_t<T>>, std::vector<S>, size_t>*)g_eval, "matches go to the evaluate stage");
		if(stage == 1) { std::vector<X> in; int c = vc_case("pairs", 0, 2); for(int p = 0; p < c; ++p) { X x; x.L_offset[1] = fm_off[p] = vc_range("off", 0, u64(1) << 36); x.L_offset[0] = vc_range("off0", 0, u64(1) << 36); fm_l[p] = new std::vector<T>(); fm_r[p] = new std::vector<T>(); x.L_bucket[1].p = fm_l[p]; x.L_bucket[0].p = fm_r[p]; x.L_bucket[1].c = new size_t(5); x.L_bucket[0].c = new size_t(5); in.push_back(x); }
			std::vector<match_t<T>> out; fm_n = 0; fm_add = 0; fm_out = &out; out.d = (match_t<T>*)vc_array("mout", u64(1) << 20, sizeof(match_t<T>), "0:8"); 
			auto* nw = (u64*)vc_local("^unsigned long phase1::compute_matches<", "num_written"); u64 w0 = vc_range("written", 0, u64(1) << 36); *nw = w0;
			q->execute(in, out, q->local); vc_assert(fm_n == c && out.n == fm_add, "every pair is matched once"); vc_assert(*nw == w0 + fm_add, "matches counted"); vc_cover("match"); vc_assume(false); } }
	static void take(Q*, std::vector<X>& v) { check_pairs(v); } static void close(Q*) { closes++; vc_assert(g_read->closed, "closed after its input"); } };
VC_HARNESS(C11_stages) {
	stage = vc_case("stage", 0, 4); g_k = vc_range("k", 16, KMAX); g_tab = vc_range("table", 2, 7); nth = vc_range("threads", 1, 64); int io = stage == 0 || stage == 4 ? vc_case("out", 0, 2) : 1; with_L = io != 2; with_R = io == 0; reads = closes = 0; fin = final_taken = false; fm_n = 0;
	vc_replace("FxMatcher<.*>::find_matches\\(", (void*)find_contract); vc_replace("FxMatcher<.*>::FxMatcher", (void*)+[](FxMatcher<T>*) {});
	u64 n = compute_matches<T, S, R>(g_tab, g_k, nth, &g_ls, with_R ? (RS*)nullptr : &g_rs, with_L ? &g_pl : nullptr, with_R ? &g_pr : nullptr);
	bool pair = has1 && ix1 + 1 == ix0; vc_assert(reads == 1 && fm_n == (pair ? 1 : 0) && (fm_add == 0 || final_taken), "the last pair of adjacent groups is matched once");
	vc_assert(closes == 4 && fin == !with_R, "all stages finished"); vc_assert(n == fm_add, "number of matches");
	if(pair) vc_cover("last"); else vc_cover("no_last");
}
#endif
