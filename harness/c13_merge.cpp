// C13, first stage: joining each right entry with the new positions of its two parents.  Thread stages by contract (C04),
// sorts and tables by contract (C02, C03), the line point by contract (C06).  The state shared between the buffer stage and
// the merge threads is seen through its monitor invariant:
//   the list holds adjacent buffers of new positions; every merge thread's window ends at a buffer boundary, because a
//   buffer leaves the list only after every merge thread copied it.
#define VC_THREAD_INLINE
#include "io.h"
#include <chia/phase3.hpp>
using namespace phase3;
#if VC_SYMBOLIC
#ifdef CHIA_K34
#define USLOT "0:8"
#define US 8
template<class T> static const char* slots(); template<> const char* slots<phase2::entry_x>() { return "0:8,8:8,16:2"; } template<> const char* slots<phase2::entry_7>() { return "0:8,8:8,16:2"; } template<> const char* slots<entry_np>() { return "0:8,8:8"; } template<> const char* slots<phase2::entry_1>() { return "0:8"; } template<> const char* slots<entry_kpp>() { return "0:8,8:8,16:8"; }
#else
#define USLOT "0:4"
#define US 4
template<class T> static const char* slots(); template<> const char* slots<phase2::entry_x>() { return "0:4,4:4,8:2"; } template<> const char* slots<phase2::entry_7>() { return "0:4,4:4,8:2"; } template<> const char* slots<entry_np>() { return "0:4,4:4"; } template<> const char* slots<phase2::entry_1>() { return "0:4"; } template<> const char* slots<entry_kpp>() { return "0:4,4:4,8:4"; }
#endif
struct MB { u64 offset = 0; std::vector<uintkx_t> new_pos; int copy_sync = 0; };       // layout of the code's merge buffer
typedef std::list<MB> ML; typedef ML::node MN;
static int stage, nth; static u64 LN, W, m0, cN; static bool used_table, seven;
static u64 NP(u64 i) { return vc_uf1("np", i) & 0xffffffff; }          // new position of the i-th left entry
static u64 RP(u64 i) { return vc_uf1("rp", i) & ((u64(1) << 35) - 1); } static u64 RO(u64 i) { return vc_uf1("ro", i) & 1023; } static u64 RK(u64 i) { return vc_uf1("rk", i) & 0xffffffff; }
static ML* list() { return (ML*)vc_local("^void phase3::compute_stage1<", "L_input"); }
static bool* is_end() { return (bool*)vc_local("^void phase3::compute_stage1<", "L_is_end"); }
static u64* num_read() { return (u64*)vc_local("^void phase3::compute_stage1<", "L_num_read"); }
static int merge_threads() { return nth / 4 > 1 ? nth / 4 : 1; }
typedef std::pair<std::vector<entry_np>, size_t> NB; typedef std::pair<std::vector<entry_kpp>, size_t> KB;
static NB* g_nb; static std::vector<entry_kpp>* g_kb; static MB* g_win;
// ---- stage 0: the buffer stage
static MN *nA, *nB; static u64 lbeg; static bool in_wait, locked; static int csA, csB; static u64 kept_nodes;
static void inv_buf(u64 n) { vc_inv(n <= cN, "index"); std::vector<uintkx_t>* v = &((MB*)vc_local("^phase3::compute_stage1<.*lambda", "tmp"))->new_pos; vc_inv(v->n == n, "one new position per left entry"); if(W < n) vc_inv(u64(v->d[W]) == NP(m0 + W), "in order");
	if(n < cN) vc_define(u64(g_nb->first.d[n].pos) == NP(m0 + n), "left entries in order"); }
static void run_buffer(Thread<NB>* t) {
	ML* l = list(); u64 have = vc_case("buffers", 0, 2); m0 = vc_range("m", 0, u64(1) << 35); *num_read() = m0; l->head = l->tail = nullptr; l->n = have;
	csA = vc_range("copied_A", 0, 64); csB = vc_range("copied_B", 0, 64); nA = new MN; nB = new MN; nA->v.offset = vc_range("offA", 0, u64(1) << 35); nB->v.offset = vc_range("offB", 0, u64(1) << 35); nA->v.copy_sync = csA; nB->v.copy_sync = csB;
	if(have == 1) l->head = l->tail = nA; if(have == 2) { l->head = nA; l->tail = nB; nA->next = nB; nB->prev = nA; }
	NB b; cN = vc_range("c", 0, u64(1) << 30); b.first.d = (entry_np*)vc_array("lblock", cN, sizeof(entry_np), slots<entry_np>()); b.first.n = cN; g_nb = &b; W = vc_range("W", 0, u64(1) << 30);
	vc_loop("compute_stage1", (void*)inv_buf, 0);
	t->execute(b);
	vc_assert(!locked, "lock released"); vc_assert(*num_read() == m0 + cN, "left entries counted"); MN* last = l->tail; vc_assert(last && last != nA && last != nB, "the block is appended"); MB& v = last->v;
	vc_assert(v.offset == m0 && v.new_pos.size() == cN && v.copy_sync == 0, "buffers are adjacent"); if(W < cN) { vc_assert(u64(v.new_pos[W]) == NP(m0 + W), "new positions in order"); vc_cover("buffer"); }
	int M = merge_threads(); bool delA = have >= 1 && csA >= M, delB = have == 2 && delA && csB >= M; u64 want = have - delA - delB + 1;
	if(have) vc_assert(delA || l->head == nA, "a buffer is kept until every merge thread copied it"); if(have == 2 && delA) vc_assert(delB || l->head == nB, "a buffer is kept until every merge thread copied it");
	vc_assume(false);
}
// ---- stage 3: a merge thread
static const u64 CAP = u64(1) << 35; static u64 ixof(bool in, u64 i) { u64 j = vc_range("j", 0, CAP); vc_assume(!in | (j == i)); return j; }   // i where it lies inside, else any index
static u64 X0, X1, LB, LE; static bool fin, acq; static u64 seen_end;
static void watch(MN* n, u64 off, u64 sz, u64 X) { bool in = (off <= X) & (X < off + sz); u64 i = ixof(in, X - off); vc_define(!in | (u64(n->v.new_pos.d[i]) == NP(X)), "buffers hold the new positions"); }
static void monitor() {               // the shared state when the lock is (re)acquired: anything the invariant allows
	u64 E = g_win->offset + g_win->new_pos.n; u64 oA = vc_range("oA", 0, u64(1) << 36), sA = vc_range("sA", 0, u64(1) << 36), sB = vc_range("sB", 0, u64(1) << 36); u64 oB = oA + sA, end = oB + sB;
	vc_assume((end <= LN) & ((E == oA) | (E == oB) | (E == end))); vc_havoc_region(nA->v.new_pos.d, US, USLOT); vc_havoc_region(nB->v.new_pos.d, US, USLOT);
	nA->v.offset = oA; nA->v.new_pos.n = sA; nB->v.offset = oB; nB->v.new_pos.n = sB; watch(nA, oA, sA, X0); watch(nA, oA, sA, X1); watch(nB, oB, sB, X0); watch(nB, oB, sB, X1);
	bool e = vc_u8("end_of_input") & 1; vc_assume(!e | (end == LN)); *is_end() = e; LE = end;
}
static void lock_c(void*) { vc_assert(!locked, "not locked twice"); locked = true; if(stage == 3) monitor(); }
static void unlock_c(void*) { vc_assert(locked, "unlocked once"); locked = false; }
static void wait_c(void*, void*) { vc_require(locked, "waits while holding the lock"); if(stage == 3) monitor(); if(stage == 0) { ML* l = list(); int c = vc_range("copied_after", 1, 64); l->tail->v.copy_sync = c; if(l->tail == nA) csA = c; else csB = c; } }
static void notify_c(void*) {}
static bool winok(u64 X) { u64 o = g_win->offset, s = g_win->new_pos.n; return !((o <= X) & (X < o + s)) | (u64(g_win->new_pos.d[ixof((o <= X) & (X < o + s), X - o)]) == NP(X)); }
template<class S> struct Mg { static std::vector<S>* in; static u64 cur;
	static void state(u64 n) { u64 o = g_win->offset, s = g_win->new_pos.n; vc_inv((o == wo) & (s <= LN) & (o + s <= LN), "window start unchanged while entries are joined"); vc_inv((o <= CAP) & (s <= CAP), "sizes"); vc_inv(winok(X0), "window holds the new positions"); vc_inv(winok(X1), "window holds the new positions"); vc_inv(!locked, "lock free"); }
	static void at(u64 n) { S& e = in->d[n]; u64 i = m0 + n; vc_define(u64(e.pos) == RP(i) && u64(e.off) == RO(i), "right entries"); if constexpr(std::is_same<S, phase2::entry_7>::value) vc_define(u64(e.y) == RK(i), "right entries"); else vc_define(u64(e.key) == RK(i), "right entries"); vc_assume((RP(i) >= wo) & (RP(i) + RO(i) < LN)); }
	static bool good() { entry_kpp& e = g_kb->d[W]; u64 i = m0 + W; return (u64(e.key) == RK(i)) & (u64(e.pos[0]) == NP(RP(i))) & (u64(e.pos[1]) == NP(RP(i) + RO(i))); }
	static void inv(u64 n) { vc_inv(n <= cN, "index"); vc_inv(g_kb->n == n, "one result per right entry"); state(n); if(W < n) vc_inv(good(), "the entry is joined with the new positions of its parents"); if(n < cN) at(n); }
	static void inv2(u64) { state(0); vc_inv(true, ""); }
	static void inv3(u64) { u64 o = g_win->offset, s = g_win->new_pos.n; vc_inv(locked, "locked"); vc_inv((o == wo) & (o + s <= LN), "window"); vc_inv(winok(X0) & winok(X1), "window holds the new positions");
		u64 oA = nA->v.offset, sA = nA->v.new_pos.n, oB = nB->v.offset, sB = nB->v.new_pos.n, E = o + s; vc_inv((oB == oA + sA) & (sA <= LN) & (sB <= LN) & (oA <= LN) & (oB + sB <= LN) & (LE == oB + sB), "buffers adjacent"); vc_inv((sA <= CAP) & (sB <= CAP) & (oA <= CAP) & (oB <= CAP) & (s <= CAP) & (o <= CAP), "sizes"); vc_inv((E == oA) | (E == oB) | (E == oB + sB), "window ends at a buffer boundary"); vc_inv(!*is_end() | (LE == LN), "end of input");
		vc_inv(bufok(nA, X0) & bufok(nA, X1) & bufok(nB, X0) & bufok(nB, X1), "buffers hold the new positions"); }
	static bool bufok(MN* n, u64 X) { u64 o = n->v.offset, s = n->v.new_pos.n; bool in = (o <= X) & (X < o + s); return !in | (u64(n->v.new_pos.d[ixof(in, X - o)]) == NP(X)); }
	static u64 wo;
};
template<class S> std::vector<S>* Mg<S>::in; template<class S> u64 Mg<S>::cur; template<class S> u64 Mg<S>::wo;
template<class S, class Q> static void run_merge(Q* q) {
	ML* l = list(); nA = new MN; nB = new MN; nA->next = nB; nB->prev = nA; l->head = nA; l->tail = nB; l->n = 2;
	u64 cap = u64(1) << 37; nA->v.new_pos.d = (uintkx_t*)vc_array("bufA", cap, US, USLOT); nB->v.new_pos.d = (uintkx_t*)vc_array("bufB", cap, US, USLOT);
	LN = vc_range("left_entries", 1, u64(1) << 35); m0 = vc_range("m", 0, u64(1) << 35); cN = vc_range("c", 1, u64(1) << 30); W = vc_range("W", 0, u64(1) << 30); vc_assume(W < cN); X0 = RP(m0 + W); X1 = X0 + RO(m0 + W);
	std::pair<std::vector<S>, size_t> b; b.first.d = (S*)vc_array("rblock", cN, sizeof(S), slots<S>()); b.first.n = cN; b.second = m0; Mg<S>::in = &b.first;
	std::vector<entry_kpp> out; out.d = (entry_kpp*)vc_array("joined", u64(1) << 31, sizeof(entry_kpp), slots<entry_kpp>()); g_kb = &out;
	auto& win = q->local; g_win = (MB*)&win; u64 wo = vc_range("window_offset", 0, u64(1) << 35), ws = vc_range("window_size", 0, u64(1) << 35); vc_assume(wo + ws <= LN); Mg<S>::wo = wo; g_win->offset = wo; g_win->new_pos.d = (uintkx_t*)vc_array("window", cap, US, USLOT); g_win->new_pos.n = ws;
	vc_define(winok(X0) & winok(X1), "window of the blocks before");
	locked = false; bool err = false;
	vc_loop_now("compute_stage1", (void*)Mg<S>::inv, 0); vc_loop("compute_stage1", (void*)Mg<S>::inv2, 0); vc_loop_now("compute_stage1", (void*)Mg<S>::inv3, 0);
	try { q->execute(b, out, win); } catch(const std::exception&) { err = true; }
	vc_assert(!err, "sorted entries inside the table are never refused"); vc_assert(!locked, "lock released");
	vc_assert(out.size() == cN && Mg<S>::good(), "each right entry is joined with the new positions of its two parents, in order");
	u64 o = g_win->offset, s = g_win->new_pos.n; vc_assert(o >= wo && o <= RP(m0 + cN - 1), "nothing is dropped that a later entry may refer to");
	u64 X = vc_range("X", 0, u64(1) << 35); if((X == X0 || X == X1) && o <= X && X < o + s) vc_assert(u64(g_win->new_pos.d[X - o]) == NP(X), "window still holds the new positions");
	vc_cover("merge"); vc_assume(false);
}
// ---- stage 1: dropping the unused entries of table 1
static u64* uw; static bool kept(u64 i) { return (uw[i / 64] >> (i % 64)) & 1; } static u64 KC(u64 n) { return vc_uf1("kept", n); } static u64 TX(u64 i) { return vc_uf1("x", i) & 0xffffffff; }
static std::vector<phase2::entry_1>* f_in; static NB* f_out; static u64 NW;
static void inv_filter(u64 n) {
	vc_inv(n <= cN, "index"); vc_define(KC(0) == 0, "kept entries so far"); vc_inv(KC(n) <= n, "count"); if(W < cN) vc_define(KC(W + 1) == KC(W) + kept(m0 + W), "kept entries so far");
	if(n < cN) { vc_define(KC(n + 1) == KC(n) + kept(m0 + n) && u64(f_in->d[n].x) == TX(m0 + n), "entries of table 1"); }
	vc_inv(f_out->first.n == KC(n), "kept entries are passed on, dropped ones are not"); if(W < n) { vc_inv((KC(W) <= W) & (KC(W + 1) <= KC(n)), "order"); if(kept(m0 + W)) vc_inv(u64(f_out->first.d[KC(W)].pos) == TX(m0 + W), "x of the kept entry, in order"); }
}
typedef ThreadPool<std::pair<std::vector<phase2::entry_1>, size_t>, NB, size_t> FP;
static bitfield* g_used;
static void run_filter(FP* q) {
	m0 = vc_range("m", 0, u64(1) << 35); cN = vc_range("c", 0, u64(1) << 30); W = vc_range("W", 0, u64(1) << 30); vc_assume(m0 + cN <= 64 * NW);
	std::pair<std::vector<phase2::entry_1>, size_t> b; b.first.d = (phase2::entry_1*)vc_array("t1", cN, sizeof(phase2::entry_1), slots<phase2::entry_1>()); b.first.n = cN; b.second = m0; f_in = &b.first; NB o; o.first.d = (entry_np*)vc_array("fout", u64(1) << 31, sizeof(entry_np), slots<entry_np>()); f_out = &o; size_t l = 0;
	vc_loop("compute_stage1", (void*)inv_filter, 0);
	q->execute(b, o, l); vc_assert(o.first.size() == KC(cN), "kept entries and no others"); if(W < cN && kept(m0 + W)) { vc_assert(u64(o.first[KC(W)].pos) == TX(m0 + W), "in order"); vc_cover("filter"); } vc_assume(false);
}
// ---- stage 2: line points to the sort
typedef std::shared_ptr<DiskSortLP::WriteCache> LC; typedef ThreadPool<std::vector<entry_kpp>, size_t, LC> AP; static DiskSortLP* g_lp; static u64 add_n; static std::vector<entry_kpp>* a_in; static AP* g_add; static bool g_fin;
#ifdef CHIA_K34
static uint128_t lp_contract(u64 x, u64 y) { u64 a = x > y ? x : y, b = x > y ? y : x; return (uint128_t(vc_uf2("lph", a, b) & 7) << 64) | vc_uf2("lpl", a, b); }
#else
static uint128_t lp_contract(u64 x, u64 y) { u64 a = x > y ? x : y, b = x > y ? y : x; return vc_uf2("lpl", a, b); }
#endif
static void add_contract(DiskSortLP::WriteCache*, const entry_lp* e) { entry_kpp& s = a_in->d[add_n]; vc_assert(e->key == s.key, "sort key kept"); vc_assert(e->point == uintlp_t(lp_contract(s.pos[0], s.pos[1])), "line point of the two positions"); add_n++; }
static LC* addcache_contract(LC* r, DiskSortLP* s) { vc_assert(s == g_lp, "the line point sort"); new(r) LC(); *(void**)r = (void*)new u64[8]; return r; }
static void inv_add(u64 n) { vc_inv(n <= cN, "index"); }
static void run_add(AP* q) {
	std::vector<entry_kpp> in; cN = vc_range("c", 0, u64(1) << 30); in.d = (entry_kpp*)vc_array("kpp", cN, sizeof(entry_kpp), slots<entry_kpp>()); in.n = cN; a_in = &in; add_n = 0; size_t o = 0; LC c; if(vc_case("cached", 0, 1)) *(void**)&c = (void*)new u64[8];
	vc_loop("compute_stage1", (void*)inv_add, 0);
	q->execute(in, o, c); vc_assert(add_n == cN, "every joined entry is added once"); vc_assert((bool)c, "write cache kept"); vc_cover("add"); vc_assume(false);
}
// ---- wiring
static Thread<NB>* g_lread; static void *g_filter, *g_merge; static bool *filter_closed, *merge_closed; static int l_reads, r_reads;
template<> struct VcThreadHook<NB> { static void create(Thread<NB>* t) { g_lread = t; } static void take(Thread<NB>*, NB&) {} static void close(Thread<NB>*) {} };
template<class T> struct VcPoolHook<std::pair<std::vector<T>, size_t>, NB, size_t> { typedef ThreadPool<std::pair<std::vector<T>, size_t>, NB, size_t> Q; static void create(Q* q) { g_filter = q; filter_closed = &q->closed; vc_assert(q->output == (Processor<NB>*)g_lread, "kept entries go to the buffer stage"); if constexpr(std::is_same<T, phase2::entry_1>::value) if(stage == 1) run_filter(q); } static void take(Q*, std::pair<std::vector<T>, size_t>&) {} static void close(Q*) {} };
template<> struct VcPoolHook<std::vector<entry_kpp>, size_t, LC> { static void create(AP* q) { g_add = q; if(stage == 2) run_add(q); } static void take(AP*, std::vector<entry_kpp>&) {} static void close(AP*) {} };
template<class S, class C> struct VcPoolHook<std::pair<std::vector<S>, size_t>, std::vector<entry_kpp>, C> { typedef ThreadPool<std::pair<std::vector<S>, size_t>, std::vector<entry_kpp>, C> Q;
	static void create(Q* q) { g_merge = q; merge_closed = &q->closed; vc_assert(q->output == (Processor<std::vector<entry_kpp>>*)g_add, "joined entries go to the stage that feeds the sort"); vc_assert((int)q->num_threads() == merge_threads(), "as many merge threads as a buffer waits for"); if(stage == 0) run_buffer(g_lread); if(stage == 3) run_merge<S>(q); }
	static void take(Q*, std::pair<std::vector<S>, size_t>&) {} static void close(Q*) {} };
static void *g_ls, *g_rs, *g_lt, *g_rt;
static void l_sort_read(void* s, void* out, int nt, int) { vc_assert(s == g_ls && s && out == g_lread && nt >= 1 && !g_lt, "left entries from the sort to the buffer stage"); vc_assert(!g_lread->closed, "still open"); l_reads++; }
static void l_table_read(void* t, void* out, int nt, int) { vc_assert(t == g_lt && out == g_filter && nt >= 1, "left entries from table 1 to the filter"); vc_assert(!*filter_closed, "still open"); l_reads++; }
static void r_sort_read(void* s, void* out, int nt, int) { vc_assert(s == g_rs && s && out == g_merge && nt >= 1 && !g_rt, "right entries from the sort to the merge stage"); r_reads++; }
static void r_table_read(void* t, void* out, int nt, int) { vc_assert(t == g_rt && out == g_merge && nt >= 1, "right entries from table 7 to the merge stage"); r_reads++; }
static void unlock4(void*) { vc_assert(locked, "unlocked once"); locked = false; if(stage == 4) { if(*is_end()) vc_assert(l_reads == 1 && g_lread->closed && (!g_lt || *filter_closed), "end of input is announced after all left entries are buffered"); if(*(bool*)vc_local("^void phase3::compute_stage1<", "R_is_end")) vc_assert(r_reads == 1 && *merge_closed, "the end of the right side is announced after it"); } }
static void lp_finish(DiskSortLP* s) { vc_assert(s == g_lp && l_reads == 1 && r_reads == 1 && *merge_closed && g_add->closed, "the sort is finished after all entries were added"); g_fin = true; }
template<class T, class S, class DR> static void stage1(int L, bool lt, bool rt, bool merge = false) {
	if(merge) stage = 3; else { u64 c = vc_case("stage", 0, lt ? 1 : rt ? 0 : 2); stage = lt ? c ? 4 : 1 : rt ? 4 : c == 1 ? 4 : c; } nth = vc_range("threads", 1, 64); locked = g_fin = false; l_reads = r_reads = 0; g_lp = (DiskSortLP*)new u64[64];
	NW = vc_range("words", 1, u64(1) << 30); bitfield used(0); uw = (u64*)vc_array("used", NW, 8, "0:8"); *(u64**)&used.buffer_ = uw; used.size_ = NW;
	g_ls = lt ? nullptr : new u64[64]; g_rs = rt ? nullptr : new u64[64]; g_lt = lt ? new u64[64] : nullptr; g_rt = rt ? new u64[64] : nullptr;
	vc_replace("^vc_mutex_lock$", (void*)lock_c); vc_replace("^vc_mutex_unlock$", (void*)unlock4); vc_replace("^vc_cv_wait$", (void*)wait_c); vc_replace("^vc_cv_notify$", (void*)notify_c);
	vc_replace("DiskSort<phase3::entry_np, .*>::read\\(", (void*)l_sort_read); vc_replace("DiskTable<phase1::tmp_entry_1>::read\\(", (void*)l_table_read); vc_replace("DiskSort<phase2::entry_x, .*>::read\\(", (void*)r_sort_read); vc_replace("DiskTable<phase1::entry_7>::read\\(", (void*)r_table_read);
	vc_replace("DiskSort<phase3::entry_lp, .*>::finish\\(", (void*)lp_finish); vc_replace("DiskSort<phase3::entry_lp, .*>::add_cache\\(", (void*)addcache_contract); vc_replace("DiskSort<phase3::entry_lp, .*>::WriteCache::add\\(", (void*)add_contract); vc_replace("Encoding::SquareToLinePoint", (void*)lp_contract);
	compute_stage1<T, S, DiskSortNP, DR>(L, nth, (DiskSortNP*)g_ls, (DR*)g_rs, g_lp, (DiskTable<T>*)g_lt, lt ? &used : nullptr, (DiskTable<S>*)g_rt);
	vc_assert(g_fin, "sort finished"); vc_cover("stage1"); *(u64**)&used.buffer_ = nullptr;
}
VC_HARNESS(C13_stage1_first) { stage1<phase2::entry_1, phase2::entry_x, phase2::DiskSortT>(1, true, false); }
VC_HARNESS(C13_stage1_mid) { stage1<entry_np, phase2::entry_x, phase2::DiskSortT>(vc_range("L", 2, 5), false, false); }
VC_HARNESS(C13_stage1_last) { stage1<entry_np, phase2::entry_7, phase2::DiskSort7>(6, false, true); }
VC_HARNESS(C13_T_merge_mid) { stage1<entry_np, phase2::entry_x, phase2::DiskSortT>(vc_range("L", 2, 5), false, false, true); }
VC_HARNESS(C13_T_merge_last) { stage1<entry_np, phase2::entry_7, phase2::DiskSort7>(6, false, true, true); }
#endif
