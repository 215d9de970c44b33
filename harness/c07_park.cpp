// C07 (and the second stage of C13): parks.  Bit strings are used by their contract (C09), the entropy coder by its
// contract (C08), the sorts by theirs (C02), thread stages by theirs (C04).
#include "io.h"
#include <chia/phase3.hpp>
using namespace phase3;
#if VC_SYMBOLIC
static int k, ti; static u64 nb; static u8* stubs; static u64 lph, lpl;
static u64 g_bits; static ParkBits* g_pb; static std::vector<u8>* g_dl; static u64 a_size; static u8* a_bytes; static double RV[7] = { 0, 4.7, 2.75, 2.75, 2.7, 2.6, 2.45 };
static u32 pb_size(const ParkBits* p) { vc_require(p == g_pb, "the stubs of this park"); return g_bits; }
static void pb_bytes(const ParkBits* p, u8* out) { vc_require(p == g_pb, "the stubs of this park"); u64 n = (g_bits + 7) / 8; memcpy(out, stubs, n); }
static u64 ans_contract(std::vector<u8>* d, double R, u8* out) {
	u64 q = vc_range("dq", 0, 2047); vc_require(d->size() == nb, "the deltas"); if(q < nb) vc_require(d->d[q] == g_dl->d[q], "the deltas"); vc_require(R == RV[ti], "the distribution of this table");
	if(a_size) memcpy(out, a_bytes, a_size); return a_size; }
static u64 stub_size() { return (2047 * u64(k - 3) + 7) / 8; }
static u64 park_size() { return (2 * k + 7) / 8 + stub_size() + (ti == 1 ? 1433 : 896); }
VC_HARNESS(C07_sizes) { k = vc_case("k", 16, KMAX); ti = vc_case("table", 1, 6);
	vc_assert(CalculateLinePointSize(k) == u64(2 * k + 7) / 8 && CalculateStubsSize(k) == stub_size() && CalculateParkSize(k, ti) == park_size(), "fixed park sizes of the format"); vc_cover("sizes"); }
VC_HARNESS(C07_write_park) {
	k = vc_case("k", KMAX == 32 ? 16 : 32, KMAX); ti = vc_case("table", 1, 6); nb = vc_range("deltas", 0, 2047); g_bits = nb * (k - 3);
	lph = vc_range("lp_high", 0, 15); lpl = vc_u64("lp_low"); uint128_t lp = (uint128_t(lph) << 64) | lpl; vc_assume((lp >> (2 * k)) == 0);
	stubs = (u8*)vc_array("stubs", stub_size(), 1, "0:1"); a_size = vc_range("coded", 0, 16376); vc_assume(a_size <= nb * 8); a_bytes = (u8*)vc_array("ans", 16376, 1, "0:1");
	std::vector<u8> dl; dl.d = (u8*)vc_array("dl", 2047, 1, "0:1"); dl.n = nb; g_dl = &dl; alignas(16) static u8 pbm[sizeof(ParkBits)]; g_pb = (ParkBits*)pbm;
	u64 ps = park_size(); u8* buf = (u8*)vc_array("park", ps, 1, "0:1");
	vc_replace("BitsGeneric<ParkVector>::GetSize", (void*)pb_size); vc_replace("BitsGeneric<ParkVector>::ToBytes", (void*)pb_bytes); vc_replace("Encoding::ANSEncodeDeltas", (void*)ans_contract);
	u64 ds = a_size ? a_size : nb, lps = (2 * k + 7) / 8, ss = stub_size(), vs = (g_bits + 7) / 8; bool err = false;
	try { WritePark(lp, dl, *g_pb, k, ti, buf, ps); } catch(const std::exception&) { err = true; }
	vc_assert(err == (lps + ss + 2 + ds > ps), "refused exactly when the deltas do not fit");
	if(err) { vc_cover("refused"); return; }
	u64 B = vc_range("B", 0, 1 << 16); vc_assume(B < ps); u8 v = buf[B];
	if(B < lps) { uint128_t x = lp << (128 - 2 * k); vc_assert(v == u8(x >> (120 - 8 * vc_split(B, 0, 8))), "first line point, 2k bits big-endian"); vc_cover("lp"); }
	else if(B < lps + ss) { u64 j = B - lps; if(j < vs) { vc_assert(v == stubs[j], "stubs"); vc_cover("stubs"); } else vc_assert(v == 0, "unused stub space is zero"); }
	else if(B < lps + ss + 2) { u64 w = ds | (a_size ? 0 : 0x8000); vc_assert(v == (B == lps + ss ? u8(w) : u8(w >> 8)), "size of the coded deltas, little-endian, flagged if stored plain"); vc_cover("size"); }
	else { u64 j = B - lps - ss - 2; if(j < ds) { vc_assert(v == (a_size ? a_bytes[j] : dl.d[j]), "coded deltas"); vc_cover("deltas"); } else vc_assert(v == 0, "rest of the park is zero"); }
}

// ---------------------------------------------------------------- compute_stage2
static int stage, nth; static u64 N, W, L0, m0, cN; static DiskSortLP* g_rs; static DiskSortNP* g_ls; static bool g_fin, g_read; static char fh[8];
#ifdef CHIA_K34
#define LPSLOT "0:8,8:8,16:8"
#define PSLOT "0:8,8:8"
static uintlp_t P(u64 i) { return (uintlp_t(vc_uf1("ph", i) & 7) << 64) | vc_uf1("pl", i); }
#else
#define LPSLOT "0:8,8:4"
#define PSLOT "0:8"
static uintlp_t P(u64 i) { return vc_uf1("pl", i); }
#endif
static u64 KEY(u64 i) { return vc_uf1("key", i) & ((u64(1) << 32) - 1); }
static u64 base(u64 g) { return g ? (g - 1) / 2048 * 2048 : 0; }
static u64 idx(u64 g) { return g ? (g - 1) / 2048 : 0; }
struct PD { u64 index; std::vector<uintlp_t> points; };           // layout of the park under construction
static PD* g_park; static u64 seal_n; static bool sealW; static void* seal_vec; static std::pair<std::vector<entry_lp>, size_t>* g_blk; static u64 took_parks, took_add, tail_n;
static void seal(std::vector<PD>* vec, PD* p) {
	if(stage == 4) { new(vec->d + vec->n) PD(*p); vec->n++; return; }
	vc_assert(p == g_park, "the park under construction");
	vc_assert(p->points.size() == 2048, "a full park is passed on"); vc_assert(p->index == idx(m0) + seal_n, "parks are numbered consecutively");
	if(p->index == W / 2048) { vc_assert(p->points.d[W % 2048] == P(W), "a park holds consecutive line points"); sealW = true; }
	seal_n++; p->points.n = 0;
}
static void inv_slice(u64 n) {
	u64 g = m0 + n; vc_inv(n <= cN, "index"); 
	vc_inv(g_park->index == idx(g), "park number"); vc_inv(g_park->points.n == g - base(g), "line points in the park");
	if((base(g) <= W) & (W < g)) vc_inv(g_park->points.d[W - base(g)] == P(W), "line point in its place");
	vc_inv(seal_n == idx(g) - idx(m0), "full parks passed on"); vc_inv(sealW == ((idx(m0) <= W / 2048) & (W / 2048 < idx(g))), "the park passed on");
	if(n < cN) vc_define(g_blk->first.d[n].point == P(g), "sorted line points");
}
template<class T, class O> struct VcPoolHook<std::vector<T>, std::vector<O>, size_t> { typedef ThreadPool<std::vector<T>, std::vector<O>, size_t> Q;
	static void create(Q* q) { run_parks(q); }
	static void take(Q*, std::vector<T>& v) { took_parks++;
		if(stage == 0) return;
		vc_assert(g_read && v.size() == 1, "the last park"); tail_n = v[0].points.size(); vc_assert(v[0].index == idx(N) && tail_n == N - base(N), "the rest of the line points");
		if((base(N) <= W) & (W < N)) { vc_assert(v[0].points[W - base(N)] == P(W), "line point in its place"); vc_cover("tail"); }
	}
	static void close(Q*) {}
	static void run_parks(Q* q);
};
template<class O> struct VcThreadHook<std::vector<O>> { typedef Thread<std::vector<O>> Q; static void create(Q* q) { run_write(q); } static void take(Q*, std::vector<O>&) { vc_assert(false, "parks are written by the writing stage"); } static void close(Q*) {} static void run_write(Q*); };
typedef std::pair<std::vector<entry_lp>, size_t> LB; typedef std::shared_ptr<DiskSortNP::WriteCache> NC;
template<> struct VcThreadHook<LB> { static void create(Thread<LB>*) {} static void take(Thread<LB>*, LB&) {} static void close(Thread<LB>*) {} };
template<> struct VcPoolHook<LB, size_t, NC> { typedef ThreadPool<LB, size_t, NC> Q; static void create(Q* q); static void take(Q*, LB& b) { vc_assert(&b == g_blk, "the block itself is passed on"); took_add++; } static void close(Q*) {} };
// one block of sorted line points
static void mkblk(LB& b) { m0 = vc_range("m", 0, u64(1) << 35); cN = vc_range("c", 0, u64(1) << 30); vc_assume(m0 + cN <= (u64(1) << PMAX)); b.first.d = (entry_lp*)vc_array("block", cN, sizeof(entry_lp), LPSLOT); b.first.n = cN; b.second = m0; g_blk = &b; }
static u64 add_n; static bool add_ok;
static void add_contract(DiskSortNP::WriteCache* c, const entry_np* e) { u64 i = m0 + add_n; vc_assert(u64(e->pos) == i, "each entry gets its index in line point order"); vc_assert(e->key == g_blk->first.d[add_n].key, "under its own sort key"); add_n++; }
static NC* addcache_contract(NC* r, DiskSortNP* s) { vc_assert(s == g_ls, "the new sort"); new(r) NC(); *(void**)r = (void*)new u64[8]; return r; }
static void inv_add(u64 n) { vc_inv(n <= cN, "index"); }
void VcPoolHook<LB, size_t, NC>::create(Q* q) { if(stage != 3) return;
	LB b; mkblk(b); vc_assume(cN > 0); size_t o = 0; NC c; *(void**)&c = (void*)new u64[8]; add_n = 0;
	vc_loop("compute_stage2", (void*)inv_add, 0); q->execute(b, o, c); vc_assert(add_n == cN, "every entry is added once"); vc_cover("add"); vc_assume(false);
}
// the park stage: one or two parks per block
static u64 pn; static u64 ap_n; static bool ap_ok; static u64 wp_calls; static u64 wbase; static u64 pk_n[2], pk_i[2], pk_b[2]; static u8* wp_buf; static std::vector<u8>* cur_d; static void* cur_pts;
static void append_contract(ParkBits*, const uint128_t v, u32 len) { vc_require(len == u32(k - 3), "stub width"); if(ap_n == W) { vc_assert((v >> (k - 3)) == 0, "stub fits"); ap_ok = u64(v) == (u64(P(wbase + W + 1) - P(wbase + W)) & ((u64(1) << (k - 3)) - 1)); vc_assert(ap_ok, "stub: low bits of the difference"); } ap_n++; }
static void pb_ctor(ParkBits*) { ap_n = 0; }
static void inv_deltas(u64 n) {
	u64 cnt = pk_n[wp_calls] - 1; vc_inv(n <= cnt, "index"); vc_inv(ap_n == n, "one stub per difference"); 
	uintlp_t* p = ((std::vector<uintlp_t>*)cur_pts)[0].d;
}
static void wp_contract(uint128_t lp, const std::vector<u8>* d, const ParkBits*, u8 kk, u8 t, u8* buf, u64 size) {
	vc_assert(lp == P(wbase), "first line point"); vc_assert(d->size() == pk_n[wp_calls] - 1 && ap_n == d->size(), "one delta and one stub per further line point"); vc_assert(kk == k && t == ti && size == park_size(), "format parameters");
	if(W < d->size()) { uintlp_t bd = P(wbase + W + 1) - P(wbase + W); vc_assert((bd >> (k - 3)) == d->d[W], "delta: high bits of the difference"); vc_cover("delta"); }
	wp_buf = buf; wp_calls++; if(wp_calls < 2) wbase = pk_b[1];
}
template<class T> struct Pts { static std::vector<T>* v; static void inv(u64 n) {
	u64 w = wp_calls; u64 cnt = pk_n[w] - 1; vc_inv(n <= cnt, "index"); vc_inv(ap_n == n, "one stub per difference"); uintlp_t* p = v->d[w].points.d;
	if(n < cnt) { vc_define(p[n] == P(wbase + n) && p[n + 1] == P(wbase + n + 1), "line points"); vc_assume(P(wbase + n) <= P(wbase + n + 1)); }
	if(W < n) { u8* d = (*(std::vector<u8>*)vc_local("^phase3::compute_stage2\\(.*lambda", "deltas")).d; uintlp_t bd = P(wbase + W + 1) - P(wbase + W); vc_inv(((bd >> (k - 3)) == d[W]), "delta: high bits of the difference"); } } };
template<class T> std::vector<T>* Pts<T>::v;
template<class T, class O> void VcPoolHook<std::vector<T>, std::vector<O>, size_t>::run_parks(Q* q) { if(stage != 1) return;
	pn = vc_case("parks", 1, 2); std::vector<T> in; in.resize(pn); std::vector<O> out; size_t l = 0; Pts<T>::v = &in; wp_calls = 0; W = vc_range("W", 0, 2047);
	for(u64 i = 0; i < pn; ++i) { pk_n[i] = vc_range("points", 1, 2048); pk_i[i] = vc_range("index", 0, u64(1) << 25); pk_b[i] = pk_i[i] * 2048; in[i].index = pk_i[i]; in[i].points.d = (uintlp_t*)vc_array("points", 2048, sizeof(uintlp_t), PSLOT); in[i].points.n = pk_n[i]; vc_define(in[i].points.d[0] == P(pk_b[i]), "line points"); }
	wbase = pk_b[0]; bool err = false; u64 w0 = *(u64*)vc_local("^phase3::compute_stage2\\(", "num_written_final");
	vc_loop("compute_stage2", (void*)Pts<T>::inv, 0);
	try { q->execute(in, out, l); } catch(const std::exception&) { err = true; }
	if(err) { vc_cover("refused"); vc_assume(false); }
	vc_assert(out.size() == pn, "one park each"); u64 tot = 0;
	for(u64 i = 0; i < pn; ++i) { vc_assert(out[i].offset == L0 + pk_i[i] * park_size() && out[i].buffer.size() == park_size(), "each park at its place in the table"); tot += pk_n[i]; }
	vc_assert(out[pn - 1].buffer.data() == wp_buf, "the park written"); vc_assert(*(u64*)vc_local("^phase3::compute_stage2\\(", "num_written_final") == w0 + tot, "entries counted"); vc_cover("parks"); vc_assume(false);
}
static u64 wr_n; static u64 wr_off[2]; static u8* wr_buf[2];
static size_t fwrite_at_contract(FILE* f, u64 off, const void* buf, u64 len) { vc_assert(f == (FILE*)fh && wr_n < 2 && off == wr_off[wr_n] && buf == wr_buf[wr_n] && len == 77 + wr_n, "each park is written at its offset"); wr_n++; return len; }
template<class O> void VcThreadHook<std::vector<O>>::run_write(Q* q) { if(stage != 2) return;
	std::vector<O> in; in.resize(2); for(int i = 0; i < 2; ++i) { wr_off[i] = in[i].offset = vc_u64("offset"); in[i].buffer.resize(77 + i); wr_buf[i] = in[i].buffer.data(); } wr_n = 0;
	q->execute(in); vc_assert(wr_n == 2, "every park is written"); vc_cover("write"); vc_assume(false);
}
static void lp_read(DiskSortLP* s, Processor<LB>* out, int nt, int) {
	vc_assert(s == g_rs && nt >= 1 && !g_read, "the sorted line points, once"); g_read = true;
	g_park = (PD*)vc_local("^phase3::compute_stage2\\(", "park"); vc_assert(g_park->index == 0 && g_park->points.size() == 0, "starts with an empty park");
	g_park->points.d = (uintlp_t*)vc_array("park_points", 2049, sizeof(uintlp_t), PSLOT);
	if(stage == 0) {
		LB b; mkblk(b); W = vc_range("W", 0, u64(1) << 35); vc_assume(W < m0 + cN); vc_assume(cN > 0);
		g_park->index = idx(m0); g_park->points.n = m0 - base(m0); if((base(m0) <= W) & (W < m0)) vc_define(g_park->points.d[W - base(m0)] == P(W), "state reached by the blocks before");
		seal_n = 0; sealW = false; took_parks = took_add = 0; u64 r0 = *(u64*)vc_local("^phase3::compute_stage2\\(", "R_num_read"); u64 g = m0 + cN;
		vc_loop_now("compute_stage2", (void*)inv_slice, 0);
		((Thread<LB>*)out)->execute(b);
		vc_assert(g_park->index == idx(g) && g_park->points.size() == g - base(g), "park under construction"); if((base(g) <= W) & (W < g)) vc_assert(g_park->points[W - base(g)] == P(W), "line point in its place");
		vc_assert(seal_n == idx(g) - idx(m0) && sealW == ((idx(m0) <= W / 2048) & (W / 2048 < idx(g))), "full parks passed on, no others"); vc_assert(took_parks == 1 && took_add == 1, "the block goes to both stages once");
		vc_cover("slice"); vc_assume(false);
	}
	if(stage == 4) { W = vc_range("W", 0, u64(1) << 35); vc_assume(W < N); g_park->index = idx(N); g_park->points.n = N - base(N); if(base(N) <= W) vc_define(g_park->points.d[W - base(N)] == P(W), "state reached by the blocks before");
		*(u64*)vc_local("^phase3::compute_stage2\\(", "num_written_final") = base(N); took_parks = 0; tail_n = 0; }
}
static void np_finish(DiskSortNP* s) { vc_assert(s == g_ls && g_read, "finished after all entries were added"); g_fin = true; }
static void stage2() {
	k = vc_case("k", KMAX - (stage == 1 || stage == 4 ? 2 : 0), KMAX); ti = stage == 1 || stage == 4 ? vc_case("table", 1, 2) * 3 - 2 : 1; nth = vc_range("threads", 1, 64); N = vc_range("N", 0, u64(1) << PMAX); L0 = vc_range("begin", 0, u64(1) << 45); g_fin = g_read = false;
	g_rs = (DiskSortLP*)new u64[64]; g_ls = (DiskSortNP*)new u64[64]; u64 rb = 0;
	vc_replace("DiskSort<phase3::entry_lp, .*>::read\\(", (void*)lp_read); vc_replace("DiskSort<phase3::entry_np, .*>::finish\\(", (void*)np_finish); vc_replace("DiskSort<phase3::entry_np, .*>::add_cache\\(", (void*)addcache_contract); vc_replace("DiskSort<phase3::entry_np, .*>::WriteCache::add\\(", (void*)add_contract);
	vc_replace("vector<.*park_data_t.*>::(emplace_back|push_back)", (void*)seal); vc_replace("BitsGeneric<ParkVector>::AppendValue", (void*)append_contract); vc_replace("BitsGeneric<ParkVector>::BitsGeneric\\(\\)", (void*)pb_ctor); vc_replace("phase3::WritePark", (void*)wp_contract); vc_replace("fwrite_at", (void*)fwrite_at_contract);
	u64 r = compute_stage2(ti, k, nth, g_rs, g_ls, (FILE*)fh, L0, &rb);
	vc_assert(g_fin, "positions sorted"); vc_assert(rb == L0 + (N + 2047) / 2048 * park_size(), "the next table starts after the last park"); vc_assert(took_parks == (N > 0), "the last park is passed on"); vc_cover("stage2");
}
VC_HARNESS(C07_stage2) { stage = vc_case("stage", 0, 3); if(stage == 1) stage = 4; stage2(); }
#ifdef CHIA_K34
VC_HARNESS(C07_T_stage2_park) { stage = 1; stage2(); }
#else
VC_HARNESS(C07_stage2_park) { stage = 1; stage2(); }
#endif
#endif
