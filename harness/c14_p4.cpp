// C14: phase 4.  The sorted final entries are (fy(i), fp(i)), i < N; they arrive in blocks of any size in order (C02, C04).
// Every part is followed for one arbitrary entry W.  Thread stages by contract (C04), bit strings by theirs (C09), the
// entropy coder by its own (C08).  State carried between blocks is the state function over the number m of entries seen.
#include "io.h"
#include <chia/phase4.hpp>
#if VC_SYMBOLIC
using phase3::entry_np; using phase3::DiskSortNP;
typedef std::pair<std::vector<entry_np>, size_t> NB;
#ifdef CHIA_K34
#define NSLOT "0:8,8:8"
#define XSLOT "0:8"
#define FM ((u64(1) << 34) - 1)
#else
#define NSLOT "0:4,4:4"
#define XSLOT "0:4"
#define FM 0xffffffffull
#endif
static u64 fy(u64 i) { return vc_uf1("f7", i) & FM; }
static u64 fp(u64 i) { return vc_uf1("pos", i) & FM; }
static int stage, nth, hs; static u64 k, N, W, W10, W1r, W1, P7S, KB, C3S, b7, bC1, bC2, bC3, bEnd, m0, cN; static NB* g_blk; static char fh[8]; static DiskSortNP* g_sort; static bool g_read;
static const char* FN = "^phase4::compute\\(_IO_FILE";
static u64 *l_w1, *l_w3, *l_c1, *l_py;
static void layout() {
	P7S = (k + 1) * 256; KB = (k + 7) / 8; C3S = k < 20 ? 10000 : 3000; u64 c1 = (N + 9999) / 10000, c2 = (N + 99999999) / 100000000;
	bC1 = b7 + (N + 2047) / 2048 * P7S; bC2 = bC1 + (c1 + 1) * KB; bC3 = bC2 + (c2 + 1) * KB; bEnd = bC3 + c1 * C3S;
}
struct PD { u64 offset; std::vector<uintkx_t> array; }; struct PK { u64 offset; std::vector<u8> deltas; };       // layouts of the parks under construction
static PD* g_pd; static PK* g_pk; static std::vector<uintkx_t>* g_C2;
static void bind() { g_pd = (PD*)vc_local(FN, "park_data"); g_pk = (PK*)vc_local(FN, "park_deltas"); g_C2 = (std::vector<uintkx_t>*)vc_local(FN, "C2"); l_w1 = (u64*)vc_local(FN, "final_file_writer_1"); l_w3 = (u64*)vc_local(FN, "final_file_writer_3"); l_c1 = (u64*)vc_local(FN, "num_C1_entries"); l_py = (u64*)vc_local(FN, "prev_y"); }
// ---- bit strings by contract
static u64 bv_v; static u32 bv_n; 
static void bits_ctor(Bits* b, uint128_t v, u32 n) { new(b) Bits(); bv_v = u64(v); bv_n = n; }
static void bits_tobytes(const Bits*, u8* o) { u64 nb = (bv_n + 7) / 8; u64 x = bv_v << (8 * nb - bv_n); vc_require(nb == KB, "bytes of an entry"); o[0] = x >> (8 * nb - 8); o[1] = x >> (8 * nb - 16); if(nb > 2) o[2] = x >> (8 * nb - 24); if(nb > 3) o[3] = x >> (8 * nb - 32); if(nb > 4) o[4] = x >> (8 * nb - 40); }
static bool bytes_are(const u8* o, u64 v) { u64 nb = KB, x = v << (8 * nb - k); bool r = (o[0] == u8(x >> (8 * nb - 8))) & (o[1] == u8(x >> (8 * nb - 16))); if(nb > 2) r = r & (o[2] == u8(x >> (8 * nb - 24))); if(nb > 3) r = r & (o[3] == u8(x >> (8 * nb - 32))); if(nb > 4) r = r & (o[4] == u8(x >> (8 * nb - 40))); return r; }
// ---- stage 0: position parks of one block
static u64 q7(u64 m) { return m ? (m - 1) / 2048 : 0; } static u64 n7(u64 m) { return m ? (m - 1) % 2048 + 1 : 0; }
static u64 seal_n, took7; static bool sealW;
static void seal(std::vector<PD>* vec, PD* p) {
	if(stage == 4) { new(vec->d + vec->n) PD(*p); vec->n++; return; }
	if(stage == 1) { p->array.n = 0; return; }
	vc_assert(p == g_pd, "the park under construction"); vc_assert(p->array.n == 2048, "a full park is passed on"); u64 q = q7(m0) + seal_n; vc_assert(p->offset == b7 + q * P7S, "at its offset");
	if(q == W / 2048) { vc_assert(u64(p->array.d[W % 2048]) == fp(W), "a position park holds consecutive positions"); sealW = true; } seal_n++; p->array.n = 0;
}
static void state7(u64 m, bool assume) { u64 w3 = *l_w3;
	if(assume) { *l_w3 = b7 + q7(m) * P7S; g_pd->array.n = n7(m); if((q7(m) * 2048 <= W) & (W < m)) vc_define(u64(g_pd->array.d[W - q7(m) * 2048]) == fp(W), "state reached by the blocks before"); return; }
}
static void inv7(u64 n) { u64 m = m0 + n; vc_inv(n <= cN, "index"); vc_inv((g_C2->n <= m) & (g_pk->deltas.n <= m + 9999), "checkpoints");
	vc_inv(*l_w3 == b7 + q7(m) * P7S, "offset of the park under construction"); vc_inv(g_pd->array.n == n7(m), "positions in the park"); 
	vc_inv(seal_n == q7(m) - q7(m0), "full parks passed on"); vc_inv(sealW == ((q7(m0) <= W / 2048) & (W / 2048 < q7(m))), "the park passed on");
	if((q7(m) * 2048 <= W) & (W < m)) vc_inv(u64(g_pd->array.d[W - q7(m) * 2048]) == fp(W), "position in its place");
	if(n < cN) { vc_define(u64(g_blk->first.d[n].pos) == fp(m), "sorted entries"); }
}
// ---- stage 1: checkpoints and deltas of one block
static u64 c1(u64 m) { return (m + 9999) / 10000; } static u64 nd(u64 m) { return m ? (m - 1) % 10000 : 0; }
static bool pend(u64 m) { return (W < m) & (m - W <= g_pk->deltas.n); } static u64 slot(u64 m) { return g_pk->deltas.n - (m - W); }     // the deltas of the last entries seen wait in order
static u64 cur_m, sent1, sent3; static bool did1, did3;
static void inv1(u64 n) { u64 m = m0 + n; vc_inv(n <= cN, "index"); vc_inv(g_pd->array.n <= m, "positions"); u64 c = c1(m); cur_m = m;
	vc_inv(*l_c1 == c, "number of C1 entries"); vc_inv(*l_w1 == bC1 + c * KB, "offset of the next C1 entry"); vc_inv(g_pk->deltas.n == nd(m), "deltas of the interval under construction");
	vc_inv((m == 0) | (*l_py == fy(m - 1)), "previous f7"); vc_inv(g_C2->n == (m + 99999999) / 100000000, "number of C2 entries");
	vc_inv(sent1 == c - c1(m0), "C1 entries written"); u64 a = c1(m0); vc_inv(sent3 == (c - (c > 0)) - (a - (a > 0)), "delta parks passed on");
	if(vc_inv_assuming()) { if(n < cN) vc_define(u64(g_blk->first.d[n].key) == fy(m), "sorted entries"); u64 j = vc_range("j", 0, u64(1) << 36); bool p = pend(m); vc_assume(!p | (j == slot(m))); vc_inv(!p | (u64(g_pk->deltas.d[j]) == fy(W) - fy(W - 1)), "delta in its place"); }
	else if(pend(m)) { if(W + 1 == m) vc_inv(u64(g_pk->deltas.d[g_pk->deltas.n - 1]) == fy(m - 1) - fy(m - 2), "delta in its place"); else vc_inv(u64(g_pk->deltas.d[slot(m)]) == fy(W) - fy(W - 1), "delta in its place"); }
}
static void invC2(u64); static u64 fw_n;
// ---- stage 2: a position park to bytes
static u64 ap_n, tb_n; static u64 pk_n[2], pk_o[2], pk_b[2]; static u8* tb_buf; static u64 pb_v; static u32 pb_n;
static void pb_ctor0(ParkBits*) { ap_n = 0; }
static void pb_ctor(ParkBits*, uint128_t v, u32 n) { pb_v = u64(v); pb_n = n; }
static ParkBits* pb_add(ParkBits* s, const ParkBits*) { vc_assert(pb_n == k + 1, "width of a position"); if(ap_n == W) vc_assert(pb_v == fp(pk_b[tb_n] + W), "positions in order"); ap_n++; return s; }
static void pb_tobytes(const ParkBits*, u8* o) { vc_assert(ap_n == pk_n[tb_n], "every position of the park"); tb_buf = o; tb_n++; }
template<class T> struct In7 { static std::vector<T>* v; static void inv(u64 n) { vc_inv(n <= pk_n[tb_n], "index"); vc_inv(ap_n == n, "one value per position"); if(n < pk_n[tb_n]) vc_define(u64(v->d[tb_n].array.d[n]) == fp(pk_b[tb_n] + n), "positions of the park"); } };
template<class T> std::vector<T>* In7<T>::v;
template<class T, class O> struct VcPoolHook<std::vector<T>, std::vector<O>, size_t> { typedef ThreadPool<std::vector<T>, std::vector<O>, size_t> Q;
	static void create(Q* q) { vc_assert(q->output == (Processor<std::vector<O>>*)VcThreadHook<std::vector<O>>::w, "parks go to the writing stage"); if(stage != 2) return;
		u64 pn = vc_case("parks", 1, 2); std::vector<T> in; in.resize(pn); std::vector<O> out; size_t l = 0; In7<T>::v = &in; tb_n = 0; W = vc_range("W", 0, 2047);
		for(u64 i = 0; i < pn; ++i) { pk_n[i] = vc_range("positions", 0, 2048); pk_b[i] = vc_range("base", 0, u64(1) << 40); pk_o[i] = vc_range("offset", 0, u64(1) << 45); in[i].offset = pk_o[i]; in[i].array.d = (uintkx_t*)vc_array("array", 2048, sizeof(uintkx_t), XSLOT); in[i].array.n = pk_n[i]; }
		vc_loop("^phase4::compute\\(", (void*)In7<T>::inv, 0); q->execute(in, out, l);
		vc_assert(out.size() == pn && tb_n == pn, "one park each"); for(u64 i = 0; i < pn; ++i) vc_assert(out[i].offset == pk_o[i] && out[i].buffer.size() == P7S, "at its offset"); vc_assert(out[pn - 1].buffer.data() == tb_buf, "the bytes of the park"); vc_cover("p7"); vc_assume(false); }
	static void take(Q*, std::vector<T>& v) { took7++; if(stage < 4) return;
		vc_assert(g_read && v.size() == 1, "the last park"); PD* p = (PD*)&v[0]; vc_assert(p->offset == b7 + q7(N) * P7S && p->array.n == n7(N), "the rest of the positions at its offset"); if((q7(N) * 2048 <= W) & (W < N)) { vc_assert(u64(p->array.d[W - q7(N) * 2048]) == fp(W), "position in its place"); vc_cover("last p7"); } }
	static void close(Q*) {} };
// ---- stage 3: a delta park to bytes
static u64 enc_n; static const std::vector<u8>* enc_in; static u8 ENC(u64 i) { return vc_uf1("enc", i); }
static u64 ans_contract(const std::vector<u8>* d, double r, u8* out) { vc_assert(d->n == enc_in->n && r == kC3R, "the deltas of the park"); if(W < d->n) vc_assert(d->d[W] == enc_in->d[W], "the deltas of the park"); u64 cap = d->n * 8; vc_assume(enc_n <= cap); if(W < enc_n) out[W] = ENC(W); return enc_n; }
template<class T, class O> struct VcPoolHook<T, std::vector<O>, size_t> { typedef ThreadPool<T, std::vector<O>, size_t> Q;
	static void create(Q* q) { vc_assert(q->output == (Processor<std::vector<O>>*)VcThreadHook<std::vector<O>>::w, "parks go to the writing stage"); if(stage != 3) return;
		T in; std::vector<O> out; size_t l = 0; in.offset = vc_range("offset", 0, u64(1) << 45); u64 n = vc_range("deltas", 0, 9999); in.deltas.d = (u8*)vc_array("deltas", 10000, 1, "0:1"); in.deltas.n = n; enc_in = &in.deltas; enc_n = vc_range("encoded", 0, 80000); W = vc_range("W", 0, 80000); bool err = false;
		try { q->execute(in, out, l); } catch(const std::exception&) { err = true; }
		if(enc_n + 2 > C3S) { vc_assert(err, "a park that does not fit is refused"); vc_cover("c3 overflow"); vc_assume(false); } vc_assert(!err && out.size() == 1, "one park");
		vc_assert(out[0].offset == in.offset && out[0].buffer.size() == C3S, "at its offset"); vc_assert(u64(out[0].buffer[0]) * 256 + out[0].buffer[1] == enc_n, "size of the code"); if(W < enc_n) { vc_assert(out[0].buffer[W + 2] == ENC(W), "the code"); vc_cover("c3"); } vc_assume(false); }
	static void take(Q*, T& v) { PK* p = (PK*)&v; vc_assert(p == g_pk, "the deltas under construction"); u64 c, n; 
		if(stage == 4) { vc_assert(g_read, "the last park"); c = c1(N) - 1; n = nd(N); } else { if(stage != 1) return; u64 a = c1(m0); c = (a > 1 ? a - 1 : 0) + sent3; n = 9999; }
		vc_assert(p->offset == bC3 + c * C3S, "delta park at its offset"); vc_assert(p->deltas.n == n, "deltas of the interval");
		if(stage == 1) vc_assert(cur_m == (c + 1) * 10000, "a delta park ends with its interval");
		if((c == W1) & (W1r > 0) & (W1r <= n)) { vc_assert(u64(p->deltas.d[W1r - 1]) == fy(W) - fy(W - 1), "delta of the entry in its place"); vc_cover("delta park"); }
		if(stage == 4) vc_loop_now("^phase4::compute\\(", (void*)invC2, 0);
		sent3++; p->deltas.n = vc_range("left_behind", 0, 9999); }
	static void close(Q*) {} };
// ---- writing stage
static u64 wr_n, wr_off[2]; static const u8* wr_buf[2];
template<class O> struct VcThreadHook<std::vector<O>> { typedef Thread<std::vector<O>> Q; static Q* w;
	static void create(Q* q) { w = q; if(stage != 5) return; std::vector<O> in; in.resize(2); for(int i = 0; i < 2; ++i) { wr_off[i] = in[i].offset = vc_u64("offset"); in[i].buffer.resize(77 + i); wr_buf[i] = in[i].buffer.data(); } wr_n = 0; q->execute(in); vc_assert(wr_n == 2, "every park is written"); vc_cover("write"); vc_assume(false); }
	static void take(Q*, std::vector<O>& v) { if(stage != 1) return; u64 c = c1(m0) + sent1; vc_assert(v.size() == 1, "one C1 entry"); vc_assert(v[0].offset == bC1 + c * KB && v[0].buffer.size() == KB, "C1 entry at its offset"); vc_assert(cur_m == c * 10000, "C1 takes every 10000th entry"); vc_assert(bytes_are(v[0].buffer.data(), fy(cur_m)), "f7 of every 10000th entry"); vc_cover("c1"); sent1++; }
	static void close(Q*) {} };
template<class O> Thread<std::vector<O>>* VcThreadHook<std::vector<O>>::w;
template<class A, class B> struct VcThreadHook<std::vector<std::pair<A, B>>> { typedef Thread<std::vector<std::pair<A, B>>> Q; static void create(Q*) {} static void take(Q*, std::vector<std::pair<A, B>>&) {} static void close(Q*) {} };      // inside the sort (C02)
static Thread<NB>* g_rt;
template<> struct VcThreadHook<NB> { static void create(Thread<NB>* t) { g_rt = t; } static void take(Thread<NB>*, NB&) {} static void close(Thread<NB>*) {} };
// ---- the tail
      // writes after the last park: terminator of C1, C2 entries, terminator of C2, three pointers
static u64 C2N() { return (N + 99999999) / 100000000; }
static size_t fw_contract(FILE* f, u64 off, const void* buf, u64 len) { const u8* b = (const u8*)buf; vc_assert(f == (FILE*)fh, "the plot file");
	if(stage == 5) { vc_assert(wr_n < 2 && off == wr_off[wr_n] && buf == wr_buf[wr_n] && len == 77 + wr_n, "each park is written at its offset"); wr_n++; return len; }
	u64 i = fw_n, c = C2N();
	if(i == 0) { vc_assert(off == bC1 + c1(N) * KB && len == KB && bytes_are(b, 0), "C1 ends with a zero entry"); }
	else if(i <= c) { vc_assert(off == bC2 + (i - 1) * KB && len == KB, "C2 entry at its offset"); if(i - 1 == W10) vc_assert(bytes_are(b, fy(W10 * 100000000)), "C2 holds every 10000th C1 entry"); }
	else if(i == c + 1) vc_assert(off == bC2 + c * KB && len == KB && bytes_are(b, 0), "C2 ends with a zero entry");
	else { u64 j = i - c - 2; u64 p = j == 0 ? bC1 : j == 1 ? bC2 : bC3; vc_assert(j < 3 && off == u64(hs) - 24 + 8 * j && len == 8, "table pointers at the end of the header"); vc_assert(((u64)b[0] << 56 | (u64)b[1] << 48 | (u64)b[2] << 40 | (u64)b[3] << 32 | (u64)b[4] << 24 | (u64)b[5] << 16 | (u64)b[6] << 8 | b[7]) == p, "start of the table"); }
	fw_n++; return len; }
static void invC2(u64 n) { vc_inv(n <= C2N(), "index"); vc_inv(fw_n == 1 + n, "writes"); vc_inv(*l_w1 == bC2 + n * KB, "offset"); if(n < C2N()) vc_define((n != W10) | (u64(g_C2->d[n]) == fy(W10 * 100000000)), "state reached by the blocks"); }
static void inv_end7(u64 m) { vc_assert(*l_w3 == b7 + q7(m) * P7S && g_pd->array.n == n7(m), "park under construction"); vc_assert(seal_n == q7(m) - q7(m0) && sealW == ((q7(m0) <= W / 2048) & (W / 2048 < q7(m))), "full parks passed on, no others"); if((q7(m) * 2048 <= W) & (W < m)) vc_assert(u64(g_pd->array.d[W - q7(m) * 2048]) == fp(W), "position in its place"); }
static void inv_end1(u64 m) { u64 c = c1(m); vc_assert(*l_c1 == c && *l_w1 == bC1 + c * KB && g_pk->deltas.n == nd(m), "checkpoints so far"); vc_assert(*l_py == fy(m - 1), "previous f7"); vc_assert(sent1 == c - c1(m0), "C1 entries written"); if(pend(m)) vc_assert(u64(g_pk->deltas.d[slot(m)]) == fy(W) - fy(W - 1), "delta in its place"); vc_assert(g_C2->n == (m + 99999999) / 100000000, "C2 entries"); }
static void np_read(DiskSortNP* s, Processor<NB>* out, int nt, int) {
	vc_assert(s == g_sort && (Thread<NB>*)out == g_rt && nt >= 1 && !g_read, "the sorted final entries, once"); g_read = true; bind();
	vc_assert(*l_w1 == bC1 && *l_w3 == b7 && *l_c1 == 0 && g_C2->n == 0 && g_pd->array.n == 0 && g_pk->deltas.n == 0, "start");
	g_pd->array.d = (uintkx_t*)vc_array("park", u64(1) << 37, sizeof(uintkx_t), XSLOT); g_pk->deltas.d = (u8*)vc_array("dpark", u64(1) << 37, 1, "0:1"); g_C2->d = (uintkx_t*)vc_array("C2", u64(1) << 37, sizeof(uintkx_t), XSLOT);
	m0 = vc_range("m", 0, u64(1) << PMAX); cN = vc_range("c", 1, u64(1) << 30); vc_assume(m0 + cN <= N); sent1 = sent3 = seal_n = took7 = 0; sealW = false; if(stage == 4) { m0 = N; }
	u64 c = c1(m0); 
	if(stage == 0 || stage == 4) { vc_assume(stage == 4 ? W < N : W < m0 + cN); state7(m0, true); }
	if(stage == 1 || stage == 4) { *l_c1 = c; *l_w1 = bC1 + c * KB; g_pk->deltas.n = nd(m0); g_C2->n = (m0 + 99999999) / 100000000; vc_assume(W < m0 + cN || stage == 4);
		if(m0) { *l_py = fy(m0 - 1); if(pend(m0)) vc_define(u64(g_pk->deltas.d[slot(m0)]) == fy(W) - fy(W - 1), "state reached by the blocks before"); } }
	if(stage == 4) { fw_n = 0; return; }
	NB b; b.first.d = (entry_np*)vc_array("block", cN, sizeof(entry_np), NSLOT); b.first.n = cN; b.second = m0; g_blk = &b; bool err = false;
	vc_loop_now("^phase4::compute\\(", stage ? (void*)inv1 : (void*)inv7, 0);
	try { g_rt->execute(b); } catch(const std::exception&) { err = true; }
	if(err) { vc_cover("refused"); vc_assume(false); }
	u64 m = m0 + cN; vc_assert(took7 == 1, "full parks are passed on once per block");
	if(stage == 0) { inv_end7(m); vc_cover("positions"); } else { inv_end1(m); vc_cover("checkpoints"); }
	vc_assume(false);
}
static void phase4_run() {
#ifdef CHIA_K34
	k = vc_case("k", KMAX, KMAX); 
#else
	k = vc_case("k", 0, 1) ? KMAX : 18;
#endif
	  nth = vc_range("threads", 1, 64); N = vc_range("N", 1, u64(1) << PMAX); b7 = vc_range("begin", 0, u64(1) << 45); hs = vc_range("header", 100, 1000); layout(); g_read = false; g_sort = (DiskSortNP*)new u64[64];
	W1 = vc_range("W1", 0, u64(1) << 22); W1r = vc_range("W1r", 0, 9999); W10 = vc_range("W10", 0, 100); W = vc_range("W", 0, u64(1) << PMAX); if(stage) vc_assume(W == W1 * 10000 + W1r);
	vc_replace("DiskSort<phase3::entry_np, .*>::read\\(", (void*)np_read); vc_replace("fwrite_at", (void*)fw_contract); vc_replace("vector<.*park_data_t.*>::(emplace_back|push_back)", (void*)seal); vc_replace("Encoding::ANSEncodeDeltas", (void*)ans_contract); vc_replace("Encoding::ANSFree", (void*)+[](double) {});
	vc_replace("BitsGeneric<SmallVector>::BitsGeneric\\(unsigned __int128, unsigned int\\)", (void*)bits_ctor); vc_replace("BitsGeneric<SmallVector>::ToBytes", (void*)bits_tobytes);
	vc_replace("BitsGeneric<ParkVector>::BitsGeneric\\(unsigned __int128, unsigned int\\)", (void*)pb_ctor); vc_replace("BitsGeneric<ParkVector>::BitsGeneric\\(\\)", (void*)pb_ctor0); vc_replace("BitsGeneric<ParkVector>::operator\\+=", (void*)pb_add); vc_replace("BitsGeneric<ParkVector>::ToBytes", (void*)pb_tobytes);
	u64 end = phase4::compute((FILE*)fh, k, hs, g_sort, nth, b7, N);
	vc_assert(g_read && took7 == 1 && sent3 == 1, "the last parks are passed on"); vc_assert(fw_n == C2N() + 5, "all entries written"); vc_assert(end == bEnd, "size of the plot"); vc_cover("tail");
}
VC_HARNESS(C14_sizes) { u64 q = vc_case("k", 16, KMAX); vc_assert(phase4::CalculateC3Size(q) == (q < 20 ? 10000 : 3000), "size of a delta park"); vc_cover("sizes"); }
VC_HARNESS(C14_parks) { stage = 0; phase4_run(); }
VC_HARNESS(C14_checkpoints) { stage = 1; phase4_run(); }
VC_HARNESS(C14_p7_bytes) { stage = 2; phase4_run(); }
VC_HARNESS(C14_c3_bytes) { stage = 3; phase4_run(); }
VC_HARNESS(C14_tail) { stage = 4; phase4_run(); }
VC_HARNESS(C14_write) { stage = 5; phase4_run(); }
#endif
