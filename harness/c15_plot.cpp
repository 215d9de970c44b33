// C15 / C17: the plot file as a whole - header, table pointers, open/close/rename - over the contracts of the stages.
#include "io.h"
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#if VC_SYMBOLIC
// ---- the plot file, seen through one arbitrary byte at offset B
static u64 B, f_pos, f_end; static bool f_open, f_fail, f_have, f_renamed, f_created; static u8 f_val; static int n_open; static char fh[8]; static bool f_tmpname, f_flushed;
static const char* g_from; static const char* g_to;
static bool same(const char* a, const char* b) { int i = 0; for(; a[i] && a[i] == b[i]; ++i); return a[i] == b[i]; }
static bool fault(const char* n) { if(vc_u8(n)) { f_fail = true; return true; } return false; }
static FILE* io_fopen(const char* name, const char* mode) {
	vc_assert(same(name, "D/p.plot.tmp"), "the plot is written under its temporary name"); vc_assert(!f_open, "opened once");
	if(fault("fopen_fails")) return nullptr;
	n_open++; if(mode[0] == 'w') { f_end = 0; f_have = false; f_created = true; } else vc_assert(mode[0] == 'r' && (mode[1] == '+' || mode[2] == '+'), "existing contents are kept");
	f_open = true; f_pos = 0; return (FILE*)fh;
}
static size_t io_fwrite(const void* p, size_t sz, size_t n, FILE* f) {
	vc_require(f == (FILE*)fh && f_open, "written while open"); u64 len = sz * n;
	if(fault("fwrite_fails")) { u64 r = vc_range("short", 0, u64(1) << 40); vc_assume(r < n); return r; }
	u64 p0 = f_pos;
	if(p0 <= B && B < p0 + len) { f_have = true; u64 o = B - p0; f_val = ((const u8*)p)[o]; }
	f_pos = p0 + len; if(f_pos > f_end) f_end = f_pos;
	return n;
}
static int io_fseek(FILE* f, long off, int wh) { vc_require(f == (FILE*)fh && f_open && wh == SEEK_SET, "absolute seek"); if(fault("fseek_fails")) return -1; f_pos = off; return 0; }
static int io_fclose(FILE* f) { vc_require(f == (FILE*)fh && f_open, "closed once"); f_open = false; return fault("fclose_fails") ? -1 : 0; }
static int io_fflush(FILE* f) { return fault("fflush_fails") ? -1 : 0; }
static int io_ferror(FILE*) { return f_fail; }
static int io_feof(FILE*) { return 0; }
static size_t io_fread(void*, size_t, size_t, FILE*) { vc_require(false, "the plot file is not read"); return 0; }
static int io_rename(const char* a, const char* b) {
	vc_assert(same(a, "D/p.plot.tmp") && same(b, "D/p.plot"), "only the plot gets its final name");
	vc_assert(!f_open && !f_fail, "the final name is given to a complete, closed file only");
	if(fault("rename_fails")) return -1; f_renamed = true; return 0; }
static int io_remove(const char* a) { vc_assert(!same(a, "D/p.plot.tmp") && !same(a, "D/p.plot"), "the plot file is not removed"); return 0; }
static void reset_file() { f_open = f_fail = f_have = f_renamed = f_created = false; f_pos = f_end = 0; n_open = 0; B = vc_range("B", 0, 1 << 18); }
// ---- helpers
#define FWRITE(CALL, OFF) { reset_file(); f_open = true; u64 len = vc_range("len", 0, u64(1) << 30); u64 off = vc_range("off", 0, u64(1) << 40); u64 pos = vc_range("pos", 0, u64(1) << 40); f_pos = pos; B = vc_range("Bw", 0, u64(1) << 41); \
	u8* buf = (u8*)vc_array("buf", len, 1, "0:1"); bool err = false; u64 r = 0; \
	try { r = CALL; } catch(const std::exception&) { err = true; } \
	vc_assert(err == f_fail, "an error exactly when an operation failed"); \
	if(!err) { vc_assert(r == len, "reports the number of bytes written"); u64 o = OFF; vc_assert(f_have == (o <= B && B < o + len), "writes exactly the range"); if(f_have) vc_assert(f_val == buf[B - o], "writes the bytes given"); vc_cover("ok"); } else vc_cover("error"); }
VC_HARNESS(C15_fwrite_at) FWRITE(fwrite_at((FILE*)fh, off, buf, len), off)
VC_HARNESS(C15_fwrite_ex) FWRITE(fwrite_ex((FILE*)fh, buf, len), pos)
// ---- header
static u8* g_id; static u8* g_memo; static u64 g_ml; static u8 g_k;
static u64 g_ptr[11];
static u64 hdr_size() { return 19 + 32 + 1 + 2 + 4 + 2 + g_ml + 80; }
static void check_header(bool with_ptr) {
	static const char magic[] = "Proof of Space Plot";
	vc_assume(B < hdr_size());
	vc_assert(f_have, "every byte of the header is written");
	if(B < 19) { vc_assert(f_val == (u8)magic[vc_split(B, 0, 18)], "magic"); vc_cover("magic"); }
	else if(B < 51) { vc_assert(f_val == g_id[B - 19], "plot id"); vc_cover("id"); }
	else if(B == 51) { vc_assert(f_val == g_k, "k"); vc_cover("k"); }
	else if(B < 54) vc_assert(f_val == (B == 52 ? 0 : 4), "length of the format version");
	else if(B < 58) vc_assert(f_val == (u8)"v1.0"[vc_split(B - 54, 0, 3)], "format version");
	else if(B < 60) vc_assert(f_val == (B == 58 ? u8(g_ml >> 8) : u8(g_ml)), "length of the memo, big-endian");
	else if(B < 60 + g_ml) { vc_assert(f_val == g_memo[B - 60], "memo"); vc_cover("memo"); }
	else if(!with_ptr) vc_assert(f_val == 0, "table pointers empty until the tables are written");
	else { u64 i = vc_split((B - 60 - g_ml) / 8, 0, 9), j = vc_split((B - 60 - g_ml) % 8, 0, 7);
		if(i < 7) vc_assert(f_val == u8(g_ptr[i + 1] >> (56 - 8 * j)), "pointer to the start of each table, big-endian"); vc_cover("ptr"); }
}
static void gen() { g_k = vc_range("k", 16, KMAX); g_ml = vc_range("memo_len", 0, 65535); g_id = (u8*)vc_array("id", 32, 1, "0:1"); g_memo = (u8*)vc_array("memo", g_ml, 1, "0:1"); }
VC_HARNESS(C15_header) {
	reset_file(); gen(); f_open = true; bool err = false; u64 r = 0;
	try { r = phase3::WriteHeader((FILE*)fh, g_k, g_id, g_memo, g_ml); } catch(const std::exception&) { err = true; }
	vc_assert(err == f_fail, "an error exactly when an operation failed");
	if(err) { vc_cover("error"); return; }
	vc_assert(r == hdr_size() && f_end == r && f_pos == r, "header size");
	check_header(false);
}

// ---- phase 3 as a whole: stages by contract, sorts by their constructor/destructor contract
static phase2::output_t* g_in; static phase3::output_t* g_out; static int st, g_nt;
static phase3::DiskSortLP* g_lp; static phase3::DiskSortNP* g_np; static bool lp_fresh, np_fresh; static phase3::DiskSortNP* np_new; static u64 g_n7; static int live_lp, live_np;
static std::string* lp_name; static std::string* np_name;
static phase2::DiskSortT* g_sort[6]; static bitfield* g_bf;
static void lp_ctor(phase3::DiskSortLP* s, int key, int logb, std::string* prefix, bool ro) {
	if(fault("sort_fails")) throw std::runtime_error("sort");
	vc_assert(key == 2 * int(g_k) - 1 && !ro, "line points of 2k-1 bits"); 
	if(live_np) vc_assert(*prefix != *np_name, "sorts in use at the same time have files of their own");
	lp_name = new std::string(*prefix); live_lp++; g_lp = s; lp_fresh = true; }
static void lp_dtor(phase3::DiskSortLP* s) { live_lp--; if(s == g_lp) g_lp = nullptr; }
static void np_ctor(phase3::DiskSortNP* s, int key, int logb, std::string* prefix, bool ro) {
	if(fault("sort_fails")) throw std::runtime_error("sort");
	vc_assert(key == int(g_k) && !ro, "keys of k bits");
	vc_assert(*prefix != *lp_name, "sorts in use at the same time have files of their own");
	if(live_np) vc_assert(*prefix != *np_name, "sorts in use at the same time have files of their own");
	np_name = new std::string(*prefix); live_np++; np_new = s; np_fresh = true; }
static void np_dtor(phase3::DiskSortNP* s) { live_np--; if(s == g_np) g_np = nullptr; }
template<class T, class S, class R> static void stage1(int L, int nt, phase3::DiskSortNP* Ls, R* Rs, phase3::DiskSortLP* R2, DiskTable<T>* Lt, bitfield const* used, DiskTable<S>* Rt) {
	vc_assert(L >= 1 && L <= 6 && st == 2 * (L - 1), "first stage of each table, in order"); vc_assert(nt == g_nt, "threads");
	vc_assert(R2 == g_lp && lp_fresh, "line points go to a new sort");
	if(L == 1) { vc_assert(Lt && same(Lt->file_name.c_str(), "T1"), "left entries come from table 1"); vc_assert(Lt->num_entries == 7, "with the entry count of table 1"); vc_assert(used == g_bf && g_bf, "filtered by the kept set of table 1"); }
	else vc_assert(!Lt && Ls == g_np && !np_fresh, "left positions come from the second stage of the table before");
	if(L == 6) { vc_assert(Rt && same(Rt->file_name.c_str(), "T7"), "right entries come from table 7"); vc_assert(Rt->num_entries == 9, "with the entry count of table 7"); }
	else vc_assert(!Rt && (void*)Rs == (void*)g_sort[L], "right entries come from the sorted table after");
	if(fault("stage1_fails")) throw std::runtime_error("stage1");
	lp_fresh = false; st++;
}
static u64 stage2(int L, int k, int nt, phase3::DiskSortLP* Rs, phase3::DiskSortNP* Ls, FILE* f, u64 begin, u64* Rb) {
	vc_assert(L >= 1 && L <= 6 && st == 2 * (L - 1) + 1, "second stage of each table, in order"); vc_assert(nt == g_nt && k == g_k, "parameters");
	vc_assert(Rs == g_lp && !lp_fresh, "reads the line points of this table"); vc_assert(Ls == np_new && np_fresh, "positions go to a new sort");
	vc_assert(f == (FILE*)fh && f_open, "parks go to the plot file"); vc_assert(begin == (L == 1 ? hdr_size() : g_ptr[L]), "the table starts where the one before ended");
	g_ptr[L] = begin;
	if(fault("stage2_fails")) throw std::runtime_error("stage2");
	f_pos = vc_range("pos_after", 0, u64(1) << 50);      // parks are written at begin and beyond, never in the header
	u64 e = begin + vc_range("bytes", 0, u64(1) << 45); vc_assert(Rb, "end of the table wanted"); *Rb = e; g_ptr[L + 1] = e;
	g_np = np_new; np_fresh = false; st++; g_n7 = vc_range("entries", 0, u64(1) << 40); return g_n7;
}
static void hdr_contract_ok() {}
VC_HARNESS(C15_phase3) {
	vc_abort_ok(&f_fail);
	reset_file(); gen(); st = 0; g_nt = vc_range("threads", 1, 64); live_lp = live_np = 0; np_name = nullptr; lp_name = nullptr;
	phase2::output_t in; phase3::output_t out; g_in = &in; g_out = &out;
	in.params.k = g_k; for(int i = 0; i < 32; ++i) in.params.id[i] = g_id[i];
	in.params.memo.d = g_memo; in.params.memo.n = g_ml;
	in.table_1.file_name = "T1"; in.table_1.num_entries = 7; in.table_7.file_name = "T7"; in.table_7.num_entries = 9;
	for(int i = 0; i < 6; ++i) { g_sort[i] = (phase2::DiskSortT*)new u64[64]; in.sort[i].p = g_sort[i]; in.sort[i].c = nullptr; }
	g_bf = (bitfield*)new u64[8]; in.bitfield_1.p = g_bf; in.bitfield_1.c = nullptr;
	vc_replace("DiskSort<phase3::entry_lp, .*>::DiskSort\\(", (void*)lp_ctor); vc_replace("DiskSort<phase3::entry_lp, .*>::~DiskSort\\(", (void*)lp_dtor);
	vc_replace("DiskSort<phase3::entry_np, .*>::DiskSort\\(", (void*)np_ctor); vc_replace("DiskSort<phase3::entry_np, .*>::~DiskSort\\(", (void*)np_dtor);
	vc_replace("phase3::compute_stage1<phase1::tmp_entry_1,", (void*)stage1<phase2::entry_1, phase2::entry_x, phase2::DiskSortT>);
	vc_replace("phase3::compute_stage1<phase3::entry_np, phase2::entry_x,", (void*)stage1<phase3::entry_np, phase2::entry_x, phase2::DiskSortT>);
	vc_replace("phase3::compute_stage1<phase3::entry_np, phase1::entry_7,", (void*)stage1<phase3::entry_np, phase2::entry_7, phase2::DiskSort7>);
	vc_replace("phase3::compute_stage2", (void*)stage2);
	bool err = false;
	try { phase3::compute(in, out, g_nt, vc_range("logb", 1, 16), "p", "t1/", "t2/", "D/"); } catch(const std::exception&) { err = true; }
	vc_assert(!f_renamed, "no final name yet");
	if(err) { vc_assert(f_fail, "no error without a failed operation"); vc_cover("error"); return; }
	vc_assert(!f_fail, "a failed operation is reported");
	vc_assert(st == 12, "all six tables written"); vc_assert(!f_open, "file closed");
	vc_assert(out.header_size == hdr_size(), "header size"); vc_assert(out.final_pointer_7 == g_ptr[7], "start of the position table");
	vc_assert(out.num_written_7 == g_n7, "number of final entries"); vc_assert(out.sort_7.get() == g_np && g_np, "final entries handed on"); vc_assert(out.params.k == g_k, "k");
	vc_assert(same(out.plot_file_name.c_str(), "D/p.plot.tmp"), "file handed on");
	check_header(true);
}
// ---- phase 4 as a whole: inner computation by contract
static u64 g_size; static phase3::DiskSortNP* g_s7;
static u64 p4_inner(FILE* f, u8 k, int hs, phase3::DiskSortNP* s, int nt, u64 p7, u64 n) {
	vc_assert(f == (FILE*)fh && f_open, "plot file open"); vc_assert(k == g_k && hs == 777 && p7 == g_ptr[7] && n == g_n7 && s == g_s7, "what phase 3 handed on");
	if(fault("inner_fails")) throw std::runtime_error("p4");
	return g_size;
}
VC_HARNESS(C15_phase4) {
	reset_file(); gen(); phase3::output_t in; phase4::output_t out; g_ptr[7] = vc_range("p7", 0, u64(1) << 50); g_n7 = vc_range("n7", 0, u64(1) << 40); g_size = vc_range("size", 0, u64(1) << 50);
	in.header_size = 777; in.num_written_7 = g_n7; in.final_pointer_7 = g_ptr[7]; in.params.k = g_k; in.plot_file_name = "D/p.plot.tmp"; g_s7 = (phase3::DiskSortNP*)new u64[64]; in.sort_7.p = g_s7; in.sort_7.c = nullptr;
	vc_replace("phase4::compute\\(_IO_FILE", (void*)p4_inner);
	bool err = false;
	try { phase4::compute(in, out, vc_range("threads", 1, 64), 8, "p", "t1/", "t2/", "D/"); } catch(const std::exception&) { err = true; }
	if(err) { vc_assert(f_fail, "no error without a failed operation"); vc_assert(!f_renamed, "no final name after a failure"); vc_cover("error"); return; }
	vc_assert(!f_fail, "a failed operation is reported"); vc_assert(f_renamed, "final name given"); vc_assert(out.plot_size == g_size, "size reported"); vc_assert(same(out.plot_file_name.c_str(), "D/p.plot"), "name reported");
	vc_cover("ok");
}
#endif
