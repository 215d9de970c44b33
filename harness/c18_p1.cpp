// C18: phase 1 as a whole, and one table of it.  compute_f1, compute_matches, sorts and tables by contract (C10, C11, C02, C03).
#include "io.h"
#include <chia/phase1.hpp>
using namespace phase1;
#if VC_SYMBOLIC
static int g_k, g_nt, g_logb, st; static u8 g_id[32]; static bool failed, closed_early;
static bool fault(const char* n) { if(vc_case(n, 0, 1)) { failed = true; return true; } return false; }
static bool same(const char* a, const char* b) { while(*a && *a == *b) { ++a; ++b; } return *a == *b; }
static std::string* names[32]; static int nnames; static void fresh_name(const char* n) { for(int i = 0; i < nnames; ++i) vc_assert(!same(names[i]->c_str(), n), "tables and sorts have files of their own"); names[nnames++] = new std::string(n); }
static u64 fhs[16]; static int nf; static bool f_open[16];
FILE* io_fopen(const char* n, const char* m) { vc_assert(m[0] == 'w', "new table"); if(nf == 3 && fault("open_fails")) return nullptr; fresh_name(n); f_open[nf] = true; return (FILE*)&fhs[nf++]; }
static size_t g_fw; size_t io_fwrite(const void*, size_t, size_t n, FILE*) { return n; } size_t io_fread(void*, size_t, size_t, FILE*) { return 0; } int io_fseek(FILE*, long, int) { return 0; } int io_fflush(FILE*) { return 0; } int io_ferror(FILE*) { return 0; } int io_feof(FILE*) { return 0; } int io_rename(const char*, const char*) { return 0; } int io_remove(const char*) { return 0; }
int io_fclose(FILE* f) { f_open[(u64*)f - fhs] = false; return 0; }
static int last; static void* sorts[8]; static bool filled[8], used[8]; static int ns;
static void sort_ctor(void* s, int key, int logb, std::string* prefix, bool ro) { vc_assert(key == g_k + 6 && logb == g_logb && !ro, "y of k+6 bits"); fresh_name(prefix->c_str()); ns++; sorts[ns] = s; filled[ns] = used[ns] = false; }
static void sort_dtor(void*) {}
static int sort_of(void* s) { for(int i = 1; i <= ns; ++i) if(sorts[i] == s) return i; return 0; }
static void f1_contract(const u8* id, int k, int nt, void* s) { vc_assert(st == 0, "first table first"); vc_assert(k == g_k && nt == g_nt, "parameters"); for(int i = 0; i < 32; ++i) vc_assert(id[i] == g_id[i], "plot id"); int i = sort_of(s); vc_assert(i && !filled[i], "into a new sort"); filled[i] = true; sorts[1] = s; last = i; st = 1; }
struct TI { std::string* name; u64 n; }; static TI ti[8];
typedef DiskTable<tmp_entry_x> TX;
static u64 table_contract(int R, int k, int nt, void* Ls, void* Rs, void* Lt, void* Rt) {
	vc_assert(R == st + 1 && R >= 2 && R <= 7, "tables 2 to 7 in order"); vc_assert(k == g_k && nt == g_nt, "parameters");
	int l = sort_of(Ls); vc_assert(l && l == last && filled[l] && !used[l], "reads the sorted entries of the table before, once"); used[l] = true;
	TX* t = (TX*)Lt; vc_assert(t && t->file_out && t->num_entries == 0 && t->cache.count == 0, "left entries go to a new table file"); t->file_out = nullptr; u64 n = vc_range("left_entries", 1, u64(1) << 36); t->num_entries = n; ti[R - 1] = {&t->file_name, n};
	if(R < 7) { int r = sort_of(Rs); vc_assert(r && !filled[r] && r != l && !Rt, "results go to a new sort"); filled[r] = true; last = r; }
	else { TX* q = (TX*)Rt; vc_assert(!Rs && q && q != t && q->file_out && q->num_entries == 0, "results of table 7 go to a new table file"); q->file_out = nullptr; u64 m = vc_range("right_entries", 1, u64(1) << 36); q->num_entries = m; ti[7] = {&q->file_name, m}; }
	if(R == 4 && fault("table_fails")) throw std::runtime_error("table");
	st++; return vc_range("matches", 0, u64(1) << 36);
}
static std::string* kept[8];
static u64 table_contract_(int R, int k, int nt, void* Ls, void* Rs, void* Lt, void* Rt) { u64 r = table_contract(R, k, nt, Ls, Rs, Lt, Rt); kept[R - 1] = new std::string(*ti[R - 1].name); if(R == 7) kept[7] = new std::string(*ti[7].name); return r; }
static int inits; static void init_contract() { vc_assert(st == 0, "before any table"); inits++; }
VC_HARNESS(C18_phase1) {
	vc_abort_ok(&failed); g_k = vc_range("k", 16, KMAX); g_nt = vc_range("threads", 1, 64); g_logb = vc_range("logb", 1, 16); st = nnames = nf = ns = inits = 0; failed = false;
	input_t in; output_t out; in.k = g_k; for(int i = 0; i < 32; ++i) { g_id[i] = vc_u8("id"); in.id[i] = g_id[i]; } in.plot_name = "NAME"; in.memo.push_back(vc_u8("memo"));
	vc_replace("DiskSort<phase1::.*>::DiskSort\\(", (void*)sort_ctor); vc_replace("DiskSort<phase1::.*>::~DiskSort\\(", (void*)sort_dtor); vc_replace("phase1::compute_f1<", (void*)f1_contract); vc_replace("phase1::compute_table<", (void*)table_contract_); vc_replace("phase1::initialize", (void*)init_contract); vc_replace("phase1::load_tables", (void*)init_contract);
	bool err = false; int same_dir = vc_case("one_tmp_dir", 0, 1);
	try { compute(in, out, g_nt, g_logb, "p", "t1/", same_dir ? "t1/" : "t2/"); } catch(const std::exception&) { err = true; }
	if(err) { vc_assert(failed, "no error without a failed operation"); vc_cover("error"); return; }
	vc_assert(!failed, "a failed operation is reported"); vc_assert(st == 7 && inits >= 1, "seven tables");
	for(int i = 0; i < 7; ++i) { vc_assert(same(out.table[i].file_name.c_str(), kept[i + 1]->c_str()), "each table's file is handed on as that table"); vc_assert(out.table[i].num_entries == ti[i + 1].n, "with its number of entries"); }
	vc_assert(out.params.k == g_k && same(out.params.plot_name.c_str(), "NAME"), "parameters handed on"); for(int i = 0; i < 32; ++i) vc_assert(out.params.id[i] == g_id[i], "plot id handed on"); vc_assert(out.params.memo.size() == 1 && out.params.memo[0] == in.memo[0], "memo handed on");
	vc_cover("phase1");
}
// ---- one table: which files the entries go to
static int variant; static void *w_L, *w_R; static Processor<std::vector<entry_3>>* LW3; static bool l_closed, r_closed; static int which; static u64 cN, w_n; static void* g_in;
template<class E> struct Pick { static Thread<std::vector<E>>* t[2]; static int n; }; template<class E> Thread<std::vector<E>>* Pick<E>::t[2]; template<class E> int Pick<E>::n;
template<class E> struct VcThreadHook<std::vector<E>> { static void create(Thread<std::vector<E>>* t) { Pick<E>::t[Pick<E>::n++] = t; } static void take(Thread<std::vector<E>>*, std::vector<E>&) {} static void close(Thread<std::vector<E>>*) { } };
#ifdef CHIA_K34
static const char* slot3 = "0:8,8:8,16:2";
#else
static const char* slot3 = "0:8,8:4,12:2";
#endif
static bool mdone; static u64 nm; static TX* g_lt; static DiskTable<entry_7>* g_rt; static bool lt_closed, rt_closed; static bool* thr_closed[2];
static u64 TP(u64 i) { return vc_uf1("tp", i) & 0x7fffffff; } static u64 TO(u64 i) { return vc_uf1("to", i) & 1023; }
static void inv_w(u64 n) { vc_inv(n <= cN, "index"); vc_inv(w_n == n, "each entry written once"); if(n < cN) { entry_6* e = (entry_6*)g_in + n; vc_define(u64(e->pos) == TP(n) && u64(e->off) == TO(n), "entries"); } }
static void lwrite(TX* t, const tmp_entry_x* e) { vc_assert(t == g_lt, "the left table's file"); vc_assert(u64(e->pos) == TP(w_n) && u64(e->off) == TO(w_n), "position and offset of the entries in order"); w_n++; }
static void rwrite(DiskTable<entry_7>* t, const entry_7* e) { vc_assert(t == g_rt && e == (entry_7*)g_in + w_n, "the entries of table 7 in order"); w_n++; }
static void lclose(TX* t) { vc_assert(t == g_lt && mdone && *thr_closed[0], "closed after the last entry is written"); lt_closed = true; }
static void rclose(DiskTable<entry_7>* t) { vc_assert(t == g_rt && mdone && *thr_closed[1], "closed after the last entry is written"); rt_closed = true; }
static void *g_ls, *g_rs;
static u64 matches_contract(int R, int k, int nt, void* Ls, void* Rs, Processor<std::vector<entry_6>>* L, Processor<std::vector<entry_7>>* Ro) {
	vc_assert(R == 7 && k == g_k && nt == g_nt && Ls == g_ls && Rs == g_rs, "parameters"); vc_assert(!L == !g_lt && !Ro == !g_rt, "a stage for each table file and no other");
	if(which == 1 && L) { auto* t = (Thread<std::vector<entry_6>>*)L; std::vector<entry_6> in; cN = vc_range("c", 0, u64(1) << 30); in.d = (entry_6*)vc_array("blk", cN, sizeof(entry_6), slot3); in.n = cN; g_in = in.d; w_n = 0; vc_loop("compute_table", (void*)inv_w, 0); t->execute(in); vc_assert(w_n == cN, "every entry is written"); vc_cover("left"); vc_assume(false); }
	if(which == 2 && Ro) { auto* t = (Thread<std::vector<entry_7>>*)Ro; std::vector<entry_7> in; cN = vc_case("c7", 0, 3); for(u64 i = 0; i < cN; ++i) { entry_7 e; e.y = 1; e.pos = 2; e.off = 3; in.push_back(e); } g_in = in.d; w_n = 0; t->execute(in); vc_assert(w_n == cN, "every entry is written"); vc_cover("right"); vc_assume(false); }
	if(L) thr_closed[0] = &((Thread<std::vector<entry_6>>*)L)->closed; if(Ro) thr_closed[1] = &((Thread<std::vector<entry_7>>*)Ro)->closed; mdone = true; nm = vc_range("matches", 0, u64(1) << 36); return nm;
}
VC_HARNESS(C18_table) {
	which = vc_case("which", 0, 2); g_k = vc_range("k", 16, KMAX); g_nt = vc_range("threads", 1, 64); int v = vc_case("tables", 0, 3); g_lt = v & 1 ? (TX*)new u64[64] : nullptr; g_rt = v & 2 ? (DiskTable<entry_7>*)new u64[64] : nullptr; g_ls = new u64[64]; g_rs = v & 2 ? nullptr : new u64[64]; mdone = lt_closed = rt_closed = false;
	vc_replace("phase1::compute_matches<", (void*)matches_contract); vc_replace("DiskTable<phase1::tmp_entry_x>::write", (void*)lwrite); vc_replace("DiskTable<phase1::entry_7>::write", (void*)rwrite); vc_replace("DiskTable<phase1::tmp_entry_x>::close", (void*)lclose); vc_replace("DiskTable<phase1::entry_7>::close", (void*)rclose);
	u64 n = compute_table<entry_6, entry_7, tmp_entry_x>(7, g_k, g_nt, (DiskSort6*)g_ls, (DiskSort7*)g_rs, g_lt, g_rt);
	vc_assert(mdone && n == nm, "number of matches"); vc_assert(lt_closed == !!g_lt && rt_closed == !!g_rt, "table files closed"); vc_cover("table");
}
#endif
