// C16: moving a finished plot.  Every file operation may fail; the process may stop after each of them.
#include "io.h"
#include <chia/copy.h>
enum { ABSENT, PARTIAL, COMPLETE, OLD };                 // OLD: a file that was there before, not ours
static u64 N, B;                                          // source length, watched byte
static int g_src, g_dst, g_tmp;                           // what each name holds
static bool g_dstold;
static u64 rpos, wpos; static bool ropen, wopen, rerr, werr, whave; static u8 wval; static int wname;
static FILE *fr, *fw; static char hr[8], hw[8]; static u64 nopen;
#if VC_SYMBOLIC
static u8 cont(u64 i) { return (u8)vc_uf1("content", i); }
static bool faulty(const char* n) { return vc_u8(n) != 0; }
#else
static u8 cont(u64 i) { u64 z = i * 0x9E3779B97F4A7C15ull + N; return (z >> 29) ^ (z >> 51); }
static int g_faultat, g_fault2, g_op;
static bool faulty(const char*) { int o = g_op++; return o == g_faultat || o == g_fault2; }
#endif
// at every moment: the data is complete under the source or the destination name, and the destination
// name holds either nothing of ours or all of it
static void stop_ok() {
	vc_assert(g_dst != PARTIAL, "the final name never holds an incomplete plot");
	vc_assert(g_src == COMPLETE || g_dst == COMPLETE, "the plot is never lost");
}
static bool eq(const char* a, const char* b) { return a[0] == b[0] && !a[1]; }   // one-letter names; anything else is the temporary
static int* state(const char* n) { return eq(n, "S") ? &g_src : eq(n, "D") ? &g_dst : &g_tmp; }
static FILE* io_fopen(const char* name, const char* mode) {
	if(faulty("fopen_fails")) return nullptr;
	if(mode[0] == 'r') {
		if(*state(name) == ABSENT) return nullptr;
		vc_require(eq(name, "S"), "reads the source"); vc_require(!ropen, "one reader");
		ropen = true; rpos = 0; rerr = false; fr = (FILE*)hr; return fr;
	}
	vc_require(!wopen, "one writer");
	*state(name) = PARTIAL; wname = eq(name, "S") ? 0 : eq(name, "D") ? 1 : 2; wopen = true; wpos = 0; whave = false; werr = false; fw = (FILE*)hw; stop_ok(); return fw;
}
static size_t io_fread(void* p, size_t sz, size_t n, FILE* f) {
	vc_require(f == fr && ropen && sz == 1, "byte-wise read of the open source");
	u64 avail = N - rpos, got = avail < n ? avail : n;
	if(faulty("fread_fails")) { got = vc_range("got", 0, (u64(1) << 40)); vc_assume(got < n && got <= avail); rerr = true; }
	u64 keep = rpos;
#if VC_SYMBOLIC
	vc_havoc_region(p, 1, "0:1");
	if(keep <= B && B < keep + got) ((u8*)p)[B - keep] = cont(B);
#else
	for(u64 i = 0; i < got; ++i) ((u8*)p)[i] = cont(keep + i);
#endif
	rpos += got; return got;
}
static size_t io_fwrite(const void* p, size_t sz, size_t n, FILE* f) {
	vc_require(f == fw && wopen && sz == 1, "byte-wise write to the open copy");
	u64 done = n;
	if(faulty("fwrite_fails")) { done = vc_range("done", 0, (u64(1) << 40)); vc_assume(done < n); werr = true; }
	if(wpos <= B && B < wpos + done) { whave = true; wval = ((const u8*)p)[B - wpos]; }
#if !VC_SYMBOLIC
	for(u64 i = 0; i < done; ++i) if(((const u8*)p)[i] != cont(wpos + i)) werr = true;
#endif
	wpos += done; return done;
}
static int io_fseek(FILE*, long, int) { vc_require(false, "no seeking in a copy"); return -1; }
static int io_ferror(FILE* f) { return f == fr ? rerr : werr; }
static int io_feof(FILE* f) { return f == fr && rpos >= N && !rerr; }
static int io_fflush(FILE*) { if(faulty("fflush_fails")) { werr = true; return -1; } return 0; }
static int io_fclose(FILE* f) {
	if(f == fr) { vc_require(ropen, "closed once"); ropen = false; return faulty("fclose_src_fails") ? -1 : 0; }
	vc_require(f == fw && wopen, "closed once"); wopen = false;
	if(faulty("fclose_fails")) return -1;
	if(!werr && wpos == N && (N == 0 || (whave && wval == cont(B)))) { int* s = wname == 0 ? &g_src : wname == 1 ? &g_dst : &g_tmp; *s = COMPLETE; }
	stop_ok(); return 0;
}
static int io_rename(const char* a, const char* b) {
	if(*state(a) == ABSENT || faulty("rename_fails")) return -1;
	vc_require(!wopen, "nothing is being written when a file is renamed");
	int s = *state(a); *state(a) = ABSENT; *state(b) = s; stop_ok(); return 0;
}
static int io_remove(const char* a) {
	if(*state(a) == ABSENT || faulty("remove_fails")) return -1;
	*state(a) = ABSENT; stop_ok(); return 0;
}
static void inv_copy(u64) {
	vc_inv(ropen && wopen && !werr && !rerr, "both files open, no failure pending");
	vc_inv(rpos == wpos && rpos <= N, "everything read has been written");
	vc_inv(whave == (B < wpos) && (!whave || wval == cont(B)), "watched byte copied");
}
static void setup() {
	g_src = COMPLETE; g_dst = g_dstold ? OLD : ABSENT; g_tmp = ABSENT; ropen = wopen = rerr = werr = whave = false; rpos = wpos = 0; fr = fw = nullptr;
	g_read_chunk_size = vc_range("chunk", 1, VC_SYMBOLIC ? (1 << 24) : 64);
	N = vc_range("N", 0, VC_SYMBOLIC ? (u64(1) << 40) : 5000); B = vc_range("B", 0, u64(1) << 40); vc_assume(N == 0 || B < N);
#if !VC_SYMBOLIC
	g_op = 0; g_faultat = vc_range("rename_fails_first", 0, 1) ? 0 : -1; g_fault2 = (int)vc_range("fault_at", 0, 60) - 1;
#endif
}
VC_HARNESS(C16_final_copy) {
	g_dstold = vc_case("dst_exists", 0, 1); setup();
	vc_loop_now("copy_file", (void*)inv_copy, 0);
	bool err = false; int src0 = g_src;
	const std::string s("S"), d("D");
	try { final_copy(s, d); } catch(const std::exception&) { err = true; }
	if(err) {
		vc_assert(g_src == COMPLETE, "after an error the complete source is still in place");
		vc_assert(g_dst == (g_dstold ? OLD : ABSENT), "after an error no file was created under the final name");
		vc_cover("error");
	} else {
		vc_assert(g_dst == COMPLETE, "on success the final name holds the complete plot");
		vc_cover("success");
	}
	vc_assert(!ropen && !wopen, "no file left open");
	(void)src0;
}
VC_HARNESS(C16_source_removed) {       // without faults nothing is left behind
	g_dstold = false; setup();
	vc_loop_now("copy_file", (void*)inv_copy, 0);
	const std::string s("S"), d("D");
	bool err = false;
	try { final_copy(s, d); } catch(const std::exception&) { err = true; }
	if(!err) vc_assert(g_tmp == ABSENT, "no temporary file left after success");
	vc_cover("done");
}
VC_HARNESS(C16_same_name) {
	g_dstold = false; setup();
	const std::string s("S");
	final_copy(s, s);
	vc_assert(g_src == COMPLETE, "moving onto itself keeps the file"); vc_cover("same");
}
