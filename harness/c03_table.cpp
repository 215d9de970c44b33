// C03: DiskTable.  Record types are covered by C01; the table is a template, verified here for a 4-byte record.
#include "io_mem.h"
#include <chia/chia.h>
#include <chia/DiskTable.h>
struct Rec {
	u32 v;
	static constexpr size_t disk_size = 4;
	size_t read(const u8* b) { memcpy(&v, b, 4); return 4; }
	size_t write(u8* b) const { memcpy(b, &v, 4); return 4; }
};
typedef DiskTable<Rec> Tab;
typedef std::pair<std::vector<Rec>, size_t> Blk;
#if VC_SYMBOLIC
static u32 rec(u64 i) { return (u32)vc_uf1("rec", i); }
// ---- the file, as seen through one watched record W
static u64 W, f_len, r_pos; static bool f_open, r_open, f_have; static u32 f_val; static char fh[8], rh[8]; static bool f_fail; static u64 g_num;
static FILE* io_fopen(const char*, const char* mode) {
	if(vc_u8("fopen_fails")) { f_fail = true; return nullptr; }
	if(mode[0] == 'w') { vc_require(!f_open, "opened once"); f_open = true; f_len = 0; f_have = false; return (FILE*)fh; }
	r_open = true; return (FILE*)rh;
}
static size_t io_fwrite(const void* p, size_t sz, size_t n, FILE* f) {
	vc_require(f == (FILE*)fh && f_open && sz == 4, "records written to the open table");
	if(vc_u8("fwrite_fails")) { f_fail = true; u64 r = vc_range("short", 0, u64(1) << 40); vc_assume(r < n); return r; }
	if(f_len <= W && W < f_len + n) { f_have = true; f_val = *(const u32*)((const u8*)p + (W - f_len) * 4); }
	f_len += n; return n;
}
static int io_fclose(FILE* f) { if(f == (FILE*)rh) return 0; vc_require(f == (FILE*)fh && f_open, "closed once"); f_open = false; if(vc_u8("fclose_fails")) { f_fail = true; return -1; } return 0; }
static int io_fseek(FILE* f, long off, int wh) {
	vc_require(f == (FILE*)rh && wh == SEEK_SET && off % 4 == 0, "seek to a record"); 
	if(vc_u8("fseek_fails")) { f_fail = true; return -1; } r_pos = u64(off) / 4; return 0; }
static size_t io_fread(void* p, size_t sz, size_t n, FILE* f) {
	vc_require(f == (FILE*)rh && sz == 4, "records read from the open table");
	vc_havoc_region(p, 4, "0:4");
	u64 pos = r_pos;
	u64 avail = pos < f_len ? f_len - pos : 0;
	u64 got = n < avail ? n : avail;
	if(vc_u8("fread_fails")) { f_fail = true; got = vc_range("short", 0, u64(1) << 40); vc_assume(got < n); }
	if(pos <= W && W < pos + got) ((u32*)p)[W - pos] = rec(W);
	r_pos = pos + got;
	return got;
}
static int io_fflush(FILE*) { return 0; }
static int io_ferror(FILE*) { return 0; }
static int io_feof(FILE*) { return 0; }
static int io_rename(const char*, const char*) { return 0; }
static int io_remove(const char*) { return 0; }
// ---- writing
static Tab* g_t;
static void inv_write(u64 n) {
	vc_inv(f_open && !f_fail && n <= g_num, "table open");
	vc_inv(g_t->cache.count <= g_t->cache.capacity && g_t->cache.capacity == u64(g_write_chunk_size), "buffer bounds");
	vc_inv(f_len + g_t->cache.count == n && g_t->num_entries == f_len, "records in the file and in the buffer");
	if(W < f_len) vc_inv(f_have && f_val == rec(W), "watched record in the file");
	else if(W < n) vc_inv(((u32*)g_t->cache.data)[W - f_len] == rec(W), "watched record in the buffer");
}
// a failing flush in the destructor during unwinding ends the process: an error, and nothing was delivered
VC_HARNESS(C03_write) {
	vc_abort_ok(&f_fail);
	g_write_chunk_size = vc_range("chunk", 1, 1 << 24); g_num = vc_range("n", 0, u64(1) << 38); W = vc_range("W", 0, u64(1) << 38); f_open = f_fail = false;
	bool err = false; u64 reported = 0;
	try {
		Tab t("T"); g_t = &t;
		vc_loop("C03_write", (void*)inv_write, 0);
		for(u64 i = 0; i < g_num; ++i) { Rec r; r.v = rec(i); t.write(r); }
		t.close();
		reported = t.get_info().num_entries;
	} catch(const std::exception&) { err = true; }
	if(!err) {
		vc_assert(!f_fail, "a failed operation is reported");
		vc_assert(!f_open, "file closed");
		vc_assert(f_len == g_num && reported == g_num, "the table reports exactly the number of records written");
		if(W < g_num) vc_assert(f_have && f_val == rec(W), "every record is in the file at its index");
		vc_cover("written");
	} else { vc_assert(f_fail, "no error without a failed operation"); vc_cover("error"); }
}
// ---- reading one block
static u64 rd_off, rd_n; static u8* rd_buf; static std::vector<Rec>* rd_out;
static void inv_read(u64 n) {
	vc_inv(n <= rd_n, "index");
	if(rd_off <= W && (W - rd_off + 1 == n || W - rd_off + 1 < n)) vc_inv((*rd_out)[W - rd_off].v == rec(W), "watched record decoded");
}
VC_HARNESS(C03_read_block) {
	f_len = vc_range("len", 1, u64(1) << 38); W = vc_range("W", 0, u64(1) << 38); rd_off = vc_range("off", 0, u64(1) << 38); rd_n = vc_range("n", 1, u64(1) << 38); f_fail = false; r_open = true;
	vc_assume(rd_off < f_len);
	Tab t("T", f_len);
	Tab::local_t l; l.file = (FILE*)rh; l.buffer = new u8[rd_n * 4];
	std::pair<size_t, size_t> param; param.first = rd_off; param.second = rd_n; Blk out; rd_out = &out.first;
	r_pos = vc_range("prev_pos", 0, u64(1) << 38);
	bool err = false;
	vc_loop("read_block", (void*)inv_read, 0);
	try { t.read_block(param, out, l); } catch(const std::exception&) { err = true; }
	if(rd_off + rd_n > f_len || f_fail) vc_assert(err, "a short or failed read is an error");
	if(!err) {
		vc_assert(out.second == rd_off, "block labelled with the index of its first record");
		vc_assert(out.first.size() == rd_n, "block has the requested size");
		if(rd_off <= W && W < rd_off + rd_n) vc_assert(out.first[W - rd_off].v == rec(W), "records as written");
		vc_cover("read");
	} else vc_cover("error");
}
// ---- splitting into blocks
struct Sink : Processor<Blk> { void take(Blk&) override {} };
typedef ThreadPool<std::pair<size_t, size_t>, Blk, Tab::local_t> P;
static u64 nxt, g_bs; static bool g_closed; static Sink* g_sink;
template<> struct VcPoolHook<std::pair<size_t, size_t>, Blk, Tab::local_t> {
	static void create(P* p) { vc_assert(p->output == g_sink, "blocks go to the reader"); nxt = 0; }
	static void take(P* p, std::pair<size_t, size_t>& b) {
		vc_assert(!g_closed && b.first == nxt && b.second > 0 && b.second <= g_bs, "consecutive non-empty blocks");
		nxt += b.second;
	}
	static void close(P* p) { g_closed = true; }
};
static void inv_split(u64 n) { vc_inv(nxt == n * g_bs && n <= g_num / g_bs && !g_closed, "blocks handed out so far"); }
VC_HARNESS(C03_read) {
	g_num = vc_range("n", 1, u64(1) << 38); g_bs = vc_range("block", 1, 1 << 24); f_fail = g_closed = false; f_len = g_num;
	vc_symstep();
	Tab t("T", g_num); Sink s; g_sink = &s; bool err = false;
	vc_loop("DiskTable<Rec>::read", (void*)inv_split, 0);
	try { t.read(&s, (int)vc_case("threads", 1, 3), g_bs); } catch(const std::exception&) { err = true; }
	if(!err) { vc_assert(!f_fail, "failed open reported"); vc_assert(nxt == g_num && g_closed, "blocks cover the whole table"); vc_cover("split"); }
	else { vc_assert(f_fail, "no error without a failed operation"); vc_cover("error"); }
}
#else
struct Sink : Processor<Blk> { std::vector<Blk> got; void take(Blk& b) override { got.push_back(b); } };
VC_BOUNDED(C03_native) {
	u64 n = vc_range("n", 0, 300); g_write_chunk_size = vc_range("wchunk", 1, 40); u64 bs = vc_range("block", 1, 64); int nt = vc_range("threads", 1, 4);
	long fault = vc_range("fault", 0, 3) == 0 ? (long)vc_range("fault_at", 0, 12) : -1;
	iom::reset(fault); bool err = false; table_t info; Sink s;
	try {
		{ Tab t("T"); for(u64 i = 0; i < n; ++i) { Rec r; r.v = i * 2654435761u + 7; t.write(r); } 
		  try { t.close(); } catch(...) { t.file_out = nullptr; throw; }
		  info = t.get_info(); 
		  try { t.close(); } catch(...) { t.file_out = nullptr; } }
	} catch(const std::exception&) { err = true; }
	if(!err) vc_assert(!iom::failed, "a failed operation is reported");
	if(err) return;
	vc_assert(info.num_entries == n, "number of records reported");
	if(!n) return;
	iom::failed = false;
	// reader: faults stay on the single-threaded path (a failing pool worker is exercised by the fault driver)
	iom::faultat = -1;
	{ Tab t(info); t.read(&s, nt, bs); }
	u64 k = 0;
	for(auto& b : s.got) { vc_assert(b.second == k, "block index"); for(auto& r : b.first) { vc_assert(r.v == u32(k * 2654435761u + 7), "record value"); ++k; } }
	vc_assert(k == n, "all records delivered");
}
#endif
