// C02: DiskSort.  Records are covered by C01; the sort is a template, verified here for a record with a 64-bit key.
// Containers of buckets are seen through one arbitrary ("watched") element: operator[] yields the watched object for
// the watched index and an arbitrary other object for every other index, so the bucket count is unbounded.
#include "io_mem.h"
#include <chia/buffer.h>
struct Rec {
	u64 key; u32 val;
	Rec() {} Rec(const Rec& o) : key(o.key), val(o.val) {} Rec& operator=(const Rec& o) { key = o.key; val = o.val; return *this; }
	static constexpr size_t disk_size = 12;
	size_t read(const u8* b) { memcpy(&key, b, 8); memcpy(&val, b + 8, 4); return 12; }
	size_t write(u8* b) const { memcpy(b, &key, 8); memcpy(b + 8, &val, 4); return 12; }
};
struct GetKey { u64 operator()(const Rec& r) { return r.key; } };
typedef std::pair<std::vector<Rec>, size_t> Blk;
#if VC_SYMBOLIC
static u64 rkey(u64 i) { return vc_uf1("key", i); }
static u32 rval(u64 i) { return (u32)vc_uf1("val", i); }
// ---------------------------------------------------------------- map contracts (assumed for the standard library)
static u64 m_B, m_R, m_tot, m_acc, m_slot, m_size, m_pB, m_qB, m_keys; static bool m_moved, m_ins;
typedef std::pair<const size_t, std::vector<Rec>> KV;
static u64 pre(u64 n) { return vc_uf1("pre", n); }         // total size of the first n blocks in key order
struct KVHold { KV w, o; KVHold() : w(0, std::vector<Rec>()), o(0, std::vector<Rec>()) {} };
static KVHold* hold;
namespace std {
template<> class unordered_map<size_t, std::vector<Rec>, void> {
public:
	unordered_map() { hold = new KVHold; m_tot = m_acc = 0; m_moved = false; }
	void reserve(size_t) {}
	void clear() {}
	std::vector<Rec>& operator[](size_t k) {
		bool mine = k == m_B;
		if(m_tot == m_R) { vc_assert(mine, "the record goes to the block of its key"); m_slot = hold->w.second.n; }
		m_tot++;
		if(mine) { m_acc++; return hold->w.second; }
		hold->o.second.n = vc_range("other_size", 0, u64(1) << 38);
		return hold->o.second;
	}
	struct iterator { u64 n;
		KV& operator*() const { if(n == m_pB) { *(size_t*)&hold->w.first = m_B; return hold->w; } u64 k = vc_uf1("ukey", n); vc_assume(k != m_B); *(size_t*)&hold->o.first = k; hold->o.second.n = vc_range("other_size", 1, u64(1) << 38); return hold->o; }
		iterator& operator++() { n++; return *this; }
		bool operator!=(const iterator& o) const { return n != o.n; } };
	iterator begin() { m_keys = vc_range("num_keys", 1, u64(1) << 32); m_pB = vc_range("pB", 0, u64(1) << 32); vc_assume(m_pB < m_keys); return iterator{0}; }
	iterator end() { return iterator{m_keys}; }
};
template<> class map<size_t, std::vector<Rec>, void> {
public:
	map() { m_ins = false; m_size = 0; }
	void emplace(const size_t& k, std::vector<Rec>&& v) {
		m_size++;
		if(k == m_B) { vc_assert(!m_ins, "each block is moved once"); vc_assert(&v == &hold->w.second, "the block itself"); m_ins = true; }
	}
	size_t size() const { return m_size; }
	struct iterator { u64 n;
		KV& operator*() const { KV& e = n == m_qB ? hold->w : hold->o;
			if(n == m_qB) { vc_define(pre(n + 1) == pre(n) + e.second.n, "running total of block sizes"); } else { e.second.n = vc_range("other_size", 1, u64(1) << 38); vc_define(pre(n + 1) == pre(n) + e.second.n, "running total of block sizes"); }
			return e; }
		iterator& operator++() { n++; return *this; }
		bool operator!=(const iterator& o) const { return n != o.n; } };
	iterator begin() { m_qB = vc_range("qB", 0, u64(1) << 32); vc_assume(m_qB < m_size); vc_define(pre(0) == 0, "running total of block sizes"); return iterator{0}; }
	iterator end() { return iterator{m_size}; }
};
}
#endif
#include <chia/DiskSort.hpp>
typedef DiskSort<Rec, GetKey> DS;
#if VC_SYMBOLIC
// ---------------------------------------------------------------- the file system
static bool f_fail; static u64 nopen; static char fhW[8], fhO[8], rh[8];
static u64 W, f_len, f_P; static bool f_have; static u64 f_key; static u32 f_val; static bool f_locked; static u64 f_written; static bool f_err;
static u64 r_pos, r_len, r_R; static bool c_mode; static int c_opened, c_closed, c_removed, c_wr; static u64 c_num[4], c_key[4]; static u32 c_val[4]; static u8 c_names; static char c_h[4][8];
static int nm_idx(const char* n) { return n[14] - '0'; }      // "T.sort_bucket_i.tmp"
static FILE* io_fopen(const char* name, const char* mode) {
	if(vc_u8("fopen_fails")) { f_fail = true; return nullptr; }
	if(c_mode) {
		vc_assert(name[0] == 'T' && name[12] == 't' && name[13] == '_' && name[15] == '.', "file named after the prefix and the bucket");
		int i = nm_idx(name); vc_assert(!(c_names >> i & 1), "each bucket has a file of its own"); c_names |= 1 << i; c_opened++;
		vc_assert(mode[0] == 'w', "bucket opened for writing"); return (FILE*)c_h[i];
	}
	vc_require(mode[0] == 'r', "bucket opened for reading"); r_pos = 0; return (FILE*)rh;
}
static size_t io_fwrite(const void* p, size_t sz, size_t n, FILE* f) {
	vc_require(sz == 12, "whole records");
	if(vc_u8("fwrite_fails")) { f_fail = true; u64 r = vc_range("short", 0, u64(1) << 40); vc_assume(r < n); return r; }
	if(c_mode) {
		int i = (int)(((char*)f - c_h[0]) / 8); vc_assert(n == 1, "the one record"); c_wr++;
		c_num[i] += n; c_key[i] = *(const u64*)p; c_val[i] = *(const u32*)((const u8*)p + 8); return n;
	}
	vc_assert(f_locked, "bucket file only written under its lock");
	if(f == (FILE*)fhW) {
		if(f_len <= f_P && f_P < f_len + n) { f_have = true; f_key = *(const u64*)((const u8*)p + (f_P - f_len) * 12); f_val = *(const u32*)((const u8*)p + (f_P - f_len) * 12 + 8); }
		f_len += n;
	}
	return n;
}
static size_t io_fread(void* p, size_t sz, size_t n, FILE* f) {
	vc_require(sz == 12 && f == (FILE*)rh, "whole records of the bucket");
	vc_havoc_region(p, 12, "0:8,8:4");
	u64 pos = r_pos, avail = pos < r_len ? r_len - pos : 0, got = n < avail ? n : avail;
	if(vc_u8("fread_fails")) { f_fail = true; got = vc_range("short", 0, u64(1) << 40); vc_assume(got < n); }
	if(pos <= r_R && r_R < pos + got) { u8* q = (u8*)p + (r_R - pos) * 12; *(u64*)q = rkey(r_R); *(u32*)(q + 8) = rval(r_R); }
	r_pos = pos + got; return got;
}
static int io_fclose(FILE* f) { if(c_mode) { c_closed++; } if(vc_u8("fclose_fails")) { f_fail = true; return -1; } return 0; }
static int io_fseek(FILE* f, long off, int wh) { vc_require(false, "bucket files are sequential"); return -1; }
static int io_fflush(FILE*) { return 0; }
static int io_ferror(FILE*) { return 0; }
static int io_feof(FILE*) { return 0; }
static int io_rename(const char*, const char*) { return 0; }
static int io_remove(const char*) { c_removed++; return 0; }
// ---------------------------------------------------------------- WriteCache
static DS::WriteCache *wc_w, *wc_o; static u64 nb, s_F, s_T, s_P; static bool s_have; static u64 s_key; static u32 s_val; static DS* g_ds;
static write_buffer_t<Rec>* buf_at(void* vec, u64 i) {
	vc_require(i < nb, "bucket index in range");
	if(i == W) return wc_w->buckets.d;
	wc_o->buckets.d->count = vc_range("other_count", 0, 1 << 24); vc_assume(wc_o->buckets.d->count <= wc_o->buckets.d->capacity);
	return wc_o->buckets.d;
}
static u64 vec_size(void*) { return nb; }
static u64 Skey(u64 i) { return vc_uf1("Skey", i); }        // the records added to the watched bucket, in order
static u32 Sval(u64 i) { return (u32)vc_uf1("Sval", i); }
static void dswrite_contract(DS* d, size_t index, const void* data, size_t count) {
	vc_require(d == g_ds, "its own sort");
	if(index == W) {
		vc_require(data == wc_w->buckets.d->data && count == wc_w->buckets.d->count && count > 0, "the whole buffer of that bucket");
		u64 f = s_F;
		u64 j = s_P - f; if(j < count) { s_have = true; s_key = *(const u64*)((const u8*)data + j * 12); s_val = *(const u32*)((const u8*)data + j * 12 + 8); }
		s_F += count;
	} else vc_require(data == wc_o->buckets.d->data && count == wc_o->buckets.d->count, "the whole buffer of that bucket");
	if(vc_u8("write_fails")) { f_err = true; throw std::runtime_error("write"); }
}
static void cache_state(bool assume) {      // invariant of the cache for the watched bucket
	auto* b = wc_w->buckets.d; u64 c = b->count;
	bool ok = c <= b->capacity && s_F <= s_T && s_F + c == s_T; if(assume) vc_assume(ok); else vc_assert(ok, "buffered plus written records are all records added");
	if(s_P < s_F) { bool v = s_have && s_key == Skey(s_P) && s_val == Sval(s_P); if(assume) vc_assume(v); else vc_assert(v, "written records are the ones added, in order"); }
	else if(s_P < s_T) { u64 j = s_P - s_F; vc_require(j < c && j < (1 << 20), "in the buffer"); const u8* q = b->data + j * 12; bool v = *(const u64*)q == Skey(s_P) && *(const u32*)(q + 8) == Sval(s_P); if(assume) vc_assume(v); else vc_assert(v, "buffered records are the ones added, in order"); }
}
static void cache_setup() {
	g_write_chunk_size = vc_range("chunk", 1, 1 << 20); c_mode = false; f_err = f_fail = false;
	nb = u64(1) << vc_range("logb", 0, 20); W = vc_range("W", 0, (1 << 20) - 1); vc_assume(W < nb);
	s_F = vc_range("F", 0, u64(1) << 38); s_T = vc_range("T", 0, u64(1) << 38); s_P = vc_range("P", 0, u64(1) << 38); s_have = vc_u8("have") != 0; s_key = vc_u64("gkey"); s_val = vc_u32("gval");
	vc_replace("vector<write_buffer_t<Rec>, void>::operator\\[\\]", (void*)buf_at); vc_replace("vector<write_buffer_t<Rec>, void>::size", (void*)vec_size);
	vc_replace("DiskSort<Rec, GetKey>::write\\(", (void*)dswrite_contract);
}
VC_HARNESS(C02_cache_add) {
	cache_setup(); int shift = vc_range("shift", 0, 63); g_ds = (DS*)fhW;
	DS::WriteCache &w = *new DS::WriteCache(g_ds, shift, 1), &o = *new DS::WriteCache(g_ds, shift, 1); wc_w = &w; wc_o = &o;
	vc_assert(w.buckets.d->count == 0, "a new buffer is empty");
	vc_havoc_region(w.buckets.d->data, 12, "0:8,8:4"); w.buckets.d->count = vc_range("count", 0, 1 << 20);
	cache_state(true);
	u64 T0 = s_T, F0 = s_F, c0 = w.buckets.d->count; Rec e; e.key = vc_u64("key_in"); e.val = vc_u32("val_in"); bool err = false;
	u64 idx = e.key >> shift;
	if(idx == W) { vc_define(Skey(T0) == e.key && Sval(T0) == e.val, "next record of the bucket"); s_T = T0 + 1; }
	try { w.add(e); } catch(const std::exception&) { err = true; }
	if(idx >= nb) { vc_assert(err, "a key outside the declared width is rejected"); vc_assert(s_F == F0 && w.buckets.d->count == c0, "and nothing is stored"); vc_cover("rejected"); }
	else if(err) { vc_assert(f_err, "no error without a failed write"); vc_cover("error"); }
	else { vc_assert(!f_err, "a failed write is reported"); cache_state(false); if(idx == W) vc_cover("mine"); else vc_cover("other"); }
}
static u64 F_T; 
static void inv_flush(u64 n) {
	vc_inv(n <= nb & !f_err, "bucket index");
	auto* b = wc_w->buckets.d; u64 c = b->count;
	vc_inv(c <= b->capacity & s_F <= s_T & s_F + c == s_T & (n <= W || c == 0), "flushed up to here");
	if(s_P < s_F) vc_inv(s_have & s_key == Skey(s_P) & s_val == Sval(s_P), "written records");
	else if(s_P < s_T) { u64 j = s_P - s_F; vc_require(j < c && j < (1 << 20), "in the buffer"); const u8* q = b->data + j * 12; vc_inv(*(const u64*)q == Skey(s_P) & *(const u32*)(q + 8) == Sval(s_P), "buffered records"); }
}
VC_HARNESS(C02_cache_flush) {
	cache_setup(); g_ds = (DS*)fhW;
	DS::WriteCache &w = *new DS::WriteCache(g_ds, 0, 1), &o = *new DS::WriteCache(g_ds, 0, 1); wc_w = &w; wc_o = &o;
	vc_havoc_region(w.buckets.d->data, 12, "0:8,8:4"); w.buckets.d->count = vc_range("count", 0, 1 << 20);
	cache_state(true); bool err = false;
	vc_loop_now("WriteCache::flush", (void*)inv_flush, 0);
	try { w.flush(); } catch(const std::exception&) { err = true; }
	if(err) { vc_assert(f_err, "no error without a failed write"); vc_cover("error"); }
	else { vc_assert(!f_err, "a failed write is reported"); vc_assert(s_F == s_T && w.buckets.d->count == 0, "everything added is written"); cache_state(false); vc_cover("flushed"); }
}
// ---------------------------------------------------------------- bucket files
static DS::bucket_t *b_w, *b_o;
static DS::bucket_t* bucket_at(void*, u64 i) { vc_require(i < nb, "bucket index in range"); return i == W ? b_w : b_o; }
static u64 len0; static bool others;        // other threads append to the bucket whenever its lock is free
static void locked(void* m) { vc_assert(!f_locked, "not locked twice"); f_locked = true; if(others && m == &b_w->mutex) { others = false; len0 = f_len = f_len + vc_range("others", 0, 1 << 20); b_w->num_entries = len0; } }
static void unlocked(void* m) { vc_assert(f_locked, "locked"); f_locked = false; if(m == &b_w->mutex && !f_fail) vc_assert(b_w->num_entries == f_len, "the count agrees with the file whenever the lock is free"); }
VC_HARNESS(C02_bucket_write) {
	nb = u64(1) << vc_range("logb", 0, 20); W = vc_range("W", 0, (1 << 20) - 1); vc_assume(W < nb); c_mode = false; f_fail = f_locked = f_have = false; f_len = vc_range("len", 0, u64(1) << 38); f_P = vc_range("P", 0, u64(1) << 38);
	g_write_chunk_size = 1; c_mode = true; c_names = 0;
	DS* d = (DS*)malloc(sizeof(DS)); DS::bucket_t w, o; b_w = &w; b_o = &o; c_mode = false;
	bool fin = vc_u8("finished") != 0; d->is_finished = fin;
	// object invariant: the files are open until the sort is finished
	if(!fin) { w.file = (FILE*)fhW; o.file = (FILE*)fhO; }
	w.num_entries = f_len;
	u64 count = vc_range("count", 0, 1 << 20); u8* data = new u8[count * 12]; vc_havoc_region(data, 12, "0:8,8:4");
	u64 index = vc_u64("index"); len0 = f_len; others = !fin; bool err = false;
	vc_replace("vector<DiskSort<Rec, GetKey>::bucket_t, void>::operator\\[\\]", (void*)bucket_at); vc_replace("vector<DiskSort<Rec, GetKey>::bucket_t, void>::size", (void*)vec_size);
	vc_replace("vc_mutex_lock", (void*)locked); vc_replace("vc_mutex_unlock", (void*)unlocked);
	try { d->write(index, data, count); } catch(const std::exception&) { err = true; }
	vc_assert(!f_locked, "lock released");
	if(fin || index >= nb) { vc_assert(err && f_len == len0, "writing after finish or to a bucket that does not exist is refused"); vc_cover("refused"); }
	else if(err) { vc_assert(f_fail, "no error without a failed write"); vc_cover("error"); }
	else {
		vc_assert(!f_fail, "a failed write is reported");
		vc_assert(f_len == len0 + (index == W ? count : 0) && w.num_entries == f_len, "records appended to their bucket and counted");
		if(index == W && len0 <= f_P && f_P < len0 + count) vc_assert(f_have && f_key == *(u64*)(data + (f_P - len0) * 12) && f_val == *(u32*)(data + (f_P - len0) * 12 + 8), "record bytes in the file");
		vc_cover("written");
	}
	w.file = o.file = nullptr;
}
// ---------------------------------------------------------------- whole life of the writing side, small bucket counts
VC_HARNESS(C02_life) {
	int logb = vc_case("logb", 0, 2), kc = vc_case("key_size", 0, 2), ks = kc == 0 ? 2 : kc == 1 ? 38 : 63; g_write_chunk_size = 2;
	c_mode = true; c_names = 0; c_opened = c_closed = c_removed = c_wr = 0; f_fail = false; for(int i = 0; i < 4; ++i) c_num[i] = 0;
	vc_abort_ok(&f_fail); bool err = false;
	Rec e; e.key = vc_u64("key_in"); e.val = vc_u32("val_in"); u64 ci = vc_case("idx", 0, 4), ki = e.key >> (ks - logb); vc_assume(ci < (u64(1) << logb) ? ki == ci : ki >= (u64(1) << logb)); if(ci >= (u64(1) << logb)) vc_assume(ci == 4);
	try {
		DS& d = *new DS(ks, logb, "T");
		vc_assert(c_opened == 1 << logb && d.num_buckets() == (size_t(1) << logb), "one file per bucket");
		bool viac = vc_case("via_cache", 0, 1);
		if(viac) { auto c = d.add_cache(); c->add(e); c->flush(); } else d.add(e);
		d.finish();
		u64 idx = e.key >> (ks - logb);
		vc_assert(idx < (u64(1) << logb), "only keys of the declared width are accepted");
		vc_assert(c_closed == 1 << logb && c_wr == 1, "all files closed, record written once");
		for(int i = 0; i < 1 << logb; ++i) { vc_assert(c_num[i] == (u64(i) == idx) && d.buckets[i].num_entries == c_num[i], "record counted in its bucket only"); if(u64(i) == idx) vc_assert(c_key[i] == e.key && c_val[i] == e.val, "record bytes in the bucket of its key"); }
		vc_assert(!f_fail, "a failed operation is reported"); vc_assert(c_removed == 0, "no file removed");
		bool late = false; try { d.write(0, fhW, 1); } catch(const std::exception&) { late = true; }
		vc_assert(late, "no write after finish"); vc_cover("finished");
	} catch(const std::exception&) { err = true; }
	if(err) { u64 idx = e.key >> (ks - logb); vc_assert(f_fail || idx >= (u64(1) << logb), "no error without a failed operation or a key out of range"); vc_cover("error"); }
}
// ---------------------------------------------------------------- reading one bucket
static u64 rb_n, rb_first; static int rb_shift; static u64 o_n, o_off; static bool o_got; static std::vector<Rec>* o_vec; static u64 o_size, o_key, o_val;
static void inv_chunks(u64, u64 i) {
	vc_inv(i <= rb_n & r_pos == i & m_tot == i, "every record read so far went to a block"); vc_inv(hold->w.second.n == m_acc & m_acc <= m_tot, "block size counts its records");
	vc_inv(!f_fail, "no failure pending");
	if(r_R < i) vc_inv(m_slot < hold->w.second.n & hold->w.second.d[m_slot].key == rkey(r_R) & hold->w.second.d[m_slot].val == rval(r_R), "watched record in its block");
}
static u64 in_pos, in_n; static read_buffer_t<Rec>* rb_buf;
static void inv_recs(u64 k) {
	u64 base = r_pos - k;           // not used: r_pos is the end of the chunk
	(void)base;
	vc_inv(hold->w.second.n == m_acc & m_acc <= m_tot & m_tot <= r_pos & r_pos <= rb_n, "block size counts its records");
	if(r_R < m_tot) vc_inv(m_slot < hold->w.second.n & hold->w.second.d[m_slot].key == rkey(r_R) & hold->w.second.d[m_slot].val == rval(r_R), "watched record in its block");
}
static void inv_table(u64 n) { vc_inv(n <= m_keys & m_size == n & m_ins == (m_pB < n), "blocks moved"); 
	vc_inv(hold->w.second.n == m_acc & m_slot < m_acc & hold->w.second.d[m_slot].key == rkey(r_R) & hold->w.second.d[m_slot].val == rval(r_R), "watched block"); }
static void inv_out(u64 n, u64 off) {
	vc_inv(n <= m_size & o_n == n & off == rb_first + pre(n), "blocks delivered, running position");
	if(n <= m_qB) vc_inv(!o_got & hold->w.second.n == m_acc & hold->w.second.d[m_slot].key == rkey(r_R) & hold->w.second.d[m_slot].val == rval(r_R), "watched block");
	else vc_inv(o_got & o_size == m_acc & o_key == rkey(r_R) & o_val == rval(r_R) & o_off == rb_first + pre(m_qB), "watched block delivered");
}
static Blk* out_emplace(void* vec, std::vector<Rec>& v, u64& off) {
	if(o_n == m_qB) { o_got = true; o_size = v.n; o_off = off; o_key = v.d[m_slot].key; o_val = v.d[m_slot].val; }
	o_n++; return nullptr;
}
VC_HARNESS(C02_read_bucket) {
	g_read_chunk_size = vc_range("chunk", 1, 1 << 20); g_write_chunk_size = 1; f_fail = false; c_mode = false;
	int logb = vc_range("logb", 0, 16); rb_shift = vc_range("block_shift", 0, 63); int shift = rb_shift + logb; W = vc_range("W", 0, (1 << 16) - 1);
	rb_n = r_len = vc_range("n", 1, u64(1) << 36); r_R = m_R = vc_range("R", 0, u64(1) << 36); vc_assume(r_R < rb_n); rb_first = vc_range("first", 0, u64(1) << 38);
	DS* d = (DS*)malloc(sizeof(DS)); DS::bucket_t w, o; b_w = &w; b_o = &o; nb = u64(1) << 20;
	w.num_entries = rb_n; *(int*)&d->log_num_buckets = logb; *(int*)&d->bucket_key_shift = shift; d->keep_files = vc_u8("keep") != 0; d->is_finished = true;
	vc_replace("vector<DiskSort<Rec, GetKey>::bucket_t, void>::operator\\[\\]", (void*)bucket_at);
	vc_replace("vector<std::pair<std::vector<Rec, void>, unsigned long>, void>::emplace_back", (void*)out_emplace);
	m_B = rkey(r_R) >> rb_shift; o_n = 0; o_got = false;
	read_buffer_t<Rec> buf; rb_buf = &buf; std::vector<Blk> out; std::pair<size_t, size_t> idx; idx.first = W; idx.second = rb_first; bool err = false;
	vc_loop_now("GetKey>::read_bucket", (void*)inv_chunks, 1); vc_loop_now("GetKey>::read_bucket", (void*)inv_recs, 0); vc_loop_now("GetKey>::read_bucket", (void*)inv_table, 0); vc_loop_now("GetKey>::read_bucket", (void*)inv_out, 1);
	try { d->read_bucket(idx, out, buf); } catch(const std::exception&) { err = true; }
	if(err) { vc_assert(f_fail, "no error without a failed operation"); vc_cover("error"); }
	else {
		vc_assert(!f_fail, "a failed operation is reported");
		vc_assert(m_tot == rb_n, "every record of the bucket is placed once");
		vc_assert(o_n == m_size && m_size == m_keys && o_got, "every block is delivered, in key order");
		vc_assert(o_size == m_acc && o_key == rkey(r_R) && o_val == rval(r_R), "the block holds exactly its records");
		vc_assert(o_off == rb_first + pre(m_qB), "the block carries the index of its first record");
		vc_cover("read");
	}
}
VC_HARNESS(C02_read_bucket_narrow) {      // keys too narrow for two-level bucketing are refused
	g_read_chunk_size = g_write_chunk_size = 1; f_fail = false; c_mode = false; int logb = vc_range("logb", 0, 16), shift = (int)vc_range("shift", 0, 32) - 16; vc_assume(shift < logb);
	DS* d = (DS*)malloc(sizeof(DS)); DS::bucket_t w, o; b_w = &w; b_o = &o; nb = u64(1) << 20; W = 0; w.num_entries = 1; *(int*)&d->log_num_buckets = logb; *(int*)&d->bucket_key_shift = shift; d->keep_files = true;
	vc_replace("vector<DiskSort<Rec, GetKey>::bucket_t, void>::operator\\[\\]", (void*)bucket_at);
	read_buffer_t<Rec> buf; std::vector<Blk> out; std::pair<size_t, size_t> idx; idx.first = 0; idx.second = 0; bool err = false;
	try { d->read_bucket(idx, out, buf); } catch(const std::exception&) { err = true; }
	vc_assert(err, "refused"); vc_cover("narrow");
}
// ---------------------------------------------------------------- order of delivery
struct Sink : Processor<Blk> { void take(Blk&) override {} };
static Sink* g_sink; static u64 q_next, q_off; static bool rp_closed, st_closed, sp_closed; static std::vector<Rec>* srt_v; static int srt; static u64 fw_n, fw_at;
typedef ThreadPool<Blk, Blk> P_sort; typedef Thread<std::vector<Blk>> T_sort; typedef ThreadPool<std::pair<size_t, size_t>, std::vector<Blk>, read_buffer_t<Rec>> P_read;
static P_sort* g_ps; static T_sort* g_ts; static bool fw_mode; static Blk* fw_base;
static u64 num(u64 i) { return vc_uf1("num", i); } static u64 cum(u64 i) { return vc_uf1("cum", i); }
static void sort_contract(void* b, size_t first, size_t count, size_t el, bool (*cmp)(const void*, const void*, void*), void* ctx) {     // std::sort: sorted permutation w.r.t. the comparator (assumed)
	srt++; vc_assert(srt_v && b == srt_v->d && first == 0 && count == srt_v->n && el == sizeof(Rec), "the whole block is sorted");
	Rec x, y; x.key = vc_u64("kx"); y.key = vc_u64("ky"); x.val = vc_u32("vx"); y.val = vc_u32("vy");
	vc_assert(cmp(&x, &y, ctx) == (x.key < y.key), "ordered by key");
}
template<> struct VcPoolHook<Blk, Blk, size_t> {
	static void create(P_sort* p) {
		g_ps = p; vc_assert(p->output == g_sink, "sorted blocks go to the consumer");
		Blk in, out; in.first.n = vc_range("m", 0, 1 << 20); in.second = vc_u64("pos"); u64 m = in.first.size(), pos = in.second; Rec* dp = in.first.d; srt_v = &in.first; srt = 0; size_t l = 0;
		p->execute(in, out, l);
		vc_assert(srt == 1 && out.first.d == dp && out.first.n == m && out.second == pos, "the sorted block is passed on whole with its position"); vc_cover("sort");
	}
	static void take(P_sort*, Blk& b) { vc_assert(fw_mode && &b == fw_base + fw_at, "blocks of a bucket are passed on in order"); fw_at++; }
	static void close(P_sort*) { vc_assert(st_closed, "sorting ends after the last block was handed in"); sp_closed = true; }
};
template<> struct VcThreadHook<std::vector<Blk>> {
	static void create(T_sort* t) { g_ts = t; std::vector<Blk> in; u64 n = vc_case("blocks", 0, 3); in.resize(n); fw_mode = true; fw_base = in.d; fw_at = 0; t->execute(in); vc_assert(fw_at == n, "all blocks of a bucket are passed on"); fw_mode = false; }
	static void take(T_sort*, std::vector<Blk>&) {}
	static void close(T_sort*) { vc_assert(rp_closed, "forwarding ends after the last bucket was read"); st_closed = true; }
};
template<> struct VcPoolHook<std::pair<size_t, size_t>, std::vector<Blk>, read_buffer_t<Rec>> {
	static void create(P_read* p) { vc_assert(p->output == g_ts, "buckets go to the sorter"); }
	static void take(P_read*, std::pair<size_t, size_t>& b) { vc_assert(b.first == q_next && b.second == cum(q_next), "buckets in ascending order, each with the index of its first record"); vc_define(cum(q_next + 1) == cum(q_next) + num(q_next), "running total of bucket sizes"); q_next++; }
	static void close(P_read*) { rp_closed = true; }
};
static DS::bucket_t* bucket_num(void*, u64 i) { vc_require(i < nb, "bucket index in range"); b_w->num_entries = num(i); return b_w; }
static void inv_buckets(u64 n, u64 off) { vc_inv(n <= nb & q_next == n & off == cum(n) & !rp_closed, "buckets handed out in order"); }
VC_HARNESS(C02_read) {
	nb = u64(1) << vc_range("logb", 0, 20); g_read_chunk_size = g_write_chunk_size = 1; c_mode = false; q_next = 0; rp_closed = st_closed = sp_closed = false;
	vc_define(cum(0) == 0, "running total of bucket sizes");
	DS* d = (DS*)malloc(sizeof(DS)); DS::bucket_t w; b_w = &w; Sink s; g_sink = &s;
	vc_replace("vector<DiskSort<Rec, GetKey>::bucket_t, void>::operator\\[\\]", (void*)bucket_num); vc_replace("vector<DiskSort<Rec, GetKey>::bucket_t, void>::size", (void*)vec_size);
	vc_replace("vc_stl_sort", (void*)sort_contract);
	vc_loop("DiskSort<Rec, GetKey>::read\\(", (void*)inv_buckets, 1);
	int nt = vc_range("threads", 1, 64), nr = (int)vc_range("read_threads", 0, 64) - 1; vc_assume(nr != 0);
	d->read(&s, nt, nr);
	vc_assert(q_next == nb && rp_closed && st_closed && sp_closed, "all buckets read, all stages completed"); vc_cover("read");
}
// lemma: bucket order, then block order, then key order is key order
VC_HARNESS(C02_order) {
	int ks = vc_range("key_size", 0, 64), logb = vc_range("logb", 0, 16); vc_assume(ks - 2 * logb >= 0 && ks - logb < 64);
	u64 a = vc_u64("a"), b = vc_u64("b"); int s1 = ks - logb, s2 = s1 - logb;
	if((a >> s1) < (b >> s1)) vc_assert(a < b, "smaller bucket means smaller key");
	if((a >> s1) == (b >> s1) && (a >> s2) < (b >> s2)) vc_assert(a < b, "smaller block of a bucket means smaller key");
	vc_cover("order");
}
#else
struct Sink : Processor<Blk> { std::vector<Blk> got; void take(Blk& b) override { got.push_back(b); } };
struct Add { static void go(DS& d, std::vector<Rec>& v, int threads, u64 seed) {
	if(threads <= 1) { for(auto& r : v) d.add(r); return; }
	std::vector<std::thread> t; for(int i = 0; i < threads; ++i) t.emplace_back([&, i] { auto c = d.add_cache(); for(size_t k = i; k < v.size(); k += threads) c->add(v[k]); });
	for(auto& x : t) x.join(); } };
VC_BOUNDED(C02_native) {
	int logb = vc_range("logb", 0, 4), ks = vc_range("key_size", 0, 40) + 2 * logb; if(ks == 0) ks = 1;
	if(vc_range("wide", 0, 7) == 0) ks = 63;
	u64 n = vc_range("n", 0, 400), seed = vc_u64("seed"); g_write_chunk_size = vc_range("wchunk", 1, 20); g_read_chunk_size = vc_range("rchunk", 1, 50); int nt = vc_range("threads", 1, 4), nr = vc_range("rthreads", 1, 4), na = vc_range("adders", 1, 3);
	iom::reset(-1); std::vector<Rec> in; u64 mask = ks >= 64 ? ~0ull : (u64(1) << ks) - 1; u64 narrow = vc_range("narrow", 0, 3);
	auto rnd = [&] { seed += 0x9E3779B97F4A7C15ull; u64 z = seed; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
	for(u64 i = 0; i < n; ++i) { Rec r; r.key = (narrow == 0 ? rnd() % 7 : narrow == 1 ? ~(rnd() % 5) : rnd()) & mask; r.val = i; in.push_back(r); }
	Sink s; {
		DS d(ks, logb, "T"); Add::go(d, in, na, seed);
		if(ks < 60) { bool rej = false; Rec r; r.key = mask + 1 + (rnd() & (mask >> 1)); r.val = 1; try { d.add(r); } catch(const std::exception&) { rej = true; } vc_assert(rej, "a key outside the declared width is rejected"); }
		d.finish(); d.read(&s, nt, nr);
	}
	vc_assert(iom::fs.empty(), "temporary files removed");
	u64 k = 0, last = 0; std::vector<bool> seen(n, false);
	for(auto& b : s.got) { vc_assert(b.second == k, "index of the first record of a block"); for(auto& r : b.first) { vc_assert(r.key >= last, "keys in order"); last = r.key; vc_assert(r.val < n && !seen[r.val] && in[r.val].key == r.key, "each record once, unchanged"); seen[r.val] = true; ++k; } }
	vc_assert(k == n, "all records delivered");
}
#endif
