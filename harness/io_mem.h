// Native (bounded) runs: an in-memory file system behind io.h with fault injection.
#pragma once
#include "io.h"
#if !VC_SYMBOLIC
#undef rename
#undef remove
namespace iom {
struct F { std::vector<u8> d; };
struct H { std::string name; u64 pos = 0; bool err = false; bool wr = false; };
static std::map<std::string, F> fs; static std::recursive_mutex mx; static long faultat = -1, op = 0; static bool failed = false; static std::set<H*> open_;
static std::string fault_kind, fault_file; static bool record = false; static volatile int* fault_flag = nullptr; static std::vector<std::string> ops;
static bool faulty(const char* k, const std::string& f = "") { std::lock_guard<std::recursive_mutex> l(mx); if(record) ops.push_back(std::string(k) + " " + f); if(op++ == faultat) { failed = true; fault_kind = k; fault_file = f; if(fault_flag) *fault_flag = 1; return true; } return false; }
static void reset_ops() { op = 0; faultat = -1; failed = false; ops.clear(); }
static void reset(long at = -1) { fs.clear(); for(auto h : open_) delete h; open_.clear(); faultat = at; op = 0; failed = false; fault_kind.clear(); }
}
static FILE* io_fopen(const char* name, const char* mode) {
	std::lock_guard<std::recursive_mutex> l(iom::mx);
	if(iom::faulty("fopen", name)) { errno = EACCES; return nullptr; }
	if(mode[0] == 'r' && !iom::fs.count(name)) { errno = ENOENT; return nullptr; }
	if(mode[0] == 'w') iom::fs[name].d.clear();
	auto h = new iom::H; h->name = name; h->wr = mode[0] == 'w' || mode[1] == '+' || (mode[1] && mode[2] == '+'); iom::open_.insert(h); return (FILE*)h;
}
static size_t io_fread(void* p, size_t sz, size_t n, FILE* f) {
	std::lock_guard<std::recursive_mutex> l(iom::mx); auto h = (iom::H*)f; auto& d = iom::fs[h->name].d;
	if(!iom::open_.count(h)) throw vc_failed{"read from a closed file"};
	u64 can = sz && h->pos < d.size() ? std::min<u64>(n, (d.size() - h->pos) / sz) : 0;
	if(n && iom::faulty("fread", h->name)) { can = can / 2; h->err = true; }
	memcpy(p, d.data() + h->pos, can * sz); h->pos += can * sz; return can;
}
static size_t io_fwrite(const void* p, size_t sz, size_t n, FILE* f) {
	std::lock_guard<std::recursive_mutex> l(iom::mx); auto h = (iom::H*)f; auto& d = iom::fs[h->name].d;
	if(!iom::open_.count(h)) throw vc_failed{"write to a closed file"};
	u64 can = n; if(n && iom::faulty("fwrite", h->name)) { can = n / 2; h->err = true; }
	if(h->pos + can * sz > d.size()) d.resize(h->pos + can * sz);
	memcpy(d.data() + h->pos, p, can * sz); h->pos += can * sz; return can;
}
static int io_fseek(FILE* f, long off, int wh) { std::lock_guard<std::recursive_mutex> l(iom::mx); auto h = (iom::H*)f; if(iom::faulty("fseek", h->name)) return -1; h->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? h->pos + off : iom::fs[h->name].d.size() + off; return 0; }
static int io_fclose(FILE* f) { std::lock_guard<std::recursive_mutex> l(iom::mx); auto h = (iom::H*)f; if(!iom::open_.erase(h)) throw vc_failed{"file closed twice"}; bool w = h->wr; std::string nm = h->name; delete h; return w && iom::faulty("fclose", nm) ? -1 : 0; }
static int io_fflush(FILE* f) { return iom::faulty("fflush", ((iom::H*)f)->name) ? -1 : 0; }
static int io_ferror(FILE* f) { return ((iom::H*)f)->err; }
static int io_feof(FILE* f) { auto h = (iom::H*)f; return h->pos >= iom::fs[h->name].d.size(); }
static int io_rename(const char* a, const char* b) { std::lock_guard<std::recursive_mutex> l(iom::mx); if(!iom::fs.count(a) || iom::faulty("rename", a)) return -1; iom::fs[b] = iom::fs[a]; iom::fs.erase(a); return 0; }
static int io_remove(const char* a) { std::lock_guard<std::recursive_mutex> l(iom::mx); return iom::fs.erase(a) ? 0 : -1; }
#define rename io_rename
#define remove io_remove
#endif
