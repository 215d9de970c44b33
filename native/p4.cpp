// Runs the real phase 4 computation on generated sorted tables (in-memory files) and decodes what it wrote with the
// independent reference decoder.   p4 seed seconds
#define VC_NOHARNESS 1
#include "../harness/io_mem.h"
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#undef fflush
#undef fopen
#undef fread
#undef fclose
#undef rename
#undef remove
#include "ref.h"
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
static std::string S(uint64_t x) { return std::to_string(x); }
typedef std::pair<uint64_t, uint64_t> PO;
static struct Sh { int fails, known; long runs, ok, errs; int cur; }* sh;   // each case runs in a child: a failing stage may end the process
static bool g_expect; static std::string g_w;
static void fail(const std::string& w) { if(w.find("final interval") == 0) { int b = w.find("deltas") != std::string::npos ? 1 : 2; if(!(sh->known & b)) { sh->known |= b; printf("FAIL C14: %s\n", w.c_str()); } } else if(sh->fails++ < 5) printf("FAIL C14: %s\n", w.c_str()); }
static void on_term() { sh->errs++; if(!g_expect) fail("phase 4 refused a representable table (process ended)" + g_w); fflush(stdout); _exit(0); }
int main(int argc, char** argv) {
	std::mt19937_64 rng(atoll(argv[1])); const double secs = atof(argv[2]); const auto t0 = std::chrono::steady_clock::now();
	std::ostringstream nul; std::cout.rdbuf(nul.rdbuf()); std::cerr.rdbuf(nul.rdbuf());
	std::vector<size_t> edge = {1, 2, 3, 4, 2047, 2048, 2049, 4096, 4097, 9999, 10000, 10001, 10002, 10003, 10004, 12288, 20000, 20001, 20480, 20005, 30011};
	sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for(size_t it = 0; sh->fails < 5; ++it) {
		if(it >= edge.size() && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
		const uint64_t cs = rng(); fflush(stdout);
		if(pid_t c = fork()) { int st = 0; for(int i = 0; !waitpid(c, &st, WNOHANG); ++i) { if(i > 200000) { kill(c, SIGKILL); waitpid(c, &st, 0); break; } usleep(100); } if(WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) fail("phase 4 crashed (signal " + S(WTERMSIG(st)) + ")" + " case " + S(it) + " seed " + argv[1]); continue; }
		std::set_terminate(on_term); rng.seed(cs); do {
		const int k = it % 3 == 0 ? 16 + rng() % (KMAX - 15) : it % 3 == 1 ? KMAX : 19 + rng() % 3;
		size_t N = it < edge.size() ? edge[it] : rng() % 4 ? 1 + rng() % 45000 : edge[rng() % edge.size()];
		const int kind = it < edge.size() ? it % 2 : rng() % 5; const uint64_t lim = (uint64_t(1) << k) - 1;
		std::vector<PO> E; uint64_t y = rng() % (k < 20 ? 3 : 100000); bool big = false; std::set<uint64_t> cl;
		for(size_t i = 0; i < N; ++i) {
			uint64_t d = 0;
			while(rng() % 2 && d < 6) d++;
			if(kind == 2) d = rng() % 4 ? 0 : d; 
			if(kind == 3) d = rng() % 40 == 0 ? rng() % 256 : d;
			if(kind == 4 && rng() % (N + 1) == 0) d = 250 + rng() % 300;
			if(i % 10000 == 0 && i) d = k >= 24 ? rng() % 2000 : d;
			if(!i) d = 0;
			if(y + d > lim) { N = i; break; }
			if(d > 255 && i % 10000) big = true;
			y += d; E.push_back({y, rng() % (uint64_t(1) << std::min(k + 1, PMAX))});
		}
		if(E.empty()) continue;
		iom::reset(); g_read_chunk_size = 1 + rng() % 70000; g_write_chunk_size = 1 + rng() % 9000; if(g_read_chunk_size < 64) g_read_chunk_size += 64;
		const int nt = 1 + rng() % 6, lb = 1 + rng() % 4; const int hs = 100 + rng() % 400; const uint64_t p7 = hs + rng() % 5000;
		std::string err, w = " (k=" + S(k) + ", " + S(N) + " entries, " + S(nt) + " threads, seed " + argv[1] + ", case " + S(it) + ")"; uint64_t end = 0;
		sh->runs++; g_expect = big || kind >= 3; g_w = w;
		{ FILE* f = io_fopen("P", "wb"); 
		  try { auto s = std::make_shared<phase3::DiskSortNP>(k, lb, "S"); auto q = E; std::shuffle(q.begin(), q.end(), rng); 
			  // entries with equal f7 keep their order only up to the sort: give them increasing positions in the comparison below
			  for(auto& e : q) { phase3::entry_np n; n.key = e.first; n.pos = e.second; s->add(n); } s->finish();
			  end = phase4::compute(f, k, hs, s.get(), nt, p7, N); } catch(const std::exception& e) { err = e.what(); }
		  io_fclose(f); }
		if(!err.empty()) { sh->errs++; if(!g_expect) fail("phase 4 refused a representable table: " + err + w); continue; }
		if(big) { fail("a delta above 255 was not refused" + w); continue; }
		auto F = iom::fs["P"].d; const size_t kb = (k + 7) / 8, nc1 = (N + 9999) / 10000, nc2 = (nc1 + 9999) / 10000;
		uint64_t P8 = p7 + (N + 2047) / 2048 * ref::p7_size(k), P9 = P8 + (nc1 + 1) * kb, P10 = P9 + (nc2 + 1) * kb, P11 = P10 + nc1 * ref::c3_size(k);
		if(end != P11) { fail("end of the plot reported as " + S(end) + ", expected " + S(P11) + w); continue; }
		const bool lastsmall = N % 10000 >= 1 && N % 10000 <= 3;
		if(F.size() != P11 && !(N % 10000 == 1 && F.size() < P11)) { fail("file ends at " + S(F.size()) + ", expected " + S(P11) + w); continue; }
		if(N % 10000 == 1 && F.size() != P11) fail("final interval with a single entry: its C3 park is not written, the file is shorter than reported" + w);
		F.resize(P11 + 64);
		for(int i = 0; i < 3; ++i) { uint64_t v = (uint64_t)ref::bits_at(F.data(), (hs - 24 + i * 8) * 8, 64), e = i == 0 ? P8 : i == 1 ? P9 : P10; if(v != e) fail("table pointer " + S(8 + i) + " is " + S(v) + w); }
		std::vector<uint64_t> c1; for(size_t i = 0; i < nc1; ++i) { c1.push_back((uint64_t)ref::bits_at(F.data() + P8 + i * kb, 0, k)); if(c1[i] != E[i * 10000].first) { fail("C1 entry " + S(i) + w); break; } }
		if(ref::bits_at(F.data() + P8 + nc1 * kb, 0, kb * 8)) fail("C1 not terminated" + w);
		for(size_t i = 0; i < nc2; ++i) if((uint64_t)ref::bits_at(F.data() + P9 + i * kb, 0, k) != E[i * 100000000].first) fail("C2 entry" + w);
		if(ref::bits_at(F.data() + P9 + nc2 * kb, 0, kb * 8)) fail("C2 not terminated" + w);
		std::vector<PO> G; bool good = true;
		for(size_t c = 0; c < nc1 && good; ++c) {
			size_t m = std::min<size_t>(10000, N - c * 10000); uint64_t v = c1[c]; const uint8_t* p = F.data() + P10 + c * ref::c3_size(k); size_t sz = p[0] << 8 | p[1]; std::vector<uint8_t> d;
			if(c + 1 == nc1 && lastsmall && sz == 0 && m > 1) { fail("final interval with " + S(m - 1) + " deltas: C3 park is empty" + w); good = false; break; }
			if(m > 1 && !(sz + 2 <= ref::c3_size(k) && ref::ans(1.0).decode(p + 2, sz, m - 1, d))) { fail("C3 park " + S(c) + " does not hold exactly " + S(m - 1) + " deltas" + w); good = false; break; }
			G.push_back({v, 0}); for(size_t i = 0; i + 1 < m; ++i) { v += d[i]; G.push_back({v, 0}); }
		}
		if(!good) continue;
		for(size_t i = 0; i < N; ++i) G[i].second = (uint64_t)ref::bits_at(F.data() + p7 + i / 2048 * ref::p7_size(k), i % 2048 * (k + 1), k + 1);
		for(size_t i = 0; i < N; ++i) if(G[i].first != E[i].first) { fail("f7 of entry " + S(i) + " is recovered as " + S(G[i].first) + ", not " + S(E[i].first) + w); good = false; break; }
		std::sort(G.begin(), G.end()); auto q = E; std::sort(q.begin(), q.end());
		if(good && G != q) fail("table 6 positions differ" + w);
		// padding of the last position park
		for(uint64_t b = (N - 1) % 2048 * (k + 1) + k + 1, e = ref::p7_size(k) * 8; good && b < e; ++b) if(ref::bits_at(F.data() + p7 + (N - 1) / 2048 * ref::p7_size(k), b, 1)) { fail("padding of the last position park not zero" + w); break; }
		sh->ok++;
		} while(0); fflush(stdout); _exit(0);
	}
	printf("RUN C14_phase4 executions=%ld\nRUN C14_decoded executions=%ld\n", sh->runs, sh->ok); fflush(stdout);
	_exit(sh->fails || sh->known ? 1 : 0);
}
