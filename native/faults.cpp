// Creates a complete plot with the real phases 1-4 on an in-memory file system and lets single file operations
// fail.   faults k seed threads logb logb3 read_chunk write_chunk per_key
// For every phase the operations of a fault-free run are grouped by (kind, file); for each group some positions are
// chosen and the phase is run again (in a forked copy of the process) with that operation failing.  The run must not
// report success and the final plot name must not appear.  Ending in an error, std::terminate or not at all is fine here.
#define VC_NOHARNESS 1
#include "../harness/io_mem.h"
#include <chia/phase1.hpp>
#include <chia/phase2.hpp>
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#undef rename
#undef remove
#undef fopen
#undef fread
#undef fclose
#undef fflush
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
static phase1::input_t in; static int nt, lb, lb3;
static phase1::output_t o1; static phase2::output_t o2; static phase3::output_t o3; static phase4::output_t o4;
static const std::string FINAL = "final/p.plot";
static void phase(int p) {
	if(p == 1) phase1::compute(in, o1, nt, lb, "p", "tmp/", "tmp2/");
	if(p == 2) phase2::compute(o1, o2, nt, lb3, "p", "tmp/", "tmp2/");
	if(p == 3) phase3::compute(o2, o3, nt, lb3, "p", "tmp/", "tmp2/", "final/");
	if(p == 4) phase4::compute(o3, o4, nt, lb3, "p", "tmp/", "tmp2/", "final/");
}
struct Sh { volatile int state; char kind[16]; char file[200]; char msg[300]; };
static Sh* sh;
static void note() { strncpy(sh->kind, iom::fault_kind.c_str(), 15); strncpy(sh->file, iom::fault_file.c_str(), 199); }
static void on_term() { if(iom::failed && iom::fs.count(FINAL)) { note(); _exit(5); } _exit(0); }
static std::string norm(std::string s) { for(size_t i = 1; i < s.size(); ++i) if(isdigit(s[i]) && (s[i - 1] == '_' || s[i - 1] == '#')) { s[i] = '#'; if(s[i - 1] == '#') s.erase(i--, 1); } return s; }   // buckets of one sort together
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv) {
	const int k = atoi(argv[1]); const u64 seed = atoll(argv[2]); nt = atoi(argv[3]); lb = atoi(argv[4]); lb3 = atoi(argv[5]);
	g_read_chunk_size = atoi(argv[6]); g_write_chunk_size = atoi(argv[7]); const int per = atoi(argv[8]); const int par = 8;
	std::ostringstream nul; std::cout.rdbuf(nul.rdbuf()); std::cerr.rdbuf(nul.rdbuf());
	in.k = k; for(int i = 0; i < 32; ++i) in.id[i] = (seed * 2654435761u + i * 40503u) >> 3;
	for(int i = 0; i < 112; ++i) in.memo.push_back(i); in.plot_name = "p";
	std::mt19937_64 rng(seed); int fails = 0; long runs = 0, errs = 0, aborts = 0, hangs = 0, unused = 0;
	sh = (Sh*)mmap(nullptr, sizeof(Sh) * 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Sh* all = sh;
	for(int p = 1; p <= 4; ++p) {
		// operations of a fault-free run of this phase
		iom::reset_ops(); iom::record = true;
		std::vector<long> pos;
		{
			char name[] = "ops.XXXXXX"; int fd = mkstemp(name); fflush(stdout);
			pid_t c = fork();
			if(!c) {
				try { phase(p); } catch(const std::exception& e) { dprintf(1, "OTHER plotting failed without a fault in phase %d: %s\n", p, e.what()); _exit(1); }
				std::map<std::string, std::vector<long>> keys;
				for(size_t i = 0; i < iom::ops.size(); ++i) keys[norm(iom::ops[i])].push_back(i);
				for(auto& q : keys) {
					auto& v = q.second; std::set<long> s{v.front(), v.back()};
					for(int i = 0; i < per; ++i) s.insert(v[rng() % v.size()]);
					for(long x : s) dprintf(fd, "%ld\n", x);
				}
				_exit(0);
			}
			int st = 0; waitpid(c, &st, 0); close(fd);
			std::ifstream f(name); long x; while(f >> x) pos.push_back(x);
			unlink(name);
			if(st) { printf("RUN faults executions=%ld\n", runs); _exit(0); }     // not for this check to decide
		}
		iom::record = false; iom::ops.clear();
		std::shuffle(pos.begin(), pos.end(), rng);
		struct Job { pid_t pid; int slot; double end; bool f; long pos; };
		std::vector<Job> live; size_t next = 0; std::vector<int> freeslots; for(int i = 0; i < par; ++i) freeslots.push_back(i);
		while(next < pos.size() || live.size()) {
			while(next < pos.size() && !freeslots.empty()) {
				int sl = freeslots.back(); freeslots.pop_back(); memset(&all[sl], 0, sizeof(Sh)); long at = pos[next++]; fflush(stdout);
				pid_t c = fork();
				if(!c) {
					sh = &all[sl]; iom::fault_flag = &sh->state; std::set_terminate(on_term); iom::reset_ops(); iom::faultat = at;
					std::string err;
					try { for(int q = p; q <= 4; ++q) phase(q); } catch(const std::exception& e) { err = e.what(); } catch(const vc_failed& f) { err = f.what; }
					if(!iom::failed) _exit(err.empty() ? 4 : 6);
					note(); strncpy(sh->msg, err.c_str(), 299);
					if(err.empty()) _exit(3);
					_exit(iom::fs.count(FINAL) ? 5 : 0);
				}
				live.push_back({c, sl, now() + 60, false, at});
			}
			for(size_t i = 0; i < live.size();) {
				int st = 0; auto& j = live[i]; pid_t r = waitpid(j.pid, &st, WNOHANG);
				if(!j.f && all[j.slot].state) { j.f = true; j.end = now() + 3; }
				if(!r && now() > j.end) { kill(j.pid, SIGKILL); waitpid(j.pid, &st, 0); hangs++; runs++; freeslots.push_back(j.slot); live.erase(live.begin() + i); continue; }
				if(r == j.pid) {
					runs++; Sh& s = all[j.slot];
					if(WIFEXITED(st)) {
						int rc = WEXITSTATUS(st);
						if(rc == 3) { fails++; printf("FAIL C17: phase %d, operation %ld: %s of %s failed but plotting reported success\n", p, j.pos, s.kind, s.file); }
						else if(rc == 5) { fails++; printf("FAIL C17: phase %d, operation %ld: %s of %s failed but the final plot name exists\n", p, j.pos, s.kind, s.file); }
						else if(rc == 4) unused++; else errs++;
					} else aborts++;
					freeslots.push_back(j.slot); live.erase(live.begin() + i); continue;
				}
				++i;
			}
			usleep(500);
			if(fails > 5) { for(auto& j : live) { kill(j.pid, SIGKILL); waitpid(j.pid, nullptr, 0); } goto done; }
		}
		iom::reset_ops(); iom::faultat = -1;
		phase(p);
	}
done:
	printf("RUN C17_faults executions=%ld\nRUN C17_errors executions=%ld\nRUN C17_aborts executions=%ld\nRUN C17_noend executions=%ld\nRUN C17_unused executions=%ld\n", runs, errs, aborts, hangs, unused); fflush(stdout);
	_exit(fails ? 1 : 0);
}
