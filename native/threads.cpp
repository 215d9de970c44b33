// C04, bounded: real threads, random delays.  threads SEED SECS
#include <chia/ThreadPool.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <string.h>
#include <map>
#include <chrono>
typedef unsigned long long u64;
static u64 rs; static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void nap(u64 us) { if(us) usleep(us); }
static u64 mix(u64 x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; return x ^ (x >> 29); }
#define BAD(...) do { printf("FAIL " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while(0)
static void several_takers() {                                  // Thread::take is thread-safe
	int nt = 2 + rnd() % 4; u64 per = 20 + rnd() % 60, slow = rnd() % 200, seed = rnd(); std::vector<int> seen(nt * per, 0); std::vector<u64> last(nt, 0); std::vector<std::thread> v;
	{
		Thread<u64> t([&](u64& x) { nap(mix(seed + x) % (slow + 1)); seen[x]++; if(x % per < last[x / per]) BAD("items of one taker out of order"); last[x / per] = x % per; });
		for(int k = 0; k < nt; ++k) v.emplace_back([&, k]() { for(u64 i = 0; i < per; ++i) { u64 x = k * per + i; t.take(x); } });
		for(auto& x : v) x.join();
		if(rnd() & 1) { t.wait(); for(int s : seen) if(s != 1) BAD("after wait an item was executed %d times", s); }
		t.close();
	}
	for(int s : seen) if(s != 1) BAD("%d takers: an item was executed %d times", nt, s);
}
struct Item { u64 no = 0; std::vector<u64> body; };
static void pool() {
	int n = 1 + rnd() % 6; u64 N = rnd() % 80, seed = rnd(), slow = rnd() % 300, sslow = rnd() % 200, style = rnd() % 4; u64 expect = 0; std::atomic<int> in_sink{0}; std::atomic<u64> runs{0};
	Thread<std::pair<u64, u64>> sink([&](std::pair<u64, u64>& r) { if(r.first != expect) BAD("result %llu delivered instead of %llu (%d threads)", r.first, expect, n); if(r.second != mix(r.first + seed)) BAD("wrong result"); expect++; });
	struct Out : Processor<std::pair<u64, u64>> { std::function<void(std::pair<u64, u64>&)> f; void take(std::pair<u64, u64>& v) override { f(v); } } out;
	out.f = [&](std::pair<u64, u64>& v) { if(in_sink++) BAD("two results handed on at a time"); nap(mix(v.first ^ seed) % (sslow + 1)); sink.take(v); in_sink--; };
	std::vector<u64> loc(n, 0);
	{
		ThreadPool<Item, std::pair<u64, u64>, u64> p([&](Item& x, std::pair<u64, u64>& o, u64& l) { nap(mix(x.no * 7 + seed) % (slow + 1)); if(x.body.size() != 3 || x.body[0] != mix(x.no + seed)) BAD("the item is not the one handed in"); o.first = x.no; o.second = x.body[0]; l++; runs++; }, &out, n, "");
		for(int i = 0; i < n; ++i) { u64 z = 100; p.set_local(i, (unsigned long long&&)z); }
		for(u64 i = 0; i < N; ++i) { Item x; x.no = i; x.body.assign(3, mix(i + seed)); p.take(x); if(style == 1 && rnd() % 8 == 0) nap(rnd() % 300); if(style == 2 && rnd() % 8 == 0) { p.wait(); if(runs != i + 1) BAD("after wait %llu of %llu items executed", (u64)runs, i + 1); } }
		if(style == 3) { u64 s = 0; for(int i = 0; i < n; ++i) s += p.get_local(i) - 100; if(s != N) BAD("per-thread state lost"); }
		p.close(); if(runs != N) BAD("after close %llu of %llu items executed", (u64)runs, N);
	}
	sink.close(); if(expect != N) BAD("%llu of %llu results delivered", expect, N);
}
static void failing() {
	u64 N = 1 + rnd() % 20, seed = rnd(); bool rep = false; u64 done = 0;
	auto* t = new Thread<u64>([&](u64& x) { nap(mix(x + seed) % 100); if(x == N - 1) throw std::runtime_error("item"); done++; });
	try { for(u64 i = 0; i < N; ++i) { u64 x = i; t->take(x); } t->wait(); } catch(const std::exception&) { rep = true; }
	if(!rep) BAD("the failure of an item is not reported by wait"); rep = false; try { t->close(); } catch(const std::exception&) { rep = true; } if(!rep) BAD("the failure of an item is not reported by close"); if(done != N - 1) BAD("items before the failure were lost");
	int n = 1 + rnd() % 4; u64 M = 1 + rnd() % 10; rep = false;
	auto* p = new ThreadPool<u64, u64>([&](u64& x, u64& o, size_t&) { nap(mix(x + seed) % 100); o = x; if(x == M - 1) throw std::runtime_error("item"); }, nullptr, n, "");
	try { for(u64 i = 0; i < M; ++i) { u64 x = i; p->take(x); } p->wait(); } catch(const std::exception&) { rep = true; } if(!rep) BAD("the failure of a pool item is not reported");
	// leaked on purpose: the destructors would throw
}
int main(int argc, char** argv) {
	u64 seed = atoll(argv[1]); double secs = atof(argv[argc - 1]); auto t0 = std::chrono::steady_clock::now(); u64 n = 0; setvbuf(stdout, nullptr, _IONBF, 0);
	while(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs) {
		pid_t c = fork(); if(!c) { rs = mix(seed * 1000003 + n + 1) | 1; rnd(); for(int i = 0; i < 3; ++i) rnd(); alarm(20); for(int i = 0; i < 5; ++i) { several_takers(); pool(); } failing(); _exit(0); }
		int st = 0; waitpid(c, &st, 0); n++;
		if(WIFSIGNALED(st)) { if(WTERMSIG(st) == SIGALRM) { printf("note: case %llu did not end in 20 s (progress is C19)\n", n); break; } printf("FAIL case %llu: signal %d\n", n, WTERMSIG(st)); return 1; }
		if(WEXITSTATUS(st)) { printf("FAIL case seed=%llu no=%llu\n", seed, n); return 1; }
	}
	printf("RUN threads executions=%llu\n", n * 11); return 0;
}
