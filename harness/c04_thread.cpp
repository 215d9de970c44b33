// C04: worker thread and thread pool, by monitor invariants.  Every function runs alone; whenever it acquires the lock the
// shared state is anything the monitor invariant and the other parties' guarantees allow; whenever it releases the lock
// (unlock or wait on the condition variable) what it did must be one of the steps allowed to its party.
//   I:  failed => stopped;  stopped and not failed => nothing pending and nothing in work (close waits first)
//   taker:   only (pending := its item) on an empty slot while running        worker: only pick / finish / fail
//   waiter:  nothing                                                            closer: only stop, when idle
// Lost wake-ups (progress) are property C19, not this one.
#include <stdexcept>
#include <string>
#include <memory>
#include <vector>
#include <functional>
#include <chia/ThreadPool.h>
#include "vc.h"
#if VC_SYMBOLIC
typedef Thread<u64> T; enum { TAKE, WAIT, CLOSE, WORK }; static T* t; static int role; static bool locked;
struct St { bool d, f, b, a; u64 v; }; static St sn;                // state when the lock was last acquired
static bool hold, executed, threw, acc, waited, joined; static u64 item, X;
static bool I() { return (!t->is_fail | !t->do_run) & (t->do_run | t->is_fail | (!t->is_avail & !t->is_busy)); }
static bool bit(const char* n) { return vc_u8(n) & 1; }
static void acquire() {
	t->do_run = bit("do_run"); t->is_fail = bit("is_fail"); t->is_busy = bit("is_busy"); t->is_avail = bit("is_avail"); t->input = vc_u64("pending"); vc_assume(I());
	if(role == WORK) { vc_assume((t->is_busy == executed) & (t->is_fail == false)); }        // only the worker starts, finishes and fails
	if(role == CLOSE && waited) vc_assume(!t->is_fail & !t->is_avail & !t->is_busy);             // nobody hands in items while it is closed
	sn.d = t->do_run; sn.f = t->is_fail; sn.b = t->is_busy; sn.a = t->is_avail; sn.v = t->input; locked = true;
}
static bool same_df() { return (t->do_run == sn.d) & (t->is_fail == sn.f); }
static void release() {
	vc_assert(locked, "released once");
	if(role == TAKE) {
		vc_assert(same_df() & (t->is_busy == sn.b), "handing in an item does not touch the worker's state"); vc_assert(t->is_avail || !sn.a, "a pending item is not dropped"); if(sn.a) vc_assert(t->input == sn.v, "a pending item is not overwritten");
		if(t->is_avail && !sn.a) { vc_assert(!acc, "an item is handed in once"); vc_assert(t->input == X, "the item handed in"); vc_assert(t->do_run, "only a running worker accepts items"); acc = true; }
	}
	if(role == WAIT) vc_assert(same_df() & (t->is_busy == sn.b) & (t->is_avail == sn.a) & (t->input == sn.v), "waiting changes nothing");
	if(role == CLOSE) { vc_assert((t->is_fail == sn.f) & (t->is_busy == sn.b) & (t->is_avail == sn.a) & (!sn.a | (t->input == sn.v)), "closing drops nothing"); vc_assert(I(), "stopped only when all items are done"); }
	if(role == WORK) {
		vc_assert(!hold, "an item taken is executed");
		if(executed) { if(threw) vc_assert(t->is_fail && !t->do_run, "a failure is recorded"); else vc_assert(same_df(), "no failure without an error"); executed = false; } else vc_assert(same_df(), "no failure without an error");
		if(sn.a && !t->is_avail) { vc_assert(t->do_run && t->is_busy, "working while an item is executed"); item = sn.v; hold = true; } else { vc_assert(!t->is_busy, "idle when nothing is executed"); vc_assert(t->is_avail == sn.a && (!sn.a | (t->input == sn.v)), "pending item left alone"); }
		vc_assert(I(), "monitor invariant");
	}
	locked = false;
}
static void lock_c(void* m) { vc_require(m == &t->mutex && !locked, "the one lock, taken once"); if(role == WORK) vc_assert(!hold, "an item taken is executed before the worker goes on"); acquire(); }
static void unlock_c(void* m) { vc_require(m == &t->mutex, "the one lock"); release(); waited = true; }
static void wait_c(void*, void* m) { vc_require(m == &t->mutex && locked, "waits with the lock held"); release(); acquire(); }
static void notify_c(void*) {}
static void join_c(void*) { vc_assert(!locked && !t->do_run, "joins a worker that was told to stop"); joined = true; }
static void run_item(u64& x) { vc_assert(hold, "each item is executed once"); vc_assert(x == item, "the item that was handed in"); hold = false; executed = true; if(vc_case("item_fails", 0, 1)) { threw = true; throw std::runtime_error("item"); } }
static bool eq() { return (t->do_run == sn.d) & (t->is_fail == sn.f) & (t->is_busy == sn.b) & (t->is_avail == sn.a) & (t->input == sn.v); }
static bool second; static void inv_pure(u64);
static void inv_first(u64 n) { second = false; inv_pure(n); } static void inv_second(u64 n) { second = true; inv_pure(n); }
static void inv_pure(u64) {
	vc_inv(locked, "lock held");
	if(role == TAKE) { bool pend = !acc & sn.d & !sn.a & t->is_avail & (t->input == X) & (t->do_run == sn.d) & (t->is_fail == sn.f) & (t->is_busy == sn.b); vc_inv(second ? (eq() & acc) | pend : eq() & !acc, "state seen under the lock"); vc_inv(I(), "monitor invariant"); }
	else if(role == WORK) { vc_inv(!hold, "nothing taken"); vc_inv(!t->is_busy, "idle"); vc_inv((t->is_avail == sn.a) & (t->input == sn.v), "pending item"); vc_inv(sn.b == executed, "busy while it executed"); vc_inv(!sn.f, "fails at most once"); vc_inv(executed | eq(), "state seen under the lock"); vc_inv(!executed | (threw ? (t->is_fail & !t->do_run) : (t->do_run == sn.d) & (t->is_fail == sn.f)), "failure recorded"); vc_inv(!threw | (executed & t->is_fail), "failed"); vc_inv((!t->is_fail | !t->do_run) & (sn.d | sn.f | (!sn.a & !sn.b)), "monitor invariant"); }
	else { vc_inv(eq(), "state seen under the lock"); vc_inv(I(), "monitor invariant"); }
}
static std::string* str_c(std::string* s, const void*) { return s; }        // the text of the error is not part of the property
static T* mk() {
	locked = hold = executed = threw = acc = waited = joined = false; T* x = new T(run_item, ""); vc_assert(x->do_run && !x->is_fail && !x->is_busy && !x->is_avail, "starts idle"); vc_assert(x->thread.joinable(), "worker started"); t = x;
	vc_replace("string::operator=\\(", (void*)str_c); vc_replace("^vc_mutex_lock", (void*)lock_c); vc_replace("^vc_mutex_unlock", (void*)unlock_c); vc_replace("^vc_cv_wait", (void*)wait_c); vc_replace("^vc_cv_notify", (void*)notify_c); vc_replace("^vc_thread_join", (void*)join_c); return x;
}
VC_HARNESS(C04_take) {
	mk(); role = TAKE; X = vc_u64("item"); vc_loop("Thread<", (void*)inv_first, 0); vc_loop("Thread<", (void*)inv_second, 0); u64 x = X;
	t->take(x); vc_assert(!locked, "lock released"); vc_assert(acc || !t->do_run, "an item is accepted unless the worker stopped"); if(acc) vc_cover("accepted"); else vc_cover("stopped");
}
VC_HARNESS(C04_wait) {
	mk(); role = WAIT; for(int i = 0; i < 2; ++i) vc_loop("Thread<", (void*)inv_pure, 0); bool err = false;
	try { t->wait(); } catch(const std::exception&) { err = true; }
	vc_assert(!locked, "lock released"); vc_assert(err == sn.f, "a failure is reported, and only a failure"); if(err) { vc_cover("failed"); return; } vc_assert(!sn.a && !sn.b, "all accepted items are done"); vc_cover("done");
}
VC_HARNESS(C04_close) {
	mk(); role = CLOSE; for(int i = 0; i < 2; ++i) vc_loop("Thread<", (void*)inv_pure, 0); bool err = false, was = vc_case("joinable", 0, 1); if(!was) { t->thread.j = false; }
	try { t->close(); } catch(const std::exception&) { err = true; }
	vc_assert(!locked, "lock released"); if(err) { vc_assert(sn.f, "only a failure is reported"); vc_cover("failed"); return; } vc_assert(!sn.f, "a failure is reported"); vc_assert(!sn.a && !sn.b && !t->do_run, "all accepted items are done"); vc_assert(joined == was, "worker joined"); vc_cover("closed");
}
VC_HARNESS(C04_worker) {
	mk(); role = WORK; vc_loop_now("::loop", (void*)inv_pure, 0); for(int i = 0; i < 2; ++i) vc_loop("::loop", (void*)inv_pure, 0);
	t->loop(std::string()); vc_assert(!locked && !hold && !executed, "nothing left undone"); vc_assert(!t->do_run, "stops only when told to"); if(threw) vc_cover("failed"); else vc_cover("stopped");
}
// ---- the pool.  Threads by the contract above; job numbers seen through their locks:
//   the threads take jobs in turn, so when job j runs, the thread before it was given job j-1 earlier and its job number is
//   j-1 as long as that job's result is not handed on, afterwards "none" or a later job.
typedef ThreadPool<u64, u64, u64> P; static P* p; static int np; typedef P::thread_t PT; static PT *me, *pv; static u64 J; static bool prev_done, ran, sent, cleared, in_me, in_pv, loc_ok; static int which_lock;
struct Sink : Processor<u64> { void take(u64& v) override; }; static Sink sink; static u64 RES; static bool sink_fails;
void Sink::take(u64& v) { vc_assert(ran && !sent, "one result per item"); vc_assert(v == RES, "the result of the item"); vc_assert(prev_done, "results are handed on in the order of the items, one at a time"); vc_assert(me->job == J, "still marked as not handed on"); sent = true; if(sink_fails) throw std::runtime_error("sink"); }
static void p_exec(u64& x, u64& out, u64& l) { vc_assert(!ran && x == X, "each item is executed once"); vc_assert(&l == &me->local, "with the thread's own state"); ran = true; if(vc_case("item_fails", 0, 1)) throw std::runtime_error("item"); out = RES; }
static void pl_lock(void* m) {
	if(m == &me->mutex && me == pv) { in_me = true; return; }
	if(m == &me->mutex) { in_me = true; return; }
	vc_require(m == &pv->mutex, "locks of this thread and the one before"); in_pv = true; if(!prev_done) prev_done = bit("prev_done") | (J == 0);
	u64 none = ~u64(0), k = vc_range("rounds", 1, u64(1) << 30), nx = J - 1 + k * np; if(!prev_done) pv->job = J - 1; else { bool idle = bit("prev_idle"); pv->job = vc_ite(idle, none, nx); } }
static void pl_unlock(void* m) {
	if(m == &me->mutex) { vc_assert(in_me, "released once"); in_me = false; if(me->job != J) { vc_assert(sent && me->job == ~u64(0), "marked as done only after the result is handed on"); cleared = true; } return; }
	vc_assert(in_pv, "released once"); in_pv = false; }
static void pl_wait(void* c, void* m) { vc_require(m == &pv->mutex && c == &pv->signal, "waits for the thread before"); pl_unlock(m); pl_lock(m); }
static void pl_notify(void* c) {}
static void inv_turn(u64) { vc_inv(in_pv & ran & (!sent | !p->output) & !cleared, "result ready, its turn awaited"); vc_inv((me->job == J), "job number kept"); vc_inv(prev_done ? pv->job >= J : pv->job == J - 1, "job number of the thread before"); }
static void locks() { vc_replace("^vc_mutex_lock", (void*)pl_lock); vc_replace("^vc_mutex_unlock", (void*)pl_unlock); vc_replace("^vc_cv_wait", (void*)pl_wait); vc_replace("^vc_cv_notify", (void*)pl_notify); }
// construction with Thread by contract
static int nth; static std::function<void(u64&)>* fn[8]; static T* th[8];
static int tno(T* x) { for(int i = 0; i < nth; ++i) if(th[i] == x) return i; return -1; }
static int fails_at; static bool idle[8], closed[8]; static int takes;
static void thr_wait(T* x) { int i = tno(x); vc_assert(i >= 0, "one of its threads"); if(i == fails_at) throw std::runtime_error("thread"); idle[i] = true; }
static void thr_close(T* x) { int i = tno(x); vc_assert(i >= 0, "one of its threads"); if(i == fails_at) throw std::runtime_error("thread"); idle[i] = true; closed[i] = true; }
static u64 NX; static void thr_take(T* x, u64* v) { int i = tno(x); vc_assert(i == int(NX % np), "items go to the threads in turn"); vc_assert(idle[i] || fails_at == i, "a thread gets its next job after the one before is done"); vc_assert(*v == X, "the item handed in"); vc_assert(p->threads[i]->job == NX, "numbered before it starts"); takes++; }
static void thr_dtor(T*) {}
static PT* w_state; static PT* w_prev; static u64* w_in; static P* w_pool;
static void wrapper_c(P* q, PT* s, PT* pr, u64* in) { w_pool = q; w_state = s; w_prev = pr; w_in = in; }
static void mkpool() {
	np = vc_case("threads", 1, 4); nth = 0; fails_at = -1; takes = 0; for(int i = 0; i < 8; ++i) idle[i] = closed[i] = false;
	vc_replace("Thread<unsigned long>::wait\\(", (void*)thr_wait); vc_replace("Thread<unsigned long>::close\\(", (void*)thr_close); vc_replace("Thread<unsigned long>::take\\(", (void*)thr_take); vc_replace("Thread<unsigned long>::~Thread\\(", (void*)thr_dtor);
	p = new P(p_exec, &sink, np, ""); vc_assert((int)p->num_threads() == np, "as many threads as asked for"); for(int i = 0; i < np; ++i) { th[i] = p->threads[i]->thread.get(); fn[i] = &th[i]->execute; vc_assert(tno(th[i]) < 0, "threads of their own"); nth++; }
}
VC_HARNESS(C04_pool_new) {
	vc_replace("::wrapper\\(", (void*)wrapper_c); mkpool();
	for(int i = 0; i < np; ++i) { u64 x = 5; w_pool = nullptr; (*fn[i])(x); vc_assert(w_pool == p && w_in == &x, "items reach the pool's function"); vc_assert(w_state == p->threads[i].get() && p->threads[i]->thread.get() == th[i], "with the thread's own state"); vc_assert(w_prev == p->threads[(i + np - 1) % np].get(), "after the thread before it"); vc_assert(p->threads[i]->job == ~u64(0), "no job yet"); }
	vc_cover("pool");
}
VC_HARNESS(C04_pool_take) {
	mkpool(); NX = vc_range("next", 0, u64(1) << 60); int r = vc_case("turn", 0, 3); vc_assume(r < np && NX % np == u64(r)); p->next = NX; X = vc_u64("item"); u64 x = X; fails_at = vc_case("failed_thread", 0, 4) - 1; bool err = false;
	try { p->take(x); } catch(const std::exception&) { err = true; }
	if(fails_at == r) { vc_assert(err || takes == 1, "a failed thread is reported"); vc_cover("failed"); return; }
	vc_assert(!err && takes == 1, "the item is handed to one thread"); vc_assert(p->next == NX + 1, "items are numbered in order"); vc_cover("take");
}
VC_HARNESS(C04_pool_wait) {
	mkpool(); bool cl = vc_case("close", 0, 1); fails_at = int(vc_case("failed_thread", 0, 4)) - 1; if(fails_at >= np) fails_at = -1; bool err = false;
	try { if(cl) p->close(); else p->wait(); } catch(const std::exception&) { err = true; }
	vc_assert(err == (fails_at >= 0), "a failed thread is reported"); if(err) { vc_cover("failed"); return; } for(int i = 0; i < np; ++i) { vc_assert(idle[i], "every thread's items are done"); if(cl) vc_assert(closed[i], "every thread is closed"); } vc_cover("waited");
}
VC_HARNESS(C04_pool_local) {
	mkpool(); int i = vc_case("i", 0, 3); vc_assume(i < np); u64 v = vc_u64("value"), w = v; p->set_local(i, (u64&&)w); vc_assert(idle[i] && p->threads[i]->local == v, "the thread's own state, while it is idle"); idle[i] = false; vc_assert(&p->get_local(i) == &p->threads[i]->local && idle[i], "the thread's own state"); vc_cover("local");
}
VC_HARNESS(C04_pool_item) {
	mkpool(); int i = vc_case("i", 0, 3); vc_assume(i < np); me = p->threads[i].get(); pv = p->threads[(i + np - 1) % np].get(); bool out = vc_case("output", 0, 1); if(!out) p->output = nullptr;
	J = vc_range("round", 0, u64(1) << 50) * u64(np) + i; me->job = J; prev_done = (me == pv) | (J == 0); ran = sent = cleared = in_me = in_pv = false; RES = vc_u64("result"); X = vc_u64("item"); u64 x = X; sink_fails = out && vc_case("output_fails", 0, 1);
	locks(); vc_loop_now("::wrapper", (void*)inv_turn, 0); bool err = false;
	if(!out) sent = true;
	try { p->wrapper(me, pv, x); } catch(const std::exception&) { err = true; }
	vc_assert(ran && !in_me && !in_pv, "item executed"); if(err) { vc_assert(!cleared, "after a failure no later result is handed on"); vc_cover("failed"); return; }
	vc_assert(!sink_fails, "a failure is reported"); vc_assert(sent && cleared && me->job == ~u64(0), "result handed on, then the next one's turn"); vc_cover("item");
}
#endif
