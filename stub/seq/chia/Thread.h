// Contract stand-in for chia/Thread.h and chia/ThreadPool.h (their guarantees are property C04): an item handed to
// take() is processed exactly once, results reach the next stage in order, a failure is reported by wait()/close().
// A harness may specialise VcHook to make a stage a contract point instead of executing it in line.
#ifndef INCLUDE_CHIA_THREAD_H_
#define INCLUDE_CHIA_THREAD_H_
#ifndef INCLUDE_CHIA_THREADPOOL_H_
#define INCLUDE_CHIA_THREADPOOL_H_
#include <mutex>
#include <thread>
#include <atomic>
#include <iostream>
#include <functional>
#include <condition_variable>
#include <vector>
#include <memory>
#include <string>
#include <stdexcept>
template<typename T> class Processor {
public:
	virtual ~Processor() {}
	virtual void take(T& data) = 0;
	void take_copy(const T& data) { T copy = data; take(copy); }
};
template<typename T> class Thread;
template<typename T, typename S, typename L> class ThreadPool;
template<typename T> struct VcThreadHook {
	static void create(Thread<T>*) {}
	static void take(Thread<T>* t, T& d) { T tmp = std::move(d); t->run(tmp); }
	static void close(Thread<T>*) {}
};
template<typename T, typename S, typename L> struct VcPoolHook {
	static void create(ThreadPool<T, S, L>*) {}
	static void take(ThreadPool<T, S, L>* p, T& d) { T tmp = std::move(d); p->run(tmp); }
	static void close(ThreadPool<T, S, L>*) {}
};
template<typename T> class Thread : public Processor<T> {
public:
	Thread(const std::function<void(T&)>& func, const std::string& name = "") : execute(func) { VcThreadHook<T>::create(this); }
	virtual ~Thread() { close(); }
	void take(T& data) override { if(!failed && !closed) VcThreadHook<T>::take(this, data); }
	void wait() { if(failed) { throw std::runtime_error("thread failed"); } }
	void close() { wait(); if(!closed) { closed = true; VcThreadHook<T>::close(this); } }
	void run(T& tmp) { try { execute(tmp); } catch(const std::exception& ex) { failed = true; } }
	bool failed = false, closed = false;
	std::function<void(T&)> execute;
};
template<typename T, typename S, typename L = size_t> class ThreadPool : public Processor<T> {
public:
	ThreadPool(const std::function<void(T&, S&, L&)>& func, Processor<S>* output, const int num_threads, const std::string& name = "") : output(output), execute(func), n(num_threads) {
		if(num_threads < 1) { throw std::logic_error("num_threads < 1"); }
		VcPoolHook<T, S, L>::create(this);
	}
	~ThreadPool() { close(); }
	void take(T& data) override { wait(); VcPoolHook<T, S, L>::take(this, data); }
	void wait() { if(failed) { throw std::runtime_error("thread failed"); } }
	void close() { wait(); if(!closed) { closed = true; VcPoolHook<T, S, L>::close(this); } }
	size_t num_threads() const { return n; }
	L& get_local(size_t) { wait(); return local; }
	void set_local(size_t, L&& value) { wait(); local = value; }
	void run(T& tmp) { try { S out; execute(tmp, out, local); if(output) { output->take(out); } } catch(const std::exception& ex) { failed = true; } }
	bool failed = false, closed = false;
	L local{};
	Processor<S>* output = nullptr;
	std::function<void(T&, S&, L&)> execute;
	size_t n;
};
#endif
#endif
