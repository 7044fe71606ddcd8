// What a loop body does and checks, shared by the T01 harnesses
#pragma once
#include "explorer.h"
#include <cmath>

struct Book { // book-keeping of one parallel loop
	size_t N, T;
	std::vector<int> runs;
	std::vector<pthread_t> holder; // of each thread number
	std::vector<int> depth;
	std::vector<double> sum; // per-thread storage, as users keep it
	std::vector<int> byThread;
	size_t first = 0;
	int finished = 0;
	Book(size_t n, size_t t, size_t f = 0)
	    : N(n), T(t), runs(n, 0), holder(t), depth(t, 0), sum(t, 0), byThread(n, -1), first(f)
	{ }
	double term(size_t i) const { return N < 50 ? std::ldexp(1., i) : i + 1.; }
	static std::string s(size_t x) { return std::to_string(x); }
	void task(size_t i0, size_t thread)
	{
		sched::point();
		sched::check(i0 >= first && i0 - first < N, "task index " + s(i0) + " is out of range");
		size_t i = i0 - first;
		sched::check(thread < T, "thread number " + s(thread) + " is not below " + s(T));
		sched::check(depth[thread] == 0, "thread number " + s(thread) + " is used by two workers at once");
		depth[thread] = 1;
		holder[thread] = pthread_self();
		sched::check(++runs[i] == 1, "task " + s(i) + " runs again");
		byThread[i] = thread;
		if (sched::on()) {
			sched::observe(i);
			sched::observe(thread + 100);
		}
		double x = sum[thread];
		sched::point(); // another worker with the same thread number would be seen here
		sum[thread] = x + term(i);
		depth[thread] = 0;
		++finished;
	}
	void after()
	{
		for (size_t i = 0; i < N; ++i)
			mc::check(runs[i] == 1, "task " + s(i) + " ran " + s(runs[i]) + " times when the loop returned");
		mc::check(finished == (int)N, "the loop returned with unfinished tasks");
		double t = 0;
		for (double x : sum)
			t += x;
		double all = 0;
		for (size_t i = 0; i < N; ++i)
			all += term(i);
		mc::check(t == all, "the combined sum misses contributions");
		if (sched::on()) {
			auto& th = sched::ex()->thr;
			for (size_t k = 1; k < th.size(); ++k)
				mc::check(th[k]->done, "a worker is alive when the loop returns");
		}
	}
};
// A loop during which the creation of some threads (bits of fail) does not succeed: either
// all tasks run all the same, or the caller is told, after the workers that do exist ended
template <typename F> void withFailures(Book& b, uint64_t fail, F loop)
{
	sched::ex()->noCreate = fail;
	bool told = false;
	try {
		loop();
	} catch (std::exception&) {
		told = true;
	}
	sched::ex()->noCreate = 0;
	if (!told)
		b.after();
	mc::check(sched::ex()->live == 0, "a worker was not joined");
	auto& th = sched::ex()->thr;
	for (size_t k = 1; k < th.size(); ++k)
		mc::check(th[k]->done, "a worker is alive when the loop ends");
	int ran = 0;
	for (int r : b.runs) {
		mc::check(r <= 1, "a task ran again");
		ran += r;
	}
	mc::check(ran == b.finished, "the loop ended with unfinished tasks");
	if (fail == 0)
		mc::check(!told, "the loop failed though all threads could be created");
}
// all vectors of length n over {0..m-1} in order
template <typename F> void vectors(size_t n, size_t m, F f)
{
	std::vector<size_t> v(n, 0);
	for (;;) {
		f(v);
		size_t i = 0;
		while (i < n && ++v[i] == m)
			v[i++] = 0;
		if (i == n)
			break;
	}
}
