// T01: Parallelizer (PthreadsNg), Parallelizer2 (Pthread), mutexes, under every
// interleaving up to a preemption bound
#include "t01_body.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "LoadBalancerWeights.h"
#include "LoadBalancerMpi.h"
using namespace PsimagLite;
typedef std::vector<SizeType> VS;

struct Helper {
	Book& b;
	explicit Helper(Book& bb) : b(bb) { }
	SizeType tasks() const { return b.N; }
	void doTask(SizeType i, SizeType t) { b.task(i, t); }
};
// a balancer given as a table: task i goes to worker w[i]
struct TableBalancer {
	std::vector<VS> t;
	TableBalancer(SizeType n, SizeType T) : t(T)
	{
		for (SizeType i = 0; i < n; ++i)
			t[(n - 1 - i) % std::min(T, n)].push_back(n - 1 - i);
	}
	TableBalancer(const VS& w, SizeType T) : t(T)
	{
		for (SizeType i = 0; i < w.size(); ++i)
			t[w[i]].push_back(i);
	}
	SizeType blockSize(SizeType th) const { return t.at(th).size(); }
	SizeType taskNumber(SizeType th, SizeType p) const { return t.at(th).at(p); }
};

static void stacks(size_t want)
{
	auto& th = sched::ex()->thr;
	static size_t def = 0;
	if (!def) {
		pthread_attr_t a;
		pthread_attr_init(&a);
		pthread_attr_getstacksize(&a, &def);
	}
	if (want == 0)
		for (size_t k = 1; k < th.size(); ++k)
			mc::check(th[k]->stack == 0 || th[k]->stack == def, "a worker has stack size " + std::to_string(th[k]->stack) + " instead of the default");
	for (size_t k = 1; k < th.size(); ++k)
		mc::check(want == 0 || th[k]->stack == want, "a worker has stack size " + std::to_string(th[k]->stack) + " instead of " + std::to_string(want));
}

template <typename Bal> void ng(const std::string& key, size_t N, size_t T, int bound, const VS* weights, bool giveBalancer, size_t stack = 0, bool aff = false)
{
	mc::run("PthreadsNg " + key + " N=" + std::to_string(N) + " T=" + std::to_string(T) + (weights ? " w=" + mc::str(*weights) : "") + (giveBalancer ? " balancer" : "") + " stack=" + std::to_string(stack) + " aff=" + std::to_string(aff), [=]() {
		sched::exploreAll(bound, [=]() {
			Book b(N, T);
			Helper h(b);
			CodeSectionParams cs(T, 1, aff, stack);
			Parallelizer<Helper, Bal> p(cs);
			mc::check(p.stackSize() == stack && p.affinities() == aff, "options of the loop");
			if constexpr (std::is_constructible<Bal, VS, size_t>::value) {
				if (giveBalancer) {
					Bal bal(*weights, T);
					p.loopCreate(h, bal);
				} else if (weights)
					p.loopCreate(h, *weights);
				else
					p.loopCreate(h);
			} else {
				if (giveBalancer) {
					Bal bal(N, T);
					p.loopCreate(h, bal);
				} else
					p.loopCreate(h);
			}
			b.after();
			stacks(stack);
		});
	});
}
template <typename Bal> void p2(const std::string& key, size_t start, size_t N, size_t T, int bound, const VS* weights, bool giveBalancer, size_t stack = 0)
{
	mc::run("Parallelizer2 " + key + " start=" + std::to_string(start) + " N=" + std::to_string(N) + " T=" + std::to_string(T) + (weights ? " w=" + mc::str(*weights) : "") + (giveBalancer ? " balancer" : "") + " stack=" + std::to_string(stack), [=]() {
		sched::exploreAll(bound, [=]() {
			Book b(N, T, start);
			CodeSectionParams cs(T, 1, false, stack);
			Parallelizer2<Bal> p(cs);
			mc::check(p.numberOfThreads() == T, "numberOfThreads");
			auto f = [&b](SizeType i, SizeType t) { b.task(i, t); };
			if constexpr (std::is_constructible<Bal, VS, size_t>::value) {
				if (giveBalancer) {
					Bal bal(*weights, T);
					p.parallelFor(start, start + N, f, bal);
				} else if (weights)
					p.parallelFor(start, start + N, f, *weights);
				else
					p.parallelFor(start, start + N, f);
			} else {
				if (giveBalancer) {
					Bal bal(N, T);
					p.parallelFor(start, start + N, f, bal);
				} else
					p.parallelFor(start, start + N, f);
			}
			b.after();
			stacks(stack);
		});
	});
}

// a nested loop: each outer task runs an inner loop of its own
struct Outer {
	std::vector<Book>& inner;
	Book& b;
	size_t T2;
	SizeType tasks() const { return b.N; }
	void doTask(SizeType i, SizeType t)
	{
		b.task(i, t);
		Helper h(inner[i]);
		CodeSectionParams cs(T2, 1, false, 0);
		Parallelizer<Helper> p(cs);
		p.loopCreate(h);
		for (size_t k = 0; k < inner[i].N; ++k)
			sched::check(inner[i].runs[k] == 1, "inner loop returned with unfinished tasks");
	}
};

void mc::explore()
{
	const int B = mc::thorough() ? 3 : 2;
	const size_t NN = mc::thorough() ? 6 : 5;
	const size_t TT = 4;
	for (size_t T = 1; T <= TT; ++T)
		for (size_t N = 0; N <= NN; ++N) {
			// the preemption bound shrinks where the number of workers grows
			int b = T <= 2 ? B + 1 : (T == 3 ? B : (N <= 4 ? B : B - 1));
			if (T == 4 && N > 3)
				b = B - 1;
			if (!mc::thorough())
				b = T <= 2 ? 3 : (T == 3 ? (N <= 4 ? 2 : 1) : (N <= 2 ? 2 : 1));
			ng<LoadBalancerDefault>("default", N, T, b, nullptr, false);
			ng<LoadBalancerWeights>("equal weights", N, T, b, nullptr, false);
			p2<LoadBalancerDefault>("default", 0, N, T, b, nullptr, false);
			int c = std::max(1, b - 1);
			p2<LoadBalancerDefault>("default", 3, N, T, c, nullptr, false, 1 << 20);
			p2<LoadBalancerWeights>("equal weights", 2, N, T, c, nullptr, false);
			ng<LoadBalancerDefault>("default", N, T, c, nullptr, true, 1 << 20);
			ng<LoadBalancerMpi>("mpi balancer", N, T, c, nullptr, true);
			ng<LoadBalancerDefault>("default", N, T, 1, nullptr, false, 0, true);
			if (N)
				ng<TableBalancer>("reversed round robin", N, T, c, nullptr, false);
		}
	// every assignment of tasks to workers, in a table
	for (size_t T = 1; T <= 3; ++T)
		for (size_t N = 1; N <= (mc::thorough() ? 5u : 4u); ++N)
			vectors(N, std::min(T, N), [&](const VS& w) {
				ng<TableBalancer>("table", N, T, 1, &w, true);
				if (N <= 3)
					p2<TableBalancer>("table", 1, N, T, 1, &w, true);
			});
	// weights: all vectors over a small set
	for (size_t T = 1; T <= 4; ++T)
		for (size_t N = 0; N <= (mc::thorough() ? 5u : 4u); ++N)
			vectors(N, 3, [&](const VS& w) {
				ng<LoadBalancerWeights>("weights", N, T, N <= 3 ? 1 : 0, &w, false);
				ng<LoadBalancerWeights>("weights", N, T, 0, &w, true);
				p2<LoadBalancerWeights>("weights", 1, N, T, 0, &w, false);
				p2<LoadBalancerWeights>("weights", 0, N, T, 0, &w, true);
			});
	// many tasks and workers, without preemptions
	for (size_t T = 1; T <= 5; ++T)
		for (size_t N = 7; N <= 13; ++N) {
			ng<LoadBalancerDefault>("default", N, T, 0, nullptr, false);
			p2<LoadBalancerDefault>("default", 1, N, T, 0, nullptr, false);
			ng<LoadBalancerWeights>("equal weights", N, T, 0, nullptr, false);
		}
	for (size_t T : { 1, 2, 6, 7, 8, 16, 33 })
		for (size_t N : { 0, 1, 6, 7, 15, 16, 17, 32, 64, 65, 100, 257 }) {
			ng<LoadBalancerDefault>("default", N, T, -1, nullptr, false);
			p2<LoadBalancerDefault>("default", N % 5, N, T, -1, nullptr, false);
			ng<LoadBalancerWeights>("equal weights", N, T, -1, nullptr, false);
			VS w(N), one(N, 1);
			for (size_t i = 0; i < N; ++i)
				w[i] = (i * 37 + T) % 11;
			ng<LoadBalancerWeights>("weights", N, T, -1, &w, false);
			p2<LoadBalancerWeights>("weights", 2, N, T, -1, &w, true);
		}
	// workers bound to the cpus of the process, few or many, each to one of its own while they last
	for (const std::vector<int>& cpus : { std::vector<int> { 0 }, { 3 }, { 0, 1 }, { 5, 63, 64 }, { 1022, 1023 }, { 0, 2, 4, 6 } })
		for (size_t T = 1; T <= 5; ++T)
			for (size_t N = 0; N <= 6; ++N)
				mc::run("cpus " + mc::str(cpus) + " N=" + std::to_string(N) + " T=" + std::to_string(T), [=]() {
					sched::exploreAll(0, [=]() {
						sched::ex()->cpus = cpus;
						CodeSectionParams cs(T, 1, true, 0);
						Parallelizer<Helper> p(cs);
						mc::check(p.affinities(), "options of the loop");
						Book b(N, T);
						Helper h(b);
						p.loopCreate(h);
						b.after();
						auto& th = sched::ex()->thr;
						std::set<int> used;
						for (size_t k = 1; k < th.size(); ++k) {
							const std::vector<int>& c = th[k]->cpus;
							if (k > cpus.size())
								continue; // none left for it
							mc::check(c.size() == 1, "worker " + std::to_string(k) + " may run on the cpus " + mc::str(c));
							mc::check(std::count(cpus.begin(), cpus.end(), c[0]) == 1, "a cpu that is not the process's");
							mc::check(used.insert(c[0]).second, "two workers share a cpu while another is free");
						}
					});
				});
	// threads that cannot be created: every set of failures
	for (size_t T = 1; T <= (mc::thorough() ? 5u : 4u); ++T)
		for (size_t N = 0; N <= T + 1; ++N)
			for (uint64_t fail = 0; fail < (1ull << T); ++fail) {
				const int b = T <= 3 ? 2 : 1;
				const std::string key = " N=" + std::to_string(N) + " T=" + std::to_string(T) + " fail=" + std::to_string(fail);
				mc::run("PthreadsNg no thread" + key, [=]() {
					sched::exploreAll(b, [=]() {
						Book k(N, T);
						Helper h(k);
						Parallelizer<Helper> p(CodeSectionParams(T, 1, false, 0));
						withFailures(k, fail, [&]() { p.loopCreate(h); });
						Book again(N, T);
						Helper h2(again);
						p.loopCreate(h2);
						again.after();
					});
				});
				mc::run("Parallelizer2 no thread" + key, [=]() {
					sched::exploreAll(b, [=]() {
						Book k(N, T, 1), again(N, T, 1);
						Parallelizer2<> p(CodeSectionParams(T, 1, false, 0));
						withFailures(k, fail, [&]() { p.parallelFor(1, 1 + N, [&k](SizeType i, SizeType t) { k.task(i, t); }); });
						p.parallelFor(1, 1 + N, [&again](SizeType i, SizeType t) { again.task(i, t); });
						again.after();
					});
				});
			}
	// nested loops
	for (size_t T = 1; T <= 2; ++T)
		for (size_t T2 = 1; T2 <= 2; ++T2)
			for (size_t N = 1; N <= 2; ++N)
				for (size_t M = 0; M <= 2; ++M)
					mc::run("nested T=" + std::to_string(T) + " T2=" + std::to_string(T2) + " N=" + std::to_string(N) + " M=" + std::to_string(M), [=]() {
						sched::exploreAll(1, [=]() {
							Book b(N, T);
							std::vector<Book> in(N, Book(M, T2));
							Outer o { in, b, T2 };
							CodeSectionParams cs(T);
							Parallelizer<Outer> p(cs);
							p.loopCreate(o);
							b.after();
							for (auto& x : in)
								x.after();
						});
					});
	// one loop object used twice, and two loops one after the other
	for (size_t T = 1; T <= 3; ++T)
		for (size_t N = 0; N <= 3; ++N)
			for (size_t M = 0; M <= 3; ++M)
				mc::run("reuse T=" + std::to_string(T) + " N=" + std::to_string(N) + " M=" + std::to_string(M), [=]() {
					sched::exploreAll(1, [=]() {
						CodeSectionParams cs(T);
						Parallelizer<Helper> p(cs);
						Parallelizer2<> q(cs);
						Book b(N, T), b2(M, T), b3(M, T, 1);
						Helper h(b), h2(b2);
						p.loopCreate(h);
						b.after();
						p.loopCreate(h2);
						b2.after();
						q.parallelFor(1, 1 + M, [&b3](SizeType i, SizeType t) { b3.task(i, t); });
						b3.after();
					});
				});
	// shared data under Concurrency's mutex: no update is lost, no deadlock
	for (size_t T = 1; T <= 3; ++T)
		for (size_t N = 1; N <= 3; ++N)
			mc::run("mutex T=" + std::to_string(T) + " N=" + std::to_string(N), [=]() {
				sched::exploreAll(B, [=]() {
					Concurrency::MutexType m;
					Concurrency::mutexInit(&m);
					Book b(N, T);
					long total = 0;
					int inside = 0;
					std::set<uint64_t> selves;
					CodeSectionParams cs(T);
					Parallelizer2<> q(cs);
					q.parallelFor(0, N, [&](SizeType i, SizeType t) {
						b.task(i, t);
						Concurrency::mutexLock(&m);
						sched::check(inside++ == 0, "two workers hold the mutex");
						selves.insert((uint64_t)Concurrency::threadSelf());
						long x = total;
						sched::point();
						total = x + (1 << i);
						--inside;
						Concurrency::mutexUnlock(&m);
					});
					b.after();
					mc::check(total == (1 << N) - 1, "an update under the mutex was lost");
					Concurrency::mutexDestroy(&m);
				});
			});
	// storage of the per-thread results in every mode
	mc::run("storage", []() {
		for (SizeType T = 1; T <= 5; ++T)
			for (SizeType t = 0; t < T; ++t)
				for (SizeType mode : { (SizeType)Concurrency::SERIAL, (SizeType)Concurrency::PTHREADS, (SizeType)Concurrency::MPI, (SizeType)Concurrency::PTHREADS_AND_MPI }) {
					if (mode == Concurrency::SERIAL && T > 1)
						continue;
					SizeType old = Concurrency::mode;
					Concurrency::mode = mode;
					SizeType s = Concurrency::storageSize(T), i = Concurrency::storageIndex(t);
					Concurrency::mode = old;
					mc::eq(s, mode == Concurrency::MPI ? (SizeType)1 : T, "storageSize");
					mc::eq(i, mode == Concurrency::MPI ? (SizeType)0 : t, "storageIndex");
				}
		SizeType old = Concurrency::mode;
		for (SizeType mode = 4; mode < 8; ++mode) {
			Concurrency::mode = mode;
			mc::mustThrow([]() { Concurrency::storageSize(2); }, "storageSize of an unknown mode");
			mc::mustThrow([]() { Concurrency::storageIndex(1); }, "storageIndex of an unknown mode");
		}
		Concurrency::mode = old;
	});
}
