// T01 without USE_PTHREADS: the serial loops run every task once and refuse threads.
// With -fopenmp for this file only: the OpenMP front end over the controlled scheduler.
#include "t01_body.h"
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "LoadBalancerWeights.h"
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
#ifdef _OPENMP
#define NAME "openmp"
// the part of the OpenMP run time the loop needs, over explorer.h
static int ompMax = 1;
static thread_local int ompId = 0, ompN = 1;
struct OmpArg {
	void (*f)(void*);
	void* d;
	int id, n;
};
static void* ompWorker(void* p)
{
	OmpArg a = *(OmpArg*)p;
	ompId = a.id;
	ompN = a.n;
	a.f(a.d);
	return nullptr;
}
extern "C" {
void omp_set_num_threads(int n) { ompMax = n; }
int omp_get_num_threads() { return ompN; }
int omp_get_max_threads() { return ompMax; }
int omp_get_thread_num() { return ompId; }
void GOMP_parallel(void (*f)(void*), void* d, unsigned n, unsigned)
{
	int N = n ? n : ompMax;
	std::vector<pthread_t> t(N);
	std::vector<OmpArg> a(N);
	for (int i = 1; i < N; ++i) {
		a[i] = { f, d, i, N };
		pthread_create(&t[i], 0, ompWorker, &a[i]);
	}
	int oi = ompId, on = ompN;
	ompId = 0;
	ompN = N;
	f(d);
	ompId = oi;
	ompN = on;
	for (int i = 1; i < N; ++i)
		pthread_join(t[i], 0);
}
// work sharing by a shared counter, should the schedule clause change
struct Loop {
	long next = 0, end = 0, incr = 1, chunk = 1;
	int in = 0;
	bool open = false;
};
static Loop L;
static bool loopNext(long* a, long* b)
{
	sched::point();
	if (L.next >= L.end)
		return false;
	*a = L.next;
	*b = std::min(L.end, L.next + L.chunk * L.incr);
	L.next = *b;
	return true;
}
bool GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long* a, long* b)
{
	if (!L.open) {
		L.open = true;
		L.next = s;
		L.end = e;
		L.incr = i;
		L.chunk = c;
	}
	return loopNext(a, b);
}
bool GOMP_loop_nonmonotonic_dynamic_next(long* a, long* b) { return loopNext(a, b); }
bool GOMP_loop_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return GOMP_loop_nonmonotonic_dynamic_start(s, e, i, c, a, b); }
bool GOMP_loop_dynamic_next(long* a, long* b) { return loopNext(a, b); }
void GOMP_loop_end_nowait()
{
	if (++L.in == ompN)
		L = Loop();
}
}
#else
#define NAME "serial"
struct Helper {
	Book& b;
	SizeType tasks() const { return b.N; }
	void doTask(SizeType i, SizeType t) { b.task(i, t); }
};
#endif
void mc::explore()
{
#ifndef _OPENMP
	for (size_t N = 0; N <= 12; ++N) {
		for (int how = 0; how < 4; ++how)
			mc::run("NoPthreadsNg how=" + std::to_string(how) + " N=" + std::to_string(N), [=]() {
				Book b(N, 1);
				Helper h { b };
				CodeSectionParams cs(1);
				if (how < 2) {
					Parallelizer<Helper> p(cs);
					if (how == 0)
						p.loopCreate(h);
					else
						p.loopCreate(h, LoadBalancerDefault(N, 1));
				} else {
					Parallelizer<Helper, LoadBalancerWeights> p(cs);
					VS w(N);
					for (size_t i = 0; i < N; ++i)
						w[i] = i * i % 5;
					if (how == 2)
						p.loopCreate(h, w);
					else
						p.loopCreate(h, LoadBalancerWeights(w, 1));
				}
				b.after();
			});
	}
	for (size_t T = 2; T <= 4; ++T)
		mc::run("refused T=" + std::to_string(T), [=]() {
			CodeSectionParams cs(T);
			mc::mustThrow([&]() { Parallelizer<Helper> p(cs); }, "threads without support for them");
			mc::mustThrow([&]() { Parallelizer2<> p(cs); }, "threads without support for them");
			mc::mustThrow([&]() { Concurrency::setOptions(cs); }, "threads without support for them");
			mc::mustThrow([&]() { Concurrency c(0, 0, T); }, "threads without support for them");
		});
	const size_t TT = 1;
#else
	const size_t TT = 4;
#endif
	for (size_t T = 1; T <= TT; ++T)
		for (size_t start = 0; start < 3; ++start)
			for (size_t N = 0; N <= 6; ++N)
				mc::run(std::string("Parallelizer2 ") + NAME + " start=" + std::to_string(start) + " N=" + std::to_string(N) + " T=" + std::to_string(T), [=]() {
					int bound = start ? 1 : (mc::thorough() ? (T < 4 ? 3 : 2) : (T <= 2 ? 3 : T == 3 && N < 6 ? 2 : 1));
					sched::exploreAll(bound, [=]() {
						Book b(N, T, start);
						CodeSectionParams cs(T);
						Parallelizer2<> p(cs);
						p.parallelFor(start, start + N, [&](SizeType i, SizeType t) { b.task(i, t); });
						b.after();
					});
				});
}
