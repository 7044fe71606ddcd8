// T01: the older Pthreads.h interface (a function that receives its block)
#include "t01_body.h"
#include "Vector.h"
#include "PthreadsAndMpi.h"
#include "NoPthreads.h"
using namespace PsimagLite;
struct Old {
	Book& b;
	long* shared;
	void thread_function_(SizeType threadNum, SizeType blockSize, SizeType total, pthread_mutex_t* m)
	{
		for (SizeType p = 0; p < blockSize; ++p) {
			SizeType i = threadNum * blockSize + p;
			if (i >= total)
				break;
			b.task(i, threadNum);
			if (m)
				pthread_mutex_lock(m);
			long x = *shared;
			sched::point();
			*shared = x + (1 << i);
			if (m)
				pthread_mutex_unlock(m);
		}
	}
};
template <typename P> void one(const std::string& name, size_t N, size_t T, int B)
{
	mc::run(name + " N=" + std::to_string(N) + " T=" + std::to_string(T), [=]() {
		sched::exploreAll(B, [=]() {
			Book b(N, T);
			long shared = 0;
			Old o { b, &shared };
			P p(T);
			mc::check(p.threads() == T, "threads()");
			p.loopCreate(N, o);
			b.after();
			mc::check(shared == (1 << N) - 1, "an update under the loop's mutex was lost");
		});
	});
}
void mc::explore()
{
	std::ofstream null("/dev/null");
	auto* e = std::cerr.rdbuf(null.rdbuf());
	auto* o = std::cout.rdbuf(null.rdbuf());
	for (size_t T = 1; T <= 4; ++T)
		for (size_t N = 0; N <= (mc::thorough() ? 5u : 4u); ++N) {
			int B = mc::thorough() ? (T <= 2 ? 4 : T == 3 ? 3 : 2) : (T <= 2 ? 3 : T == 3 ? 2 : 1);
			one<Pthreads<Old>>("Pthreads", N, T, B);
			one<PthreadsAndMpi<Old>>("PthreadsAndMpi", N, T, T <= 2 ? 2 : 1);
			if (T == 1)
				one<NoPthreads<Old>>("NoPthreads", N, T, 1);
		}
	for (size_t T = 1; T <= 3; ++T)
		for (size_t N = 0; N <= T + 1; ++N)
			for (uint64_t fail = 0; fail < (1ull << T); ++fail)
				mc::run("Pthreads no thread N=" + std::to_string(N) + " T=" + std::to_string(T) + " fail=" + std::to_string(fail), [=]() {
					sched::exploreAll(2, [=]() {
						Book b(N, T);
						long shared = 0;
						Old o { b, &shared };
						Pthreads<Old> p(T);
						withFailures(b, fail, [&]() { p.loopCreate(N, o); });
					});
				});
	std::cerr.rdbuf(e);
	std::cout.rdbuf(o);
}
