// T01, separate free-running pass under ThreadSanitizer: the scheduler's hand-overs
// would hide unsynchronised accesses inside the loops themselves
#include "mc.h"
#include <atomic>
#include "Parallelizer.h"
#include "Parallelizer2.h"
#include "LoadBalancerWeights.h"
#include "GemmR.h"
using namespace PsimagLite;
typedef std::vector<SizeType> VS;
struct Helper {
	size_t n;
	std::vector<long>& slot; // by thread number: a shared number would be a race
	std::vector<long>& out; // by task
	SizeType tasks() const { return n; }
	void doTask(SizeType i, SizeType t)
	{
		slot[t] += 1 + i;
		out[i] += 1;
	}
};
static void verify(size_t N, const std::vector<long>& slot, const std::vector<long>& out)
{
	long s = 0;
	for (long x : slot)
		s += x;
	mc::eq(s, (long)(N * (N + 1) / 2), "sum over the threads");
	for (long x : out)
		mc::eq(x, 1L, "runs of a task");
}
void mc::explore()
{
	int R = mc::thorough() ? 60 : 15;
	for (int rep = 0; rep < R; ++rep)
		for (size_t T = 1; T <= 4; ++T)
			for (size_t N = 0; N <= 9; ++N)
				mc::run("free run rep=" + std::to_string(rep) + " N=" + std::to_string(N) + " T=" + std::to_string(T), [=]() {
					CodeSectionParams cs(T);
					{
						std::vector<long> a(T), o(N);
						Helper h { N, a, o };
						Parallelizer<Helper> p(cs);
						p.loopCreate(h);
						verify(N, a, o);
					}
					{
						std::vector<long> a(T), o(N);
						Helper h { N, a, o };
						Parallelizer<Helper, LoadBalancerWeights> p(cs);
						VS w(N);
						for (size_t i = 0; i < N; ++i)
							w[i] = (i * 7 + rep) % 4;
						p.loopCreate(h, w);
						verify(N, a, o);
					}
					{
						std::vector<long> a(T), o(N);
						Parallelizer2<> p(cs);
						Concurrency::MutexType m;
						Concurrency::mutexInit(&m);
						long total = 0;
						p.parallelFor(0, N, [&](SizeType i, SizeType t) {
							a[t] += 1 + i;
							o[i] += 1;
							Concurrency::mutexLock(&m);
							total += i;
							Concurrency::mutexUnlock(&m);
						});
						Concurrency::mutexDestroy(&m);
						verify(N, a, o);
						mc::eq(total, (long)(N * (N - 1) / 2), "sum under the mutex");
					}
				});
}
