// T03: the load balancers as partitions of the tasks
#include "mc.h"
#include <algorithm>
#include "LoadBalancerDefault.h"
#include "LoadBalancerMpi.h"
#include "LoadBalancerWeights.h"
using namespace PsimagLite;
typedef std::vector<SizeType> VS;

// what the loops do with a balancer; the tasks of each worker
template <typename B> std::vector<VS> blocks(const B& b, SizeType N, SizeType T, bool may)
{
	std::vector<VS> r(T);
	for (SizeType t = 0; t < T; ++t) {
		SizeType n = b.blockSize(t);
		mc::check(n <= N, "a block is larger than the number of tasks");
		bool past = false;
		for (SizeType p = 0; p < n; ++p) {
			long i = (long)b.taskNumber(t, p);
			mc::check(i >= 0, "negative task number");
			if ((SizeType)i >= N) {
				mc::check(may, "task number out of range");
				past = true; // the loops stop here
				continue;
			}
			mc::check(!past, "a valid task after the end of the block");
			r[t].push_back(i);
		}
	}
	return r;
}
static void partition(const std::vector<VS>& r, SizeType N, SizeType T)
{
	std::vector<int> seen(N, 0);
	for (SizeType t = 0; t < T; ++t)
		for (SizeType i : r[t])
			mc::check(++seen[i] == 1, "task " + std::to_string(i) + " is given out twice");
	for (SizeType i = 0; i < N; ++i)
		mc::check(seen[i] == 1, "task " + std::to_string(i) + " is lost");
	// with fewer tasks than workers the loops only start as many workers as tasks
	for (SizeType t = std::min(N, T); t < T; ++t)
		mc::check(r[t].empty(), "work for a worker that is not started");
}
static SizeType lpt(VS w, SizeType T)
{
	std::sort(w.rbegin(), w.rend());
	VS l(T, 0);
	for (SizeType x : w)
		*std::min_element(l.begin(), l.end()) += x;
	return *std::max_element(l.begin(), l.end());
}
template <typename B> void equalBlocks(const char* name, SizeType N, SizeType T)
{
	mc::run(std::string(name) + " N=" + std::to_string(N) + " T=" + std::to_string(T), [=]() {
		B b(N, T);
		auto r = blocks(b, N, T, true);
		partition(r, N, T);
		SizeType mx = 0, mn = N;
		for (auto& x : r) {
			mx = std::max(mx, (SizeType)x.size());
			mn = std::min(mn, (SizeType)x.size());
		}
		mc::fold(mx * 1000 + mn);
		// fixed block size: the smallest that covers all tasks
		mc::check(mx <= (N + T - 1) / T, "the fullest worker has " + std::to_string(mx) + " tasks");
	});
}
static void weighted(const VS& w, SizeType T)
{
	mc::run("weights " + mc::str(w) + " T=" + std::to_string(T), [=]() {
		SizeType N = w.size();
		VS w0 = w;
		LoadBalancerWeights b(w0, T);
		mc::check(w0 == w, "the weights were changed");
		auto r = blocks(b, N, T, false);
		partition(r, N, T);
		SizeType mx = 0;
		for (auto& x : r) {
			SizeType l = 0;
			for (SizeType i : x)
				l += w[i];
			mx = std::max(mx, l);
			mc::fold(l);
		}
		SizeType bound = lpt(w, T);
		mc::check(mx <= bound, "heaviest load " + std::to_string(mx) + " over the greedy bound " + std::to_string(bound));
	});
}
static void all(SizeType n, SizeType m, SizeType T, const VS& alphabet)
{
	VS v(n, 0);
	for (;;) {
		VS w(n);
		for (SizeType i = 0; i < n; ++i)
			w[i] = alphabet[v[i]];
		weighted(w, T);
		SizeType i = 0;
		while (i < n && ++v[i] == m)
			v[i++] = 0;
		if (i == n)
			break;
	}
}
void mc::explore()
{
	SizeType NN = mc::thorough() ? 200 : 80, TT = mc::thorough() ? 70 : 40;
	for (SizeType N = 0; N <= NN; ++N)
		for (SizeType T = 1; T <= TT; ++T) {
			equalBlocks<LoadBalancerDefault>("default", N, T);
			equalBlocks<LoadBalancerMpi>("mpi", N, T);
			mc::run("equal weights N=" + std::to_string(N) + " T=" + std::to_string(T), [=]() {
				LoadBalancerWeights b(N, T);
				auto r = blocks(b, N, T, false);
				partition(r, N, T);
				SizeType mx = 0, mn = N;
				for (auto& x : r) {
					mx = std::max(mx, (SizeType)x.size());
					mn = std::min(mn, (SizeType)x.size());
				}
				mc::fold(mx * 1000 + mn);
				mc::check(mx - mn <= 1, "one worker has two or more tasks over another");
			});
		}
	for (SizeType T = 1; T <= 6; ++T) {
		for (SizeType n = 0; n <= (mc::thorough() ? 7u : 6u); ++n)
			all(n, 4, T, { 0, 1, 2, 5 });
		for (SizeType n = 0; n <= (mc::thorough() ? 10u : 8u); ++n)
			all(n, 3, T, { 1, 3, 4 });
		for (SizeType n = 0; n <= 4; ++n)
			all(n, 7, T, { 0, 1, 2, 3, 4, 7, 11 });
		for (SizeType n = 1; n <= 3; ++n)
			all(n, 3, T, { 1, (SizeType)1 << 33, ((SizeType)1 << 33) + 1 });
	}
}
