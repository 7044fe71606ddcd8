// T04 in a build without MPI: one rank, every call leaves its data as it is
#include "mc.h"
#include "Concurrency.h"
#include "InterNode.h"
#include <complex>
using namespace PsimagLite;
namespace M = PsimagLite::MPI;
template <typename T> void still(const std::string& name, T v)
{
	mc::run("serial " + name, [=]() {
		T x = v;
		M::bcast(x);
		mc::check(x == v, "bcast");
		M::reduce(x);
		mc::check(x == v, "reduce");
		M::allReduce(x);
		mc::check(x == v, "allReduce");
		M::pointByPointGather(x);
		mc::check(x == v, "gather");
		M::send(x, 0, 1);
		mc::check(x == v, "send");
		mc::check(M::barrier(M::COMM_WORLD) == 0, "barrier");
	});
}
void mc::explore()
{
	still<int>("int", -3);
	still<double>("double", 2.5);
	for (size_t n = 0; n < 4; ++n) {
		still<std::vector<double>>("vector n=" + std::to_string(n), std::vector<double>(n, 1.5));
		still<std::vector<std::complex<double>>>("complex vector n=" + std::to_string(n), std::vector<std::complex<double>>(n, { 1, 2 }));
	}
	for (int mode = 0; mode < 2; ++mode)
		mc::run("serial ranks " + std::to_string(mode), [=]() {
			mc::eq(M::commSize(M::COMM_WORLD), (SizeType)1, "size");
			mc::eq(M::commRank(M::COMM_WORLD), (SizeType)0, "rank");
			mc::check(!M::hasMpi(), "hasMpi");
			mc::check(Concurrency::root() && Concurrency::nprocs() == 1 && Concurrency::rank() == 0, "Concurrency");
		});
	for (SizeType s = 0; s < 4; ++s)
		for (SizeType n = 0; n < 7; ++n)
			mc::run("serial loop start=" + std::to_string(s) + " n=" + std::to_string(n), [=]() {
				InterNode<> x(M::COMM_WORLD);
				mc::eq(x.size(), (SizeType)1, "size");
				std::vector<SizeType> got;
				x.parallelFor(s, s + n, [&](SizeType i, SizeType t) {
					mc::check(t == 0, "rank");
					got.push_back(i);
				});
				std::sort(got.begin(), got.end());
				mc::eq(got.size(), (size_t)n, "number of tasks");
				for (SizeType i = 0; i < n; ++i)
					mc::eq(got[i], s + i, "task");
			});
}
