// K02: sorting with an index map, and the search helper, against their definitions.
#include "Vector.h"
#include "Sort.h"
#include "mc.h"
#include <algorithm>
using namespace PsimagLite;
typedef PsimagLite::Vector<SizeType>::Type VS;

template <typename T> T letter(int k) { return T(k); }
template <> double letter<double>(int k)
{
	static double v[] = { -1e300, -0.5, 0.25, 3, 1e-300 };
	return k < 5 ? v[k] : k * 1.5;
}
template <> int letter<int>(int k)
{
	static int v[] = { -2147483647 - 1, -1, 0, 5 };
	return k < 4 ? v[k] : k;
}
template <> SizeType letter<SizeType>(int k)
{
	static SizeType v[] = { 0, 1, 7, 4294967295u };
	return k < 4 ? v[k] : k;
}
template <> std::string letter<std::string>(int k)
{
	static std::string v[] = { "", "a", "aa", "b" };
	return k < 4 ? v[k] : std::string(k, 'c');
}
template <typename V> std::string show(const V& v)
{
	std::string s = "[";
	for (auto& x : v)
		s += mc::str(x) + " ";
	return s + "]";
}

// sorting the first n of x: the contract
template <typename T, typename A> void sorted(const std::vector<int>& code, int n, bool whole)
{
	std::vector<T, A> x;
	for (int c : code)
		x.push_back(letter<T>(c));
	const std::vector<T, A> orig = x;
	VS perm(n, 12345);
	::PsimagLite::Sort<std::vector<T, A>> s;
	if (whole)
		s.sort(x, perm);
	else
		s.sort(x, perm, n);
	++mc::g().transitions;
	if (x.size() != orig.size() || (int)perm.size() != n)
		mc::fail("sizes changed");
	std::vector<int> seen(n);
	for (int i = 0; i < n; ++i) {
		mc::fold((uint64_t)code[i]);
		if (i && x[i] < x[i - 1])
			mc::fail("not in order: " + show(x));
		if ((int)perm[i] >= n || seen[perm[i]]++)
			mc::fail("not a permutation: " + show(perm));
		if (!(x[i] == orig[perm[i]]))
			mc::fail("position " + mc::str(i) + " does not hold element " + mc::str(perm[i]));
	}
	for (size_t i = n; i < x.size(); ++i)
		if (!(x[i] == orig[i]))
			mc::fail("element " + mc::str(i) + " beyond the sorted part changed");
	// the search helper, on both
	for (int k = 0; k < 6; ++k) {
		T v = letter<T>(k);
		int first = -1, firstSorted = -1;
		for (int i = (int)orig.size() - 1; i >= 0; --i) {
			if (orig[i] == v)
				first = i;
			if (x[i] == v)
				firstSorted = i;
		}
		++mc::g().transitions;
		if (indexOrMinusOne(orig, v) != first || indexOrMinusOne(x, v) != firstSorted)
			mc::fail("position of " + mc::str(v) + " in " + show(orig) + ": " + mc::str(indexOrMinusOne(orig, v)));
	}
}
template <typename T> void both(const std::string& type, const std::vector<int>& code)
{
	mc::run(type + " " + mc::str(code), [&] {
		const int n = code.size();
		sorted<T, typename Allocator<T>::Type>(code, n, true);
		sorted<T, std::allocator<T>>(code, n, true);
		for (int k = 1; k <= n; ++k)
			sorted<T, typename Allocator<T>::Type>(code, k, false);
	});
}

void mc::explore()
{
	const int maxLen = mc::thorough() ? 8 : 7;
	for (int n = 0; n <= maxLen; ++n) {
		int64_t all = 1;
		for (int i = 0; i < n; ++i)
			all *= 4;
		for (int64_t c = 0; c < all; ++c) {
			std::vector<int> code(n);
			int64_t q = c;
			for (int i = 0; i < n; ++i, q /= 4)
				code[i] = q % 4;
			both<SizeType>("size", code);
			if (n <= maxLen - 1) {
				both<double>("double", code);
				both<int>("int", code);
			}
			if (n <= maxLen - 2)
				both<std::string>("string", code);
		}
	}
	// longer ones, with every period, direction, rotation step and one displaced element
	const int big = mc::thorough() ? 130 : 50;
	for (int n = 9; n <= big; n += n < 40 ? 1 : 5)
		for (int period = 1; period <= n; period += period < 8 ? 1 : 7)
			for (int shape = 0; shape < 4; ++shape)
				for (int rot = 0; rot < n; rot += 1 + n / 5) {
					std::vector<int> code(n);
					for (int i = 0; i < n; ++i) {
						int j = (i + rot) % n;
						code[i] = shape == 0 ? j % period : shape == 1 ? (n - j) % period : shape == 2 ? std::min(j, n - j) % period : j * 7 % period;
					}
					both<SizeType>("size", code);
					both<double>("double", code);
				}
	// a few much longer ones
	for (int n : { 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 2049 })
		for (int shape = 0; shape < 6; ++shape) {
			std::vector<int> code(n);
			for (int i = 0; i < n; ++i)
				code[i] = shape == 0 ? i : shape == 1 ? n - 1 - i : shape == 2 ? (i * 7919 + 13) % n : shape == 3 ? i % 2 : shape == 4 ? (i * i) % 17 : i / 2 + (i % 2 ? n / 2 : 0);
			mc::run("long " + mc::str(n) + " shape " + mc::str(shape), [&] {
				sorted<SizeType, typename Allocator<SizeType>::Type>(code, n, true);
				sorted<double, typename Allocator<double>::Type>(code, n, true);
				sorted<int, std::allocator<int>>(code, n, true);
				for (int k : { 1, 2, 63, 64, n / 2, n - 1 })
					sorted<double, std::allocator<double>>(code, k, false);
			});
		}
}
