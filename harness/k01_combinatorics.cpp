// K01: the enumerators against brute-force listings of the sets they describe.
#include <cassert>
#include "AllocatorCpu.h"
#include "BitManip.h"
#include "Vector.h"
#include "PackIndices.h"
#include "Permutations.h"
#include "SumDecomposition.h"
#include "mc.h"
#include <algorithm>
#include <climits>
#include <cassert>
#include <set>
#include <sstream>
using namespace PsimagLite;
typedef PsimagLite::Vector<SizeType>::Type VS;

static std::vector<int> digits(int64_t c, int n, int base)
{
	std::vector<int> v(n);
	for (int i = 0; i < n; ++i, c /= base)
		v[i] = c % base;
	return v;
}
static int64_t power(int b, int e)
{
	int64_t r = 1;
	while (e--)
		r *= b;
	return r;
}

template <typename C> void permutations(const std::vector<int>& v)
{
	typedef typename C::value_type T;
	C orig;
	for (int x : v)
		orig.push_back(T(x));
	// every distinct arrangement, found by trying all words over the letters
	std::set<std::vector<int>> all;
	std::vector<int> s = v;
	std::sort(s.begin(), s.end());
	std::vector<int> used(v.size()), w;
	std::function<void()> rec = [&]() {
		if (w.size() == s.size()) {
			all.insert(w);
			return;
		}
		for (size_t i = 0; i < s.size(); ++i) {
			if (used[i] || (i && s[i] == s[i - 1] && !used[i - 1]))
				continue;
			used[i] = 1;
			w.push_back(s[i]);
			rec();
			w.pop_back();
			used[i] = 0;
		}
	};
	rec();
	Permutations<C> p(orig);
	mc::eq((size_t)p.size(), v.size(), "size");
	size_t count = 0;
	for (auto& want : all) {
		std::vector<int> got;
		for (SizeType i = 0; i < p.size(); ++i)
			got.push_back(p[i]);
		mc::eq(mc::str(got), mc::str(want), "arrangement " + mc::str(count));
		std::ostringstream o;
		o << p;
		std::string text;
		for (int x : want)
			text += mc::str(x) + " ";
		mc::eq(o.str(), text, "printed arrangement");
		++count;
		mc::eq(p.increase(), count < all.size(), "more after arrangement " + mc::str(count));
	}
	for (int k = 0; k < 2; ++k) { // it stays at the end
		mc::eq(p.increase(), false, "past the end");
		for (SizeType i = 0; i < p.size(); ++i)
			mc::eq((int)p[i], (*all.rbegin())[i], "last arrangement kept");
	}
	for (size_t i = 0; i < v.size(); ++i)
		mc::check((int)orig[i] == v[i], "the original is left alone");
}

static void decompositions(int total, int sum)
{
	// in order, all words over 0..sum of that length and sum
	std::vector<std::vector<int>> all;
	std::vector<int> w(total);
	std::function<void(int, int)> rec = [&](int i, int left) {
		if (i == total) {
			if (left == 0)
				all.push_back(w);
			return;
		}
		for (int x = 0; x <= sum; ++x)
			if (x <= left) {
				w[i] = x;
				rec(i + 1, left - x);
			}
	};
	rec(0, sum);
	SumDecomposition a(total, sum);
	mc::eq((size_t)a.size(), all.size(), "number of decompositions");
	mc::eq((size_t)a.storedSize(), all.size(), "stored");
	std::string text = mc::str(all.size()) + "\n";
	for (size_t i = 0; i < all.size(); ++i) {
		std::vector<int> got(a(i).begin(), a(i).end());
		mc::eq(mc::str(got), mc::str(all[i]), "decomposition " + mc::str(i));
		text += mc::str(all[i].size()) + "\n";
		for (int x : all[i])
			text += mc::str(x) + "\n";
		text += "\n";
	}
	mc::mustThrow([&] { a(all.size()); }, "one past the last");
	std::ostringstream o;
	o << a;
	mc::eq(o.str(), text, "printed");
	SumDecomposition c(total, sum, SumDecomposition::SEL_SIZE);
	mc::eq((size_t)c.size(), all.size(), "counting only");
	mc::eq((size_t)c.storedSize(), (size_t)0, "counting stores nothing");
	mc::mustThrow([&] { c(0); }, "an element of a count");
	for (int k = -1; k <= (int)all.size() + 1; ++k) {
		SumDecomposition one(total, sum, SumDecomposition::SEL_INDEX, k);
		mc::eq((size_t)one.size(), all.size(), "size with a selection");
		if (k >= 0 && k < (int)all.size()) {
			mc::eq((size_t)one.storedSize(), (size_t)1, "one stored");
			std::vector<int> got(one(0).begin(), one(0).end());
			mc::eq(mc::str(got), mc::str(all[k]), "selection " + mc::str(k));
			mc::mustThrow([&] { one(1); }, "a second one");
		}
		else
			mc::eq((size_t)one.storedSize(), (size_t)0, "selection outside");
	}
}

static void packing(int n, int m, const std::vector<int>& perm)
{
	PackIndices pack(n);
	VS inv(perm.begin(), perm.end());
	std::vector<int> seen(n * m);
	for (int ind = 0; ind < n * m; ++ind) {
		SizeType x = 77, y = 77;
		pack.unpack(x, y, ind);
		mc::check((int)x < n && (int)y < m && (int)(x + y * n) == ind, "unpack " + mc::str(ind));
		SizeType back = pack.pack(x, y, inv);
		mc::eq((int)back, perm[ind], "pack of the unpacked");
		++seen[back];
	}
	for (int s : seen)
		mc::eq(s, 1, "each packed once");
}

static int bits(unsigned long v)
{
	int c = 0;
	for (int i = 0; i < 64; ++i)
		c += v >> i & 1;
	return c;
}
static void bitcheck(unsigned long v)
{
	int b = bits(v);
	if (BitManip::count(v) != b || (int)BitManip::countKernighan(v) != b)
		mc::fail("bits of " + mc::str(v) + ": " + mc::str(BitManip::count(v)) + " and "
		         + mc::str(BitManip::countKernighan(v)) + ", there are " + mc::str(b));
	mc::g().transitions += 2;
}

void mc::explore()
{
	const int maxN = mc::thorough() ? 8 : 7;
	for (int n = 0; n <= maxN; ++n) // words over few letters: multisets in any order
		for (int64_t c = 0, all = power(n <= 5 ? 5 : 3, n); c < all; ++c) {
			auto v = digits(c, n, n <= 5 ? 5 : 3);
			mc::run("permutations of " + mc::str(v), [&] { permutations<VS>(v); });
			if (n <= 4)
				mc::run("permutations (int) of " + mc::str(v), [&] { permutations<PsimagLite::Vector<int>::Type>(v); });
		}
	for (int n = 5; n <= maxN; ++n) { // all different, in three orders
		std::vector<int> v(n);
		for (int i = 0; i < n; ++i)
			v[i] = 3 * i + 1;
		mc::run("permutations of " + mc::str(v), [&] { permutations<VS>(v); });
		std::reverse(v.begin(), v.end());
		mc::run("permutations of " + mc::str(v), [&] { permutations<VS>(v); });
		std::rotate(v.begin(), v.begin() + 2, v.end());
		mc::run("permutations of " + mc::str(v), [&] { permutations<VS>(v); });
	}
	// longer multisets of few letters, every split of the length, and values of any size
	const int most = mc::thorough() ? 17 : 13;
	for (int n = 8; n <= most; ++n)
		for (int k = 0; k <= n; ++k) {
			std::vector<int> v(n);
			for (int i = 0; i < n; ++i)
				v[i] = (i * k / n != (i + 1) * k / n) ? 2147483647 - k : k;
			mc::run("permutations of " + mc::str(v), [&] { permutations<VS>(v); });
		}
	for (int a = 0; a <= (mc::thorough() ? 5 : 4); ++a)
		for (int b = 0; b <= 4; ++b)
			for (int c = 0; c <= 4; ++c) {
				if (a + b + c < 8)
					continue;
				std::vector<int> v;
				for (int i = 0; i < 5; ++i) {
					if (i < a)
						v.push_back(5);
					if (i < b)
						v.push_back(0);
					if (i < c)
						v.push_back(1000000);
				}
				mc::run("permutations of " + mc::str(v), [&] { permutations<VS>(v); });
			}
	for (int n = maxN + 1; n <= maxN + 2; ++n) {
		std::vector<int> v(n);
		for (int i = 0; i < n; ++i)
			v[i] = (5 * i + 2) % n;
		mc::run("permutations of " + mc::str(v), [&] { permutations<VS>(v); });
	}
	const std::vector<std::pair<int, int>> wide { { 2, 40 }, { 2, 300 }, { 3, 20 }, { 3, 33 }, { 4, 12 }, { 5, 9 }, { 9, 3 }, { 10, 2 }, { 12, 2 }, { 20, 1 }, { 1, 500 }, { 40, 1 }, { 15, 0 } };
	for (auto& w : wide)
		mc::run("decompositions of " + mc::str(w.second) + " into " + mc::str(w.first), [&] { decompositions(w.first, w.second); });
	const int big = mc::thorough() ? 8 : 6;
	for (int total = 0; total <= big; ++total)
		for (int sum = 0; sum <= big; ++sum)
			mc::run("decompositions of " + mc::str(sum) + " into " + mc::str(total), [&] { decompositions(total, sum); });
	for (int n = 1; n <= 6; ++n)
		for (int m = 1; m <= 6; ++m) {
			std::vector<int> p(n * m);
			for (int i = 0; i < n * m; ++i)
				p[i] = i;
			if (n * m <= 6) {
				do
					mc::run("packing " + mc::str(n) + "x" + mc::str(m) + " by " + mc::str(p), [&] { packing(n, m, p); });
				while (std::next_permutation(p.begin(), p.end()));
				continue;
			}
			for (int r = 0; r < n * m; ++r) {
				mc::run("packing " + mc::str(n) + "x" + mc::str(m) + " by " + mc::str(p), [&] { packing(n, m, p); });
				std::rotate(p.begin(), p.begin() + 1, p.end());
			}
		}
	for (int n = 1; n <= 33; n += n < 10 ? 3 : 8) // larger ones: strided and reversed arrangements
		for (int m = 1; m <= 40; m += m < 7 ? 3 : 11)
			for (int step : { 1, 7, 11, 101, 257 }) {
				std::vector<int> p;
				int q = n * m;
				for (int b = step; b;) {
					const int c = q % b;
					q = b;
					b = c;
				}
				if (q > 1)
					continue; // not a permutation
				for (int i = 0; i < n * m; ++i)
					p.push_back((int64_t)i * step % (n * m));
				mc::run("packing " + mc::str(n) + "x" + mc::str(m) + " step " + mc::str(step), [&] { packing(n, m, p); });
				std::reverse(p.begin(), p.end());
				mc::run("packing " + mc::str(n) + "x" + mc::str(m) + " step -" + mc::str(step), [&] { packing(n, m, p); });
			}
	for (int n : { 1, 3, 1000, 65536, 100003 }) // large indices, up to the type's limit
		mc::run("unpacking by " + mc::str(n), [&] {
			PackIndices pack(n);
			for (uint64_t i : std::vector<uint64_t> { 0, 1, 999, 65535, 65536, 2147483647ull, 2147483648ull, 4294967295ull }) {
				SizeType x, y;
				pack.unpack(x, y, i);
				mc::check(x < (SizeType)n && (uint64_t)x + (uint64_t)y * n == i, "unpack " + mc::str(i));
			}
		});
	// all 16-bit words, at every 16-bit shift of the long one, with and without ones around
	for (int hi = 0; hi < 256; ++hi)
		mc::run("bits " + mc::str(hi), [&] {
			for (unsigned long lo = 0; lo < 256; ++lo) {
				unsigned long v = (unsigned long)hi << 8 | lo;
				for (int s = 0; s < 49; s += 8) {
					bitcheck(v << s);
					bitcheck(~(v << s));
				}
				for (unsigned long w : { 0xfffful, 0x0101ul, 0x8000ul })
					bitcheck(v | w << 16 | v << 32 | w << 48);
			}
		});
	mc::run("bits of all pairs of positions", [&] {
		for (int i = 0; i < 64; ++i)
			for (int j = 0; j < 64; ++j) {
				bitcheck(1ul << i | 1ul << j);
				bitcheck((1ul << i) - (1ul << j));
			}
	});
}
