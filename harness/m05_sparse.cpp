// M05: sparse vectors and sparse rows against the dense vectors they stand for.
#include "CrsMatrix.h"
#include "SparseRow.h"
#include "SparseRowCached.h"
#include "SparseVector.h"
#include "dense.h"
#include "mc.h"
#include <memory>
using namespace PsimagLite;
typedef std::complex<double> Z;
using model::cj;

template <typename T> struct Val;
template <> struct Val<double> {
	static double v(int k)
	{
		static double x[] = { 1, -1, 0, 0.5 };
		return x[k];
	}
};
template <> struct Val<Z> {
	static Z v(int k)
	{
		static Z x[] = { { 1, 0 }, { -1, 0 }, { 0, 0 }, { 0.5, -2 } };
		return x[k];
	}
};

template <typename T> using Dv = std::vector<T>;
template <typename T> typename PsimagLite::Vector<T>::Type pv(const Dv<T>& d) { return typename PsimagLite::Vector<T>::Type(d.begin(), d.end()); }
template <typename T> bool close(const Dv<T>& a, const Dv<T>& b)
{
	bool ok = a.size() == b.size();
	for (size_t i = 0; ok && i < a.size(); ++i)
		ok = std::abs(a[i] - b[i]) < 1e-13;
	return ok;
}
template <typename T> std::string show(const Dv<T>& d)
{
	std::string s = "[";
	for (auto x : d)
		s += mc::str(x) + " ";
	return s + "]";
}
template <typename T> void same(const Dv<T>& got, const Dv<T>& want, const std::string& what)
{
	++mc::g().transitions;
	for (auto x : want) {
		mc::fold(Z(x).real());
		mc::fold(Z(x).imag());
	}
	if (!close(got, want))
		mc::fail(what + ": got " + show(got) + " expected " + show(want));
}
template <typename T> Dv<T> densify(const SparseVector<T>& s)
{
	Dv<T> d(s.size());
	for (SizeType i = 0; i < s.indices(); ++i) {
		mc::check(s.index(i) < s.size(), "index " + mc::str(s.index(i)) + " beyond the size");
		d[s.index(i)] += s.value(i);
	}
	return d;
}
struct Parts {
	std::vector<SizeType> p;
	SizeType partition() const { return p.size(); }
	SizeType partition(SizeType i) const { return p[i]; }
};

struct Op {
	char k;
	int a, b;
	std::string name;
};
template <typename T> struct Walk {
	SparseVector<T> s;
	Dv<T> d;
	bool zeroed = false;
	Walk()
	    : s(3)
	    , d(3)
	{
	}
	static SparseVector<T> aux()
	{
		SparseVector<T> x(3);
		x.add(2, Val<T>::v(0));
		x.add(0, Val<T>::v(3));
		x.add(2, Val<T>::v(0));
		return x;
	}
	bool apply(const Op& o)
	{ // false: not applicable here
		switch (o.k) {
		case 'a':
			if (o.a >= (int)d.size())
				return false;
			s.add(o.a, Val<T>::v(o.b));
			d[o.a] += Val<T>::v(o.b);
			break;
		case 'f': {
			Dv<T> c = o.a == 0 ? Dv<T> { Val<T>::v(3), T(0) } : Dv<T> { T(0), Val<T>::v(0), Val<T>::v(3) };
			int total = o.a == 2 ? 4 : 3, off = total - (int)c.size();
			s.fromChunk(pv(c), off, total);
			d.assign(total, T(0));
			for (size_t i = 0; i < c.size(); ++i)
				d[off + i] = c[i];
			break;
		}
		case '*': {
			T x = o.a == 0 ? T(0) : o.a == 1 ? T(2) : Val<T>::v(3);
			s *= x;
			zeroed |= o.a == 0;
			for (auto& y : d)
				y *= x;
			break;
		}
		case '-':
			if (d.size() != 3)
				return false;
			s -= aux();
			d[2] -= Val<T>::v(0) + Val<T>::v(0);
			d[0] -= Val<T>::v(3);
			break;
		case '=': {
			SparseVector<T> b = s;
			s -= b;
			for (auto& y : d)
				y = 0;
			break;
		}
		case '~':
			s -= s;
			for (auto& y : d)
				y = 0;
			break;
		case 'c':
			s.clear();
			d.assign(d.size(), T(0));
			break;
		case 'r':
			s.resize(o.a);
			d.assign(o.a, T(0));
			break;
		case 's': s.sort(); break;
		case 'v': { // through the dense vector
			s = SparseVector<T>(pv(d));
			break;
		}
		}
		return true;
	}
	void observe()
	{
		const int n = d.size();
		mc::eq((int)s.size(), n, "size");
		same(densify(s), d, "dense content");
		int lo = n, hi = -1; // first and last stored
		for (SizeType i = 0; i < s.indices(); ++i) {
			lo = std::min(lo, (int)s.index(i));
			hi = std::max(hi, (int)s.index(i));
		}
		typename PsimagLite::Vector<T>::Type dest(n + 1, T(7));
		s.toChunk(dest, 0, n);
		same(Dv<T>(dest.begin(), dest.end()), d, "toChunk of everything into a used vector");
		for (int i0 = 0; i0 <= n; ++i0)
			for (int t = 0; i0 + t <= n; ++t) {
				std::string w = "toChunk(" + mc::str(i0) + "," + mc::str(t) + ")";
				typename PsimagLite::Vector<T>::Type x(1, T(9));
				bool fits = hi < 0 || (i0 <= lo && hi < i0 + t), threw = false;
				try {
					s.toChunk(x, i0, t, true);
				} catch (std::exception&) {
					threw = true;
				}
				mc::check(threw != fits, w + " with test " + (threw ? "refused" : "accepted"));
				if (fits)
					same(Dv<T>(x.begin(), x.end()), Dv<T>(d.begin() + i0, d.begin() + i0 + t), w);
			}
		for (int m = 0; m < (1 << (n - 1 > 0 ? n - 1 : 0)); ++m) { // partitions of 0..n
			Parts p;
			p.p.push_back(0);
			for (int i = 1; i < n; ++i)
				if (m >> (i - 1) & 1)
					p.p.push_back(i);
			p.p.push_back(n);
			if (n == 0)
				continue;
			int part = -1;
			for (size_t k = 0; k + 1 < p.p.size(); ++k)
				if (hi >= 0 && (int)p.p[k] <= lo && hi < (int)p.p[k + 1])
					part = k;
			std::string w = "partitions " + mc::str(p.p);
			typename PsimagLite::Vector<T>::Type x(5, T(4));
			if (hi < 0) { // nothing stored: any one partition holds it
				int got = s.toChunk(x, p);
				mc::check(got >= 0 && got + 1 < (int)p.p.size(), w + ": partition of an empty vector");
				same(Dv<T>(x.begin(), x.end()), Dv<T>(p.p[got + 1] - p.p[got]), w);
				continue;
			}
			bool threw = false;
			try {
				mc::eq((int)s.findPartition(p), part, w + ": findPartition");
				mc::eq((int)s.toChunk(x, p), part, w + ": toChunk");
			} catch (std::exception&) {
				threw = true;
			}
			mc::check(threw == (part < 0), w + (threw ? " refused" : " accepted a vector over several"));
			if (part >= 0)
				same(Dv<T>(x.begin(), x.end()), Dv<T>(d.begin() + p.p[part], d.begin() + p.p[part + 1]), w);
		}
		SparseVector<T> t = s;
		t.sort();
		same(densify(t), d, "content after sort");
		int nz = 0;
		double nn = 0;
		for (auto x : d) {
			nz += std::abs(x) > 0;
			nn += std::norm(Z(x));
		}
		// a sorted vector scaled by zero keeps its entries
		mc::check((int)t.indices() >= nz && (zeroed || (int)t.indices() == nz), "entries kept by sort");
		for (SizeType i = 1; i < t.indices(); ++i)
			mc::check(t.index(i - 1) < t.index(i), "order after sort");
		mc::near(norm(t), std::sqrt(nn), 1e-13, "norm");
		bool twice = false; // an index stored more than once
		for (SizeType i = 0; i < s.indices(); ++i)
			for (SizeType j = 0; j < i; ++j)
				twice |= s.index(i) == s.index(j);
		if (!twice)
			mc::near(norm(s), std::sqrt(nn), 1e-13, "norm before sort");
		mc::eq(t.isOne(), nz <= 1, "isOne");
		SparseVector<T> u = T(2) * t;
		Dv<T> d2 = d;
		for (auto& x : d2)
			x *= T(2);
		same(densify(u), d2, "scaled copy");
		// against every vector over {0, 1, v3} of this size
		int all = 1;
		for (int i = 0; i < n; ++i)
			all *= 3;
		for (int c = 0; c < all; ++c) {
			Dv<T> e(n);
			int q = c;
			for (int i = 0; i < n; ++i, q /= 3)
				e[i] = q % 3 == 0 ? T(0) : q % 3 == 1 ? Val<T>::v(0) : Val<T>::v(3);
			SparseVector<T> b(n);
			for (int i = n - 1; i >= 0; --i) { // built backwards, in two halves
				b.add(i, e[i] * 0.5);
				b.add(i, e[i] * 0.5);
			}
			b.sort();
			mc::eq(t == b, close(d, e), "== with " + show(e));
			mc::eq(b == t, close(d, e), "== the other way with " + show(e));
			T w = 0;
			for (int i = 0; i < n; ++i)
				w += d[i] * cj(e[i]);
			mc::near(t * b, w, 1e-13, "product with " + show(e));
			mc::near(b.scalarProduct(t), cj(w), 1e-13, "product the other way with " + show(e));
		}
		SparseVector<T> other(n + 1);
		other.sort();
		mc::check(!(t == other), "equal to a vector of another size");
	}
};

template <typename T> void vectors(const std::string& type, int depth)
{
	std::vector<Op> ops;
	for (int i = 0; i < 3; ++i)
		for (int v = 0; v < 4; ++v)
			ops.push_back({ 'a', i, v, "add" + mc::str(i) + "v" + mc::str(v) });
	for (int i = 0; i < 3; ++i)
		ops.push_back({ 'f', i, 0, "chunk" + mc::str(i) });
	for (int i = 0; i < 3; ++i)
		ops.push_back({ '*', i, 0, "scale" + mc::str(i) });
	ops.push_back({ '-', 0, 0, "minus" });
	ops.push_back({ '=', 0, 0, "minuscopy" });
	ops.push_back({ '~', 0, 0, "minusself" });
	ops.push_back({ 'c', 0, 0, "clear" });
	for (int i : { 0, 2, 4 })
		ops.push_back({ 'r', i, 0, "resize" + mc::str(i) });
	ops.push_back({ 's', 0, 0, "sort" });
	ops.push_back({ 'v', 0, 0, "dense" });
	std::vector<int> seq;
	std::function<void()> rec = [&]() {
		std::string key = "vector " + type;
		for (int i : seq)
			key += " " + ops[i].name;
		mc::run(key, [&]() {
			Walk<T> w;
			for (int i : seq)
				if (!w.apply(ops[i]))
					return;
			w.observe();
		});
		if ((int)seq.size() == depth)
			return;
		for (size_t i = 0; i < ops.size(); ++i) {
			seq.push_back(i);
			rec();
			seq.pop_back();
		}
	};
	rec();
}

// all sequences of insertions into the rows of a matrix
template <typename T> void rows(const std::string& type, int maxLen)
{
	typedef CrsMatrix<T> M;
	const int n = 3;
	for (int len = 0; len <= maxLen; ++len) {
		int64_t all = 1;
		for (int i = 0; i < len; ++i)
			all *= n * 4;
		for (int64_t c = 0; c < all; ++c) {
			std::vector<std::pair<int, int>> ins;
			int64_t q = c;
			std::string key = "row " + type;
			for (int i = 0; i < len; ++i, q /= n * 4) {
				ins.push_back({ (int)(q % n), (int)(q / n % 4) });
				key += " " + mc::str(ins.back().first) + ":" + mc::str(ins.back().second);
			}
			mc::run(key, [&]() {
				Dv<T> d(n);
				for (auto& p : ins)
					d[p.first] += Val<T>::v(p.second);
				typename PsimagLite::Vector<T>::Type y(n);
				for (int i = 0; i < n; ++i)
					y[i] = T(i + 1) * Val<T>::v(3);
				T want = 0;
				for (int i = 0; i < n; ++i)
					want += d[i] * y[i];
				auto build = [&](auto& row, M& m, int& nnz) {
					for (auto& p : ins)
						row.add(p.first, Val<T>::v(p.second));
					nnz += row.finalize(m);
				};
				auto compare = [&](M& m, int nnz, const std::string& what) {
					std::vector<bool> seen(n);
					int distinct = 0;
					for (auto& p : ins)
						if (!seen[p.first]) {
							seen[p.first] = true;
							++distinct;
						}
					m.setRow(2, nnz);
					m.checkValidity();
					mc::eq(nnz, 2 * distinct, what + ": number of entries");
					mc::eq((int)m.getRowPtr(1), distinct, what + ": second row's start");
					for (int r = 0; r < 2; ++r) {
						Dv<T> got(n);
						int prev = -1;
						for (int k = m.getRowPtr(r); k < m.getRowPtr(r + 1); ++k) {
							mc::check(m.getCol(k) > prev, what + ": columns in order");
							prev = m.getCol(k);
							got[m.getCol(k)] += m.getValue(k);
						}
						same(got, d, what);
					}
				};
				{
					M m(2, n);
					int nnz = 0;
					for (int r = 0; r < 2; ++r) {
						m.setRow(r, nnz);
						SparseRow<M> row;
						build(row, m, nnz);
					}
					compare(m, nnz, "SparseRow");
				}
				{
					SparseRow<M> row;
					for (auto& p : ins)
						row.add(p.first, Val<T>::v(p.second));
					mc::near(row.matrixVectorProduct(y), want, 1e-13, "matrixVectorProduct");
					mc::near(row.finalize(y), want, 1e-13, "finalize(y)");
				}
				for (int cache = 0; cache <= 4; ++cache) {
					M m(2, n);
					int nnz = 0;
					SparseRowCached<M> row(cache); // one object for all rows
					for (int r = 0; r < 2; ++r) {
						m.setRow(r, nnz);
						build(row, m, nnz);
						for (auto& p : ins)
							row.add(p.first, Val<T>::v(p.second));
						mc::near(row.matrixVectorProduct(y), want, 1e-13, "cached matrixVectorProduct");
					}
					compare(m, nnz, "SparseRowCached(" + mc::str(cache) + ")");
				}
			});
		}
	}
}

// many entries: strides through the indices, forwards and backwards, with repeats
template <typename T> void larger(const std::string& type)
{
	for (int n : { 5, 17, 64, 300 })
		for (int stride : { 1, 2, 3, 7, 11 })
			for (int m : { 1, 4, 5, 16, 17, 33, 100, 500 })
				for (int rev = 0; rev < 2; ++rev)
					mc::run("larger " + type + " n=" + mc::str(n) + " stride=" + mc::str(stride) + " entries=" + mc::str(m) + (rev ? " backwards" : ""), [&]() {
						auto fill = [&](int salt) {
							std::vector<std::pair<int, T>> ins;
							for (int k = 0; k < m; ++k)
								ins.push_back({ int(((rev ? m - k : k) * (long)stride + salt) % n), Val<T>::v((k * k + salt) % 4) });
							return ins;
						};
						auto dense = [&](const std::vector<std::pair<int, T>>& ins) {
							Dv<T> d(n);
							for (auto& p : ins)
								d[p.first] += p.second;
							return d;
						};
						auto ia = fill(0), ib = fill(3);
						Dv<T> a = dense(ia), b = dense(ib), c(n);
						SparseVector<T> sa(n), sb(n);
						for (auto& p : ia)
							sa.add(p.first, p.second);
						for (auto& p : ib)
							sb.add(p.first, p.second);
						same(densify(sa), a, "entries as inserted");
						sa.sort();
						sb.sort();
						same(densify(sa), a, "sorted");
						for (SizeType i = 1; i < sa.indices(); ++i)
							mc::check(sa.index(i - 1) < sa.index(i), "order after sort");
						T w = 0;
						double nn = 0;
						for (int i = 0; i < n; ++i) {
							w += a[i] * cj(b[i]);
							nn += std::norm(Z(a[i]));
							c[i] = T(2) * a[i] - b[i];
						}
						mc::near(sa * sb, w, 1e-12, "product");
						mc::near(sb.scalarProduct(sa), cj(w), 1e-12, "product the other way");
						mc::near(norm(sa), std::sqrt(nn), 1e-12, "norm");
						mc::eq(sa == sb, close(a, b), "==");
						SparseVector<T> sc = T(2) * sa;
						sc -= sb;
						same(densify(sc), c, "2a - b");
						sc.sort();
						same(densify(sc), c, "2a - b, sorted");
						SparseVector<T> sd(pv(a));
						sd.sort();
						mc::check(sd == sa, "from the dense vector");
						typename PsimagLite::Vector<T>::Type dest(n, T(7));
						sa.toChunk(dest, 0, n);
						same(Dv<T>(dest.begin(), dest.end()), a, "toChunk");
						for (int off : { 0, 1, n / 2 }) {
							SparseVector<T> sf(1);
							sf.fromChunk(pv(a), off, n + off);
							Dv<T> e(n + off);
							for (int i = 0; i < n; ++i)
								e[off + i] = a[i];
							same(densify(sf), e, "fromChunk");
						}
						// rows
						for (int kind = 0; kind < 4; ++kind) {
							typedef CrsMatrix<T> M;
							M mm(3, n);
							int nnz = 0;
							SparseRowCached<M> cached(kind == 1 ? 0 : kind == 2 ? 3 : n);
							for (int r = 0; r < 3; ++r) {
								mm.setRow(r, nnz);
								auto& ins = r == 1 ? ib : ia;
								if (kind == 0) {
									SparseRow<M> row;
									for (auto& p : ins)
										row.add(p.first, p.second);
									nnz += row.finalize(mm);
								} else {
									for (auto& p : ins)
										cached.add(p.first, p.second);
									nnz += cached.finalize(mm);
								}
							}
							mm.setRow(3, nnz);
							mm.checkValidity();
							for (int r = 0; r < 3; ++r) {
								Dv<T> got(n);
								for (int k = mm.getRowPtr(r); k < mm.getRowPtr(r + 1); ++k)
									got[mm.getCol(k)] += mm.getValue(k);
								same(got, r == 1 ? b : a, "rows, kind " + mc::str(kind));
							}
						}
					});
}

void mc::explore()
{
	larger<double>("double");
	larger<Z>("complex");
	vectors<double>("double", mc::thorough() ? 4 : 3);
	vectors<Z>("complex", mc::thorough() ? 4 : 3);
	rows<double>("double", mc::thorough() ? 5 : 4);
	rows<Z>("complex", mc::thorough() ? 4 : 3);
}
