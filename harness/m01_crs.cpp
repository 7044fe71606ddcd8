// M01: sparse matrices against dense tables.
#include "crs_util.h"
#include "Io/IoNg.h"
#include "Io/IoSelector.h"
#include "SampleCRSMatrix.h"
using namespace PsimagLite;
typedef std::complex<double> Z;

template <typename T> void unary(const D<T>& d)
{
	typedef CrsMatrix<T> C;
	const Matrix<T> full = toPsi(d);
	// constructions
	C a(full);
	sameCrs(a, d, "construct from dense");
	C p = toCrs(d);
	sameCrs(p, d, "construct by pushing");
	mc::check(a == p, "two constructions of the same matrix differ");
	C f;
	f = toCrs(model::pat<T>(2, 2, 15)); // not empty before
	fullMatrixToCrsMatrix(f, full);
	sameCrs(f, d, "fullMatrixToCrsMatrix");
	model::same(fromPsi(a.toDense()), d, "toDense");
	Matrix<T> m2(1, 5, T(7));
	crsMatrixToFullMatrix(m2, a);
	model::same(fromPsi(m2), d, "crsMatrixToFullMatrix");
	C cp(a);
	mc::check(cp == a, "copy differs");
	int nz = 0;
	for (auto& v : d.a)
		nz += v != T(0);
	mc::eq((int)a.nonZeros(), nz, "nonZeros");
	mc::eq((int)a.rows(), d.r, "rows");
	mc::eq((int)a.cols(), d.c, "cols");
	if (d.r == d.c && nz) {
		// triplets, in row order, reversed and rotated
		std::vector<std::array<int, 2>> pos;
		for (int i = 0; i < d.r; ++i)
			for (int j = 0; j < d.c; ++j)
				if (d(i, j) != T(0))
					pos.push_back({ i, j });
		for (int how = 0; how < 3; ++how) {
			typename PsimagLite::Vector<SizeType>::Type rows, cols;
			typename PsimagLite::Vector<T>::Type vals;
			for (size_t k = 0; k < pos.size(); ++k) {
				size_t q = how == 0 ? k : how == 1 ? pos.size() - 1 - k : (k + pos.size() / 2) % pos.size();
				rows.push_back(pos[q][0]);
				cols.push_back(pos[q][1]);
				vals.push_back(d(pos[q][0], pos[q][1]));
			}
			C t(d.r, rows, cols, vals);
			sameCrs(t, d, "construct from triplets order " + mc::str(how));
		}
	}
	// adjoint
	for (int rev = 0; rev < 2; ++rev) {
		C src = toCrs(d, rev, rev), t;
		transposeConjugate(t, src);
		sameCrs(t, model::tc(d), "transposeConjugate");
		sameCrs(src, d, "transposeConjugate: operand");
		C tt;
		transposeConjugate(tt, t);
		sameCrs(tt, d, "transposeConjugate twice");
	}
	// conj, scaling
	C b = a;
	b.conjugate();
	sameCrs(b, model::conjm(d), "conjugate");
	for (T s : { T(0), T(2), T(-1) }) {
		b = a;
		b *= s;
		sameCrs(b, model::scale(d, s), "operator*=");
		C e;
		e = s * a;
		sameCrs(e, model::scale(d, s), "s*A");
		C e2(s * a);
		sameCrs(e2, model::scale(d, s), "ctor from s*A");
		e = toCrs(model::pat<T>(2, 3, 63));
		e = s * a;
		sameCrs(e, model::scale(d, s), "s*A over a nonempty destination");
	}
	// predicates
	bool zero = nz == 0;
	mc::eq(isZero(a), zero, "isZero");
	double mx = 0, n2 = 0;
	for (auto& v : d.a) {
		mx = std::max(mx, std::abs(v));
		n2 += std::norm(std::complex<double>(v));
	}
	if (!zero)
		mc::eq(isZero(a, mx * 1.01), true, "isZero with a large tolerance");
	if (!zero)
		mc::eq(isZero(a, mx * 0.99), false, "isZero with a small tolerance");
	mc::near((double)norm2(a), n2, 1e-14, "norm2");
	bool diag = d.r == d.c, herm = d.r == d.c, anti = d.r == d.c, iden = d.r == d.c;
	for (int i = 0; i < d.r && d.r == d.c; ++i)
		for (int j = 0; j < d.c; ++j) {
			if (i != j && d(i, j) != T(0))
				diag = false;
			if (d(i, j) != T(i == j))
				iden = false;
			if (d(i, j) != model::cj(d(j, i)))
				herm = false;
			if (d(i, j) != -model::cj(d(j, i)))
				anti = false;
		}
	for (int z = 0; z < 3; ++z) {
		C q = toCrs(d, z > 0, z == 2);
		mc::eq(isDiagonal(q), diag, "isDiagonal");
		mc::eq(isTheIdentity(q), iden, "isTheIdentity");
		mc::eq(isHermitian(q), herm, "isHermitian");
		mc::eq(isAntiHermitian(q), anti, "isAntiHermitian");
		mc::eq(isZero(q), zero, "isZero with stored zeros");
	}
	// text round trip, into empty and nonempty objects
	if (d.r > 0) {
		for (int z = 0; z < 2; ++z) {
			C w = toCrs(d, z);
			std::ostringstream o;
			o.precision(17);
			o << w << " 42";
			for (int pre = 0; pre < 2; ++pre) {
				std::istringstream in(o.str());
				C back;
				if (pre)
					back = toCrs(model::pat<T>(4, 4, 65535));
				in >> back;
				sameCrs(back, d, "text round trip");
				mc::check(back == w, "text round trip: representation");
				int rest = 0;
				in >> rest;
				mc::eq(rest, 42, "text round trip consumes too much or too little");
			}
		}
	}
	// products with vectors
	for (int k = 0; k < 2; ++k) {
		typename PsimagLite::Vector<T>::Type v(d.c), x0(d.r), x, want(d.r);
		for (int j = 0; j < d.c; ++j)
			v[j] = model::Gen<T>::v(3 * j + 7 * k);
		for (int i = 0; i < d.r; ++i) {
			x0[i] = model::Gen<T>::v(2 * i + 1);
			for (int j = 0; j < d.c; ++j)
				want[i] += d(i, j) * v[j];
		}
		typename PsimagLite::Vector<T>::Type y(7, T(9));
		multiply(y, a, v);
		mc::eq((int)y.size(), d.r, "multiply vector: size");
		for (int i = 0; i < d.r; ++i)
			mc::near(Z(y[i]), Z(want[i]), 1e-13, "multiply vector");
		if (d.r == d.c) {
			x = x0;
			a.matrixVectorProduct(x, v);
			for (int i = 0; i < d.r; ++i)
				mc::near(Z(x[i]), Z(want[i] + x0[i]), 1e-13, "matrixVectorProduct");
			SampleCRSMatrix<T> sm((SizeType)d.r);
			int cnt = 0;
			for (int i = 0; i < d.r; ++i) {
				sm.setRow(i, cnt);
				for (int j = 0; j < d.c; ++j)
					if (d(i, j) != T(0)) {
						sm.pushCol(j);
						sm.pushValue(d(i, j));
						++cnt;
					}
			}
			sm.setRow(d.r, cnt);
			x = x0;
			sm.matrixVectorProduct(x, v);
			for (int i = 0; i < d.r; ++i)
				mc::near(Z(x[i]), Z(want[i] + x0[i]), 1e-13, "SampleCRS matrixVectorProduct");
			std::ostringstream o;
			o.precision(17);
			o << sm;
			std::istringstream in(o.str());
			SampleCRSMatrix<T> sm2(in);
			mc::eq((int)sm2.rank(), d.r, "SampleCRS round trip rank");
			for (int i = 0; i <= d.r; ++i)
				mc::eq(sm2.getRowPtr(i), sm.getRowPtr(i), "SampleCRS round trip rowptr");
			for (int i = 0; i < cnt; ++i) {
				mc::eq(sm2.getCol(i), sm.getCol(i), "SampleCRS round trip col");
				mc::near(Z(sm2.getValues(i)), Z(sm.getValues(i)), 1e-15, "SampleCRS round trip value");
			}
		}
	}
	// clear, resize, swap
	C s1 = a, s2 = toCrs(model::pat<T>(3, 2, 37));
	s1.swap(s2);
	sameCrs(s2, d, "swap");
	sameCrs(s1, model::pat<T>(3, 2, 37), "swap");
	s1.resize(d.r, d.c);
	sameCrs(s1, D<T>(d.r, d.c), "resize is a zero matrix");
	s2.clear();
	mc::check(s2.rows() == 0 && s2.cols() == 0 && s2.nonZeros() == 0, "clear");
	if (d.r == d.c) {
		C dg = a;
		dg.makeDiagonal(d.r + 1, T(3));
		sameCrs(dg, model::scale(model::eye<T>(d.r + 1), T(3)), "makeDiagonal");
		C dz;
		dz.makeDiagonal(d.r);
		sameCrs(dz, D<T>(d.r, d.r), "makeDiagonal zero");
	}
	// inequality
	for (int k = 0; k < d.r * d.c; ++k) {
		D<T> e = d;
		e.a[k] = e.a[k] + T(1);
		mc::check(!(toCrs(e) == a), "matrices that differ compare equal");
	}
}

template <typename T> void binary(const D<T>& da, const D<T>& db, bool heavy)
{
	typedef CrsMatrix<T> C;
	const C a = toCrs(da), b = toCrs(db, heavy, heavy);
	auto ops = [&](const char* w) {
		sameCrs(a, da, std::string(w) + ": left operand changed");
		sameCrs(b, db, std::string(w) + ": right operand changed");
	};
	if (da.c == db.r) {
		C c;
		multiply(c, a, b);
		sameCrs(c, model::mul(da, db), "multiply", 1e-14);
		C c2 = a * b;
		sameCrs(c2, model::mul(da, db), "A*B", 1e-14);
		C c3 = toCrs(model::pat<T>(3, 3, 273));
		c3 = a * b;
		sameCrs(c3, model::mul(da, db), "C=A*B", 1e-14);
		// chained with a sparse operand with unsorted columns
		if (db.r == db.c) {
			C c4;
			multiply(c4, c, b);
			sameCrs(c4, model::mul(model::mul(da, db), db), "(A*B)*B", 1e-13);
		}
		ops("multiply");
	}
	if (da.c == db.c) {
		Matrix<T> m = multiplyTc(a, b);
		model::same(fromPsi(m), model::mul(da, model::tc(db)), "multiplyTc", 1e-14);
		ops("multiplyTc");
	}
	const T two = T(2), mone = T(-1);
	for (int k = 0; k < 3; ++k) {
		T s1 = k == 0 ? T(1) : two, s2 = k == 0 ? T(1) : k == 1 ? mone : T(0);
		C c = toCrs(model::pat<T>(2, 2, 9));
		operatorPlus(c, a, s1, b, s2);
		sameCrs(c, model::add(da, db, s1, s2), "operatorPlus", 1e-14);
	}
	{
		std::vector<const C*> ms { &a, &b };
		std::vector<T> vs { two, mone };
		C c = toCrs(model::pat<T>(2, 2, 9));
		sum(c, ms, vs);
		sameCrs(c, model::add(da, db, two, mone), "sum of two", 1e-14);
		std::vector<const C*> ms3 { &b, &a, &b };
		std::vector<T> vs3 { two, mone, T(0.5) };
		sum(c, ms3, vs3);
		sameCrs(c, model::add(da, db, mone, T(2.5)), "sum of three", 1e-14);
		std::vector<const C*> ms1 { &b };
		std::vector<T> vs1 { T(1) };
		sum(c, ms1, vs1);
		sameCrs(c, db, "sum of one");
	}
	ops("sums");
	if (da.r == da.c && db.r == db.c) {
		C c = a;
		c += b;
		sameCrs(c, model::add(da, db), "A+=B", 1e-14);
		c = a;
		c += two * b;
		sameCrs(c, model::add(da, db, T(1), two), "A+=s*B", 1e-14);
		c = a;
		c += c;
		sameCrs(c, model::scale(da, two), "A+=A", 1e-14);
		if (da.r == db.r) {
			c = a;
			c += two * a * b;
			sameCrs(c, model::add(da, model::mul(da, db), T(1), two), "C+=s*A*B", 1e-14);
			c = a;
			c = c * b;
			sameCrs(c, model::mul(da, db), "A=A*B", 1e-14);
			c = b;
			c = a * c;
			sameCrs(c, model::mul(da, db), "B=A*B", 1e-14);
		}
		ops("compound");
	}
}

// all operation sequences over two registers
template <typename T> void sequences(int n, int depth)
{
	typedef CrsMatrix<T> C;
	const int NOPS = 12;
	std::vector<std::pair<int, int>> inits { { 0, 0 }, { 3, 5 }, { 1, 6 }, { 9, 15 }, { 2, 4 } };
	for (auto init : inits) {
		uint64_t total = model::ipow(NOPS, depth);
		for (uint64_t s = 0; s < total; ++s) {
			std::string key = std::string("seq ") + model::Gen<T>::name() + " n=" + mc::str(n) + " init=" + mc::str(init.first) + "," + mc::str(init.second) + " ops=";
			uint64_t q = s;
			for (int k = 0; k < depth; ++k, q /= NOPS)
				key += (char)('a' + q % NOPS);
			mc::run(key, [&]() {
				D<T> da = model::pat<T>(n, n, init.first), db = model::pat<T>(n, n, init.second, 2);
				C a = toCrs(da), b = toCrs(db);
				uint64_t q = s;
				for (int k = 0; k < depth; ++k, q /= NOPS) {
					T two(2);
					switch (q % NOPS) {
					case 0: a += b; da = model::add(da, db); break;
					case 1: a = a * b; da = model::mul(da, db); break;
					case 2: { C t; transposeConjugate(t, a); a = t; da = model::tc(da); break; }
					case 3: a.swap(b); std::swap(da, db); break;
					case 4: a *= T(-1); da = model::scale(da, T(-1)); break;
					case 5: a = two * b; da = model::scale(db, two); break;
					case 6: a += two * b; da = model::add(da, db, T(1), two); break;
					case 7: a += two * a * b; da = model::add(da, model::mul(da, db), T(1), two); break;
					case 8: { std::ostringstream o; o.precision(17); o << a; std::istringstream i(o.str()); i >> b; db = da; break; }
					case 9: { C t(a.toDense()); a = t; break; }
					case 10: { Matrix<T> m = b.toDense(); fullMatrixToCrsMatrix(a, m); da = db; break; }
					case 11: a.makeDiagonal(n, T(1)); da = model::eye<T>(n); break;
					}
					sameCrs(a, da, "A after step " + mc::str(k + 1), 1e-12);
					sameCrs(b, db, "B after step " + mc::str(k + 1), 1e-12);
				}
			});
		}
	}
}

struct VerySparse {
	typedef double value_type;
	int r, c;
	std::vector<std::array<int, 2>> p;
	std::vector<double> v;
	bool s = true;
	bool sorted() const { return s; }
	SizeType nonZeros() const { return v.size(); }
	SizeType rows() const { return r; }
	SizeType cols() const { return c; }
	SizeType getRow(SizeType k) const { return p[k][0]; }
	SizeType getColumn(SizeType k) const { return p[k][1]; }
	double getValue(SizeType k) const { return v[k]; }
};

template <typename T> void hdf5(int r, int c, int bits1, int bits2)
{
	typedef CrsMatrix<T> C;
	mc::run(std::string("hdf5 ") + model::Gen<T>::name() + mc::str(r) + "x" + mc::str(c) + " " + mc::str(bits1) + " then read into/overwrite " + mc::str(bits2), [&]() {
		D<T> d1 = model::pat<T>(r, c, bits1), d2 = model::pat<T>(r, c, bits2, 1);
		C a = toCrs(d1), b = toCrs(d2);
		{
			IoNg::Out o("f.hd5", IoNg::ACC_TRUNC);
			o.write(a, "a");
			o.write(b, "b");
		}
		IoNg::In in("f.hd5");
		C x, y = b; // y is not empty before the read
		in.read(x, "a");
		in.read(y, "a");
		sameCrs(x, d1, "hdf5 round trip");
		sameCrs(y, d1, "hdf5 round trip into a nonempty matrix");
		in.read(y, "b");
		sameCrs(y, d2, "hdf5 second matrix");
	});
}

template <typename T> void all()
{
	std::string N = model::Gen<T>::name();
	auto al = model::Gen<T>::alpha();
	int maxn = mc::thorough() ? 3 : 3;
	for (int r = 1; r <= maxn; ++r)
		for (int c = 1; c <= maxn; ++c) {
			if (r * c <= (N == "z" ? 6 : 6)) {
				for (uint64_t n = 0; n < model::ipow(al.size(), r * c); ++n) {
					D<T> d = model::nth(r, c, n, al);
					mc::run("unary " + N + toS(d), [&]() { unary(d); });
				}
			} else if (mc::thorough() && N == "d") {
				for (uint64_t n = 0; n < model::ipow(al.size(), r * c); ++n) {
					D<T> d = model::nth(r, c, n, al);
					mc::run("unary " + N + toS(d), [&]() { unary(d); });
				}
			}
			for (uint64_t n = 0; n < (1u << r * c); ++n) {
				D<T> d = model::pat<T>(r, c, n);
				mc::run("unary " + N + toS(d), [&]() { unary(d); });
				D<T> u(r, c);
				for (int k = 0; k < r * c; ++k)
					if (n >> k & 1)
						u.a[k] = 1;
				mc::run("unary " + N + toS(u), [&]() { unary(u); });
			}
		}
	mc::run("unary " + N + " larger shapes", [&]() {
		for (int r : { 1, 5, 8, 33 })
			for (int c : { 1, 5, 9, 64 })
				for (int st = 0; st < 6; ++st) {
					D<T> d(r, c);
					for (int i = 0; i < r; ++i)
						for (int j = 0; j < c; ++j) {
							bool on = st == 0 ? (i + j) % 3 == 0 : st == 1 ? i == j : st == 2 ? (i % 2 && j % 3 == 1) : st == 3 ? i == r - 1 : st == 4 ? j == c - 1 : (i * 7 + j * 5) % 4 == 0;
							if (on)
								d(i, j) = model::Gen<T>::v(i * c + j);
						}
					unary(d);
				}
	});
	// every element there, every size
	for (int n = 1; n <= 17; ++n)
		mc::run("full " + N + " n=" + mc::str(n), [&]() {
			D<T> d(n, n);
			for (int i = 0; i < n * n; ++i)
				d.a[i] = model::Gen<T>::v(i % 7);
			unary(d);
			D<T> e(n, n + 3);
			for (int i = 0; i < n * (n + 3); ++i)
				e.a[i] = model::Gen<T>::v(i % 11);
			unary(e);
		});
	// elements of every magnitude
	for (int x = 1; x < 16; ++x)
		mc::run("magnitudes " + N + " A=" + mc::str(x), [&]() {
			for (double f : { 1e-150, 1e-100, 1e-50, 1e-20, 1e-13, 1e-8, 1e-5, 1e-3, 1e5, 1e20, 1e100, 1e140 }) {
				const D<T> d = model::scale(model::pat<T>(2, 2, x), T(f));
				const Matrix<T> m = toPsi(d);
				CrsMatrix<T> a(m), b;
				sameCrs(a, d, "from a full matrix of small or large elements");
				fullMatrixToCrsMatrix(b, m);
				sameCrs(b, d, "fullMatrixToCrsMatrix of small or large elements");
				mc::eq(isZero(a), false, "isZero of small or large elements");
				std::ostringstream o;
				o.precision(17);
				o << a;
				std::istringstream in(o.str());
				in >> b;
				mc::check(b == a, "text round trip of small or large elements");
				{
					const D<T> off = model::pat<T>(2, 2, x & 6);
					double biggest = 0;
					for (auto& v : off.a)
						biggest = std::max(biggest, (double)PsimagLite::norm(v));
					if (f > 1e-120 && f < 1e120) {
						const double size = std::is_same<T, double>::value ? f * biggest : f * f * biggest;
						mc::eq(isDiagonal(a, size * 1.01), true, "isDiagonal with a tolerance above the elements");
						if (biggest > 0)
							mc::eq(isDiagonal(a, size * 0.99), false, "isDiagonal with a tolerance below the elements");
					}
				}
			}
		});
	// larger pairs: banded, striped, single entries, full, with empty rows and columns
	auto styled = [](int r, int c, int st) {
		D<T> d(r, c);
		for (int i = 0; i < r; ++i)
			for (int j = 0; j < c; ++j) {
				bool on = st == 0 ? true : st == 1 ? i == j : st == 2 ? std::abs(i - j) < 2 : st == 3 ? (i % 2 && j % 3 == 1) : st == 4 ? i == r - 1 : st == 5 ? j == c - 1 : st == 6 ? (i * 7 + j * 5) % 4 == 0 : st == 7 ? i + j == r - 1 : i == 0 && j == c - 1;
				if (on)
					d(i, j) = model::Gen<T>::v((i * 5 + j * 3 + st) % 7);
			}
		return d;
	};
	for (int r : { 1, 4, 6, 17, 40 })
		for (int k : { 1, 5, 6, 16, 33 })
			for (int c : { 2, 6, 16, 70 })
				for (int st = 0; st < 9; ++st)
					mc::run("larger pairs " + N + " " + mc::str(r) + "," + mc::str(k) + "," + mc::str(c) + " A=" + mc::str(st), [&]() {
						for (int st2 = 0; st2 < 9; ++st2)
							binary(styled(r, k, st), styled(k, c, st2), st2 & 1);
						for (int st2 = 0; st2 < 9; ++st2)
							binary(styled(r, k, st), styled(r, k, st2), st2 & 1);
						for (int st2 = 0; st2 < 9 && r == k; ++st2)
							binary(styled(r, r, st), styled(c, c, st2), st2 & 1);
					});
	// sums of many sparse rows: rows held by both, by one and by none of the operands
	auto rowsOf = [](int n, int st) {
		D<T> d(n, n);
		for (int i = 0; i < n; ++i)
			for (int k = 0; k < 3; ++k) {
				const bool on = st == 0 ? (i % 2 == 0 && k == 0) : st == 1 ? (i % 3 == 1 && k == 0) : st == 2 ? k < i % 4 : st == 3 ? k < (n - i) % 3 : st == 4 ? (i == n - 1 && k == 0) : st == 5 ? (i > n / 2 && k == 0) : st == 6 ? k == 0 : false;
				if (on)
					d(i, (i * 7 + k * (n / 3) + st) % n) = model::Gen<T>::v((i * 5 + k * 3 + st) % 7);
			}
		return d;
	};
	for (int n : { 41, 64, 100, 130, 260 })
		for (int st = 0; st < 8; ++st)
			mc::run("sums of sparse rows " + N + " " + mc::str(n) + " A=" + mc::str(st), [&]() {
				const D<T> da = rowsOf(n, st);
				const CrsMatrix<T> a = toCrs(da);
				const T two = T(2), mone = T(-1);
				for (int st2 = 0; st2 < 8; ++st2) {
					const D<T> db = rowsOf(n, st2);
					const CrsMatrix<T> b = toCrs(db);
					CrsMatrix<T> c, e = a;
					operatorPlus(c, a, two, b, mone);
					sameCrs(c, model::add(da, db, two, mone), "operatorPlus");
					std::vector<const CrsMatrix<T>*> ms { &a, &b };
					std::vector<T> vs { mone, two };
					sum(c, ms, vs);
					sameCrs(c, model::add(da, db, mone, two), "sum of two");
					e += b;
					sameCrs(e, model::add(da, db, T(1), T(1)), "A+=B");
					e = a;
					e += two * b;
					sameCrs(e, model::add(da, db, T(1), two), "A+=s*B");
					mc::tick();
				}
				CrsMatrix<T> t;
				transposeConjugate(t, a);
				sameCrs(t, model::tc(da), "transposeConjugate");
			});
	// pairs
	for (int r = 1; r <= 3; ++r)
		for (int k = 1; k <= 3; ++k)
			for (int c = 1; c <= 3; ++c) {
				int na = r * k, nb = k * c;
				if (na + nb > (mc::thorough() ? 18 : N == "d" ? 13 : 12) && !(na == 9 && nb == 9))
					continue;
				for (uint64_t x = 0; x < (1u << na); ++x) {
					if (na == 9 && nb == 9 && !mc::thorough() && x % 7 != 3 && x != 0 && x != 511)
						continue;
					mc::run("pairs " + N + " " + mc::str(r) + "x" + mc::str(k) + "." + mc::str(k) + "x" + mc::str(c) + " A=" + mc::str(x), [&]() {
						for (uint64_t y = 0; y < (1u << nb); ++y)
							binary(model::pat<T>(r, k, x), model::pat<T>(k, c, y, 4), (x + y) & 1);
						mc::tick();
					});
				}
			}
	for (uint64_t x = 0; x < model::ipow(al.size(), 4); ++x)
		mc::run("pairs2x2 alphabet " + N + " A=" + mc::str(x), [&]() {
			for (uint64_t y = 0; y < model::ipow(al.size(), 4); ++y)
				binary(model::nth(2, 2, x, al), model::nth(2, 2, y, al), false);
		});
	// square sums of different sizes
	for (int r = 1; r <= 3; ++r)
		for (int c = 1; c <= 3; ++c)
			if (r != c)
				for (uint64_t x = 0; x < (1u << std::min(9, r * r)); x += r == 3 ? 5 : 1)
					mc::run("different sizes " + N + mc::str(r) + " " + mc::str(c) + " A=" + mc::str(x), [&]() {
						for (uint64_t y = 0; y < (1u << std::min(9, c * c)); y += c == 3 ? 5 : 1)
							binary(model::pat<T>(r, r, x), model::pat<T>(c, c, y, 3), false);
					});
	sequences<T>(2, mc::thorough() ? 4 : 3);
	for (int x = 0; x < 16; ++x)
		for (int y = 0; y < 16; ++y)
			if (mc::thorough() || x < 4 || y < 4 || (x + y) % 3 == 0)
				hdf5<T>(2, 2, x, y);
	for (int x = 0; x < 64; ++x)
		hdf5<T>(2, 3, x, 63 - x);
}

void mc::explore()
{
	all<double>();
	all<Z>();
	for (uint64_t n = 0; n < 512; ++n)
		mc::run("from sorted very sparse " + mc::str(n), [&]() {
			for (int pre = 0; pre < 2; ++pre) {
				D<double> d = model::pat<double>(3, 3, n);
				VerySparse v { 3, 3, {}, {} };
				for (int i = 0; i < 9; ++i)
					if (n >> i & 1) {
						v.p.push_back({ i / 3, i % 3 });
						v.v.push_back(d.a[i]);
					}
				CrsMatrix<double> a;
				if (pre)
					a = toCrs(model::pat<double>(4, 4, 65535));
				a = v;
				sameCrs(a, d, "assign from a sorted triplet list");
				v.s = false;
				mc::mustThrow([&]() { a = v; }, "unsorted list");
			}
		});
	// empty matrices survive text
	mc::run("empty matrix text round trip", [&]() {
		CrsMatrix<double> e, x = toCrs(model::pat<double>(2, 2, 15));
		std::ostringstream o;
		o << e;
		std::istringstream i(o.str());
		i >> x;
		mc::eq((int)x.rows(), 0, "rows");
		mc::eq((int)x.nonZeros(), 0, "nonZeros");
	});
	mc::run("empty matrix hdf5", [&]() {
		CrsMatrix<double> e, x = toCrs(model::pat<double>(2, 2, 15));
		{
			IoNg::Out o("f.hd5", IoNg::ACC_TRUNC);
			o.write(e, "e");
		}
		IoNg::In in("f.hd5");
		in.read(x, "e");
		mc::eq((int)x.rows(), 0, "rows");
		mc::eq((int)x.nonZeros(), 0, "nonZeros");
		CrsMatrix<double> y;
		mc::check(x == y, "an empty matrix read back differs from an empty matrix");
	});
	// random sample matrices: whatever it holds, it is a function of its arguments and multiplies linearly
	for (int rank = 1; rank <= 5; ++rank)
		for (int nz = 1; nz <= 7; ++nz)
			for (int seed = 0; seed < 12; ++seed)
				mc::run("SampleCRS rank=" + mc::str(rank) + " nz=" + mc::str(nz) + " seed=" + mc::str(seed), [&]() {
					srand48(seed);
					D<double> d(rank, rank);
					for (int i = 0; i < nz; ++i) {
						int r = int(drand48() * rank), c = int(drand48() * rank);
						d(r, c) += drand48() * 3.0;
					}
					SampleCRSMatrix<double> s((SizeType)rank, (SizeType)seed, (SizeType)nz, 3.0);
					mc::eq((int)s.getRowPtr(0), 0, "first row pointer");
					mc::eq((int)s.getRowPtr(rank), nz, "last row pointer");
					for (int j = 0; j < rank; ++j) {
						std::vector<double> x(rank, 0), y(rank, 0);
						PsimagLite::Vector<double>::Type xx(rank, 0), yy(rank, 0);
						yy[j] = 1;
						s.matrixVectorProduct(xx, yy);
						for (int i = 0; i < rank; ++i)
							mc::near(xx[i], d(i, j), 1e-14, "column " + mc::str(j));
					}
				});
}
