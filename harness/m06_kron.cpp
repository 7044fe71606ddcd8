// M06: tensor products and block embeddings against their elementwise definition.
#include "crs_util.h"
#include <algorithm>
#include <numeric>
using namespace PsimagLite;
typedef std::complex<double> Z;
using model::same;
typedef PsimagLite::Vector<SizeType>::Type VS;
typedef PsimagLite::Vector<double>::Type VR;

// B[p(iA,ie)][p(jA,ie)] = A[iA][jA] (times sign of the slow... see DESIGN) on the product basis
template <typename T> D<T> eyeModel(const D<T>& A, int n, const VR& signs, bool order, const VS& perm)
{
	int N = n * A.r;
	D<T> B(N, N);
	for (int ia = 0; ia < A.r; ++ia)
		for (int ja = 0; ja < A.c; ++ja)
			for (int e = 0; e < n; ++e) {
				int row = order ? ia + e * A.r : e + ia * n;
				int col = order ? ja + e * A.r : e + ja * n;
				// the sign belongs to the states left of A: only there if A is the slow factor
				B(perm[row], perm[col]) = A(ia, ja) * T(order ? 1.0 : signs[e]);
			}
	return B;
}
template <typename T> D<T> prodModel(const D<T>& A, const D<T>& B, const VR& signs, bool order, const VS& perm)
{
	int N = A.r * B.r;
	D<T> C(N, N);
	for (int ia = 0; ia < A.r; ++ia)
		for (int ja = 0; ja < A.r; ++ja)
			for (int ib = 0; ib < B.r; ++ib)
				for (int jb = 0; jb < B.r; ++jb) {
					int row = order ? ia + ib * A.r : ib + ia * B.r;
					int col = order ? ja + jb * A.r : jb + ja * B.r;
					C(perm[row], perm[col]) = A(ia, ja) * B(ib, jb) * T(order ? signs[ia] : signs[ib]);
				}
	return C;
}
VS permN(int N, int which)
{
	VS p(N);
	std::iota(p.begin(), p.end(), 0);
	for (int i = 0; i < which; ++i)
		std::next_permutation(p.begin(), p.end());
	return p;
}
int fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
VR signsN(int n, int bits)
{
	VR s(n);
	for (int i = 0; i < n; ++i)
		s[i] = bits >> i & 1 ? -1 : 1;
	return s;
}

template <typename T> void all()
{
	std::string N = model::Gen<T>::name();
	typedef CrsMatrix<T> C;
	// A x identity
	for (int na = 1; na <= 3; ++na)
		for (int n = 1; n <= 3; ++n) {
			int full = na * n;
			int np = full <= 4 ? fact(full) : full == 6 ? (mc::thorough() ? 720 : 60) : 24;
			for (uint64_t bits = 0; bits < (1u << na * na); ++bits)
				mc::run("A x identity " + N + " na=" + mc::str(na) + " n=" + mc::str(n) + " A=" + mc::str(bits), [&]() {
					D<T> d = model::pat<T>(na, na, bits);
					C a = toCrs(d);
					for (int w = 0; w < np; ++w) {
						VS p = permN(full, full <= 4 ? w : w * 11);
						for (int sg = 0; sg < (1 << n); ++sg)
							for (int order = 0; order < 2; ++order) {
								VR s = signsN(n, sg);
								C b;
								if (w & 1)
									b = toCrs(model::pat<T>(2, 2, 15));
								externalProduct(b, a, n, s, order, p);
								sameCrs(b, eyeModel(d, n, s, order, p), "A x identity");
								if (na == 3 && n == 3 && w)
									break;
							}
					}
					sameCrs(a, d, "operand changed");
				});
		}
	// A x B
	for (int na = 1; na <= 3; ++na)
		for (int nb = 1; nb <= 3; ++nb) {
			if (na + nb > 5)
				continue;
			int full = na * nb;
			for (uint64_t x = 0; x < (1u << na * na); ++x)
				mc::run("A x B " + N + " na=" + mc::str(na) + " nb=" + mc::str(nb) + " A=" + mc::str(x), [&]() {
					D<T> da = model::pat<T>(na, na, x);
					C a = toCrs(da, x & 1, x & 2);
					for (uint64_t y = 0; y < (1u << nb * nb); y += (nb == 3 && !mc::thorough() ? 3 : 1)) {
						D<T> db = model::pat<T>(nb, nb, y, 4);
						C b = toCrs(db);
						for (int order = 0; order < 2; ++order) {
							int ns = order ? na : nb;
							int np = full <= 4 ? fact(full) : 8;
							for (int w = 0; w < np; ++w) {
								VS p = permN(full, full <= 4 ? w : w * 97 % fact(full));
								for (int sg = 0; sg < (1 << ns); ++sg) {
									if (full >= 4 && w && (sg + w) % 3)
										continue;
									VR s = signsN(ns, sg);
									C c;
									externalProduct(c, a, b, s, order, p);
									sameCrs(c, prodModel(da, db, s, order, p), "A x B");
								}
							}
						}
						sameCrs(b, db, "operand changed");
					}
					sameCrs(a, da, "operand changed");
					mc::tick();
				});
		}
	// dense outer product, also rectangular and empty
	for (int r1 = 0; r1 <= 3; ++r1)
		for (int c1 = 0; c1 <= 2; ++c1)
			for (int r2 = 0; r2 <= 2; ++r2)
				for (int c2 = 0; c2 <= 3; ++c2)
					for (uint64_t x = 0; x < (1u << r1 * c1); ++x)
						mc::run("dense outer " + N + mc::str(r1) + "x" + mc::str(c1) + " " + mc::str(r2) + "x" + mc::str(c2) + " A=" + mc::str(x), [&]() {
							for (uint64_t y = 0; y < (1u << r2 * c2); ++y) {
								D<T> da = model::pat<T>(r1, c1, x), db = model::pat<T>(r2, c2, y, 3);
								D<T> w(r1 * r2, c1 * c2);
								for (int i1 = 0; i1 < r1; ++i1)
									for (int j1 = 0; j1 < c1; ++j1)
										for (int i2 = 0; i2 < r2; ++i2)
											for (int j2 = 0; j2 < c2; ++j2)
												w(i1 + i2 * r1, j1 + j2 * c1) = da(i1, j1) * db(i2, j2);
								Matrix<T> A, B = toPsi(da), Cc = toPsi(db);
								outerProduct(A, B, Cc);
								same(fromPsi(A), w, "outerProduct");
							}
						});
	// block into a larger matrix
	for (int n = 1; n <= 3; ++n)
		for (int big = n; big <= n + 3; ++big)
			for (int off = 0; off + n <= big; ++off)
				for (uint64_t x = 0; x < (1u << n * n); ++x)
					mc::run("block " + N + " n=" + mc::str(n) + " full=" + mc::str(big) + " offset=" + mc::str(off) + " B=" + mc::str(x), [&]() {
						D<T> d = model::pat<T>(n, n, x), w(big, big);
						for (int i = 0; i < n; ++i)
							for (int j = 0; j < n; ++j)
								w(i + off, j + off) = d(i, j);
						C b = toCrs(d), full(big, big);
						fromBlockToFull(full, b, off);
						sameCrs(full, w, "fromBlockToFull");
						D<T> junk = model::pat<T>(big, big, 0x5a5a5);
						C full2 = toCrs(junk);
						fromBlockToFull(full2, b, off);
						sameCrs(full2, w, "fromBlockToFull over other contents");
						sameCrs(b, d, "operand changed");
					});
	// larger blocks and outer products
	for (int n : { 4, 9, 16, 33 })
		for (int big : { n, n + 1, n + 17, 2 * n, 4 * n })
			for (int off : { 0, 1, (big - n) / 2, big - n })
				if (off + n <= big)
					mc::run("larger block " + N + " n=" + mc::str(n) + " full=" + mc::str(big) + " offset=" + mc::str(off), [&]() {
						for (int st = 0; st < 5; ++st) {
							D<T> d(n, n), w(big, big);
							for (int i = 0; i < n; ++i)
								for (int j = 0; j < n; ++j)
									if (st == 0 || (st == 1 && i == j) || (st == 2 && (i + 2 * j) % 3 == 0) || (st == 3 && i == n - 1) || (st == 4 && j == 0))
										d(i, j) = w(i + off, j + off) = model::Gen<T>::v((i * 5 + j) % 7);
							C b = toCrs(d), full(big, big);
							fromBlockToFull(full, b, off);
							sameCrs(full, w, "fromBlockToFull");
						}
					});
	for (int r1 : { 1, 5, 8 })
		for (int c1 : { 1, 4, 16 })
			for (int r2 : { 2, 7 })
				for (int c2 : { 1, 9 })
					mc::run("larger dense outer " + N + mc::str(r1) + "x" + mc::str(c1) + " " + mc::str(r2) + "x" + mc::str(c2), [&]() {
						D<T> da(r1, c1), db(r2, c2), w(r1 * r2, c1 * c2);
						for (int i = 0; i < r1 * c1; ++i)
							da.a[i] = model::Gen<T>::v((i * 3 + 1) % 8);
						for (int i = 0; i < r2 * c2; ++i)
							db.a[i] = model::Gen<T>::v((i * 5 + 2) % 9);
						for (int i1 = 0; i1 < r1; ++i1)
							for (int j1 = 0; j1 < c1; ++j1)
								for (int i2 = 0; i2 < r2; ++i2)
									for (int j2 = 0; j2 < c2; ++j2)
										w(i1 + i2 * r1, j1 + j2 * c1) = da(i1, j1) * db(i2, j2);
						Matrix<T> A, B = toPsi(da), Cc = toPsi(db);
						outerProduct(A, B, Cc);
						same(fromPsi(A), w, "outerProduct");
					});
	// larger factors: identities of tensor algebra (A x 1)(1 x B) = A x B
	for (int na : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 16 })
		for (int nb : { 1, 2, 3, 4, 5, 6, 7, 8, 10, 17 })
			for (int w = 0; w < 6; ++w)
				mc::run("larger factors " + N + " " + mc::str(na) + " " + mc::str(nb) + " " + mc::str(w), [&]() {
					D<T> da(na, na), db(nb, nb);
					for (int i = 0; i < na * na; ++i)
						da.a[i] = (i * 5 + w) % 3 ? T(0) : model::Gen<T>::v(i % 11);
					for (int i = 0; i < nb * nb; ++i)
						db.a[i] = (i * 7 + w) % 2 ? T(0) : model::Gen<T>::v(i % 13);
					int full = na * nb;
					VS p(full);
					for (int i = 0; i < full; ++i)
						p[i] = w == 0 ? i : w == 1 ? full - 1 - i : (i * (full % 7 ? 7 : 11) + w) % full; // coprime to full
					C a = toCrs(da), b = toCrs(db);
					for (int order = 0; order < 2; ++order) {
						VR s(order ? na : nb), s1(nb);
						for (size_t i = 0; i < s.size(); ++i)
							s[i] = (i * 3 + w) % 2 ? -1 : 1;
						for (size_t i = 0; i < s1.size(); ++i)
							s1[i] = (i + w) % 3 ? -1 : 1;
						C c;
						externalProduct(c, a, b, s, order, p);
						sameCrs(c, prodModel(da, db, s, order, p), "A x B");
						C e;
						externalProduct(e, a, nb, s1, order, p);
						sameCrs(e, eyeModel(da, nb, s1, order, p), "A x identity");
					}
				});
}
void mc::explore()
{
	all<double>();
	all<Z>();
	mc::run("A x identity refuses a non-square matrix", [&]() {
		CrsMatrix<double> a = toCrs(model::pat<double>(2, 3, 63)), b;
		VS p = permN(6, 0);
		mc::mustThrow([&]() { externalProduct(b, a, 2, signsN(2, 1), true, p); }, "externalProduct");
	});
}
