// T02: GemmR against the triple loop, over shapes, transpositions, block sizes,
// leading dimensions, threads and interleavings
#include "explorer.h"
#include "GemmR.h"
#include <complex>
#include <limits>
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef std::complex<float> C8;

// the BLAS calls are scheduling points: before and after each block product
static int pointsOn = 0;
static int calls = 0;
#define WRAP(name, T)                                                                                            \
	extern "C" void name(const char* a, const char* b, const int* m, const int* n, const int* k, const T* al, const T* A, const int* la, const T* B, const int* lb, const T* be, T* C, const int* lc) \
	{                                                                                                        \
		typedef void (*F)(const char*, const char*, const int*, const int*, const int*, const T*, const T*, const int*, const T*, const int*, const T*, T*, const int*); \
		static F r = sched::real<F>(#name);                                                              \
		++calls;                                                                                         \
		if (pointsOn)                                                                                    \
			sched::point();                                                                          \
		r(a, b, m, n, k, al, A, la, B, lb, be, C, lc);                                                   \
		if (pointsOn) {                                                                                  \
			if (sched::on())                                                                         \
				sched::observe((uint64_t)*m * 100 + *n + 7919 * sched::self->id);                \
			sched::point();                                                                          \
		}                                                                                                \
	}
namespace
{
template <typename T> T val(int r, int i);
template <> double val<double>(int r, int i) { return (r * 7 + i * 5 + (r * i) % 3) % 9 - 4; }
template <> float val<float>(int r, int i) { return val<double>(r, i); }
template <> Z val<Z>(int r, int i) { return Z(val<double>(r, i), val<double>(i + 3, r + 1)); }
template <> C8 val<C8>(int r, int i) { return C8(val<double>(r, i), val<double>(i + 3, r + 1)); }
template <typename T> T cj(T x) { return x; }
Z cj(Z x) { return std::conj(x); }
C8 cj(C8 x) { return std::conj(x); }
template <typename T> bool isnan_(T x) { return std::isnan(std::real(x)) || std::isnan(std::imag(x)); }

template <typename T> struct Case {
	char ta, tb;
	int m, n, k, la, lb, lc; // leading dimensions in excess of the least
	size_t nb, nt;
	T alpha, beta;
};
template <typename T> void runCase(const Case<T>& c)
{
	bool nA = (c.ta == 'N' || c.ta == 'n'), nB = (c.tb == 'N' || c.tb == 'n');
	bool cA = (c.ta == 'C' || c.ta == 'c'), cB = (c.tb == 'C' || c.tb == 'c');
	int ra = nA ? c.m : c.k, ca = nA ? c.k : c.m, rb = nB ? c.k : c.n, cb = nB ? c.n : c.k;
	int lda = std::max(1, ra) + c.la, ldb = std::max(1, rb) + c.lb, ldc = std::max(1, c.m) + c.lc;
	const int G = 4;
	const T nan = T(std::numeric_limits<float>::quiet_NaN());
	const T guard = T(12345);
	std::vector<T> A(G + lda * ca + G, nan), B(G + ldb * cb + G, nan), C(G + ldc * c.n + G, guard);
	for (int j = 0; j < ca; ++j)
		for (int i = 0; i < ra; ++i)
			A[G + i + j * lda] = val<T>(i, j + 1);
	for (int j = 0; j < cb; ++j)
		for (int i = 0; i < rb; ++i)
			B[G + i + j * ldb] = val<T>(i + 2, j);
	for (int j = 0; j < c.n; ++j)
		for (int i = 0; i < c.m; ++i)
			C[G + i + j * ldc] = (c.beta == T(0)) ? nan : val<T>(i + 1, j + 4);
	std::vector<T> A0 = A, B0 = B, W = C;
	for (int j = 0; j < c.n; ++j)
		for (int i = 0; i < c.m; ++i) {
			T s = 0;
			for (int p = 0; p < c.k; ++p) {
				T a = nA ? A0[G + i + p * lda] : (cA ? cj(A0[G + p + i * lda]) : A0[G + p + i * lda]);
				T b = nB ? B0[G + p + j * ldb] : (cB ? cj(B0[G + j + p * ldb]) : B0[G + j + p * ldb]);
				s += a * b;
			}
			T x = c.alpha == T(0) ? T(0) : c.alpha * s;
			W[G + i + j * ldc] = c.beta == T(0) ? x : x + c.beta * C[G + i + j * ldc];
		}
	GemmR<T> g(false, c.nb, c.nt);
	g(c.ta, c.tb, c.m, c.n, c.k, c.alpha, A.data() + G, lda, B.data() + G, ldb, c.beta, C.data() + G, ldc);
	mc::check(memcmp(A.data(), A0.data(), A.size() * sizeof(T)) == 0, "operand A was modified");
	mc::check(memcmp(B.data(), B0.data(), B.size() * sizeof(T)) == 0, "operand B was modified");
	for (size_t i = 0; i < C.size(); ++i) {
		++mc::g().transitions;
		if (isnan_(C[i]) || std::abs(C[i] - W[i]) > 1e-4 * (1 + std::abs(W[i]))) {
			int q = (int)i - G;
			mc::fail("C(" + std::to_string(q % ldc) + "," + std::to_string(q / ldc) + ") is " + mc::str(C[i]) + " expected " + mc::str(W[i]));
		}
		mc::fold((double)std::real(W[i]));
	}
}
template <typename T> std::string keyOf(const char* ty, const Case<T>& c, int bound)
{
	std::ostringstream o;
	o << "GemmR<" << ty << "> " << c.ta << c.tb << " m=" << c.m << " n=" << c.n << " k=" << c.k << " ld+=" << c.la << c.lb << c.lc
	  << " nb=" << c.nb << " nt=" << c.nt << " alpha=" << c.alpha << " beta=" << c.beta << " bound=" << bound;
	return o.str();
}
template <typename T> void one(const char* ty, const Case<T>& c, int bound, int points)
{
	mc::run(keyOf(ty, c, bound) + (points ? " points" : ""), [=]() {
		pointsOn = points;
		sched::exploreAll(bound, [=]() { runCase(c); });
		pointsOn = 0;
	});
}
template <typename T> void sweep(const char* ty, int M, std::vector<T> alphas, std::vector<T> betas, const char* tr)
{
	for (const char* a = tr; *a; ++a)
		for (const char* b = tr; *b; ++b)
			for (int m = 0; m <= M; ++m)
				for (int n = 0; n <= M; ++n)
					for (int k = 0; k <= 3; ++k)
						for (size_t nb = 0; nb <= (size_t)M; ++nb) {
							// one thread count, one pair of coefficients and one layout per shape, all of them over the shapes
							int h = m * 31 + n * 17 + k * 5 + nb * 3 + (*a) + (*b);
							Case<T> c { *a, *b, m, n, k, h % 2, (h / 2) % 3, (h / 3) % 2, nb, (size_t)(1 + h % 4), alphas[(h / 5) % alphas.size()], betas[(h / 7) % betas.size()] };
							one(ty, c, c.nt <= 3 && m + n <= 4 ? 0 : -1, 0);
						}
}
} // namespace
WRAP(dgemm_, double)
WRAP(sgemm_, float)
WRAP(zgemm_, Z)
WRAP(cgemm_, C8)

void mc::explore()
{
	int M = mc::thorough() ? 8 : 5;
	sweep<double>("double", M, { 1., -2., 0., 0.5 }, { 0., 1., -3. }, "NTC");
	sweep<Z>("complex", M, { Z(1), Z(0, 2), Z(-1, 1), Z(0) }, { Z(0), Z(1), Z(2, -1) }, "NTC");
	sweep<double>("double", 3, { 1., 3. }, { 0., 1. }, "ntcN");
	sweep<float>("float", 4, { 1.f, -2.f }, { 0.f, 2.f }, "NTC");
	sweep<C8>("complex float", 3, { C8(1), C8(0, 2) }, { C8(0), C8(1, 1) }, "NTC");
	// every thread count, coefficient and layout on shapes that split unevenly
	for (int m : { 1, 2, 5, 7 })
		for (int n : { 1, 3, 5, 8 })
			for (size_t nb : { 1, 2, 3, 4 })
				for (size_t nt = 1; nt <= 9; ++nt)
					for (const char* t : { "NN", "TN", "CT", "NC" })
						for (Z be : { Z(0), Z(1), Z(0, 1) })
							for (int l = 0; l < 2; ++l)
								one<Z>("complex", { t[0], t[1], m, n, 2, l, 2 * l, l, nb, nt, Z(1, -1), be }, -1, 0);
	// larger: blocks that fit, that leave one row or column over, and long inner sums
	for (int m : { 1, 15, 16, 17, 33, 64, 100, 130 })
		for (int n : { 1, 16, 31, 65, 128 })
			for (int k : { 1, 4, 17, 64, 150 })
				for (size_t nb : { 0, 1, 8, 16, 32, 64, 100, 200 }) {
					if (nb == 1 && m * n > 600)
						continue;
					int h = m * 31 + n * 17 + k * 5 + nb * 3;
					const char* t[] = { "NN", "TN", "CT", "NC", "CC", "TT", "CN", "TC", "NT" };
					for (int q = 0; q < 2; ++q) {
						const char* tt = t[(h + q * 4) % 9];
						one<Z>("complex", { tt[0], tt[1], m, n, k, h % 3, h % 2, (h / 2) % 4, nb, (size_t)(1 + (h + q) % 16), Z(1, -1), Z(0, h % 2) }, -1, 0);
						one<double>("double", { tt[0], tt[1], m, n, k, h % 2, h % 3, (h / 3) % 4, nb, (size_t)(1 + (h + q) % 16), -1., double(h % 3 - 1) }, -1, 0);
					}
				}
	// interleavings of the block products
	for (int m = 1; m <= 3; ++m)
		for (int n = 1; n <= 3; ++n)
			for (size_t nb = 1; nb <= 2; ++nb)
				for (size_t nt = 1; nt <= 3; ++nt)
					for (const char* t : { "NN", "CT" })
						one<Z>("complex", { t[0], t[1], m, n, 2, 1, 0, 1, nb, nt, Z(2), Z(1, 1) }, nt == 3 && !mc::thorough() && nb == 1 ? 1 : 2, 1);
}
