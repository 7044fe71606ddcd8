// S01: Lanczos against the exact spectrum, seen through the start vector, of every small matrix.
#include <cassert>
#include <cmath>
#include <memory>
#include "CrsMatrix.h"
#include "LanczosSolver.h"
#include "Matrix.h"
#include "DavidsonSolver.h"
#include "mc.h"
#include "eig.h"
#include <sstream>
using mc::check;
using mc::near;
typedef PsimagLite::ParametersForSolver<double> Par;

// the spectrum the start vector sees: distinct eigenvalues with a component
struct Seen {
	std::vector<double> e;
	double weakest = 1; // smallest nonzero weight
	bool noise = false; // the Krylov space is smaller than the whole space
};
template <typename T> Seen seen(const Eig<T>& g, std::vector<T> v)
{
	double nn = 0;
	for (auto& x : v)
		nn += std::norm(x);
	Seen s;
	const int n = g.e.size();
	for (int j = 0; j < n;) {
		double w = 0;
		int k = j;
		for (; k < n && g.e[k] - g.e[j] < 1e-8; ++k) {
			T d = 0;
			for (int i = 0; i < n; ++i)
				d += model::cj(g.v(i, k)) * v[i];
			w += std::norm(d) / nn;
		}
		if (w > 1e-14) {
			s.e.push_back(g.e[j]);
			s.weakest = std::min(s.weakest, w);
		}
		j = k;
	}
	s.noise = (int)s.e.size() < n;
	return s;
}

// a user's own operator, known only by its action
template <typename T> struct Op {
	const D<T>& m;
	SizeType rows() const { return m.r; }
	template <typename V> void matrixVectorProduct(V& x, const V& y) const
	{
		for (int i = 0; i < m.r; ++i)
			for (int j = 0; j < m.c; ++j)
				x[i] += m(i, j) * y[j];
	}
	T operator()(int i, int j) const { return m(i, j); }
};
template <typename T> PsimagLite::CrsMatrix<T> crs(const D<T>& m)
{
	PsimagLite::Matrix<T> d(m.r, m.c);
	for (int i = 0; i < m.r; ++i)
		for (int j = 0; j < m.c; ++j)
			d(i, j) = m(i, j);
	return PsimagLite::CrsMatrix<T>(d);
}
template <typename T> double residual(const D<T>& m, const std::vector<T>& z, double e)
{
	double r = 0;
	for (int i = 0; i < m.r; ++i) {
		T s = -e * z[i];
		for (int j = 0; j < m.c; ++j)
			s += m(i, j) * z[j];
		r += std::norm(s);
	}
	return std::sqrt(r);
}
template <typename V> double norm2(const V& z)
{
	double r = 0;
	for (auto& x : z)
		r += std::norm(x);
	return std::sqrt(r);
}
// without reorthogonalization the vectors lose orthogonality once the Krylov space is used up
struct Tol {
	double e, r;
};

template <typename T, typename M>
void states(const D<T>& m, const M& sparse, const std::vector<T>& v, const Seen& s, const std::vector<double>& all,
	    const std::string& options, double tolerance, Tol tol, const std::string& at)
{
	typedef std::vector<T> V;
	Par p;
	p.lotaMemory = true;
	p.options = options;
	p.tolerance = tolerance;
	const int n = m.r;
	const int K = s.noise ? 1 : std::min<int>(n, 3);
	for (int k = 0; k < K; ++k) {
		PsimagLite::LanczosSolver<Par, M, V> L(sparse, p);
		V z(n, T(0));
		double e = 99;
		L.computeOneState(e, z, v, k);
		mc::tick();
		const std::string a = at + " state " + std::to_string(k);
		if (!s.noise) {
			near(e, s.e[k], tol.e, a + " energy");
			check(L.steps() <= (unsigned)n, a + " more steps than rows");
		} else {
			// rounding may add components the start vector did not have
			check(e < s.e[0] + tol.e, a + " energy above the lowest seen: " + std::to_string(e));
			double d = 1e9;
			for (double x : all)
				d = std::min(d, std::abs(x - e));
			check(e > all[0] - tol.e, a + " energy below the spectrum: " + std::to_string(e));
			mc::fold(s.e[0]);
			// without reorthogonalization such a component need not have converged
			if (options == "" && std::abs(e - s.e[0]) > tol.e)
				continue;
			check(d < tol.e, a + " energy is no eigenvalue: " + std::to_string(e));
		}
		check(residual(m, z, e) < tol.r, a + " residual " + std::to_string(residual(m, z, e)));
		check(std::abs(norm2(z) - 1) < tol.r, a + " norm " + std::to_string(norm2(z)));
		// the same solver again, with what z holds now: the same answer
		if (k + 1 == K) {
			V z2 = z;
			double e2 = 99;
			L.computeOneState(e2, z2, v, 0);
			check(e2 < s.e[0] + tol.e, a + " second run of the solver: energy " + std::to_string(e2));
			check(residual(m, z2, e2) < tol.r, a + " second run of the solver: residual");
			check(std::abs(norm2(z2) - 1) < tol.r, a + " second run of the solver: norm");
		}
	}
	if (s.noise)
		return;
	PsimagLite::LanczosSolver<Par, M, V> L(sparse, p);
	std::vector<double> eigs;
	std::vector<V> zs(K, V(n, T(0)));
	if (K > 1)
		zs.pop_back(); // fewer vectors than states are wanted
	L.computeAllStatesBelow(eigs, zs, v, K - 1);
	check((int)eigs.size() >= K, at + " states below: too few");
	for (int k = 0; k < K && k < (int)eigs.size(); ++k) {
		near(eigs[k], s.e[k], tol.e, at + " states below: energy " + std::to_string(k));
		if (k >= (int)zs.size())
			continue;
		check(residual(m, zs[k], eigs[k]) < tol.r, at + " states below: residual " + std::to_string(k));
		check(std::abs(norm2(zs[k]) - 1) < tol.r, at + " states below: norm " + std::to_string(k));
		for (int l = 0; l < k; ++l) {
			T d = 0;
			for (int i = 0; i < n; ++i)
				d += model::cj(zs[l][i]) * zs[k][i];
			check(std::abs(d) < tol.r, at + " states below: not orthogonal");
		}
	}
}

// V^+ V = 1, H V = V T + (next vector in the last column), V e0 = v/|v|
template <typename T>
void factorization(const D<T>& m, const std::vector<T>& v, const Seen& s, const std::string& options, int steps,
		   const std::string& at)
{
	typedef std::vector<T> V;
	typedef PsimagLite::CrsMatrix<T> M;
	const int n = m.r;
	M sparse = crs(m);
	Par p;
	p.lotaMemory = true;
	p.options = options;
	p.tolerance = -1;
	p.steps = steps;
	PsimagLite::LanczosSolver<Par, M, V> L(sparse, p);
	PsimagLite::TridiagonalMatrix<double> ab;
	L.decomposition(v, ab);
	mc::tick();
	PsimagLite::Matrix<T> q;
	L.lanczosVectorsSwap(q);
	const int k = ab.size();
	check(k == (int)L.steps(), at + " steps() is not the size of the decomposition");
	check((int)q.cols() == k && (int)q.rows() == n, at + " shape of the Lanczos vectors");
	check(k <= std::min(n, steps), at + " too many steps");
	const int d = std::min<int>(s.e.size(), k); // beyond, rounding rules
	if (!s.noise || steps <= (int)s.e.size())
		check(k == std::min(n, steps), at + " " + std::to_string(k) + " steps made");
	else
		check(k >= (int)s.e.size(), at + " stopped before the Krylov space was used up");
	if ((int)q.cols() != k || (int)q.rows() != n)
		return;
	for (int i = 0; i < n; ++i)
		near(q(i, 0), T(v[i] / norm2(v)), 1e-12, at + " first vector");
	for (int a = 0; a < d; ++a)
		for (int b = 0; b < d; ++b) {
			T o = 0;
			for (int i = 0; i < n; ++i)
				o += model::cj(q(i, a)) * q(i, b);
			check(std::abs(o - T(a == b)) < 1e-8, at + " vectors not orthonormal");
		}
	check(ab.b(0) == 0, at + " b(0)");
	double worst = 0, last = 0;
	for (int j = 0; j < d; ++j)
		for (int i = 0; i < n; ++i) {
			T h = 0;
			for (int l = 0; l < n; ++l)
				h += m(i, l) * q(l, j);
			h -= ab.a(j) * q(i, j);
			if (j > 0)
				h -= ab.b(j) * q(i, j - 1);
			if (j + 1 < k) {
				h -= ab.b(j + 1) * q(i, j + 1);
				worst = std::max(worst, std::abs(h));
			} else
				last += std::norm(h);
		}
	check(worst < 1e-8, at + " H V is not V T: " + std::to_string(worst));
	if (d == (int)s.e.size() && k == d) // the space is used up
		check(std::sqrt(last) < 1e-7, at + " something is left at the end: " + std::to_string(std::sqrt(last)));
	PsimagLite::Matrix<double> td(3, 2);
	ab.buildDenseMatrix(td);
	check((int)td.rows() == k && (int)td.cols() == k, at + " dense form");
	for (int i = 0; i < k && (int)td.rows() == k; ++i)
		for (int j = 0; j < k; ++j)
			near(td(i, j), i == j ? ab.a(i) : j == i + 1 ? ab.b(j) : i == j + 1 ? ab.b(i) : 0.0, 1e-13, at + " dense form");
}

template <typename T> std::string show(const D<T>& m, const std::vector<T>& v)
{
	std::ostringstream o;
	o << model::toS(m) << " from (";
	for (auto& x : v)
		o << x << " ";
	o << ")";
	return o.str();
}
template <typename T> void one(const D<T>& m, const std::vector<T>& v)
{
	const auto g = jacobi(m);
	const Seen s = seen(g, v);
	const int n = m.r;
	const std::string w = show(m, v);
	mc::run(w, [&] {
		const auto sp = crs(m);
		for (const char* o : { "", "reortho" }) {
			states(m, sp, v, s, g.e, o, 1e-12, Tol { 1e-7, 1e-3 }, std::string("[") + o + "]");
			states(m, Op<T> { m }, v, s, g.e, o, -1, Tol { 1e-8, 1e-5 }, std::string("[all steps ") + o + "]");
			for (int steps = 1; steps <= n + 1; ++steps)
				factorization(m, v, s, o, steps,
					      std::string("[") + o + " steps=" + std::to_string(steps) + "]");
		}
	});
}
template <typename T> D<T> herm(int n, uint64_t diag, uint64_t off, const std::vector<T>& dv, const std::vector<T>& ov)
{
	D<T> m(n, n);
	for (int i = 0; i < n; ++i) {
		m(i, i) = dv[diag % dv.size()];
		diag /= dv.size();
	}
	for (int i = 0; i < n; ++i)
		for (int j = i + 1; j < n; ++j) {
			m(i, j) = ov[off % ov.size()];
			m(j, i) = model::cj(m(i, j));
			off /= ov.size();
		}
	return m;
}
template <typename T>
void family(int n, const std::vector<T>& dv, const std::vector<T>& ov, const std::vector<std::vector<T>>& starts)
{
	const uint64_t nd = model::ipow(dv.size(), n), no = model::ipow(ov.size(), n * (n - 1) / 2);
	for (uint64_t d = 0; d < nd; ++d)
		for (uint64_t o = 0; o < no; ++o) {
			const auto m = herm<T>(n, d, o, dv, ov);
			for (auto& v : starts)
				one<T>(m, v);
		}
}
template <typename T> std::vector<std::vector<T>> words(int n, const std::vector<T>& al)
{
	std::vector<std::vector<T>> r;
	const uint64_t N = model::ipow(al.size(), n);
	for (uint64_t w = 1; w < N; ++w) { // 0: the zero vector
		std::vector<T> v;
		uint64_t x = w;
		for (int i = 0; i < n; ++i, x /= al.size())
			v.push_back(al[x % al.size()]);
		r.push_back(v);
	}
	return r;
}

// the tridiagonal matrix itself
void tridiag(int n, const std::vector<double>& av, const std::vector<double>& bv)
{
	const uint64_t na = model::ipow(av.size(), n), nb = model::ipow(bv.size(), n - 1);
	for (uint64_t x = 0; x < na; ++x)
		for (uint64_t y = 0; y < nb; ++y) {
			std::vector<double> a, b { 7 }; // b(0) takes no part
			uint64_t u = x;
			for (int i = 0; i < n; ++i, u /= av.size())
				a.push_back(av[u % av.size()]);
			u = y;
			for (int i = 1; i < n; ++i, u /= bv.size())
				b.push_back(bv[u % bv.size()]);
			std::ostringstream o;
			o << "tridiagonal a=";
			for (double d : a)
				o << d << " ";
			o << "b=";
			for (double d : b)
				o << d << " ";
			mc::run(o.str(), [&] {
				PsimagLite::TridiagonalMatrix<double> t, t2;
				t.resize(n, 5);
				for (int i = 0; i < n; ++i) {
					check(t.a(i) == 5 && t.b(i) == 5, "resize with a value");
					t.a(i) = a[i];
					t.b(i) = b[i];
					t2.push(a[i], b[i]);
				}
				check((int)t.size() == n && (int)t2.size() == n, "size");
				for (int k = 1; k <= n; ++k) {
					D<double> m(k, k);
					for (int i = 0; i < k; ++i) {
						m(i, i) = a[i];
						if (i + 1 < k)
							m(i, i + 1) = m(i + 1, i) = b[i + 1];
					}
					const auto want = jacobi(m).e;
					PsimagLite::TridiagonalMatrix<double>::VectorRealType e(2, 9);
					t.diag(e, k);
					check((int)e.size() >= k, "diag: size");
					for (int i = 0; i < k; ++i)
						near(e[i], want[i], 1e-9, "diag of the first " + std::to_string(k));
					t2.diag(e, k);
					near(e[0], want[0], 1e-9, "diag of the pushed one");
					PsimagLite::Matrix<double> q(2, 3);
					q.setTo(3);
					t.buildDenseMatrix(q, k);
					check((int)q.rows() == k && (int)q.cols() == k, "dense shape");
					for (int i = 0; i < k; ++i)
						for (int j = 0; j < k; ++j)
							near(q(i, j), m(i, j), 0, "dense entry");
				}
				PsimagLite::TridiagonalMatrix<float> f;
				f.resize(n, 0);
				for (int i = 0; i < n; ++i) {
					f.a(i) = a[i];
					f.b(i) = b[i];
				}
				D<double> m(n, n);
				for (int i = 0; i < n; ++i) {
					m(i, i) = a[i];
					if (i + 1 < n)
						m(i, i + 1) = m(i + 1, i) = b[i + 1];
				}
				const auto want = jacobi(m).e;
				PsimagLite::TridiagonalMatrix<float>::VectorRealType e;
				f.diag(e, n);
				for (int i = 0; i < n; ++i)
					near(double(e[i]), want[i], 1e-4, "single precision");
				t.resize(n + 1);
				for (int i = 0; i < n; ++i)
					check(t.a(i) == a[i] && t.b(i) == b[i], "resize keeps what is there");
			});
		}
}

// long chains: every eigenvalue, counted by Sturm's rule
int below(const std::vector<double>& a, const std::vector<double>& b, int n, double x)
{
	int k = 0;
	double q = a[0] - x;
	for (int i = 0;;) {
		k += q < 0;
		if (++i == n)
			return k;
		if (std::abs(q) < 1e-300)
			q = 1e-300;
		q = a[i] - x - b[i] * b[i] / q;
	}
}
void longChains()
{
	for (int n : { 6, 7, 16, 33, 64, 100, 151, 160, 220, 300 })
		for (int kind = 0; kind < 5; ++kind)
			mc::run("long chain " + std::to_string(n) + " kind " + std::to_string(kind), [&] {
				std::vector<double> a(n), b(n);
				PsimagLite::TridiagonalMatrix<double> t, t2;
				t.resize(n);
				for (int i = 0; i < n; ++i) {
					a[i] = kind == 0 ? 0 : kind == 1 ? -100 + (i * 7) % 11 / 3.0 : kind == 2 ? i : kind == 3 ? 1e3 * ((i * 5) % 9) : -1.5 * std::cos(0.3 * i);
					b[i] = kind == 0 ? 1 : kind == 1 ? 0.25 + (i * 3) % 7 / 9.0 : kind == 2 ? (i % 5 ? 0.5 : 0) : kind == 3 ? -70 : i % 2 ? 1 : 1e-3;
					t.a(i) = a[i];
					t.b(i) = b[i];
					t2.push(a[i], b[i]);
				}
				double size = 1;
				for (int i = 0; i < n; ++i)
					size = std::max(size, std::abs(a[i]) + 2 * std::abs(b[i]));
				for (int k : { n, n - 1, n / 2 }) {
					PsimagLite::TridiagonalMatrix<double>::VectorRealType e(3, 9), e2;
					t.diag(e, k);
					t2.diag(e2, k);
					check((int)e.size() >= k && (int)e2.size() >= k, "diag: size");
					const double tol = 1e-9 * size;
					for (int i = 0; i < k; ++i) {
						check(below(a, b, k, e[i] - tol) <= i && below(a, b, k, e[i] + tol) > i, "diag of the first " + std::to_string(k) + ": eigenvalue " + std::to_string(i) + " is not " + mc::str(e[i]));
						near(e2[i], e[i], tol, "diag of the pushed one");
					}
					mc::tick();
				}
			});
}

// default parameters on larger matrices: the answer is the extremal eigenvalue
void larger()
{
	const int top = mc::thorough() ? 64 : 32;
	for (int n = 5; n <= top; n += (n < 12 ? 1 : 5))
		for (int kind = 0; kind < 5; ++kind)
			for (int st = 0; st < 4; ++st)
				for (const char* o : { "", "reortho" }) {
					D<double> m(n, n);
					for (int i = 0; i < n; ++i)
						for (int j = 0; j <= i; ++j) {
							double x = 0;
							const int d = i - j;
							switch (kind) {
							case 0: x = d == 1 ? -1 : 0; break; // open chain
							case 1: x = d == 0 ? (i * 7) % 5 : d == 1 ? 1 + j % 3 : 0; break;
							case 2: x = d == 0 ? i : d <= 2 ? 0.5 : 0; break;
							case 3: x = 1.0 / (1 + i + j) + (d == 0 ? 0.1 * i : 0); break;
							case 4: x = ((i * i + j * j + i * j) % 7) - 3.0; break;
							}
							m(i, j) = m(j, i) = x;
						}
					std::vector<double> v(n);
					for (int i = 0; i < n; ++i)
						v[i] = st == 0 ? 1 : st == 1 ? 1 + (i * 5) % 7 : st == 2 ? (i == 0) : (i % 3) - 1.25;
					const auto g = jacobi(m);
					const Seen s = seen(g, v);
					std::ostringstream w;
					w << "n=" << n << " kind=" << kind << " start=" << st << " [" << o << "]";
					mc::run(w.str(), [&] {
						typedef PsimagLite::CrsMatrix<double> M;
						const auto sp = crs(m);
						Par p;
						p.lotaMemory = true;
						p.options = o;
						PsimagLite::LanczosSolver<Par, M, std::vector<double>> L(sp, p);
						std::vector<double> z(n, 0);
						double e = 99;
						L.computeOneState(e, z, v, 0);
						check(e > g.e[0] - 1e-7, "energy below the spectrum");
						check(e < s.e[0] + 1e-7, "energy " + std::to_string(e) + " has not converged to " + std::to_string(s.e[0]));
						check(residual(m, z, e) < 1e-3, "residual " + std::to_string(residual(m, z, e)));
						check(std::abs(norm2(z) - 1) < 1e-3, "norm " + std::to_string(norm2(z)));
						// no more steps than it was given, at any setting
						for (unsigned steps : { 1u, 2u, 3u, 4u, 5u, 7u })
							for (unsigned minSteps : { 0u, 1u, 4u, 9u })
								for (double tol : { 1e-12, 1e-2, -1.0 }) {
									Par q = p;
									q.steps = steps;
									q.minSteps = minSteps;
									q.tolerance = tol;
									PsimagLite::LanczosSolver<Par, M, std::vector<double>> L2(sp, q);
									L2.computeOneState(e, z, v, 0);
									mc::tick();
									check(L2.steps() <= steps, "steps");
									if (minSteps + 1 <= std::min<unsigned>(steps, s.e.size()) && !s.noise)
										check(L2.steps() > minSteps, "fewer steps than the minimum");
									if (tol < 0 && !s.noise)
										check(L2.steps() == std::min<unsigned>(steps, n), "all steps wanted");
									// Ritz value: variational, with its vector
									check(e > g.e[0] - 1e-7, "variational bound");
									double x = 0;
									for (int i = 0; i < n; ++i)
										for (int j = 0; j < n; ++j)
											x += z[i] * m(i, j) * z[j];
									near(x, e, 1e-6, "energy is the expectation value of its vector");
									near(norm2(z), 1.0, 1e-6, "norm of the vector");
								}
					});
				}
}

// larger ones, real and complex, shifted and scaled: several states, whole decompositions, and
// one solver used again and again
template <typename T> T turned(double x, int i, int j);
template <> double turned<double>(double x, int, int) { return x; }
template <> Z turned<Z>(double x, int i, int j) { return x * std::polar(1.0, 0.7 * ((i * i) % 11) - 0.7 * ((j * j) % 11)); }
// decompositions with many steps
template <typename T> void longRuns(const char* w)
{
	typedef std::vector<T> V;
	for (int n : { 50, 64, 90 })
		for (int kind = 0; kind < 3; ++kind)
			mc::run(std::string("many steps ") + w + " n=" + std::to_string(n) + " kind=" + std::to_string(kind), [&] {
				D<T> m(n, n);
				for (int i = 0; i < n; ++i)
					for (int j = 0; j <= i; ++j) {
						const int d = i - j;
						const double x = kind == 0 ? (d == 0 ? (i * 7) % n : d == 1 ? 1 : 0) : kind == 1 ? 1.0 / (1 + d) + (d == 0 ? i : 0) : (d == 0 ? -1.5 * i : d <= 3 ? 0.5 + 0.25 * ((i + j) % 3) : 0);
						m(i, j) = turned<T>(x, i, j);
						m(j, i) = model::cj(m(i, j));
					}
				mc::tick();
				const auto g = jacobi(m);
				mc::tick();
				V v(n, T(0));
				for (int q = 0; q < 2; ++q) {
					for (int i = 0; i < n; ++i)
						v[i] = q ? turned<T>(i % 2 ? 1 : -2, 0, i) : turned<T>(1 + (i * 5) % 7, i, 0);
					const Seen s = seen(g, v);
					if (s.noise || s.weakest < 1e-8) {
						mc::count(1);
						continue;
					}
					for (int st : { n / 2, n - 3, n }) {
						factorization(m, v, s, "reortho", st, "[reortho steps=" + std::to_string(st) + "]");
						mc::tick();
					}
				}
			});
}
template <typename T> void manyStates(const char* w)
{
	typedef std::vector<T> V;
	typedef PsimagLite::CrsMatrix<T> M;
	for (int n : { 6, 8, 9, 12, 16, 17, 24, 33 })
		for (int kind = 0; kind < 3; ++kind)
			for (double scale : { 1.0, 300.0, 1e-2 })
				for (double shift : { 0.0, -40.0, 1000.0 })
					mc::run(std::string("many states ") + w + " n=" + std::to_string(n) + " kind=" + std::to_string(kind) + " scale=" + mc::str(scale) + " shift=" + mc::str(shift), [&] {
						if (n > 17 && (scale != 1 || shift == 1000) && !mc::thorough())
							return;
						D<T> m(n, n);
						for (int i = 0; i < n; ++i)
							for (int j = 0; j <= i; ++j) {
								const int d = i - j;
								double x = kind == 0 ? (d == 0 ? (i * 7) % n : d == 1 ? 1 : 0) : kind == 1 ? 1.0 / (1 + d) + (d == 0 ? i : 0) : (d == 0 ? -1.5 * i : d <= 3 ? 0.5 + 0.25 * ((i + j) % 3) : 0);
								x *= scale;
								if (d == 0)
									x += shift;
								m(i, j) = turned<T>(x, i, j);
								m(j, i) = model::cj(m(i, j));
							}
						const auto g = jacobi(m);
						const auto sp = crs(m);
						const double big = std::max(std::abs(g.e[0]), std::abs(g.e[n - 1]));
						std::vector<V> starts(3, V(n, T(0)));
						for (int i = 0; i < n; ++i) {
							starts[0][i] = turned<T>(1 + (i * 5) % 7, i, 0);
							starts[1][i] = turned<T>(i % 2 ? 1 : -2, 0, i);
							starts[2][i] = turned<T>(i == n / 2 ? 10 : 0.5, i, 3);
						}
						for (auto& v : starts) {
							const Seen s = seen(g, v);
							if (s.noise || s.weakest < 1e-8)
								continue;
							for (int st : { 1, 2, n / 2, n - 1, n, n + 3 })
								factorization(m, v, s, "reortho", st, "[reortho steps=" + std::to_string(st) + "]");
						}
						for (double tolerance : { -1.0, 1e-12 * big }) {
							Par p;
							p.lotaMemory = true;
							p.options = "reortho";
							p.tolerance = tolerance;
							p.steps = n + 7;
							p.minSteps = n / 2;
							PsimagLite::LanczosSolver<Par, M, V> L(sp, p); // one for all
							for (int round = 0; round < 2; ++round)
								for (double size : { 1.0, 1e-3, 1e3 })
									for (size_t q = 0; q < starts.size(); ++q) {
										V v = starts[q];
										const Seen s = seen(g, v);
										if (s.noise || s.weakest < 1e-8)
											continue;
										for (auto& x : v)
											x *= size;
										for (int k : { 0, 1, 2, 4, n - 1 }) {
											V z(n, T(0.25));
											double e = 99;
											L.computeOneState(e, z, v, k);
											mc::tick();
											const std::string at = "start " + std::to_string(q) + " times " + mc::str(size) + " state " + std::to_string(k);
											near(e, g.e[k], 1e-9 * (1 + big), at + " energy");
											check(residual(m, z, e) < 1e-4 * (1 + big), at + " residual " + mc::str(residual(m, z, e)));
											near(norm2(z), 1.0, 1e-8, at + " norm");
											mc::fold(e);
										}
										std::vector<V> zs(1 + (q + round) % 5, V(n, T(1)));
										std::vector<double> es(round ? 3 : 0, 4.0);
										const int want = std::min(n - 1, 3);
										L.computeAllStatesBelow(es, zs, v, want);
										check((int)es.size() > want, "states below: too few");
										for (int k = 0; k <= want; ++k)
											near(es[k], g.e[k], 1e-9 * (1 + big), "states below: energy " + std::to_string(k));
										for (int k = 0; k < (int)zs.size() && k <= want; ++k) {
											check(residual(m, zs[k], es[k]) < 1e-4 * (1 + big), "states below: residual " + std::to_string(k) + " " + mc::str(residual(m, zs[k], es[k])));
											for (int l = 0; l <= k; ++l) {
												T d = 0;
												for (int i = 0; i < n; ++i)
													d += model::cj(zs[l][i]) * zs[k][i];
												check(std::abs(d - T(l == k)) < 1e-8, "states below: not orthonormal");
											}
										}
										for (size_t k = want + 1; k < zs.size(); ++k)
											check(zs[k] == V(n, T(1)), "states below: one more written");
									}
						}
					});
}
// the iteration may stop before the space or the limit of steps is used up only when every
// state asked for moved by less than the tolerance in the last step
template <typename T> void stopping(const char* w)
{
	typedef std::vector<T> V;
	typedef PsimagLite::CrsMatrix<T> M;
	for (int n : { 5, 6, 8, 11 })
		for (int k = 0; k < (mc::thorough() ? 4000 : 400); ++k)
			mc::run(std::string("stopping ") + w + " n=" + std::to_string(n) + " kind=" + std::to_string(k), [&] {
				uint64_t h = 88172645463325252ull + 7919 * k + n;
				auto next = [&] {
					h ^= h << 13, h ^= h >> 7, h ^= h << 17;
					return (double)(h % 1000) / 1000;
				};
				for (int i = 0; i < 10; ++i)
					next();
				D<T> m(n, n);
				for (int i = 0; i < n; ++i)
					for (int j = 0; j <= i; ++j) {
						double x = next() - 0.5;
						if (i != j && next() < 0.15 * (k % 6))
							x = 0;
						m(i, j) = turned<T>(i == j ? x * (1 + k % 5) : x, i, j);
						m(j, i) = model::cj(m(i, j));
					}
				V v(n);
				for (int i = 0; i < n; ++i)
					v[i] = turned<T>(next() + 0.05, i, 0);
				const auto g = jacobi(m);
				const Seen s = seen(g, v);
				if (s.noise || s.weakest < 1e-6)
					return;
				const auto sp = crs(m);
				Par p;
				p.lotaMemory = true;
				p.options = "reortho";
				p.tolerance = -1;
				p.steps = n;
				PsimagLite::LanczosSolver<Par, M, V> full(sp, p);
				PsimagLite::TridiagonalMatrix<double> ab;
				full.decomposition(v, ab);
				check((int)ab.size() == n, "the whole space");
				if ((int)ab.size() != n)
					return;
				std::vector<std::vector<double>> ritz(n + 1);
				for (int l = 1; l <= n; ++l) {
					D<double> t(l, l);
					for (int i = 0; i < l; ++i) {
						t(i, i) = ab.a(i);
						if (i)
							t(i, i - 1) = t(i - 1, i) = ab.b(i);
					}
					ritz[l] = jacobi(t).e;
				}
				for (double tol : { 1.0, 0.1, 1e-2, 1e-4 })
					for (int least : { 0, 1, 2, 4 })
						for (int limit : { n - 1, n + 2 })
							for (int want : { 1, 2, 3, 4 }) {
								p.tolerance = tol;
								p.minSteps = least;
								p.steps = limit;
								p.eigsForStop = want;
								const std::string at = "tolerance " + mc::str(tol) + " at least " + std::to_string(least) + " limit " + std::to_string(limit) + " states " + std::to_string(want);
								for (int how = 0; how < 3; ++how) {
									PsimagLite::LanczosSolver<Par, M, V> L(sp, p);
									if (how == 0)
										L.decomposition(v, ab);
									else if (how == 1) {
										V z(n);
										double e = 0;
										L.computeOneState(e, z, v, want - 1);
										near(e, ritz[L.steps()][want - 1], 1e-8, at + " energy of the last step");
									} else {
										std::vector<V> z(want, V(n));
										std::vector<double> e;
										L.computeAllStatesBelow(e, z, v, want - 1);
										for (int i = 0; i < want; ++i)
											near(e[i], ritz[L.steps()][i], 1e-8, at + " energies of the last step");
									}
									mc::tick();
									const int st = L.steps();
									check(st >= 1 && st <= std::min(n, limit), at + " steps " + std::to_string(st));
									mc::fold((uint64_t)st);
									if (st < 1 || st >= std::min(n, limit))
										continue;
									check(st > want, at + " stopped after " + std::to_string(st) + " steps, too few to see every state move");
									if (n > 4)
										check(st > least, at + " stopped after " + std::to_string(st) + " steps");
									for (int i = 0; i < want && i + 1 < st; ++i)
										check(std::abs(ritz[st][i] - ritz[st - 1][i]) < tol * (1 + 1e-6), at + " way " + std::to_string(how) + " stopped after " + std::to_string(st) + " steps, state " + std::to_string(i) + " had moved by " + mc::str(std::abs(ritz[st][i] - ritz[st - 1][i])));
								}
							}
			});
}
void misuse()
{
	mc::run("misuse", [&] {
		typedef PsimagLite::CrsMatrix<double> M;
		typedef std::vector<double> V;
		D<double> m(4, 4);
		for (int i = 0; i < 4; ++i) {
			m(i, i) = i;
			if (i < 3)
				m(i, i + 1) = m(i + 1, i) = 1;
		}
		M sp = crs(m);
		Par p;
		p.lotaMemory = false;
		mc::mustThrow([&] { PsimagLite::LanczosSolver<Par, M, V> L(sp, p); }, "vectors not kept");
		p.options = "reortho";
		mc::mustThrow([&] { PsimagLite::LanczosSolver<Par, M, V> L(sp, p); }, "reortho without vectors");
		p.lotaMemory = true;
		PsimagLite::LanczosSolver<Par, M, V> L(sp, p);
		double e;
		V z(4, 0);
		for (int n : { 0, 1, 3, 5 }) {
			mc::mustThrow([&] { L.computeOneState(e, z, V(n, 1), 0); }, "start vector of the wrong length");
			std::vector<V> zz;
			V ee;
			mc::mustThrow([&] { L.computeAllStatesBelow(ee, zz, V(n, 1), 0); }, "start vector of the wrong length");
		}
		for (unsigned k : { 4u, 5u, 100u }) {
			mc::mustThrow([&] { L.computeOneState(e, z, V(4, 1), k); }, "more states than rows");
			std::vector<V> zz;
			V ee;
			if (k > 4)
				mc::mustThrow([&] { L.computeAllStatesBelow(ee, zz, V(4, 1), k); }, "more states than rows");
		}
		std::vector<V> all(6, V(4, 7));
		V es;
		L.computeAllStatesBelow(es, all, V { 1, 2, 3, 4 }, 4); // the states below the fourth
		mc::eq(es.size(), size_t(4), "all states: number");
		for (int k = 0; k < 4; ++k) {
			near(es[k], jacobi(m).e[k], 1e-8, "all states: energy");
			check(residual(m, all[k], es[k]) < 1e-8, "all states: vector");
		}
		check(all[4] == V(4, 7) && all[5] == V(4, 7), "all states: wrote vectors that do not exist");
		L.computeOneState(e, z, V { 1, 2, 3, 4 }, 0);
		near(e, jacobi(m).e[0], 1e-8, "usable after an error");
		PsimagLite::DavidsonSolver<Par, M, V> dv(sp, p);
		mc::mustThrow([&] { dv.computeOneState(e, z, V(4, 1), 0); }, "Davidson is not implemented");
	});
}

void mc::explore()
{
	std::cerr.setstate(std::ios::failbit);
	std::cout.setstate(std::ios::failbit);
	const bool T = mc::thorough();
	typedef std::vector<double> VD;
	typedef std::vector<Z> VZ;
	const Z I(0, 1);
	for (double x : { 0., 1., -2.5 })
		for (double y : { 1., -3. })
			one<double>(D<double>(herm<double>(1, 0, 0, { x }, { 0. })), { y });
	one<Z>(herm<Z>(1, 0, 0, { 2. }, { 0. }), { Z(1, 1) });
	family<double>(2, { 0, 1, -1, 2 }, { 0, 1, -1, 2 }, words<double>(2, { 0, 1, -1 }));
	family<Z>(2, { 0., 1., -1. }, { 0., 1., I, -I, Z(1, 1) }, words<Z>(2, { 0., 1., I }));
	family<double>(3, { 0, 1, -1 }, { 0, 1, -1 }, T ? words<double>(3, { 0, 1, -1 }) : words<double>(3, { 0, 1 }));
	family<Z>(3, T ? VZ { 0., 1., -1. } : VZ { 0., 1. }, { 0., 1., I }, { { 1., I, 0. }, { 1., 2., Z(3, 1) } });
	family<double>(4, T ? VD { 0, 1, -1 } : VD { 0, 2 }, T ? VD { 0, 1, -1 } : VD { 0, 1 }, { { 1, 2, 3, 5 }, { 1, 0, 0, 0 }, { 1, 1, 1, 1 } });
	family<double>(5, T ? VD { 0, 1 } : VD { 1 }, T ? VD { 0, 1 } : VD { 0, -1 }, { { 1, 2, 3, 5, 7 }, { 1, 0, 0, 0, 0 } });
	// diagonals that are all different
	for (int n = 5; n <= (T ? 6 : 5); ++n) {
		const uint64_t N = model::ipow(2, n * (n - 1) / 2);
		for (uint64_t o = 0; o < N; ++o) {
			auto m = herm<double>(n, 0, o, { 0 }, { 0, 1 });
			VD v;
			for (int i = 0; i < n; ++i) {
				m(i, i) = (i * 3) % 7;
				v.push_back(1 + i % 3);
			}
			one<double>(m, v);
		}
	}
	for (int n = 1; n <= 4; ++n)
		tridiag(n, { 0, 1, -2 }, { 0, 1, 0.5 });
	if (T)
		tridiag(5, { 0, 1, -2 }, { 0, 1, 0.5 });
	longChains();
	longRuns<double>("real");
	longRuns<Z>("complex");
	larger();
	manyStates<double>("real");
	manyStates<Z>("complex");
	stopping<double>("real");
	stopping<Z>("complex");
	misuse();
}
