// M04: dense decompositions: every small matrix over an alphabet, checked against the
// equations that define the result.
#include "Matrix.h"
#include "Svd.h"
#include "mc.h"
#include <functional>
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef std::complex<float> Zf;
typedef std::complex<long double> LZ;
template <typename T> struct V_ { typedef typename PsimagLite::Vector<T>::Type Type; };
static const Z I(0, 1);

template <typename T> double tolOf() { return sizeof(typename Real<T>::Type) == 4 ? 2e-5 : 1e-11; }
template <typename T> T cast(Z z);
template <> double cast<double>(Z z) { return z.real(); }
template <> float cast<float>(Z z) { return z.real(); }
template <> Z cast<Z>(Z z) { return z; }
template <> Zf cast<Zf>(Z z) { return Zf(z.real(), z.imag()); }
static Z up(double x) { return x; }
static Z up(float x) { return x; }
static Z up(Z x) { return x; }
static Z up(Zf x) { return Z(x.real(), x.imag()); }

struct M { // plain table
	int r, c;
	std::vector<Z> a;
	M(int r_, int c_)
	    : r(r_)
	    , c(c_)
	    , a(r_ * c_)
	{
	}
	Z& operator()(int i, int j) { return a[i * c + j]; }
	Z operator()(int i, int j) const { return a[i * c + j]; }
};
static std::string show(const M& m)
{
	std::string s = "[";
	for (int i = 0; i < m.r; ++i) {
		for (int j = 0; j < m.c; ++j) {
			const Z z = m(i, j);
			s += (j ? " " : "") + (z.imag() == 0 ? mc::str(z.real()) : mc::str(z));
		}
		s += i + 1 < m.r ? "; " : "";
	}
	return s + "]";
}
template <typename T> Matrix<T> real_(const M& m)
{
	Matrix<T> a(m.r, m.c);
	for (int i = 0; i < m.r; ++i)
		for (int j = 0; j < m.c; ++j)
			a(i, j) = cast<T>(m(i, j));
	return a;
}
template <typename T> M back(const Matrix<T>& a)
{
	M m(a.rows(), a.cols());
	for (int i = 0; i < m.r; ++i)
		for (int j = 0; j < m.c; ++j)
			m(i, j) = up(a(i, j));
	return m;
}
static M mul(const M& a, const M& b)
{
	M c(a.r, b.c);
	for (int i = 0; i < a.r; ++i)
		for (int j = 0; j < b.c; ++j)
			for (int k = 0; k < a.c; ++k)
				c(i, j) += a(i, k) * b(k, j);
	return c;
}
static M dagger(const M& a)
{
	M c(a.c, a.r);
	for (int i = 0; i < c.r; ++i)
		for (int j = 0; j < c.c; ++j)
			c(i, j) = std::conj(a(j, i));
	return c;
}
static M one(int n)
{
	M c(n, n);
	for (int i = 0; i < n; ++i)
		c(i, i) = 1;
	return c;
}
static double biggest(const M& a)
{
	double x = 0;
	for (auto z : a.a)
		x = std::max(x, std::abs(z));
	return x;
}
static void same(const M& got, const M& want, double tol, const std::string& what)
{
	++mc::g().transitions;
	mc::check(got.r == want.r && got.c == want.c, what + ": shape");
	const double s = tol * (1 + biggest(want));
	for (size_t i = 0; i < got.a.size(); ++i)
		if (!(std::abs(got.a[i] - want.a[i]) <= s))
			mc::fail(what + ": got " + show(got) + " expected " + show(want));
	for (auto z : want.a)
		mc::fold(std::floor(z.real() * 100 + 0.5));
}
// exp(f A) by scaling and squaring in long double
static M taylor(const M& a, Z f)
{
	const int n = a.r;
	typedef std::vector<LZ> T;
	auto mm = [&](const T& x, const T& y) {
		T z(n * n);
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j)
				for (int k = 0; k < n; ++k)
					z[i * n + j] += x[i * n + k] * y[k * n + j];
		return z;
	};
	T x(n * n), term(n * n), sum(n * n);
	for (int i = 0; i < n * n; ++i) {
		const Z z = a.a[i] * f;
		x[i] = LZ(z.real(), z.imag()) / 4096.0L;
		term[i] = sum[i] = LZ(i % (n + 1) == 0, 0);
	}
	for (int k = 1; k < 30; ++k) {
		term = mm(term, x);
		for (int i = 0; i < n * n; ++i) {
			term[i] /= (long double)k;
			sum[i] += term[i];
		}
	}
	for (int k = 0; k < 12; ++k)
		sum = mm(sum, sum);
	M r(n, n);
	for (int i = 0; i < n * n; ++i)
		r.a[i] = Z(sum[i].real(), sum[i].imag());
	return r;
}
// ------------------------------------------------------------------ enumeration
static void all(int n, const std::vector<Z>& alphabet, const std::function<void(const std::vector<Z>&)>& f)
{
	std::vector<Z> w(n);
	std::function<void(int)> rec = [&](int k) {
		if (k == n)
			return f(w);
		for (auto z : alphabet) {
			w[k] = z;
			rec(k + 1);
		}
	};
	rec(0);
}
static M hermitian(int n, const std::vector<Z>& d, const std::vector<Z>& o)
{
	M m(n, n);
	int k = 0;
	for (int i = 0; i < n; ++i) {
		m(i, i) = d[i];
		for (int j = i + 1; j < n; ++j) {
			m(i, j) = o[k++];
			m(j, i) = std::conj(m(i, j));
		}
	}
	return m;
}
template <typename T> static void eigen(const M& m)
{
	const double tol = tolOf<T>();
	const std::string what = show(m);
	typedef typename V_<typename Real<T>::Type>::Type VR;
	Matrix<T> a = real_<T>(m);
	VR e(m.r % 2 ? 0 : 7), e2;
	diag(a, e, 'V');
	mc::check((int)e.size() == m.r, what + ": number of eigenvalues");
	for (int i = 1; i < m.r; ++i)
		mc::check(e[i - 1] <= e[i], what + ": ascending eigenvalues");
	const M v = back(a);
	same(mul(dagger(v), v), one(m.r), tol, what + ": orthonormal eigenvectors");
	M ed(m.r, m.r);
	for (int i = 0; i < m.r; ++i)
		ed(i, i) = e[i];
	same(mul(mul(v, ed), dagger(v)), m, tol, what + ": reconstruction from the eigenvectors");
	Matrix<T> b = real_<T>(m);
	diag(b, e2, 'N');
	mc::check(e2.size() == e.size(), what + ": number of eigenvalues alone");
	for (int i = 0; i < m.r; ++i)
		mc::near(double(e2[i]), double(e[i]), tol, what + ": eigenvalues alone");
	if (sizeof(typename Real<T>::Type) == 4 || biggest(m) > 50)
		return; // (exp would overflow)
	Matrix<T> x = real_<T>(m);
	exp(x);
	// a complex matrix is exponentiated as a time evolution, exp(i A)
	same(back(x), taylor(m, IsComplexNumber<T>::True ? I : Z(1)), 1e-11, what + ": exponential");
}
static void expipi(const M& m)
{
	Matrix<Z> x = real_<Z>(m);
	expIpi(x);
	same(back(x), taylor(m, I * M_PI), 1e-11, show(m) + ": exp(i pi A)");
}
template <typename T> static void svd(const M& m)
{
	const double tol = tolOf<T>();
	for (int k = 0; k < 4; ++k) {
		const char job = k & 1 ? 'S' : 'A';
		const std::string name = k & 2 ? "gesvd" : "gesdd";
		const std::string what = show(m) + " " + name + " " + job;
		Svd<T> s(name);
		mc::check(s.canTryAgain() == (name == "gesdd"), "another back end");
		mc::eq(s.name(), String(name), "name");
		Matrix<T> a = real_<T>(m), vt;
		typename V_<typename Real<T>::Type>::Type sv;
		s(job, a, sv, vt);
		const int mn = std::min(m.r, m.c);
		mc::check((int)sv.size() == mn, what + ": number of singular values");
		const int uc = job == 'A' ? m.r : mn, vr = job == 'A' ? m.c : mn;
		mc::check((int)a.rows() == m.r && (int)a.cols() == uc && (int)vt.rows() == vr && (int)vt.cols() == m.c, what + ": shapes");
		for (int i = 0; i < mn; ++i)
			mc::check(sv[i] >= 0 && (i == 0 || sv[i] <= sv[i - 1]), what + ": descending singular values");
		const M u = back(a), v = back(vt);
		same(mul(dagger(u), u), one(uc), tol, what + ": orthonormal left factor");
		same(mul(v, dagger(v)), one(vr), tol, what + ": orthonormal right factor");
		M d(uc, vr);
		for (int i = 0; i < mn; ++i)
			d(i, i) = sv[i];
		same(mul(mul(u, d), v), m, tol, what + ": reconstruction");
	}
}
static Z det(const M& m)
{
	if (m.r == 1)
		return m(0, 0);
	Z s = 0;
	for (int j = 0; j < m.r; ++j) {
		M k(m.r - 1, m.r - 1);
		for (int i = 1; i < m.r; ++i)
			for (int q = 0, p = 0; q < m.r; ++q)
				if (q != j)
					k(i - 1, p++) = m(i, q);
		s += (j % 2 ? -1.0 : 1.0) * m(0, j) * det(k);
	}
	return s;
}
template <typename T> static void inv(const M& m)
{
	Matrix<T> a = real_<T>(m);
	if (det(m) == Z(0)) {
		mc::mustThrow([&] { inverse(a); }, show(m) + ": inverse of a singular matrix");
		return;
	}
	inverse(a);
	same(mul(back(a), m), one(m.r), tolOf<T>() * 10, show(m) + ": inverse times the matrix");
	same(mul(m, back(a)), one(m.r), tolOf<T>() * 10, show(m) + ": the matrix times its inverse");
}
static void general(const M& m)
{
	const int n = m.r;
	// defective matrices: residuals stay small although the vectors are not independent
	for (int k = 0; k < 4; ++k) {
		const std::string what = show(m) + " geev " + mc::str(k);
		Matrix<Z> a = real_<Z>(m), vl(n, n), vr(n, n);
		V_<Z>::Type w(n);
		geev(k & 1 ? 'V' : 'N', k & 2 ? 'V' : 'N', a, w, vl, vr);
		Z tr = 0, trw = 0;
		for (int i = 0; i < n; ++i) {
			tr += m(i, i);
			trw += w[i];
		}
		mc::near(trw, tr, 1e-9, what + ": sum of the eigenvalues");
		Z p = 1;
		for (int i = 0; i < n; ++i)
			p *= w[i];
		mc::near(p, det(m), 1e-9, what + ": product of the eigenvalues");
		for (int side = 0; side < 2; ++side) {
			if (!(k >> side & 1))
				continue;
			const M v = back(side ? vr : vl);
			for (int j = 0; j < n; ++j) {
				double norm = 0;
				for (int i = 0; i < n; ++i) {
					norm += std::norm(v(i, j));
					Z s = 0;
					for (int q = 0; q < n; ++q)
						s += side ? m(i, q) * v(q, j) : std::conj(v(q, j)) * m(q, i);
					const Z want = side ? w[j] * v(i, j) : w[j] * std::conj(v(i, j));
					if (std::abs(s - want) > 1e-9)
						mc::fail(what + (side ? ": right" : ": left") + " eigenvector");
				}
				mc::near(norm, 1.0, 1e-10, what + ": norm of an eigenvector");
			}
		}
	}
}
// structured matrices of any size
static M structured(int kind, int r, int c)
{
	M m(r, c);
	for (int i = 0; i < r; ++i)
		for (int j = 0; j < c; ++j)
			switch (kind) {
			case 0: m(i, j) = 0; break;
			case 1: m(i, j) = i == j; break;
			case 2: m(i, j) = 1; break;
			case 3: m(i, j) = std::abs(i - j) == 1; break; // chain
			case 4: m(i, j) = std::exp(I * (2 * M_PI * i * j / std::max(r, c))); break; // Fourier
			case 5: m(i, j) = i == j ? i % 3 : 0; break;
			case 6: m(i, j) = (i / 2 == j / 2) ? 1 + i % 2 + j % 2 : 0; break; // blocks
			case 7: m(i, j) = (i + 1) * (j + 1); break; // rank one
			case 8: m(i, j) = 1.0 / (i + j + 1); break; // Hilbert
			case 9: m(i, j) = i < j ? -I : i > j ? I : 0.0; break;
			case 10: m(i, j) = i == j ? std::pow(10, (i % 7) - 3) : 0; break; // many scales
			case 11: m(i, j) = (i + 1) % r == j ? 1 : 0; break; // cyclic
			}
	return m;
}
static const int KINDS = 12;

void mc::explore()
{
	const bool deep = mc::thorough();
	const std::vector<Z> r4 = { -1, 0, 1, 2 }, r3 = { -1, 0, 1 }, r2 = { 0, 1 };
	const std::vector<Z> zo = { 0, 1, I, Z(1, -2) };
	for (int n = 1; n <= 4; ++n) {
		const auto& al = n < 4 ? r4 : deep ? r3 : r2;
		all(std::min(n, 2), al, [&](const std::vector<Z>& head) {
			mc::run("real symmetric " + std::to_string(n) + " starting " + show([&] { M m(1, head.size()); m.a = head; return m; }()), [&] {
				all(n - head.size(), n == 4 ? r4 : al, [&](const std::vector<Z>& tail) {
					std::vector<Z> d = head;
					d.insert(d.end(), tail.begin(), tail.end());
					all(n * (n - 1) / 2, al, [&](const std::vector<Z>& o) {
						const M m = hermitian(n, d, o);
						eigen<double>(m);
						if (n < 4)
							eigen<float>(m);
					});
					mc::tick();
				});
			});
		});
	}
	for (int n = 1; n <= 3; ++n)
		all(n, r3, [&](const std::vector<Z>& d) {
			mc::run("Hermitian " + std::to_string(n) + " with diagonal " + show([&] { M m(1, n); m.a = d; return m; }()), [&] {
				all(n * (n - 1) / 2, zo, [&](const std::vector<Z>& o) {
					const M m = hermitian(n, d, o);
					eigen<Z>(m);
					eigen<Zf>(m);
					expipi(m);
				});
			});
		});
	for (int r = 1; r <= 3; ++r)
		for (int c = 1; c <= 3; ++c)
			all(std::min(r * c, 2), r3, [&](const std::vector<Z>& head) {
				mc::run("singular values of all " + std::to_string(r) + "x" + std::to_string(c) + " matrices starting " + mc::str(head[0].real()) + " " + mc::str(head.back().real()), [&] {
					const int left = r * c - head.size();
					all(left, left > 4 && !deep ? r2 : r3, [&](const std::vector<Z>& tail) {
						M m(r, c);
						m.a = head;
						m.a.insert(m.a.end(), tail.begin(), tail.end());
						svd<double>(m);
						svd<Z>(m);
						if (r * c <= 6) {
							svd<float>(m);
							for (size_t i = 0; i < m.a.size(); ++i)
								m.a[i] *= i % 3 == 1 ? I : i % 3 == 2 ? Z(1, 1) : Z(1, 0);
							svd<Z>(m);
							svd<Zf>(m);
						}
					});
				});
			});
	for (int n = 1; n <= 3; ++n)
		all(std::min(n, 2), r3, [&](const std::vector<Z>& head) {
			mc::run("inverse and general eigenvalues of all " + std::to_string(n) + "x" + std::to_string(n) + " matrices starting " + mc::str(head[0].real()) + " " + mc::str(head.back().real()), [&] {
				all(n * n - head.size(), r3, [&](const std::vector<Z>& tail) {
					M m(n, n);
					m.a = head;
					m.a.insert(m.a.end(), tail.begin(), tail.end());
					inv<double>(m);
					inv<Z>(m);
					inv<float>(m);
					general(m);
					if (n < 3 || deep) {
						for (size_t i = 0; i < m.a.size(); ++i)
							m.a[i] *= i % 3 == 1 ? I : i % 3 == 2 ? Z(1, 1) : Z(1, 0);
						inv<Z>(m);
						inv<Zf>(m);
						general(m);
					}
				});
			});
		});
	for (int kind = 0; kind < KINDS; ++kind)
		mc::run("structured matrices of kind " + std::to_string(kind), [&] {
			const int N = deep ? 24 : 12;
			for (int r = 1; r <= N; ++r)
				for (int c = 1; c <= N; ++c) {
					const M m = structured(kind, r, c);
					svd<Z>(m);
					if (kind != 4 && kind != 9)
						svd<double>(m);
					if (r != c)
						continue;
					if (kind != 4 && kind != 11)
						eigen<Z>(m);
					if (kind != 4 && kind != 9 && kind != 11)
						eigen<double>(m);
					if (kind != 4 && kind != 11 && kind != 10 && r <= 6)
						expipi(m);
					if (kind == 1 || kind == 11 || (kind == 4 && r > 1) || (kind == 8 && r < 5)) {
						Matrix<Z> a = real_<Z>(m);
						inverse(a);
						same(mul(back(a), m), one(r), 1e-8, "inverse of kind " + std::to_string(kind) + " size " + std::to_string(r));
					}
				}
		});
	// larger
	const std::vector<std::pair<int, int>> shapes { { 13, 13 }, { 16, 16 }, { 17, 17 }, { 25, 40 }, { 40, 25 }, { 33, 33 }, { 1, 64 }, { 64, 1 }, { 32, 64 }, { 65, 65 }, { 100, 3 }, { 3, 100 } };
	for (auto& sh : shapes)
		for (int kind = 0; kind < KINDS; ++kind)
			mc::run("larger " + std::to_string(sh.first) + "x" + std::to_string(sh.second) + " of kind " + std::to_string(kind), [&] {
				const int r = sh.first, c = sh.second;
				const M m = structured(kind, r, c);
				svd<Z>(m);
				if (kind != 4 && kind != 9)
					svd<double>(m);
				if (r != c)
					return;
				if (kind != 4 && kind != 11)
					eigen<Z>(m);
				if (kind != 4 && kind != 9 && kind != 11)
					eigen<double>(m);
				if (kind == 1 || kind == 11 || kind == 4) {
					Matrix<Z> a = real_<Z>(m);
					inverse(a);
					same(mul(back(a), m), one(r), 1e-7, "inverse of kind " + std::to_string(kind) + " size " + std::to_string(r));
				}
			});
	for (int kind : { 1, 3, 5, 6, 9, 11 })
		for (int n : { 4, 5, 6, 7 })
			mc::run("larger general " + std::to_string(n) + " of kind " + std::to_string(kind), [&] {
				M m = structured(kind, n, n);
				for (int i = 0; i < n; ++i)
					m(i, i) += Z(i % 4, i % 2);
				general(m);
				if (std::abs(det(m)) > 1e-3) {
					inv<Z>(m);
				}
			});
	mc::run("refusals", [] {
		Matrix<double> a(2, 2), vt;
		V_<double>::Type s;
		for (char c : { 'N', 'O', 'V', 'a' })
			mc::mustThrow([&] { Svd<double> x; x(c, a, s, vt); }, "job");
		mc::mustThrow([&] { Svd<double> x("other"); x('A', a, s, vt); }, "back end");
		mc::mustThrow([&] { expIpi(a); }, "exp(i pi A) of a real matrix");
		Matrix<Z> z(2, 3);
		mc::mustThrow([&] { expIpi(z); }, "exp(i pi A) of a matrix that is not square");
	});
}
