// dense.h: the boring reference model for matrices: a table of numbers.
#pragma once
#include "mc.h"
namespace model
{
inline double cj(double x) { return x; }
inline std::complex<double> cj(std::complex<double> x) { return std::conj(x); }
inline int cj(int x) { return x; }

template <typename T> struct D {
	int r = 0, c = 0;
	std::vector<T> a;
	D() { }
	D(int r_, int c_)
	    : r(r_)
	    , c(c_)
	    , a(r_ * c_, T(0))
	{
	}
	T& operator()(int i, int j) { return a[i * c + j]; }
	T operator()(int i, int j) const { return a[i * c + j]; }
	bool operator==(const D& o) const { return r == o.r && c == o.c && a == o.a; }
};
template <typename T> std::string toS(const D<T>& m)
{
	std::string s = mc::str(m.r) + "x" + mc::str(m.c) + "[";
	for (int i = 0; i < m.r; ++i) {
		for (int j = 0; j < m.c; ++j)
			s += (j ? " " : "") + mc::str(m(i, j));
		s += i + 1 < m.r ? ";" : "";
	}
	return s + "]";
}
template <typename T> std::ostream& operator<<(std::ostream& o, const D<T>& m) { return o << toS(m); }
template <typename T> D<T> mul(const D<T>& A, const D<T>& B)
{
	D<T> C(A.r, B.c);
	for (int i = 0; i < A.r; ++i)
		for (int j = 0; j < B.c; ++j)
			for (int k = 0; k < A.c; ++k)
				C(i, j) += A(i, k) * B(k, j);
	return C;
}
template <typename T> D<T> add(const D<T>& A, const D<T>& B, T a = 1, T b = 1)
{
	D<T> C(std::max(A.r, B.r), std::max(A.c, B.c));
	for (int i = 0; i < A.r; ++i)
		for (int j = 0; j < A.c; ++j)
			C(i, j) += a * A(i, j);
	for (int i = 0; i < B.r; ++i)
		for (int j = 0; j < B.c; ++j)
			C(i, j) += b * B(i, j);
	return C;
}
template <typename T> D<T> scale(const D<T>& A, T s)
{
	D<T> C = A;
	for (auto& x : C.a)
		x = s * x;
	return C;
}
template <typename T> D<T> tc(const D<T>& A)
{
	D<T> C(A.c, A.r);
	for (int i = 0; i < A.r; ++i)
		for (int j = 0; j < A.c; ++j)
			C(j, i) = cj(A(i, j));
	return C;
}
template <typename T> D<T> tr(const D<T>& A)
{
	D<T> C(A.c, A.r);
	for (int i = 0; i < A.r; ++i)
		for (int j = 0; j < A.c; ++j)
			C(j, i) = A(i, j);
	return C;
}
template <typename T> D<T> conjm(const D<T>& A)
{
	D<T> C = A;
	for (auto& x : C.a)
		x = cj(x);
	return C;
}
template <typename T> D<T> eye(int n)
{
	D<T> C(n, n);
	for (int i = 0; i < n; ++i)
		C(i, i) = 1;
	return C;
}
template <typename T> void same(const D<T>& got, const D<T>& want, const std::string& what, double tol = 0)
{
	mc::check(got.r == want.r && got.c == want.c, what + ": shape");
	for (size_t i = 0; i < want.a.size(); ++i) {
		++mc::g().transitions;
		mc::fold(std::real(std::complex<double>(want.a[i])));
		mc::fold(std::imag(std::complex<double>(want.a[i])));
		if (!(std::abs(got.a[i] - want.a[i]) <= tol * (1 + std::abs(want.a[i]))))
			mc::fail(what + ": got " + toS(got) + " expected " + toS(want));
	}
}
// n-th table over an alphabet
template <typename T> D<T> nth(int r, int c, uint64_t n, const std::vector<T>& alpha)
{
	D<T> m(r, c);
	for (auto& x : m.a) {
		x = alpha[n % alpha.size()];
		n /= alpha.size();
	}
	return m;
}
inline uint64_t ipow(uint64_t b, int e)
{
	uint64_t r = 1;
	while (e-- > 0)
		r *= b;
	return r;
}
// deterministic "generic" value for position k
inline double gv(int k) { static const double v[] = { 1, -2, 3, 0.5, -1.5, 2.5, 4, -3, 0.25, 5, -0.75, 1.25, 6, -5, 7, -0.5 }; return v[k % 16] + (k / 16); }
template <typename T> struct Gen;
template <> struct Gen<double> {
	static double v(int k) { return gv(k); }
	static const char* name() { return "d"; }
	static std::vector<double> alpha() { return { 0, 1, -2 }; }
};
template <> struct Gen<std::complex<double>> {
	static std::complex<double> v(int k) { return { gv(k), gv(k * 5 + 3) }; }
	static const char* name() { return "z"; }
	static std::vector<std::complex<double>> alpha() { return { { 0, 0 }, { 1, 0 }, { 0, -1 }, { 2, 1 } }; }
};
// pattern matrix: bits select which entries are present
template <typename T> D<T> pat(int r, int c, uint64_t bits, int off = 0)
{
	D<T> m(r, c);
	for (int k = 0; k < r * c; ++k)
		if (bits >> k & 1)
			m.a[k] = Gen<T>::v(k + off);
	return m;
}
} // namespace model
