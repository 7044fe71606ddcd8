#pragma once
#include "dense.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <vector>
using model::D;
typedef std::complex<double> Z;

// cyclic Jacobi for Hermitian matrices: eigenvalues ascending, vectors in the columns
template <typename T> struct Eig {
	std::vector<double> e;
	D<T> v;
};
inline double re(double x) { return x; }
inline double re(Z x) { return x.real(); }
template <typename T> Eig<T> jacobi(D<T> A)
{
	const int n = A.r;
	D<T> V = model::eye<T>(n);
	for (int sweep = 0; sweep < 60; ++sweep) {
		double off = 0;
		for (int p = 0; p < n; ++p)
			for (int q = p + 1; q < n; ++q) {
				const double m = std::abs(A(p, q));
				off += m;
				if (m < 1e-300)
					continue;
				const T ph = A(p, q) / m;
				const double th = (re(A(q, q)) - re(A(p, p))) / (2 * m);
				const double t = (th >= 0 ? 1 : -1) / (std::abs(th) + std::sqrt(th * th + 1));
				const double c = 1 / std::sqrt(t * t + 1), s = t * c;
				for (int k = 0; k < n; ++k) { // columns: A <- A J
					const T a = A(k, p), b = A(k, q);
					A(k, p) = c * a - s * model::cj(ph) * b;
					A(k, q) = s * ph * a + c * b;
					const T x = V(k, p), y = V(k, q);
					V(k, p) = c * x - s * model::cj(ph) * y;
					V(k, q) = s * ph * x + c * y;
				}
				for (int k = 0; k < n; ++k) {
					const T a = A(p, k), b = A(q, k);
					A(p, k) = c * a - s * ph * b;
					A(q, k) = s * model::cj(ph) * a + c * b;
				}
			}
		if (off < 1e-14)
			break;
	}
	std::vector<int> o(n);
	for (int i = 0; i < n; ++i)
		o[i] = i;
	std::sort(o.begin(), o.end(), [&](int a, int b) { return re(A(a, a)) < re(A(b, b)); });
	Eig<T> r { {}, D<T>(n, n) };
	for (int j = 0; j < n; ++j) {
		r.e.push_back(re(A(o[j], o[j])));
		for (int i = 0; i < n; ++i)
			r.v(i, j) = V(i, o[j]);
	}
	return r;
}
