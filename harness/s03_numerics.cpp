// S03: interpolation, roots, differential equations, prediction, quadrature, minimization, special functions.
#include <cassert>
#include <cmath>
#include <memory>
#include "Vector.h"
#include "Matrix.h"
namespace PsimagLite { }
using namespace PsimagLite;
#include "AkimaSpline.h"
#include "Fermi.h"
#include "Integrator.h"
#include "LinearPrediction.h"
#include "Minimizer.h"
#include "RootFindingBisection.h"
#include "RungeKutta.h"
#include "SpecialFunctions.h"
#include "mc.h"
#include "eig.h"
#include <functional>
#include <limits>
#include <sstream>
using mc::check;
using mc::near;
typedef std::vector<double> VD;
typedef std::vector<Z> VZ;

std::string show(const VD& v)
{
	std::ostringstream o;
	for (double x : v)
		o << x << " ";
	return o.str();
}
VD word(uint64_t i, int n, const VD& al)
{
	VD v;
	for (int k = 0; k < n; ++k, i /= al.size())
		v.push_back(al[i % al.size()]);
	return v;
}
bool close(double a, double b, double tol) { return std::abs(a - b) <= tol * (1 + std::abs(b)); }

// ---- Akima: cubic Hermite with the slopes of Akima (1970)
double akima(const VD& x, const VD& y, double t)
{
	const int n = x.size();
	VD m(n + 3); // m[i + 2] is the slope of segment i
	for (int i = 0; i + 1 < n; ++i)
		m[i + 2] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
	m[1] = 2 * m[2] - m[3];
	m[0] = 2 * m[1] - m[2];
	m[n + 1] = 2 * m[n] - m[n - 1];
	m[n + 2] = 2 * m[n + 1] - m[n];
	auto slope = [&](int i) {
		const double l = std::abs(m[i + 1] - m[i]), r = std::abs(m[i + 3] - m[i + 2]);
		return l + r == 0 ? (m[i + 1] + m[i + 2]) / 2 : (r * m[i + 1] + l * m[i + 2]) / (l + r);
	};
	int i = 0;
	while (i + 2 < n && t > x[i + 1])
		++i;
	const double h = x[i + 1] - x[i], u = (t - x[i]) / h;
	return y[i] * (1 + 2 * u) * (1 - u) * (1 - u) + h * slope(i) * u * (1 - u) * (1 - u) + y[i + 1] * u * u * (3 - 2 * u) - h * slope(i + 1) * u * u * (1 - u);
}
void splines()
{
	const int top = mc::thorough() ? 7 : 6;
	for (int n = 3; n <= top; ++n)
		for (int grid = 0; grid < 3; ++grid)
			for (uint64_t i = 0; i < model::ipow(3, n); ++i) {
				VD x, y = word(i, n, { -1, 0, 2 });
				for (int k = 0; k < n; ++k)
					x.push_back(grid == 0 ? k : grid == 1 ? -2 + 0.5 * k * k : -1 + 0.25 * k + (k > 2));
				mc::run("Akima x=" + show(x) + "y=" + show(y), [&] {
					AkimaSpline<VD> s(x, y);
					check(s.getInterval().first == x[0] && s.getInterval().second == x[n - 1], "interval");
					for (int k = 0; k < n; ++k)
						near(s(x[k]), y[k], 1e-11, "does not pass through point " + std::to_string(k));
					for (int k = 0; k + 1 < n; ++k)
						for (double f : { 0.125, 0.5, 0.75 }) {
							const double t = x[k] + f * (x[k + 1] - x[k]);
							near(s(t), akima(x, y, t), 1e-10, "between the points, at " + std::to_string(t));
						}
					mc::tick();
					for (int k = 1; k + 1 < n; ++k) { // continuous first derivative
						const double e = 1e-6, d1 = (s(x[k]) - s(x[k] - e)) / e, d2 = (s(x[k] + e) - s(x[k])) / e;
						check(std::abs(d1 - d2) < 1e-3, "slope jumps at point " + std::to_string(k));
					}
					for (double t : { x[0] - 1e-9, x[0] - 10, x[n - 1] + 1e-9, x[n - 1] + 3, std::nan("") })
						mc::mustThrow([&] { s(t); }, "out of range");
				});
			}
	// many points, uneven, at several scales
	for (int n : { 8, 9, 12, 17, 33, 64, 100, 257 })
		for (int shape = 0; shape < 6; ++shape)
			for (double scale : { 1., 1e-5, 1e5 })
				mc::run("Akima points " + std::to_string(n) + " shape " + std::to_string(shape) + " scale " + mc::str(scale), [&] {
					VD x, y;
					for (int k = 0; k < n; ++k) {
						x.push_back((x.empty() ? -7 : x.back() / scale + 0.25 + (shape % 2 ? k * 7 % 5 * 0.375 : 0)) * scale);
						const int w = k * k * 31 % 17;
						y.push_back(shape < 2 ? w : shape < 3 ? w / scale : shape < 4 ? (k / 3 % 2 ? 2 : -1) : shape < 5 ? std::abs(k - n / 2) : 1e8 + 3 * x[k]);
					}
					AkimaSpline<VD> s(x, y);
					check(s.getInterval().first == x[0] && s.getInterval().second == x[n - 1], "interval");
					double top = 1;
					for (double v : y)
						top = std::max(top, std::abs(v));
					for (int k = 0; k + 1 < n; ++k)
						for (double f : { 0., 1e-9, 0.125, 0.5, 0.875, 1. - 1e-9 }) {
							const double t = f == 0 ? x[k] : x[k] + f * (x[k + 1] - x[k]);
							const double got = s(t), want = f == 0 ? y[k] : akima(x, y, t);
							check(std::abs(got - want) <= 1e-9 * top, "at " + mc::str(t) + ": got " + mc::str(got) + " expected " + mc::str(want));
							mc::count(1);
						}
					near(s(x[n - 1]), y[n - 1], 1e-9 * top, "last point");
					mc::fold(s((x[0] + x[n - 1]) / 2) / top);
				});
	for (int a = 0; a <= 5; ++a)
		for (int b = 0; b <= 5; ++b)
			mc::run("Akima sizes " + std::to_string(a) + " " + std::to_string(b), [&] {
				VD x(a), y(b, 1);
				for (int k = 0; k < a; ++k)
					x[k] = k;
				if (a != b || a < 3)
					mc::mustThrow([&] { AkimaSpline<VD> s(x, y); }, "sizes");
				else
					near(AkimaSpline<VD>(x, y)(1.5), 1, 1e-12, "constant");
			});
}

// ---- bisection
struct Fn {
	typedef double RealType;
	std::function<double(double)> f;
	mutable int calls = 0;
	double operator()(double x) const
	{
		++calls;
		return f(x);
	}
};
void roots()
{
	struct F {
		std::string name;
		std::function<double(double)> f;
		double lipschitz;
	};
	std::vector<F> fs;
	for (double r : { -3., -0.5, 0., 0.25, 1. / 3, 2. })
		for (double k : { 1., -2., 1e-3 })
			fs.push_back({ "linear root " + std::to_string(r) + " slope " + std::to_string(k), [=](double x) { return k * (x - r); }, std::abs(k) });
	fs.push_back({ "cubic", [](double x) { return x * x * x - 2; }, 3e4 });
	fs.push_back({ "three roots", [](double x) { return (x + 1) * x * (x - 2); }, 4e4 });
	fs.push_back({ "square", [](double x) { return x * x - 2; }, 200 });
	fs.push_back({ "positive", [](double x) { return x * x + 1; }, 200 });
	fs.push_back({ "jump", [](double x) { return x < 0.7 ? -1. : 1.; }, 0 });
	fs.push_back({ "tiny", [](double x) { return 1e-200 * x; }, 1e-200 });
	fs.push_back({ "huge", [](double x) { return 1e200 * x; }, 1e200 });
	fs.push_back({ "cosine", [](double x) { return std::cos(x); }, 1 });
	fs.push_back({ "nan", [](double) { return std::nan(""); }, 0 });
	const std::vector<std::pair<double, double>> iv { { -100, 100 }, { -1, 3 }, { 0, 1 }, { 0, 2 }, { 3, -1 }, { -3, 100 }, { 0.5, 0.5 }, { -90, -80 } };
	for (auto& F : fs)
		for (auto& I : iv)
			for (unsigned maxIter : { 0u, 1u, 5u, 100u, 1100u })
				for (double tol : { 1e-3, 1e-10 }) {
					std::ostringstream o;
					o << "bisection of " << F.name << " in " << I.first << " " << I.second << " iterations " << maxIter << " tolerance " << tol;
					mc::run(o.str(), [&] {
						Fn f { F.f };
						const double fa = F.f(I.first), fb = F.f(I.second);
						const bool bracket = (fa < 0 && fb > 0) || (fa > 0 && fb < 0);
						if (!bracket) {
							mc::mustThrow([&] { RootFindingBisection<Fn> r(f, I.first, I.second, maxIter, tol); }, "no change of sign");
							return;
						}
						RootFindingBisection<Fn> r(f, I.first, I.second, maxIter, tol);
						for (int again = 0; again < 2; ++again) {
							f.calls = 0;
							mc::tick();
							// halvings until the interval is so small that the function is
							const double w = std::abs(I.second - I.first) * F.lipschitz / tol;
							const bool sure = F.lipschitz > 0 && F.lipschitz < 1e100 && std::log2(std::max(w, 1e-300)) + 1 < maxIter && maxIter > 0;
							double c = 0;
							bool found = false;
							try {
								c = r();
								found = true;
							} catch (std::exception&) {
							}
							check(found || !sure, "gives up too early");
							check(!found || F.lipschitz > 0, "found a root that is not there");
							check(f.calls <= (int)maxIter + 3, "more iterations than wanted");
							if (found) {
								check(std::abs(F.f(c)) < tol, "not a root: " + std::to_string(c));
								check(c >= std::min(I.first, I.second) && c <= std::max(I.first, I.second), "root outside of the interval");
							}
							mc::fold(uint64_t(found));
						}
					});
				}
	mc::run("bisection defaults", [&] {
		Fn f { [](double x) { return x - 42; } };
		RootFindingBisection<Fn> r(f);
		near(r(), 42, 1e-3, "root");
		Fn g { [](double x) { return x - 142; } };
		mc::mustThrow([&] { RootFindingBisection<Fn> q(g); }, "root outside of the default interval");
	});
}

// ---- Runge-Kutta
template <typename T> struct Sys {
	typedef std::vector<T> V;
	std::function<V(double, const V&)> f;
	V operator()(const double& t, const V& y) const { return f(t, y); }
};
template <typename T> std::vector<std::vector<T>> rk4(const Sys<T>& s, double h, double t, int N, std::vector<T> y)
{
	std::vector<std::vector<T>> r;
	const size_t d = y.size();
	auto axpy = [&](const std::vector<T>& a, double c, const std::vector<T>& b) {
		std::vector<T> z(d);
		for (size_t i = 0; i < d; ++i)
			z[i] = a[i] + c * b[i];
		return z;
	};
	for (int i = 0; i < N; ++i) {
		r.push_back(y);
		auto k1 = s.f(t, y), k2 = s.f(t + h / 2, axpy(y, h / 2, k1)), k3 = s.f(t + h / 2, axpy(y, h / 2, k2)), k4 = s.f(t + h, axpy(y, h, k3));
		for (size_t j = 0; j < d; ++j)
			y[j] += h / 6 * (k1[j] + 2. * k2[j] + 2. * k3[j] + k4[j]);
		t += h;
	}
	return r;
}
template <typename T> void rkOne(const std::string& name, const Sys<T>& s, const std::vector<T>& y0, std::function<std::vector<T>(double)> exact)
{
	typedef std::vector<T> V;
	for (double h : { 0.1, 0.25, -0.125, 0.01 })
		for (double t0 : { 0., -1. })
			for (int N : { 0, 1, 2, 7 }) {
				std::ostringstream o;
				o << "Runge-Kutta " << name << " h=" << h << " from " << t0 << " steps " << N;
				mc::run(o.str(), [&] {
					PsimagLite::RungeKutta<double, Sys<T>, V> rk(s, h);
					std::vector<V> r, want = rk4(s, h, t0, N, y0);
					rk.solve(r, t0, N, y0);
					mc::tick();
					check((int)r.size() == N, "number of points");
					for (int i = 0; i < N && i < (int)r.size(); ++i) {
						check(r[i].size() == y0.size(), "components");
						for (size_t j = 0; j < y0.size(); ++j) {
							check(std::abs(r[i][j] - want[i][j]) <= 1e-11 * (1 + std::abs(want[i][j])), "step " + std::to_string(i) + " component " + std::to_string(j));
							mc::fold(std::abs(want[i][j]));
							if (exact && t0 == 0)
								check(std::abs(r[i][j] - exact(i * h)[j]) <= 20 * std::pow(std::abs(h), 4) * (1 + std::abs(i * h)), "far from the solution at step " + std::to_string(i));
						}
					}
					std::vector<V> r2;
					rk.solveEx(r2, t0, t0 + h * (N + 0.5), y0);
					check(r2.size() == r.size() && r2 == r, "solveEx");
					rk.solve(r2, t0, N, y0); // is added at the end
					check(r2.size() == 2 * r.size(), "second solution is not added");
				});
			}
}
void odes()
{
	const VD al { 0, 1, -1, 0.5 };
	for (uint64_t i = 0; i < 256; ++i) {
		const VD a = word(i, 4, al);
		rkOne<double>("linear " + show(a), Sys<double> { [=](double, const VD& y) { return VD { a[0] * y[0] + a[1] * y[1], a[2] * y[0] + a[3] * y[1] }; } }, { 1, -0.5 }, nullptr);
	}
	for (int k = 0; k < 4; ++k) // t^k is integrated exactly up to k = 3
		rkOne<double>("power " + std::to_string(k), Sys<double> { [=](double t, const VD&) { return VD { std::pow(t, k), 1 }; } }, { 2, 0 }, [=](double t) { return VD { 2 + std::pow(t, k + 1) / (k + 1), t }; });
	rkOne<double>("exponential", Sys<double> { [](double, const VD& y) { return y; } }, { 1 }, [](double t) { return VD { std::exp(t) }; });
	rkOne<double>("t y", Sys<double> { [](double t, const VD& y) { return VD { t * y[0] }; } }, { 1 }, [](double t) { return VD { std::exp(t * t / 2) }; });
	rkOne<double>("y^2", Sys<double> { [](double, const VD& y) { return VD { -y[0] * y[0] }; } }, { 0.5 }, [](double t) { return VD { 1 / (2 + t) }; });
	rkOne<double>("rotation", Sys<double> { [](double, const VD& y) { return VD { -y[1], y[0] }; } }, { 1, 0 }, [](double t) { return VD { std::cos(t), std::sin(t) }; });
	for (double w : { 1., -2., 0.5 })
		rkOne<Z>("phase " + std::to_string(w), Sys<Z> { [=](double, const VZ& y) { return VZ { Z(0, -w) * y[0], Z(0, 0) }; } }, { 1., Z(2, 1) }, [=](double t) { return VZ { std::exp(Z(0, -w * t)), Z(2, 1) }; });
	// chains of many equations, many steps
	for (int n : { 3, 5, 12, 31 })
		for (int N : { 20, 101, 300 })
			for (double h : { 0.03125, -0.02 }) {
				std::ostringstream o;
				o << "Runge-Kutta chain of " << n << " steps " << N << " h=" << h;
				mc::run(o.str(), [&] {
					Sys<double> s { [=](double t, const VD& y) {
						VD z(n);
						for (int i = 0; i < n; ++i)
							z[i] = (i ? y[i - 1] : 0) - (i + 1 < n ? y[i + 1] : 0) + 0.01 * t * (i % 3) - 0.001 * y[i] * y[i];
						return z;
					} };
					VD y0;
					for (int i = 0; i < n; ++i)
						y0.push_back((i * 5 % 7) / 4. - 0.5);
					PsimagLite::RungeKutta<double, Sys<double>, VD> rk(s, h);
					std::vector<VD> r, want = rk4(s, h, 0.25, N, y0);
					rk.solve(r, 0.25, N, y0);
					check((int)r.size() == N, "number of points");
					for (int i = 0; i < N; ++i)
						for (int j = 0; j < n; ++j)
							check(std::abs(r[i][j] - want[i][j]) <= 1e-9, "step " + std::to_string(i) + " component " + std::to_string(j));
					mc::count(N * n);
					mc::fold(r[N - 1][n - 1]);
				});
			}
	// matrices: the diagonal of Y' = [A, Y] is reported
	typedef PsimagLite::Matrix<double> M;
	struct Comm {
		M a;
		M operator()(const double& t, const M& y) const
		{
			M z(2, 2);
			for (int i = 0; i < 2; ++i)
				for (int j = 0; j < 2; ++j)
					for (int k = 0; k < 2; ++k)
						z(i, j) += (1 + t) * (a(i, k) * y(k, j) - y(i, k) * a(k, j));
			return z;
		}
	};
	for (uint64_t i = 0; i < 256; ++i) {
		const VD a = word(i, 4, al);
		mc::run("Runge-Kutta commutator " + show(a), [&] {
			Comm c { M(2, 2) };
			M y0(2, 2);
			for (int r = 0; r < 2; ++r)
				for (int s = 0; s < 2; ++s) {
					c.a(r, s) = a[2 * r + s];
					y0(r, s) = 1 + r - 0.5 * s;
				}
			Sys<double> flat { [&](double t, const VD& y) {
				M m(2, 2);
				for (int k = 0; k < 4; ++k)
					m(k / 2, k % 2) = y[k];
				const M z = c(t, m);
				return VD { z(0, 0), z(0, 1), z(1, 0), z(1, 1) };
			} };
			const auto want = rk4(flat, 0.1, 0.5, 6, VD { y0(0, 0), y0(0, 1), y0(1, 0), y0(1, 1) });
			PsimagLite::RungeKutta<double, Comm, M> rk(c, 0.1);
			std::vector<VD> r;
			rk.solve(r, 0.5, 6, y0);
			check(r.size() == 6, "number of points");
			for (size_t k = 0; k < r.size(); ++k) {
				check(r[k].size() == 2, "diagonal");
				near(r[k][0], want[k][0], 1e-11, "first of the diagonal");
				near(r[k][1], want[k][3], 1e-11, "second of the diagonal");
			}
		});
	}
	// larger ones, real and complex
	for (int n : { 1, 3, 4, 6 })
		for (int seed = 0; seed < 6; ++seed)
			for (double h : { 0.05, -0.125 })
				mc::run("Runge-Kutta matrices of order " + std::to_string(n) + " data " + std::to_string(seed) + " h=" + std::to_string(h), [&] {
					typedef PsimagLite::Matrix<Z> MC;
					auto value = [&](int k) { return Z((k * 37 + seed * 11) % 13 - 6, seed % 2 ? (k * 17 + seed) % 7 - 3 : 0) / 8.0; };
					auto rate = [&](double t, int i, int j) { return value(i * n + j) * (1 + t); };
					struct Left {
						std::function<Z(double, int, int)> a;
						int n;
						MC operator()(const double& t, const MC& y) const
						{
							MC z(n, n);
							for (int i = 0; i < n; ++i)
								for (int j = 0; j < n; ++j)
									for (int k = 0; k < n; ++k)
										z(i, j) += a(t, i, k) * y(k, j);
							return z;
						}
					} left { rate, n };
					MC y0(n, n);
					VZ flat0;
					for (int i = 0; i < n; ++i)
						for (int j = 0; j < n; ++j)
							flat0.push_back(y0(i, j) = value(100 + i * n + j) + (i == j ? 1. : 0.));
					Sys<Z> flat { [&](double t, const VZ& y) {
						VZ z(n * n);
						for (int i = 0; i < n; ++i)
							for (int j = 0; j < n; ++j)
								for (int k = 0; k < n; ++k)
									z[i * n + j] += rate(t, i, k) * y[k * n + j];
						return z;
					} };
					const auto want = rk4<Z>(flat, h, 0.25, 9, flat0);
					PsimagLite::RungeKutta<double, Left, MC> rk(left, h);
					std::vector<VZ> r;
					rk.solve(r, 0.25, 9, y0);
					check(r.size() == 9, "number of points");
					for (size_t k = 0; k < r.size(); ++k) {
						check((int)r[k].size() == n, "diagonal");
						for (int i = 0; i < n; ++i)
							check(std::abs(r[k][i] - want[k][i * n + i]) <= 1e-11 * (1 + std::abs(want[k][i * n + i])), "step " + std::to_string(k) + " diagonal element " + std::to_string(i));
					}
					mc::fold(std::abs(r[8][0]));
				});
	// a time that is a whole number of steps away, all exact in binary
	for (double h : { 0.75, 3., 0.375, -0.75, 0.1875, 7., 0.0625 })
		for (double t0 : { 0., 0.25, 5., -1.25, 100.5 })
			mc::run("Runge-Kutta whole steps h=" + std::to_string(h) + " from " + std::to_string(t0), [&] {
				Sys<double> s { [](double t, const VD&) { return VD { t, 1 }; } };
				PsimagLite::RungeKutta<double, Sys<double>, VD> rk(s, h);
				for (int N = 0; N <= 40; ++N) {
					std::vector<VD> r;
					rk.solveEx(r, t0, t0 + N * h, { 1, 2 });
					check((int)r.size() == N, std::to_string(r.size()) + " points instead of " + std::to_string(N));
					mc::count(1);
				}
				mc::fold(h + t0);
			});
	mc::run("Runge-Kutta with its default array", [&] {
		Sys<double> s { [](double, const VD& y) { return y; } };
		PsimagLite::RungeKutta<double, Sys<double>> rk(s, 0.5);
		std::vector<VD> r;
		rk.solve(r, 0, 3, { 1 });
		const auto w = rk4<double>(s, 0.5, 0, 3, { 1 });
		mc::eq(r.size(), w.size(), "points");
		for (size_t i = 0; i < w.size(); ++i)
			near(r[i][0], w[i][0], 1e-12, "solution");
	});
}

// ---- linear prediction
// least squares y_i = sum_j d_j y_{i-1-j} over the second half; smallest pivot relative to the largest
VD fitOrder(const VD& y, int p, double& quality)
{
	const int n = y.size() / 2;
	D<double> a(p, p + 1);
	for (int l = 0; l < p; ++l)
		for (int j = 0; j <= p; ++j)
			for (int i = n; i < 2 * n; ++i)
				a(l, j) += y[i - l - 1] * (j < p ? y[i - j - 1] : y[i]);
	D<double> s(p, p);
	for (int l = 0; l < p; ++l)
		for (int j = 0; j < p; ++j)
			s(l, j) = a(l, j);
	const auto e = jacobi(s).e;
	quality = e[p - 1] > 0 ? e[0] / e[p - 1] : 0;
	for (int c = 0; c < p; ++c) {
		int r = c;
		for (int i = c; i < p; ++i)
			if (std::abs(a(i, c)) > std::abs(a(r, c)))
				r = i;
		for (int j = 0; j <= p; ++j)
			std::swap(a(c, j), a(r, j));
		for (int i = 0; i < p; ++i) {
			if (i == c || a(c, c) == 0)
				continue;
			const double f = a(i, c) / a(c, c);
			for (int j = 0; j <= p; ++j)
				a(i, j) -= f * a(c, j);
		}
	}
	VD d(p);
	for (int c = 0; c < p; ++c)
		d[c] = a(c, c) != 0 ? a(c, p) / a(c, c) : 0;
	return d;
}
VD extend(VD y, const VD& d, int k)
{
	while (k--) {
		double s = 0;
		for (size_t j = 0; j < d.size(); ++j)
			s += d[j] * y[y.size() - 1 - j];
		y.push_back(s);
	}
	return y;
}
void prediction()
{
	const int top = mc::thorough() ? 8 : 6;
	for (int len = 0; len <= top; ++len)
		for (uint64_t i = 0; i < model::ipow(4, len); ++i) {
			const VD y = word(i, len, { 0, 1, -1, 2.5 });
			mc::run("prediction from " + show(y), [&] {
				for (int p = 1; p <= len / 2 + 1; ++p) {
					mc::tick();
					if (len % 2 == 1 || p > len / 2) {
						mc::mustThrow([&] { LinearPrediction<double> l(y, p); }, "order " + std::to_string(p));
						continue;
					}
					double q;
					const VD d = fitOrder(y, p, q);
					if (q == 0 && p == 1) {
						mc::mustThrow([&] { LinearPrediction<double> l(y, p); }, "any prediction fits");
						continue;
					}
					if (q < 1e-9)
						continue;
					LinearPrediction<double> l(y, p);
					const VD want = extend(y, d, 5);
					l.predict(0);
					l.predict(3);
					l.predict(2);
					for (int k = 0; k < len + 5; ++k)
						check(close(l(k), want[k], 1e-6), "order " + std::to_string(p) + " point " + std::to_string(k) + ": got " + mc::str(l(k)) + " expected " + mc::str(want[k]));
					// fitted again to the same points, it goes on where it was
					l.linearPredictionfunction(y, p);
					l.predict(1);
					check(close(l(len + 5), extend(want, d, 1)[len + 5], 1e-6), "after fitting again");
					mc::fold(want[len + 4]);
				}
			});
		}
	// longer data, higher orders
	const int longest = mc::thorough() ? 200 : 60;
	for (int len = 8; len <= longest; len += len < 24 ? 2 : 18)
		for (int seed = 1; seed <= 12; ++seed) {
			VD y;
			uint64_t x = seed * 2654435761u + len;
			for (int k = 0; k < len; ++k) {
				x = x * 6364136223846793005ull + 1442695040888963407ull;
				y.push_back(int(x >> 40 & 15) - 7 + (seed % 3 ? 0 : 0.5 * k));
			}
			mc::run("prediction from " + std::to_string(len) + " points, data " + std::to_string(seed), [&] {
				for (int p = 1; p <= std::min(len / 2, 9); ++p) {
					double q;
					const VD d = fitOrder(y, p, q);
					mc::tick();
					if (q < 1e-7)
						continue;
					const int more = 12;
					LinearPrediction<double> l(y, p);
					VD want = extend(y, d, more);
					l.predict(more - 5);
					l.predict(5);
					double top = 1;
					for (double v : want)
						top = std::max(top, std::abs(v));
					for (int k = 0; k < len + more; ++k)
						check(std::abs(l(k) - want[k]) <= 1e-6 * top, "order " + std::to_string(p) + " point " + std::to_string(k) + ": got " + mc::str(l(k)) + " expected " + mc::str(want[k]));
					mc::fold(std::round(want[len]));
					if (q > 1e-4) { // far ahead, in any portions
						const VD far = extend(y, d, 4 * len);
						LinearPrediction<double> f(y, p);
						f.predict(1), f.predict(3 * len), f.predict(len - 1);
						double big = 1;
						for (double v : far)
							big = std::max(big, std::abs(v));
						if (big < 1e30)
							for (int k = 0; k < 5 * len; ++k)
								check(std::abs(f(k) - far[k]) <= 1e-6 * big, "order " + std::to_string(p) + " far point " + std::to_string(k) + ": got " + mc::str(f(k)) + " expected " + mc::str(far[k]));
					}
					// the roots of the recursion by Durand and Kerner
					std::vector<Z> r(p);
					for (int a = 0; a < p; ++a)
						r[a] = std::pow(Z(0.4, 0.9), a);
					for (int it = 0; it < 2000; ++it)
						for (int a = 0; a < p; ++a) {
							Z v = 1, w = 1;
							for (int k = 0; k < p; ++k)
								v = v * r[a] - d[k];
							for (int b = 0; b < p; ++b)
								if (b != a)
									w *= r[a] - r[b];
							r[a] -= v / w;
						}
					bool sure = true;
					std::vector<Z> c { 1 };
					for (Z z : r) {
						Z v = 1;
						for (int k = 0; k < p; ++k)
							v = v * z - d[k];
						sure &= std::abs(v) < 1e-9 && std::abs(std::abs(z) - 1) > 1e-5;
						if (std::abs(z) > 1)
							z = 0;
						c.push_back(0);
						for (size_t k = c.size() - 1; k > 0; --k)
							c[k] -= z * c[k - 1];
					}
					if (!sure)
						continue;
					VD nd;
					for (size_t k = 1; k < c.size(); ++k)
						nd.push_back(-c[k].real());
					LinearPrediction<double> l2(y, p);
					l2.predict2(more);
					const VD w2 = extend(y, nd, more);
					for (int k = 0; k < len + more; ++k)
						check(std::abs(l2(k) - w2[k]) <= 1e-4 * (1 + std::abs(w2[k])) + 1e-4, "damped: order " + std::to_string(p) + " point " + std::to_string(k) + ": got " + mc::str(l2(k)) + " expected " + mc::str(w2[k]));
					mc::count(len);
				}
			});
		}
	// sums of powers: the growing ones are removed by predict2
	const VD rs { 0.5, -0.75, 0.25, 1.5, -2 };
	for (uint64_t i = 0; i < model::ipow(5, 3); ++i)
		for (int p = 1; p <= 3; ++p) {
			VD r = word(i, p, rs);
			bool distinct = true;
			for (int a = 0; a < p; ++a)
				for (int b = 0; b < a; ++b)
					distinct &= r[a] != r[b];
			if (!distinct || (p < 3 && i >= model::ipow(5, p)))
				continue;
			for (int total = 1; total <= 5; ++total)
				mc::run("damped prediction, roots " + show(r) + " points " + std::to_string(total), [&] {
					VD y;
					for (int k = 0; k < 10; ++k) {
						double s = 0;
						for (int a = 0; a < p; ++a)
							s += (a + 1) * std::pow(r[a], k);
						y.push_back(s);
					}
					auto poly = [&](const VD& z) { // recursion with these roots
						VD c { 1 };
						for (double x : z) {
							c.push_back(0);
							for (size_t k = c.size() - 1; k > 0; --k)
								c[k] -= x * c[k - 1];
						}
						VD d;
						for (size_t k = 1; k < c.size(); ++k)
							d.push_back(-c[k]);
						return d;
					};
					VD damped = r;
					for (double& x : damped)
						if (std::abs(x) > 1)
							x = 0;
					LinearPrediction<double> l(y, p), l2(y, p);
					l.predict(total);
					l2.predict2(total);
					const VD w1 = extend(y, poly(r), total), w2 = extend(y, poly(damped), total);
					for (int k = 0; k < 10 + total; ++k) {
						check(close(l(k), w1[k], 1e-5), "undamped point " + std::to_string(k) + ": got " + mc::str(l(k)) + " expected " + mc::str(w1[k]));
						check(close(l2(k), w2[k], 1e-4), "damped point " + std::to_string(k) + ": got " + mc::str(l2(k)) + " expected " + mc::str(w2[k]));
					}
				});
		}
}

// ---- quadrature
struct Poly {
	typedef double RealType;
	struct Params {
		VD c;
		int kind;
	} p;
	static double function(double x, void* v)
	{
		const Params& q = *static_cast<Params*>(v);
		double s = 0;
		for (size_t k = q.c.size(); k-- > 0;)
			s = s * x + q.c[k];
		return q.kind == 0 ? s : q.kind == 1 ? s * std::exp(-x) : q.kind == 2 ? s * std::exp(-x * x) : std::abs(x - 0.5) * s;
	}
	Params& params() { return p; }
};
void quadrature()
{
	typedef Integrator<Poly> I;
	auto primitive = [](const VD& c, double x) {
		double s = 0;
		for (size_t k = 0; k < c.size(); ++k)
			s += c[k] * std::pow(x, k + 1) / (k + 1);
		return s;
	};
	for (uint64_t i = 0; i < 81; ++i) {
		const VD c = word(i, 4, { 0, 1, -2 });
		mc::run("quadrature of polynomial " + show(c), [&] {
			Poly f { { c, 0 } };
			I in(f, 1e-9, 1e-9, 1000);
			for (double a : { -1., 0., 2. })
				for (double b : { -1., 1., 2.5 }) {
					const double want = primitive(c, b) - primitive(c, a);
					for (int key = 1; key <= 6; ++key) {
						VD pts { a, b };
						check(close(in(pts, I::INTEG_QAG, key), want, 1e-9), "interval, rule " + std::to_string(key));
						mc::tick();
					}
					VD pts { a, b };
					check(close(in(pts), want, 1e-9), "interval");
					if (a < b) {
						VD mid { a, (a + b) / 3 + (a + b < 0 ? 0 : a / 3), b };
						std::sort(mid.begin(), mid.end());
						check(close(in(mid, I::INTEG_QAGP), want, 1e-9), "with a point in between");
						check(close(in(pts, I::INTEG_QAGP), want, 1e-9), "without one");
					}
				}
			// int_0^oo x^k e^-x = k!, int x^2k e^-x^2 = Gamma(k + 1/2)
			Poly g { { c, 1 } };
			I ig(g, 1e-9, 1e-9, 1000);
			check(close(ig.toInfinity(0), c[0] + c[1] + 2 * c[2] + 6 * c[3], 1e-8), "to infinity");
			check(close(ig.toInfinity(1), std::exp(-1.) * (c[0] + 2 * c[1] + 5 * c[2] + 16 * c[3]), 1e-8), "from one to infinity");
			Poly h { { c, 2 } };
			I ih(h, 1e-9, 1e-9, 1000);
			check(close(ih(), std::sqrt(M_PI) * (c[0] + c[2] / 2), 1e-8), "whole line");
			Poly k { { c, 3 } };
			I ik(k, 1e-9, 1e-9, 1000);
			VD pts { -1, 0.5, 2 };
			VD lo { -c[0], c[0] - c[1], c[1] - c[2], c[2] - c[3], c[3] }; // (x - 1) p would be; build (x - 1/2) p
			for (size_t j = 0; j < 5; ++j)
				lo[j] = (j ? c[j - 1] : 0) - 0.5 * (j < 4 ? c[j] : 0);
			const double want = primitive(lo, 2) - primitive(lo, 0.5) - (primitive(lo, 0.5) - primitive(lo, -1));
			check(close(ik(pts, I::INTEG_QAGP), want, 1e-9), "kink at the point given");
			VD ends { -1, 2 };
			check(close(ik(ends), want, 1e-7), "kink");
			for (int n = 0; n < 2; ++n) {
				VD few(n, 0);
				mc::mustThrow([&] { in(few); }, "fewer than two points");
			}
		});
	}
}

// ---- minimization
struct Bowl {
	typedef double FieldType;
	VD c, k;
	double cross;
	size_t size() const { return c.size(); }
	double operator()(const VD& v) const
	{
		double s = 1;
		for (size_t i = 0; i < c.size(); ++i)
			s += k[i] * (v[i] - c[i]) * (v[i] - c[i]);
		if (c.size() > 1)
			s += cross * (v[0] - c[0]) * (v[1] - c[1]);
		return s;
	}
	void df(VD& d, const VD& v) const
	{
		for (size_t i = 0; i < c.size(); ++i)
			d[i] = 2 * k[i] * (v[i] - c[i]);
		if (c.size() > 1) {
			d[0] += cross * (v[1] - c[1]);
			d[1] += cross * (v[0] - c[0]);
		}
	}
};
void minima()
{
	for (int n = 1; n <= 3; ++n)
		for (uint64_t i = 0; i < model::ipow(3, n); ++i)
			for (uint64_t j = 0; j < model::ipow(2, n); ++j)
				for (double cross : { 0., 0.9 }) {
					Bowl b { word(i, n, { 0, 1.5, -2 }), word(j, n, { 1, 3 }), cross };
					mc::run("minimum at " + show(b.c) + "stiffness " + show(b.k) + "cross " + std::to_string(cross), [&] {
						for (double s0 : { 0., 1.5, 4. }) {
							VD x(n, s0);
							Minimizer<double, Bowl> m(b, 2000);
							int it = m.simplex(x, 0.1, 1e-6);
							mc::tick();
							check(it >= 0 && it < 2000, "simplex iterations");
							check(m.status() == (Minimizer<double, Bowl>::GSL_SUCCESS) && m.statusString() == "GSL_SUCCESS", "simplex status");
							for (int a = 0; a < n; ++a)
								near(x[a], b.c[a], 1e-3, "simplex coordinate " + std::to_string(a));
							VD y(n, s0);
							Minimizer<double, Bowl> m2(b, 2000);
							it = m2.conjugateGradient(y, 0.1, 1e-2, 1e-4);
							if (m2.status() == (Minimizer<double, Bowl>::GSL_SUCCESS)) {
								check(it >= 0, "conjugate gradient iterations");
								VD d(n);
								b.df(d, y);
								double s = 0;
								for (double z : d)
									s += z * z;
								check(std::sqrt(s) < 1.01e-4, "conjugate gradient is not at a minimum");
							} else { // no progress is possible: that is so at the minimum
								double dist = 0;
								for (int a = 0; a < n; ++a)
									dist = std::max(dist, std::abs(b.c[a] - s0));
								check(it <= 0, "failed conjugate gradient says " + std::to_string(it));
								check(dist < 1e-6, "conjugate gradient gives up");
							}
							VD z(n, s0 + 1);
							Minimizer<double, Bowl> m3(b, 1);
							m3.simplex(z, 1e-3, 1e-9);
							check(m3.status() == (Minimizer<double, Bowl>::GSL_CONTINUE) && m3.statusString() == "GSL_CONTINUE", "status when iterations run out");
						}
					});
				}
}

// chatty or not, with any number of coordinates, one minimizer used for several starts
void moreMinima()
{
	for (int n : { 1, 2, 4, 5, 8, 12 })
		for (int shape = 0; shape < 6; ++shape)
			for (int chatty = 0; chatty < 2; ++chatty) {
				Bowl b { VD(n), VD(n), shape % 2 ? 0.7 : 0. };
				for (int i = 0; i < n; ++i) {
					b.c[i] = (i * 7 + shape) % 5 * 0.75 - 1;
					b.k[i] = 1 + (i + shape) % 3;
				}
				mc::run("minimum in " + std::to_string(n) + " dimensions, shape " + std::to_string(shape) + (chatty ? " verbose" : ""), [&] {
					Minimizer<double, Bowl> m(b, 20000, chatty);
					for (double s0 : { 0.125, -3., 40. }) {
						VD y(n, s0);
						int it = m.conjugateGradient(y, 0.01, 1e-2, 1e-5, chatty ? 3 : 0);
						check(it >= 0 && m.status() == (Minimizer<double, Bowl>::GSL_SUCCESS), "conjugate gradient");
						for (int a = 0; a < n; ++a)
							near(y[a], b.c[a], 1e-4, "conjugate gradient coordinate " + std::to_string(a));
						mc::tick();
						if (n > 4)
							continue;
						VD x(n, s0);
						it = m.simplex(x, 0.5, 1e-5);
						check(it >= 0 && it < 20000 && m.status() == (Minimizer<double, Bowl>::GSL_SUCCESS), "simplex");
						for (int a = 0; a < n; ++a)
							near(x[a], b.c[a], 1e-3, "simplex coordinate " + std::to_string(a));
						mc::tick();
					}
				});
			}
}

// ---- special functions
void special()
{
	auto lnGamma = [](Z z) { // shift to large real part, then Stirling
		Z s = 0;
		while (z.real() < 20) {
			s -= std::log(z);
			z += 1;
		}
		const Z i = 1. / z, i2 = i * i;
		return s + (z - 0.5) * std::log(z) - z + 0.5 * std::log(2 * M_PI) + i * (1. / 12 - i2 * (1. / 360 - i2 * (1. / 1260 - i2 / 1680.)));
	};
	for (int a = -12; a <= 20; ++a)
		for (int b = -8; b <= 8; ++b) {
			const Z z(a * 0.25 + (b == 0 ? 0.1 : 0), b * 0.5);
			mc::run("ln Gamma of " + mc::str(z), [&] {
				const Z got = LnGammaFunction(z), want = lnGamma(z);
				near(got.real(), want.real(), 1e-9 * (1 + std::abs(want)), "real part");
				const double d = (got.imag() - want.imag()) / (2 * M_PI);
				check(std::abs(d - std::round(d)) < 1e-9, "phase: got " + mc::str(got.imag()) + " expected " + mc::str(want.imag()));
				mc::tick();
			});
		}
	for (int k = 1; k <= 80; ++k)
		mc::run("Ci of " + std::to_string(k / 8.0), [&] {
			const double x = k / 8.0;
			double s = 0.57721566490153286 + std::log(x), t = 1;
			for (int n = 1; n < 60; ++n) {
				t *= -x * x / ((2 * n - 1) * (2 * n));
				s += t / (2 * n);
			}
			near(Ci(x), s, 1e-10, "cosine integral");
			mc::tick();
		});
	for (int k = 0; k <= 60; ++k)
		mc::run("Ci of the larger " + std::to_string(20 + k * 1.75), [&] {
			const double x = 20 + k * 1.75;
			double f = 0, g = 0, t = 1 / x; // asymptotic, until the terms are small
			for (int n = 0; n < 10; ++n) {
				f += n % 2 ? -t : t;
				g += (n % 2 ? -t : t) * (2 * n + 1) / x;
				t *= (2 * n + 1) * (2 * n + 2) / (x * x);
			}
			near(Ci(x), f * std::sin(x) - g * std::cos(x), 1e-8, "cosine integral");
			mc::tick();
		});
	for (int a : { -50, -21, 25, 50, 200 })
		for (int b : { -100, -31, -9, 9, 40, 300 })
			mc::run("ln Gamma of the larger " + std::to_string(a) + " " + std::to_string(b), [&] {
				const Z z(a + 0.25, b * 0.5);
				const Z got = LnGammaFunction(z), want = lnGamma(z);
				near(got.real(), want.real(), 1e-9 * (1 + std::abs(want)), "real part");
				const double d = (got.imag() - want.imag()) / (2 * M_PI);
				check(std::abs(d - std::round(d)) < 1e-8, "phase: got " + mc::str(got.imag()) + " expected " + mc::str(want.imag()));
			});
	for (int k = -480; k <= 480; ++k)
		mc::run("Fermi function at " + std::to_string(k / 8.0), [&] {
			const long double x = k / 8.0L, f = 1 / (1 + std::exp(x));
			near(fermi((double)x), (double)f, 1e-15, "value");
			check(std::abs(fermi((double)x) - (double)f) <= 1e-12 * (double)f || x > 50, "relative precision");
			near(fermiPrime((double)x), (double)(-f * (1 - f)), 1e-15, "derivative");
			near(logfermi((double)x), (double)-std::log(1 + std::exp(x)), 1e-8, "logarithm");
			near(fermi((float)x), (float)f, 1e-6, "single precision");
			check(fermi((double)x) + fermi(-(double)x) < 1 + 1e-14, "symmetry");
			mc::tick();
		});
	for (double x : { 1e3, 1e10, 1e300, std::numeric_limits<double>::infinity() })
		mc::run("Fermi function at " + mc::str(x), [&] {
			check(fermi(x) == 0 && fermi(-x) == 1, "value");
			check(fermiPrime(x) == 0 && fermiPrime(-x) == 0, "derivative");
			check(logfermi(x) == -x && logfermi(-x) == 0, "logarithm");
		});
}

void mc::explore()
{
	std::cerr.setstate(std::ios::failbit);
	std::cout.setstate(std::ios::failbit);
	splines();
	roots();
	odes();
	prediction();
	quadrature();
	minima();
	moreMinima();
	special();
}
