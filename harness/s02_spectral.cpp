// S02: spectral functions: continued fractions, collections of them, Chebyshev expansions.
#include <cassert>
#include <cmath>
#include <memory>
#include "CrsMatrix.h"
#include "ContinuedFraction.h"
#include "ContinuedFractionCollection.h"
#include "ChebyshevFunction.h"
#include "ChebyshevFunctionExplicit.h"
#include "ChebyshevSerializer.h"
#include "ChebyshevSolver.h"
#include "Matrix.h"
#include "mc.h"
#include "eig.h"
#include <sstream>
#include <unistd.h>
using mc::check;
using mc::near;
typedef std::vector<double> VD;
typedef PsimagLite::TridiagonalMatrix<double> Tri;
typedef PsimagLite::ContinuedFraction<Tri> CF;
typedef PsimagLite::ContinuedFractionCollection<CF> Coll;
typedef PsimagLite::ParametersForSolver<double> Par;
typedef CF::PlotParamsType PP;
typedef CF::PlotDataType Plot;
static std::string dir;

struct Spec { // one function
	VD a, b; // b[i] couples i and i+1
	double eg;
	int sign;
	Z w;
};
Tri tri(const Spec& s)
{
	Tri t;
	t.push(s.a[0], 77); // b(0) takes no part
	for (size_t i = 1; i < s.a.size(); ++i)
		t.push(s.a[i], s.b[i - 1]);
	return t;
}
// w [ (z - sign (E - T))^{-1} ]_00 as a continued fraction
Z green(const Spec& s, Z z)
{
	Z g = 0;
	for (int i = (int)s.a.size() - 1; i >= 0; --i) {
		Z d = z - double(s.sign) * (s.eg - s.a[i]);
		if (i + 1 < (int)s.a.size())
			d -= s.b[i] * s.b[i] * g;
		g = 1.0 / d;
	}
	return s.w * g;
}
std::string show(const Spec& s)
{
	std::ostringstream o;
	o << "a=";
	for (double x : s.a)
		o << x << " ";
	o << "b=";
	for (double x : s.b)
		o << x << " ";
	o << "E=" << s.eg << " sign=" << s.sign << " weight=" << s.w;
	return o.str();
}
void sameZ(Z got, Z want, const std::string& w, double tol = 1e-9)
{
	check(std::abs(got - want) <= tol * (1 + std::abs(want)), w + ": got " + mc::str(got) + " expected " + mc::str(want));
	mc::fold(want.real());
	mc::fold(want.imag());
}
CF make(const Spec& s, int how, PsimagLite::FreqEnum f = PsimagLite::FREQ_REAL)
{
	if (how == 0) {
		Par p;
		p.Eg = s.eg;
		p.weight = s.w.real();
		p.isign = s.sign;
		return CF(tri(s), p);
	}
	CF c(f);
	if (how == 2) { // it held another function before
		Tri t;
		t.push(4, 0);
		t.push(5, 2);
		t.push(6, 3);
		c.set(t, 3, 2, -s.sign);
	}
	c.set(tri(s), s.eg, s.w.real(), s.sign);
	return c;
}
const std::vector<Z> zs { { 0, 0.1 }, { -1.5, 0.25 }, { 2, 1e-2 }, { 0.3, 4 }, { 1, -0.5 } };

struct Grid {
	double w1, w2, dw, delta;
};
const std::vector<Grid> grids { { 0, 1, 0.25, 0.1 }, { -2, 2, 0.5, 0.05 }, { -1, 1.1, 0.5, 0.3 }, { 0, 0.1, 0.25, 0.1 }, { 1, 1, 0.5, 0.1 }, { -3, -1, 0.1, 0.2 }, { -20, 30, 2.5, 4 } };

// every point of a plot is the function there; the grid is w1 + i dw below w2
void plotReal(const CF& c, const Spec& s, const std::string& at)
{
	for (auto& g : grids) {
		PP p(g.w1, g.w2, g.dw, g.delta, 0, 0);
		for (int pre : { 0, 1, 3, 100 }) {
			Plot r(pre, std::pair<double, Z>(55, Z(66, 77)));
			c.plot(r, p);
			mc::tick();
			const double q = (g.w2 - g.w1) / g.dw;
			size_t n = pre ? pre : r.size();
			check(r.size() == n, at + " size of the plot given");
			if (!pre)
				check(std::abs(double(n) - q) < 1 + 1e-9, at + " number of points " + std::to_string(n));
			for (size_t i = 0; i < n; ++i) {
				const double w = g.w1 + i * g.dw;
				if (w < g.w2 - 1e-9) {
					near(r[i].first, w, 1e-9, at + " frequency");
					sameZ(r[i].second, green(s, Z(w, g.delta)), at + " plotted value");
				} else if (w > g.w2 + 1e-9 && pre)
					check(r[i].first == 55 && r[i].second == Z(66, 77), at + " beyond the end");
			}
		}
	}
}
void plotMats(const CF& c, const Spec& s, const std::string& at)
{
	for (unsigned m : { 1u, 2u, 5u })
		for (double beta : { 0.5, 10. })
			for (unsigned pre : { 0u, 2u, 9u }) {
				const double delta = pre == 2 ? 3 : 0.1;
				PP p(0, 1, 0.25, delta, beta, m);
				Plot r(pre, std::pair<double, Z>(55, Z(66, 77)));
				c.plot(r, p);
				mc::tick();
				check(r.size() == (pre ? pre : m), at + " Matsubara: number of points");
				for (unsigned i = 0; i < r.size(); ++i) {
					if (i < m) {
						const double w = (2 * i + 1) * M_PI / beta;
						near(r[i].first, w, 1e-9, at + " Matsubara frequency");
						sameZ(r[i].second, green(s, Z(delta, w)), at + " Matsubara value");
					} else
						check(r[i].first == 55, at + " Matsubara: beyond the end");
				}
			}
}
std::string file(const std::string& n) { return dir + "/" + n; }
template <typename F> void write(const std::string& name, F f)
{
	PsimagLite::IoSimple::Out io(file(name));
	f(io);
}

void oneFraction(const Spec& s, bool heavy)
{
	mc::run(show(s), [&] {
		for (int how = 0; how < 3; ++how) {
			const CF c = make(s, how);
			const std::string at = "made in way " + std::to_string(how);
			check(c.size() == s.a.size(), at + " size");
			check(c.freqType() == PsimagLite::FREQ_REAL, at + " kind");
			for (Z z : zs)
				for (double off : { s.eg, 0.75 })
					for (int sign : { 1, -1 }) {
						Spec t = s;
						t.eg = off;
						t.sign = sign;
						sameZ(c.iOfOmega(z, off, sign), green(t, z), at + " iOfOmega");
					}
			if (!heavy)
				continue;
			plotReal(c, s, at);
			plotMats(c, s, at);
		}
		if (!heavy)
			return;
		for (auto f : { PsimagLite::FREQ_REAL, PsimagLite::FREQ_MATSUBARA }) {
			const CF c = make(s, 1, f);
			check(c.freqType() == f, "kind it was made with");
			plotMats(c, s, "kind");
			PP none(0, 1, 0.25, 0.1, 1, 0);
			Plot r;
			c.plot(r, none);
			check(r.size() == (f == PsimagLite::FREQ_REAL ? 4u : 0u), "kind decides which plot is made");
			write("cf", [&](PsimagLite::IoSimple::Out& io) { c.write(io, ""); });
			PsimagLite::IoSimple::In io(file("cf"));
			CF d(io);
			check(d.freqType() == f, "kind read back");
			check(d.size() == c.size(), "size read back");
			if (f == PsimagLite::FREQ_REAL)
				plotReal(d, s, "read back");
			plotMats(d, s, "read back");
		}
	});
}
void fractions()
{
	const bool T = mc::thorough();
	int k = 0;
	for (int n = 1; n <= 4; ++n) {
		const VD av { 0, 1, -2 }, bv { 1, 0.5, 0 };
		const uint64_t N = model::ipow(3, 2 * n - 1);
		for (uint64_t i = 0; i < N; ++i) {
			Spec s { {}, {}, 0, 1, 1 };
			uint64_t x = i;
			for (int j = 0; j < n; ++j, x /= 3)
				s.a.push_back(av[x % 3]);
			for (int j = 1; j < n; ++j, x /= 3)
				s.b.push_back(bv[x % 3]);
			for (double eg : { 0., -1.5 })
				for (int sign : { 1, -1 })
					for (double w : { 1., -2.5, 0. }) {
						s.eg = eg;
						s.sign = sign;
						s.w = w;
						++k;
						if (n == 4 && !T && k % 7)
							continue;
						oneFraction(s, n < 3 || k % (T ? 11 : 101) == 0);
					}
		}
	}
}

// collections: all sequences of up to four functions
void collections()
{
	const std::vector<Spec> al { { { 1 }, {}, 0.5, 1, 1 },
		{ { 0, 2 }, { 1 }, -1, -1, 2 },
		{ { 0, 1, -1 }, { 0.5, 1 }, -1.25, 1, -0.5 },
		{ { 1, 2 }, { 1.0 / 3 }, 2.0 / 3, 1, 0 } };
	const int top = mc::thorough() ? 5 : 4;
	for (int n = 0; n <= top; ++n)
		for (uint64_t i = 0; i < model::ipow(4, n); ++i) {
			std::vector<Spec> v;
			uint64_t x = i;
			std::string name = "collection ";
			for (int j = 0; j < n; ++j, x /= 4) {
				v.push_back(al[x % 4]);
				name += std::to_string(x % 4);
			}
			for (auto f : { PsimagLite::FREQ_REAL, PsimagLite::FREQ_MATSUBARA })
				mc::run(name + (f == PsimagLite::FREQ_REAL ? " real" : " Matsubara"), [&] {
					Coll c(f);
					for (auto& s : v)
						c.push(make(s, 1, f));
					auto verify = [&](const Coll& c2, const std::string& at) {
						check(c2.size() == v.size(), at + " size");
						check(c2.freqType() == f, at + " kind");
						for (int mats : { 0, 3 })
							for (int pre : { 0, 1 }) {
								const bool real = f == PsimagLite::FREQ_REAL && mats == 0;
								PP p(-1, 1, 0.5, 0.1, 2, mats);
								Plot r;
								if (pre) { // adds to what is there
									c2.plot(r, p);
									if (r.size() == 0)
										continue;
								}
								c2.plot(r, p);
								mc::tick();
								const size_t m = v.empty() ? 0 : real ? 4 : mats;
								check(r.size() == m, at + " points of the sum");
								for (size_t k = 0; k < m && k < r.size(); ++k) {
									const double w = real ? -1 + 0.5 * k : (2 * k + 1) * M_PI / 2;
									const Z z = real ? Z(w, 0.1) : Z(0.1, w);
									Z want = 0;
									for (auto& s : v)
										want += green(s, z);
									near(r[k].first, w, 1e-9, at + " frequency");
									sameZ(r[k].second, want * double(1 + pre), at + " sum");
								}
								for (size_t j = 0; j < v.size(); ++j) {
									Plot q;
									c2.plotOne(j, q, p);
									check(q.size() == m, at + " points of one");
									for (size_t k = 0; k < q.size(); ++k)
										sameZ(q[k].second, green(v[j], real ? Z(q[k].first, 0.1) : Z(0.1, q[k].first)), at + " one of them");
								}
							}
						if (v.empty() || f != PsimagLite::FREQ_REAL)
							return;
						Plot r(3, std::pair<double, Z>(0, 0));
						mc::mustThrow([&] { c2.plot(r, PP(-1, 1, 0.5, 0.1, 2, 0)); }, "plots of different length");
						Plot r2(4, std::pair<double, Z>(0.123, 0));
						mc::mustThrow([&] { c2.plot(r2, PP(-1, 1, 0.5, 0.1, 2, 0)); }, "plots at different frequencies");
					};
					verify(c, "");
					write("coll", [&](PsimagLite::IoSimple::Out& io) {
						io.printline("#Something=3");
						c.write(io);
						c.write(io);
					});
					if (v.empty()) {
						PsimagLite::IoSimple::In io(file("coll"));
						mc::mustThrow([&] { Coll d(io); }, "a collection without items");
						return;
					}
					PsimagLite::IoSimple::In io(file("coll"));
					Coll d(io);
					verify(d, "read back");
					Coll e(io);
					verify(e, "the second one read back");
					PsimagLite::IoSimple::In io2(file("coll"));
					Coll g(io2, 1);
					verify(g, "the second one read alone");
				});
		}
	mc::run("nothing to read", [&] {
		write("none", [&](PsimagLite::IoSimple::Out& io) { io.printline("#Something=3"); });
		PsimagLite::IoSimple::In io(file("none"));
		mc::mustThrow([&] { Coll d(io); }, "no collection there");
		PsimagLite::IoSimple::In io2(file("none"));
		mc::mustThrow([&] { CF d(io2); }, "no continued fraction there");
	});
}

void functions()
{
	PsimagLite::ChebyshevFunction<double> f;
	PsimagLite::ChebyshevFunctionExplicit<double> g;
	const int M = mc::thorough() ? 400 : 80;
	for (int i = -40; i <= 40; ++i) {
		const double x = i / 32.0;
		mc::run("Chebyshev polynomials at " + std::to_string(x), [&] {
			double p = 1, q = x; // recurrence
			for (int m = 0; m <= M; ++m) {
				const double want = m == 0 ? 1 : q;
				const double tol = 1e-9 * (1 + std::abs(want)) * (1 + m);
				near(f(m, x), want, tol, "T_" + std::to_string(m));
				near(g(m, x), want, tol, "explicit T_" + std::to_string(m));
				if (std::abs(x) <= 1)
					near(f(m, x), std::cos(m * std::acos(x)), tol, "cosine");
				if (m >= 1) {
					const double r = 2 * x * q - p;
					p = q;
					q = r;
				}
			}
		});
	}
}

typedef PsimagLite::ChebyshevSerializer<VD> Ser;
typedef Ser::KernelParametersType Ker;
double chebSum(const VD& mu, int type, double lambda, double x)
{
	const int N = mu.size();
	double s = 0;
	for (int n = 0; n < N; ++n) {
		double g = 1;
		if (type == Ker::JACKSON)
			g = ((N - n + 1) * std::cos(M_PI * n / (N + 1)) + std::sin(M_PI * n / (N + 1)) / std::tan(M_PI / (N + 1))) / (N + 1);
		if (type == Ker::LORENTZ)
			g = std::sinh(lambda * (1 - double(n) / N)) / std::sinh(lambda);
		s += (n ? 2 : 1) * g * mu[n] * std::cos(n * std::acos(x));
	}
	return s / std::sqrt(1 - x * x);
}
void serializer()
{
	for (int N = 1; N <= (mc::thorough() ? 14 : 9); ++N)
		for (int which = 0; which < 4; ++which)
			for (double eg : { 0., -0.75 })
				for (double b : { 0., 0.5 })
					for (double ooa : { 1., 0.4 }) {
						std::ostringstream o;
						o << "moments N=" << N << " set=" << which << " E=" << eg << " b=" << b << " 1/a=" << ooa;
						mc::run(o.str(), [&] {
							VD mu(N);
							for (int i = 0; i < N; ++i)
								mu[i] = which == 0 ? 1 : which == 1 ? (i == N - 1) : which == 2 ? 1.0 / (1 + i) : (i & 1 ? -0.5 : 0.25 * i);
							Tri t;
							t.resize(N, 0);
							for (int i = 0; i < N; ++i)
								(i & 1 ? t.b(i / 2) : t.a(i / 2)) = mu[i];
							Par p;
							p.Eg = eg;
							p.b = b;
							p.oneOverA = ooa;
							Ser s(t, p);
							write("cheb", [&](PsimagLite::IoSimple::Out& io) {
								io.printline("#Something=3");
								// an older one comes first: readers want the last
								Tri t0;
								t0.push(9, 9);
								Ser(t0, Par()).write(io, "");
								s.write(io, "");
							});
							PsimagLite::IoSimple::In io(file("cheb"));
							io.advance(Ser::stringMarker(), PsimagLite::IoSimple::In::LAST_INSTANCE);
							Ser d(io);
							for (const Ser* q : { &s, &d })
								for (int type : { (int)Ker::JACKSON, (int)Ker::LORENTZ, (int)Ker::DIRICHLET })
									for (int cutoff = 0; cutoff <= N + 1; ++cutoff)
										for (auto& g : grids)
											for (int pre : { 0, 2, 60 }) {
												Ser::PlotDataType r(pre, std::pair<double, double>(55, 66));
												q->plot(r, PP(g.w1, g.w2, g.dw, 0, 0, 0), Ker(type, cutoff, 1.5));
												mc::tick();
												const double len = (g.w2 - g.w1) / g.dw;
												if (!pre)
													check(std::abs(double(r.size()) - len) < 1 + 1e-9, "number of points");
												else
													check((int)r.size() == pre, "size of the plot given");
												VD m = mu;
												if (cutoff > 0 && cutoff < N)
													m.resize(cutoff);
												for (size_t i = 0; i < r.size(); ++i) {
													const double w = g.w1 + i * g.dw;
													if (w > g.w2 + 1e-9 && pre)
														check(r[i].first == 55, "beyond the end");
													if (w > g.w2 - 1e-9)
														continue;
													near(r[i].first, w, 1e-9, "frequency");
													const double x = (w + eg - b) * ooa;
													if (std::abs(x) > 1 + 1e-9)
														check(r[i].second == 0, "outside of the spectrum");
													else if (std::abs(x) < 1 - 1e-9) {
														const double want = chebSum(m, type, 1.5, x);
														near(r[i].second, want, 1e-8 * (1 + std::abs(want)), "Chebyshev sum");
													}
												}
											}
						});
					}
	mc::run("no moments to read", [&] {
		write("none", [&](PsimagLite::IoSimple::Out& io) { io.printline("#Something=3"); });
		PsimagLite::IoSimple::In io(file("none"));
		mc::mustThrow([&] { Ser d(io); }, "nothing there");
	});
}

// moments of the scaled matrix in the start vector
template <typename T> void solver(const D<T>& m, const std::vector<T>& v)
{
	const auto e = jacobi(m);
	const int n = m.r;
	if (e.e[n - 1] - e.e[0] < 0.02)
		return;
	std::ostringstream o;
	o << "moments of " << model::toS(m) << " in";
	for (auto& x : v)
		o << " " << x;
	mc::run(o.str(), [&] {
		typedef PsimagLite::CrsMatrix<T> M;
		typedef std::vector<T> V;
		PsimagLite::Matrix<T> d(n, n);
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j)
				d(i, j) = m(i, j);
		M sp(d);
		Par p;
		p.lotaMemory = true;
		PsimagLite::ChebyshevSolver<Par, M, V> c(sp, p);
		for (double x : e.e)
			check(std::abs((x - p.b) * p.oneOverA) <= 1, "eigenvalue " + std::to_string(x) + " is scaled to " + std::to_string((x - p.b) * p.oneOverA));
		for (int again = 0; again < 2; ++again) {
			Tri ab;
			c.decomposition(v, ab);
			mc::tick();
			const int steps = c.steps();
			check(steps > 0 && (int)ab.size() >= steps, "moments made");
			for (int k = 0; k < 2 * steps; ++k) {
				double want = 0;
				for (int j = 0; j < n; ++j) {
					T ov = 0;
					for (int i = 0; i < n; ++i)
						ov += model::cj(e.v(i, j)) * v[i];
					const double x = std::max(-1., std::min(1., (e.e[j] - p.b) * p.oneOverA));
					want += std::norm(ov) * std::cos(k * std::acos(x));
				}
				const double got = k & 1 ? ab.b(k / 2) : ab.a(k / 2);
				if (!(std::abs(got - want) <= 1e-6)) {
					check(false, "moment " + std::to_string(k) + ": got " + mc::str(got) + " expected " + mc::str(want));
					break;
				}
			}
			PsimagLite::Matrix<T> q;
			c.lanczosVectorsSwap(q);
			check((int)q.rows() == n && (int)q.cols() == steps, "vectors kept");
			for (int i = 0; i < n && (int)q.rows() == n; ++i)
				near(q(i, 0), v[i], 1e-12, "first vector");
		}
	});
}
void solvers()
{
	const VD al { 0, 1, -1, 3 };
	for (uint64_t i = 0; i < 64; ++i) {
		D<double> m(2, 2);
		m(0, 0) = al[i % 4];
		m(1, 1) = al[i / 4 % 4];
		m(0, 1) = m(1, 0) = al[i / 16];
		for (VD v : { VD { 1, 0 }, VD { 1, 2 } })
			solver<double>(m, v);
	}
	for (uint64_t i = 0; i < (mc::thorough() ? 729 : 81); ++i) {
		D<Z> m(3, 3);
		const Z ov[] = { 0, 1, Z(0, 1) };
		m(0, 1) = ov[i % 3];
		m(0, 2) = ov[i / 3 % 3];
		m(1, 2) = ov[i / 9 % 3];
		for (int a = 0; a < 3; ++a)
			for (int b = 0; b < a; ++b)
				m(a, b) = std::conj(m(b, a));
		m(0, 0) = 5 + double(i / 27 % 3); // a spectrum away from zero
		m(1, 1) = 5 + double(i / 81 % 3);
		m(2, 2) = 6 + double(i / 243 % 3);
		solver<Z>(m, { 1., Z(0, 1), 0.5 });
	}
}

// longer fractions, longer plots, more members, more moments
Spec longSpec(int n, int form)
{
	Spec s { {}, {}, form == 2 ? -1234.56789 : 1.0 / 3, form & 1 ? -1 : 1, form == 1 ? -2.0 / 7 : form == 3 ? 1e-3 : 1.75 };
	for (int i = 0; i < n; ++i) {
		if (form == 4) { // what is at the far end is seen
			s.a.push_back(0);
			if (i)
				s.b.push_back(1);
			continue;
		}
		s.a.push_back((form == 2 ? -1230.0 : 0.0) + ((i * 7) % 11) / 3.0 - 1.5);
		if (i)
			s.b.push_back(form == 3 && i % 5 == 0 ? 0 : 0.25 + ((i * 3) % 7) / 9.0);
	}
	return s;
}
void largerFractions()
{
	for (int n : { 5, 8, 9, 10, 11, 16, 17, 32, 33, 65, 100 })
		for (int form = 0; form < 5; ++form)
			mc::run("long fraction " + std::to_string(n) + " form " + std::to_string(form), [&] {
				const Spec s = longSpec(n, form);
				for (auto f : { PsimagLite::FREQ_REAL, PsimagLite::FREQ_MATSUBARA }) {
					const CF c = make(s, 1, f);
					write("cf", [&](PsimagLite::IoSimple::Out& io) {
						make(longSpec(n + 3, (form + 1) % 4), 1, f).write(io, "");
						c.write(io, "");
					});
					PsimagLite::IoSimple::In io(file("cf"));
					CF first(io), d(io);
					check((int)first.size() == n + 3 && (int)d.size() == n, "sizes read back");
					for (const CF* q : { &c, (const CF*)&d }) {
						for (double w = -4; w <= 4; w += 0.37)
							for (double eta : { 0.05, 0.5, -0.3, 7.0 })
								sameZ(q->iOfOmega(Z(w, eta), s.eg, s.sign), green(s, Z(w, eta)), "iOfOmega", 1e-7);
						PP p(-3, 7, 1.0 / 128, 0.07, 3.5, 0);
						Plot r;
						if (f == PsimagLite::FREQ_REAL) {
							q->plot(r, p);
							mc::eq(r.size(), size_t(1280), "points");
							for (size_t i = 0; i < r.size(); ++i) {
								near(r[i].first, -3 + i / 128.0, 1e-9, "frequency");
								sameZ(r[i].second, green(s, Z(-3 + i / 128.0, 0.07)), "plotted", 1e-7);
							}
						}
						PP pm(-3, 7, 0.5, 0.07, 3.5, 333);
						Plot rm;
						q->plot(rm, pm);
						mc::eq(rm.size(), size_t(333), "Matsubara points");
						for (size_t i = 0; i < rm.size(); ++i) {
							const double w = (2.0 * i + 1) * M_PI / 3.5;
							near(rm[i].first, w, 1e-9, "Matsubara frequency");
							sameZ(rm[i].second, green(s, Z(0.07, w)), "Matsubara value", 1e-7);
						}
					}
				}
			});
	for (int n : { 6, 9, 10, 11, 16, 33, 64 })
		for (auto f : { PsimagLite::FREQ_REAL, PsimagLite::FREQ_MATSUBARA })
			mc::run("larger collection " + std::to_string(n) + (f == PsimagLite::FREQ_REAL ? " real" : " Matsubara"), [&] {
				Coll c(f);
				std::vector<Spec> v;
				for (int i = 0; i < n; ++i) {
					v.push_back(longSpec(1 + (i * 5) % 12, i % 4 == 2 ? 0 : i % 4));
					if (i % 6 == 5)
						v.back().w = 0;
					c.push(make(v.back(), 1, f));
				}
				write("coll", [&](PsimagLite::IoSimple::Out& io) { c.write(io); });
				PsimagLite::IoSimple::In io(file("coll"));
				Coll d(io);
				for (const Coll* q : { (const Coll*)&c, (const Coll*)&d }) {
					mc::eq((int)q->size(), n, "members");
					check(q->freqType() == f, "kind");
					PP p(-1, 1, 0.125, 0.1, 2, f == PsimagLite::FREQ_REAL ? 0 : 16);
					Plot r;
					q->plot(r, p);
					mc::eq(r.size(), size_t(16), "points of the sum");
					for (int k = 0; k < 16 && k < (int)r.size(); ++k) {
						const Z z = f == PsimagLite::FREQ_REAL ? Z(-1 + 0.125 * k, 0.1) : Z(0.1, (2 * k + 1) * M_PI / 2);
						Z want = 0;
						for (auto& s : v)
							want += green(s, z);
						sameZ(r[k].second, want, "sum", 1e-7);
					}
				}
			});
	for (int N : { 15, 16, 17, 31, 32, 33, 64, 101 })
		for (int type : { (int)Ker::JACKSON, (int)Ker::LORENTZ, (int)Ker::DIRICHLET })
			mc::run("more moments " + std::to_string(N) + " kernel " + std::to_string(type), [&] {
				VD mu(N);
				for (int i = 0; i < N; ++i)
					mu[i] = ((i * 37) % 23 - 11) / 7.0 / (1 + i / 8);
				Tri t;
				t.resize(N, 0);
				for (int i = 0; i < N; ++i)
					(i & 1 ? t.b(i / 2) : t.a(i / 2)) = mu[i];
				Par p;
				p.Eg = -20.0 / 3;
				p.b = -6.5;
				p.oneOverA = 1.0 / 3;
				Ser s(t, p);
				write("cheb", [&](PsimagLite::IoSimple::Out& io) { s.write(io, ""); });
				PsimagLite::IoSimple::In io(file("cheb"));
				Ser d(io);
				for (const Ser* q : { (const Ser*)&s, (const Ser*)&d })
					for (int cutoff : { 0, 1, 2, 7, N / 2, N - 1, N, N + 5 }) {
						Ser::PlotDataType r;
						q->plot(r, PP(-4, 4, 0.03125, 0, 0, 0), Ker(type, cutoff, 4.0));
						mc::eq(r.size(), size_t(256), "points");
						VD m = mu;
						if (cutoff > 0 && cutoff < N)
							m.resize(cutoff);
						for (size_t i = 0; i < r.size(); ++i) {
							const double w = -4 + i * 0.03125, x = (w + p.Eg - p.b) * p.oneOverA;
							near(r[i].first, w, 1e-9, "frequency");
							if (std::abs(x) > 1 + 1e-9)
								check(r[i].second == 0, "outside of the spectrum");
							else if (std::abs(x) < 1 - 1e-6) {
								const double want = chebSum(m, type, 4.0, x);
								near(r[i].second, want, 1e-7 * (1 + std::abs(want)) / std::sqrt(1 - x * x), "Chebyshev sum");
							}
						}
						mc::fold(r[100].second);
					}
			});
	for (int n : { 4, 6, 9, 16, 17, 30 })
		for (int kind = 0; kind < 3; ++kind) {
			D<double> m(n, n);
			D<Z> c(n, n);
			VD v(n);
			std::vector<Z> w(n);
			for (int i = 0; i < n; ++i) {
				v[i] = 1 + (i * 5) % 7;
				w[i] = std::polar(1.0 + i % 3, 0.4 * i);
				for (int j = 0; j <= i; ++j) {
					const int dd = i - j;
					m(i, j) = m(j, i) = kind == 0 ? (dd == 0 ? i % 5 - 30.0 : dd == 1 ? 1 : 0) : kind == 1 ? 1.0 / (1 + dd) + (dd == 0 ? i : 0) : (dd == 0 ? 100 - 2 * i : dd <= 3 ? 0.5 : 0);
					c(i, j) = m(i, j) * std::polar(1.0, 0.9 * (i * i - j * j));
					c(j, i) = std::conj(c(i, j));
				}
			}
			solver<double>(m, v);
			solver<Z>(c, w);
		}
}

void mc::explore()
{
	std::cerr.setstate(std::ios::failbit);
	std::cout.setstate(std::ios::failbit);
	char t[] = "/tmp/s02.XXXXXX";
	dir = mkdtemp(t);
	fractions();
	collections();
	functions();
	serializer();
	solvers();
	largerFractions();
	for (const char* f : { "cf", "coll", "none", "cheb" })
		unlink(file(f).c_str());
	rmdir(dir.c_str());
}
