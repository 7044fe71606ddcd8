// M03: vector expressions against elementwise arithmetic.
#include "Vector.h"
#include "Complex.h"
#include "mc.h"
#include <sstream>
using namespace PsimagLite;
typedef std::complex<double> Z;
template <typename T> struct V_ { typedef typename PsimagLite::Vector<T>::Type Type; };

inline double cj(double x) { return x; }
inline Z cj(Z x) { return std::conj(x); }
template <typename T> T mk(int k);
template <> double mk<double>(int k)
{
	static double v[] = { 0, 1, -2, 0.5, 3 };
	return v[k % 5];
}
template <> Z mk<Z>(int k)
{
	static Z v[] = { { 0, 0 }, { 1, 0 }, { 0, -2 }, { 0.5, 1 }, { -1, 3 } };
	return v[k % 5];
}
template <typename T> typename V_<T>::Type vec(int n, uint64_t code)
{
	typename V_<T>::Type v(n);
	for (int i = 0; i < n; ++i, code /= 5)
		v[i] = mk<T>(code % 5);
	return v;
}
template <typename T> std::string vs(const T& v)
{
	std::string s = "[";
	for (auto& x : v)
		s += mc::str(x) + " ";
	return s + "]";
}
template <typename V> void same(const V& got, const V& want, const std::string& what)
{
	++mc::g().transitions;
	for (auto& x : want) {
		mc::fold(Z(x).real());
		mc::fold(Z(x).imag());
	}
	bool ok = got.size() == want.size();
	for (size_t i = 0; ok && i < got.size(); ++i)
		ok = std::abs(got[i] - want[i]) <= 1e-14 * (1 + std::abs(want[i]));
	if (!ok)
		mc::fail(what + ": got " + vs(got) + " expected " + vs(want));
}

template <typename T> void expressions(const typename V_<T>::Type& a, const typename V_<T>::Type& b, const typename V_<T>::Type& c, int sk = 4, int tk = 3)
{
	typedef typename V_<T>::Type V;
	const int n = a.size();
	const T s = mk<T>(sk), t = mk<T>(tk), one = mk<T>(1);
	auto el = [&](std::function<T(int)> f) {
		V w(n);
		for (int i = 0; i < n; ++i)
			w[i] = f(i);
		return w;
	};
	const V a0 = a, b0 = b, c0 = c;
	// destination: fresh, longer, shorter, or one of the operands
	for (int dest = 0; dest < 5; ++dest) {
		V d, aa, bb, cc;
		V* p = 0;
		auto prep = [&]() -> V& {
			aa = a0;
			bb = b0;
			cc = c0;
			d.clear();
			if (dest == 1)
				d.resize(n + 3, mk<T>(3));
			p = dest < 2 ? &d : dest == 2 ? &aa : dest == 3 ? &bb : &cc;
			return *p;
		};
		std::string w = " (destination " + mc::str(dest) + ")";
		prep() <= s * aa;
		same(*p, el([&](int i) { return s * a0[i]; }), "v<=s*a" + w);
		prep() <= aa * s;
		same(*p, el([&](int i) { return s * a0[i]; }), "v<=a*s" + w);
		prep() <= s * (t * aa);
		same(*p, el([&](int i) { return s * t * a0[i]; }), "v<=s*(t*a)" + w);
		prep() <= aa + bb;
		same(*p, el([&](int i) { return a0[i] + b0[i]; }), "v<=a+b" + w);
		prep() <= aa - bb;
		same(*p, el([&](int i) { return a0[i] - b0[i]; }), "v<=a-b" + w);
		prep() <= aa + s * bb;
		same(*p, el([&](int i) { return a0[i] + s * b0[i]; }), "v<=a+s*b" + w);
		prep() <= s * aa + bb;
		same(*p, el([&](int i) { return s * a0[i] + b0[i]; }), "v<=s*a+b" + w);
		prep() <= aa - s * bb;
		same(*p, el([&](int i) { return a0[i] - s * b0[i]; }), "v<=a-s*b" + w);
		prep() <= s * (aa + bb);
		same(*p, el([&](int i) { return s * (a0[i] + b0[i]); }), "v<=s*(a+b)" + w);
		prep() <= s * (aa - bb);
		same(*p, el([&](int i) { return s * (a0[i] - b0[i]); }), "v<=s*(a-b)" + w);
		prep() <= s * aa + t * bb + one * cc + s * aa;
		same(*p, el([&](int i) { return s * a0[i] + t * b0[i] + one * c0[i] + s * a0[i]; }), "v<=s*a+t*b+u*c+s*a" + w);
		prep() <= aa - s * bb + t * cc;
		same(*p, el([&](int i) { return a0[i] - s * b0[i] + t * c0[i]; }), "v<=a-s*b+t*c" + w);
		// operands that are not the destination stay as they were
		if (dest != 2) same(aa, a0, "a changed" + w);
		if (dest != 3) same(bb, b0, "b changed" + w);
		if (dest != 4) same(cc, c0, "c changed" + w);
	}
	V v = a;
	v += b;
	same(v, el([&](int i) { return a0[i] + b0[i]; }), "a+=b");
	v = a;
	v -= b;
	same(v, el([&](int i) { return a0[i] - b0[i]; }), "a-=b");
	v = a;
	v += s * b;
	same(v, el([&](int i) { return a0[i] + s * b0[i]; }), "a+=s*b");
	v = a;
	v -= s * b;
	same(v, el([&](int i) { return a0[i] - s * b0[i]; }), "a-=s*b");
	v = a;
	v += v;
	same(v, el([&](int i) { return a0[i] + a0[i]; }), "a+=a");
	v = a;
	v -= s * v;
	same(v, el([&](int i) { return a0[i] - s * a0[i]; }), "a-=s*a");
	v = a;
	v *= s;
	same(v, el([&](int i) { return s * a0[i]; }), "a*=s");
	v = a;
	if (sk) {
		v /= s;
		same(v, el([&](int i) { return a0[i] / s; }), "a/=s");
	}
	v = a;
	same(v += b, v, "value of +=");
	// products
	T p1 = 0, p2 = 0;
	double nn = 0;
	for (int i = 0; i < n; ++i) {
		p1 += a[i] * cj(b[i]);
		p2 += cj(a[i]) * b[i];
		nn += std::norm(a[i]);
	}
	mc::near(Z(a * b), Z(p1), 1e-14, "a*b");
	mc::near(Z(scalarProduct(a, b)), Z(p2), 1e-14, "scalarProduct");
	mc::near(std::abs(PsimagLite::norm(a)), std::sqrt(nn), 1e-14, "norm");
	T sm = 0;
	for (int i = 0; i < n; ++i)
		sm += a[i];
	v = a;
	mc::near(Z(PsimagLite::sum(v)), Z(sm), 1e-14, "sum");
	// text
	std::ostringstream o;
	o.precision(17);
	o << a << 42;
	std::istringstream in(o.str());
	V r(2, s);
	in >> r;
	same(r, a, "text round trip");
	int rest = 0;
	in >> rest;
	mc::eq(rest, 42, "text round trip consumes too much or too little");
	std::ostringstream vp;
	vp.precision(17);
	vectorPrint(a, "q", vp);
	std::ostringstream vpw;
	vpw.precision(17);
	for (int i = 0; i < n; ++i)
		vpw << "q[" << i << "]=" << a[i] << "\n";
	mc::eq(vp.str(), vpw.str(), "vectorPrint");
	// matrix as a vector of rows
	std::vector<std::vector<T>> m(n, std::vector<T>(n));
	std::vector<T> x(n), want(n);
	for (int i = 0; i < n; ++i)
		x[i] = a[i];
	for (int i = 0; i < n; ++i)
		for (int j = 0; j < n; ++j) {
			m[i][j] = b[i] + T(j) * c[j] + T(i);
			want[i] += m[i][j] * x[j];
		}
	std::vector<T> y = m * x;
	same(y, want, "matrix (vector of rows) * vector");
}
template <typename T> void mismatch(int n, int m)
{
	typename V_<T>::Type a(n, mk<T>(1)), b(m, mk<T>(2));
	if (n != m) {
		mc::mustThrow([&]() { T x = a * b; (void)x; }, "a*b of different lengths");
		mc::mustThrow([&]() { scalarProduct(a, b); }, "scalarProduct of different lengths");
	}
}
template <typename T> void all(const char* N)
{
	int maxn = mc::thorough() ? 3 : 2;
	for (int n = 0; n <= maxn; ++n) {
		uint64_t tot = 1;
		for (int i = 0; i < n; ++i)
			tot *= 5;
		for (uint64_t x = 0; x < tot; ++x)
			for (uint64_t y = 0; y < tot; ++y)
				for (uint64_t z = 0; z < tot; ++z) {
					if (n == 3 && (x + 3 * y + 7 * z) % 11)
						continue;
					mc::run(std::string("expressions ") + N + " n=" + mc::str(n) + " a=" + mc::str(x) + " b=" + mc::str(y) + " c=" + mc::str(z), [&]() { expressions<T>(vec<T>(n, x), vec<T>(n, y), vec<T>(n, z)); });
				}
	}
	for (int n : { 3, 4, 5, 7, 8, 15, 16, 17, 33, 64, 100, 257 })
		for (int k = 0; k < 12; ++k)
			mc::run(std::string("expressions ") + N + " n=" + mc::str(n) + " pattern " + mc::str(k), [&]() {
				typename V_<T>::Type a(n), b(n), c(n);
				for (int i = 0; i < n; ++i) {
					a[i] = mk<T>(i * 3 + k);
					b[i] = mk<T>(i * i + 2 * k);
					c[i] = mk<T>(i / 2 + k);
				}
				expressions<T>(a, b, c);
			});
	// all factors, those that are nothing special in algebra but might be in code included
	for (int n : { 0, 1, 3, 8 })
		for (int sk = 0; sk < 5; ++sk)
			for (int tk = 0; tk < 5; ++tk)
				mc::run(std::string("factors ") + N + " n=" + mc::str(n) + " s=" + mc::str(sk) + " t=" + mc::str(tk), [&]() {
					for (int k = 0; k < 5; ++k) {
						typename V_<T>::Type a(n), b(n), c(n);
						for (int i = 0; i < n; ++i) {
							a[i] = mk<T>(i * 3 + k);
							b[i] = mk<T>(i * i + 2 * k + 1);
							c[i] = mk<T>(i / 2 + k);
						}
						expressions<T>(a, b, c, sk, tk);
					}
				});
	for (int n = 0; n < 5; ++n)
		for (int m = 0; m < 5; ++m)
			mc::run(std::string("lengths ") + N + mc::str(n) + " " + mc::str(m), [&]() { mismatch<T>(n, m); });
}
void mc::explore()
{
	all<double>("d");
	all<Z>("z");
	mc::run("integer times complex", [&]() {
		for (int i = -3; i < 4; ++i)
			for (int k = 0; k < 5; ++k) {
				Z r = i * mk<Z>(k);
				mc::near(r, Z(i, 0) * mk<Z>(k), 0, "int*complex");
			}
	});
	mc::run("real and imaginary parts, norms", [&]() {
		for (int k = 0; k < 5; ++k) {
			Z z = mk<Z>(k);
			double d = mk<double>(k);
			mc::eq(PsimagLite::real(z), z.real(), "real");
			mc::eq(PsimagLite::imag(z), z.imag(), "imag");
			mc::near(PsimagLite::conj(z), std::conj(z), 0, "conj");
			mc::near(PsimagLite::norm(z), z.real() * z.real() + z.imag() * z.imag(), 1e-15, "norm");
			mc::eq(PsimagLite::real(d), d, "real of real");
			mc::eq(PsimagLite::imag(d), 0., "imag of real");
			mc::eq(PsimagLite::conj(d), d, "conj of real");
			mc::eq(PsimagLite::norm(d), std::fabs(d), "norm of real");
		}
	});
	for (int n = 0; n < 4; ++n)
		mc::run("vector of pairs text n=" + mc::str(n), [&]() {
			std::vector<std::pair<int, double>> v, w(1, { 9, 9. });
			for (int i = 0; i < n; ++i)
				v.push_back({ i * 3, 0.5 * i });
			std::ostringstream o;
			o << v << 42;
			std::istringstream in(o.str());
			in >> w;
			mc::check(v == w, "round trip");
			int rest = 0;
			in >> rest;
			mc::eq(rest, 42, "rest");
		});
	mc::run("negative length is refused", [&]() {
		std::istringstream in("-1 2 3");
		PsimagLite::Vector<double>::Type v;
		mc::mustThrow([&]() { in >> v; }, "length -1");
	});
}
