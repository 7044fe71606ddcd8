// M02: dense matrices against tables of numbers.
#include "crs_util.h"
#include "Io/IoNg.h"
#include "Io/IoSelector.h"
#include "MatrixNonOwned.h"
#include <fcntl.h>
using namespace PsimagLite;
typedef std::complex<double> Z;
using model::same;

template <typename T> struct Parse;
template <> struct Parse<double> {
	static double get(const std::string& s) { return atof(s.c_str()); }
};
template <> struct Parse<Z> {
	static Z get(const std::string& s)
	{
		std::istringstream i(s);
		Z z;
		i >> z;
		return z;
	}
};

template <typename T> void unary(const D<T>& d)
{
	typedef Matrix<T> M;
	const M a = toPsi(d);
	auto un = [&](const char* w) { same(fromPsi(a), d, std::string(w) + ": operand changed"); };
	mc::eq((int)a.rows(), d.r, "rows");
	mc::eq((int)a.cols(), d.c, "cols");
	// constructors
	typename PsimagLite::Vector<T>::Type data;
	for (int j = 0; j < d.c; ++j)
		for (int i = 0; i < d.r; ++i)
			data.push_back(d(i, j));
	M fromData(data, d.r, d.c);
	same(fromPsi(fromData), d, "constructor from data (column major)");
	mc::check(fromData == a, "equal matrices compare different");
	data.push_back(T(77));
	M fromData2(data, d.r, d.c);
	mc::check(fromData2 == a, "constructor from longer data");
	data.pop_back();
	if (!data.empty()) {
		data.pop_back();
		mc::mustThrow([&]() { M x(data, d.r, d.c); }, "constructor from too few data");
	}
	D<T> filled(d.r, d.c);
	for (auto& x : filled.a)
		x = T(5);
	same(fromPsi(M(d.r, d.c, T(5))), filled, "constructor with value");
	same(fromPsi(M(d.r, d.c)), D<T>(d.r, d.c), "constructor gives zeros");
	M sw(2, 1), cp = a;
	sw(0, 0) = T(3);
	sw.swap(cp);
	same(fromPsi(sw), d, "swap");
	mc::check(cp.rows() == 2 && cp.cols() == 1 && cp(0, 0) == T(3), "swap other side");
	cp.clear();
	mc::check(cp.rows() == 0 && cp.cols() == 0, "clear");
	cp = a;
	cp.conjugate();
	same(fromPsi(cp), model::conjm(d), "conjugate");
	int nz = 0;
	double n2 = 0;
	for (auto& v : d.a) {
		nz += v != T(0);
		n2 += std::norm(Z(v));
	}
	mc::eq((int)a.nonZeros(), nz, "nonZeros");
	mc::near((double)norm2(a), n2, 1e-14, "norm2");
	mc::eq(isZero(a), nz == 0, "isZero");
	{
		M tiny(d.r, d.c);
		for (int i = 0; i < d.r; ++i)
			for (int j = 0; j < d.c; ++j)
				tiny(i, j) = d(i, j) == T(0) ? T(0) : T(1e-100);
		mc::eq(isZero(tiny), nz == 0, "isZero of tiny elements");
	}
	bool herm = true, anti = true, iden = d.r == d.c;
	for (int i = 0; i < d.r; ++i)
		for (int j = 0; j < d.c; ++j) {
			if (d(i, j) != T(i == j))
				iden = false;
			if (d.r == d.c && d(i, j) != model::cj(d(j, i)))
				herm = false;
			if (d.r == d.c && d(i, j) != -model::cj(d(j, i)))
				anti = false;
		}
	mc::eq(isTheIdentity(a), iden, "isTheIdentity");
	if (d.r == d.c) {
		mc::eq(isHermitian(a), herm, "isHermitian");
		mc::eq(isAntiHermitian(a), anti, "isAntiHermitian");
		M x = a;
		x.setToIdentity();
		same(fromPsi(x), model::eye<T>(d.r), "setToIdentity");
	} else {
		mc::mustThrow([&]() { isHermitian(a); }, "isHermitian of a non-square matrix");
		mc::mustThrow([&]() { isAntiHermitian(a); }, "isAntiHermitian of a non-square matrix");
		M x = a;
		mc::mustThrow([&]() { x.setToIdentity(); }, "setToIdentity of a non-square matrix");
	}
	{
		M x = a;
		x.setTo(T(5));
		same(fromPsi(x), filled, "setTo");
	}
	// transposes
	same(fromPsi(transposeConjugate(a)), model::tc(d), "transposeConjugate");
	M t;
	transposeConjugate(t, a);
	same(fromPsi(t), model::tc(d), "transposeConjugate(m2,m)");
	t.clear();
	transpose(t, a);
	same(fromPsi(t), model::tr(d), "transpose(m2,m)");
	un("transpose");
	// scaling
	for (T s : { T(0), T(2), T(-1) }) {
		D<T> want = model::scale(d, s);
		M x = a;
		x *= s;
		same(fromPsi(x), want, "*=");
		M y;
		y = s * a;
		same(fromPsi(y), want, "C=s*A");
		y = a * s;
		same(fromPsi(y), want, "C=A*s");
		x = a;
		x = s * x;
		same(fromPsi(x), want, "A=s*A");
		x = a;
		x += s * a;
		same(fromPsi(x), model::add(d, d, T(1), s), "C+=s*A");
		x = a;
		x += a * s;
		same(fromPsi(x), model::add(d, d, T(1), s), "C+=A*s");
		x = a;
		x += s * x;
		same(fromPsi(x), model::add(d, d, T(1), s), "A+=s*A");
		M e;
		e += s * a;
		same(fromPsi(e), want, "empty += s*A");
		un("scaling");
	}
	// resize: to the same rows with more or fewer columns keeps what remains
	for (int nc = 0; nc <= d.c + 1; ++nc) {
		M x = a;
		x.resize(d.r, nc);
		D<T> w(d.r, nc);
		for (int i = 0; i < d.r; ++i)
			for (int j = 0; j < nc && j < d.c; ++j)
				w(i, j) = d(i, j);
		same(fromPsi(x), w, "resize of the columns");
	}
	if (d.r > 0) {
		M x = a;
		mc::mustThrow([&]() { x.resize(d.r + 1, d.c); }, "resize that changes the rows");
		same(fromPsi(x), d, "after a refused resize");
		if (d.r > 1)
			mc::mustThrow([&]() { x.resize(d.r - 1, d.c); }, "resize that changes the rows");
		same(fromPsi(x), d, "after a refused resize");
		x.clear();
		x.resize(d.r, d.c, T(5));
		same(fromPsi(x), filled, "resize with value of an empty matrix");
	}
	for (size_t k = 0; k < d.a.size(); ++k) {
		D<T> e = d;
		e.a[k] += T(1);
		mc::check(!(toPsi(e) == a), "different matrices compare equal");
	}
	if (d.r != d.c)
		mc::check(!(M(d.c, d.r) == M(d.r, d.c)), "different shapes compare equal");
	// text
	{
		std::ostringstream o;
		o.precision(17);
		o << a << " 42";
		std::istringstream in(o.str());
		M b;
		in >> b;
		same(fromPsi(b), d, "text round trip");
		int rest = 0;
		in >> rest;
		mc::eq(rest, 42, "text round trip consumes too much or too little");
		std::istringstream trunc(o.str().substr(0, 1));
		if (d.r < 10)
			mc::mustThrow([&]() { M c; trunc >> c; }, "text without columns");
		std::ofstream f("m.txt");
		f << a;
		f.close();
		std::ifstream g("m.txt");
		if (d.r && d.c) {
			M c(g);
			std::ostringstream o2;
			o2 << a;
			std::istringstream i2(o2.str());
			M lossy;
			i2 >> lossy;
			mc::check(c == lossy, "constructor from a file");
		}
		for (double eps : { 0., 0.75, 3.0 }) {
			std::ostringstream p;
			p.precision(17);
			a.print(p, eps);
			std::istringstream q(p.str());
			M c;
			q >> c;
			D<T> w = d;
			for (auto& v : w.a)
				if (PsimagLite::norm(v) < eps)
					v = 0;
			same(fromPsi(c), w, "print with a threshold");
		}
		int fd = open("m.bin", O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (d.r && d.c) {
			a.print(fd);
			lseek(fd, 0, SEEK_SET);
			M c;
			c.read(fd);
			same(fromPsi(c), d, "binary descriptor round trip");
		}
		close(fd);
		std::ostringstream mm;
		mm.precision(17);
		mathematicaPrint(mm, a);
		if (d.r && d.c) {
			std::string s = mm.str();
			mc::check(s.substr(0, 4) == "m:={" && s.substr(s.size() - 2) == "}\n", "mathematicaPrint frame");
			s = s.substr(4, s.size() - 6);
			// rows are {..}
			int i = 0;
			size_t p = 0;
			while ((p = s.find('{', p)) != std::string::npos) {
				size_t e = s.find('}', p);
				std::string row = s.substr(p + 1, e - p - 1);
				int depth = 0, j = 0;
				std::string cur;
				row += ",";
				for (char ch : row) {
					if (ch == '(') ++depth;
					if (ch == ')') --depth;
					if (ch == ',' && !depth) {
						mc::check(i < d.r && j < d.c, "mathematicaPrint shape");
						mc::near(Z(Parse<T>::get(cur)), Z(d(i, j)), 1e-12, "mathematicaPrint entry");
						cur.clear();
						++j;
					} else
						cur += ch;
				}
				mc::eq(j, d.c, "mathematicaPrint columns");
				++i;
				p = e;
			}
			mc::eq(i, d.r, "mathematicaPrint rows");
		}
		std::ostringstream sy;
		sy.precision(17);
		std::vector<T> distinct;
		for (auto& v : d.a) {
			bool f = v == T(0);
			for (auto& w : distinct)
				if (w == v || w == -v)
					f = true;
			if (!f)
				distinct.push_back(v);
		}
		if (distinct.size() <= 20 && d.r) {
			symbolicPrint(sy, a);
			std::istringstream is(sy.str());
			int rr, cc;
			is >> rr >> cc;
			mc::check(rr == d.r && cc == d.c, "symbolicPrint shape");
			std::vector<std::string> tok;
			std::string w;
			for (int k = 0; k < d.r * d.c; ++k) {
				is >> w;
				tok.push_back(w);
			}
			is >> w;
			mc::check(w.substr(0, 3) == "---", "symbolicPrint rule");
			std::vector<T> val(128);
			while (is >> w)
				val[(int)w[0]] = Parse<T>::get(w.substr(2));
			for (int k = 0; k < d.r * d.c; ++k) {
				T v = tok[k] == "0" ? T(0) : tok[k][0] == '-' ? -val[(int)tok[k][1]] : val[(int)tok[k][0]];
				mc::near(Z(v), Z(d.a[k]), 1e-12, "symbolicPrint entry");
			}
		}
	}
	// views
	if (d.r && d.c) {
		MatrixNonOwned<const T> view(a);
		M w = a;
		MatrixNonOwned<T> mview(w);
		typename PsimagLite::Vector<T>::Type v(3 + d.r * d.c, T(8));
		for (int k = 0; k < d.r * d.c; ++k)
			v[2 + k] = d(k % d.r, k / d.r);
		MatrixNonOwned<T> off(d.r, d.c, v, 2);
		for (int i = 0; i < d.r; ++i)
			for (int j = 0; j < d.c; ++j) {
				mc::check(view(i, j) == d(i, j), "view element");
				mc::check(off(i, j) == d(i, j), "view with offset");
				off(i, j) = T(4);
				mview(i, j) = T(i * 10 + j);
			}
		mc::check(v[0] == T(8) && v[1] == T(8) && v[2 + d.r * d.c] == T(8), "view writes outside");
		for (int i = 0; i < d.r; ++i)
			for (int j = 0; j < d.c; ++j)
				mc::check(w(i, j) == T(i * 10 + j), "write through the view");
	}
	// matrix times vector
	typename PsimagLite::Vector<T>::Type v(d.c), u(d.r), y(5, T(1)), z;
	for (int j = 0; j < d.c; ++j)
		v[j] = model::Gen<T>::v(j + 3);
	for (int i = 0; i < d.r; ++i)
		u[i] = model::Gen<T>::v(2 * i + 1);
	y <= a * v;
	z <= u * a;
	mc::eq((int)y.size(), d.r, "A*v size");
	mc::eq((int)z.size(), d.c, "v*A size");
	for (int i = 0; i < d.r; ++i) {
		T s = 0;
		for (int j = 0; j < d.c; ++j)
			s += d(i, j) * v[j];
		mc::near(Z(y[i]), Z(s), 1e-13, "A*v");
	}
	for (int j = 0; j < d.c; ++j) {
		T s = 0;
		for (int i = 0; i < d.r; ++i)
			s += d(i, j) * u[i];
		mc::near(Z(z[j]), Z(s), 1e-13, "v*A");
	}
	un("unary");
}

template <typename T> void binary(const D<T>& da, const D<T>& db)
{
	typedef Matrix<T> M;
	const M a = toPsi(da), b = toPsi(db);
	const T two(2);
	if (da.r == db.r && da.c == db.c) {
		M x = a;
		x += b;
		same(fromPsi(x), model::add(da, db), "A+=B");
		x -= b;
		x -= b;
		same(fromPsi(x), model::add(da, db, T(1), T(-1)), "A-=B");
		M c;
		c = a + b;
		same(fromPsi(c), model::add(da, db), "C=A+B");
		c = a - b;
		same(fromPsi(c), model::add(da, db, T(1), T(-1)), "C=A-B");
		c = two * (a + b);
		same(fromPsi(c), model::add(da, db, two, two), "C=s*(A+B)");
		c = two * (a - b);
		same(fromPsi(c), model::add(da, db, two, T(-2)), "C=s*(A-B)");
		c = a + two * b;
		same(fromPsi(c), model::add(da, db, T(1), two), "C=A+s*B");
		c = two * a + b;
		same(fromPsi(c), model::add(da, db, two, T(1)), "C=s*A+B");
		// destination appears in the expression
		x = a;
		x = x + b;
		same(fromPsi(x), model::add(da, db), "A=A+B");
		x = a;
		x = b - x;
		same(fromPsi(x), model::add(da, db, T(-1), T(1)), "A=B-A");
		x = a;
		x = two * (b - x);
		same(fromPsi(x), model::add(da, db, T(-2), two), "A=s*(B-A)");
		x = a;
		x = b + two * x;
		same(fromPsi(x), model::add(da, db, two, T(1)), "A=B+s*A");
		x = a;
		x = two * x + b;
		same(fromPsi(x), model::add(da, db, two, T(1)), "A=s*A+B");
		x = a;
		x += two * b;
		same(fromPsi(x), model::add(da, db, T(1), two), "A+=s*B");
		mc::eq(a == b, da == db, "operator==");
	} else {
		M x = a;
		if (da.r * da.c > 0 && db.r * db.c > 0 && da.r * da.c != db.r * db.c) {
			mc::mustThrow([&]() { x += two * b; }, "A+=s*B of different sizes");
			same(fromPsi(x), da, "A+=s*B refused, and A");
			mc::mustThrow([&]() { x += b * two; }, "A+=B*s of different sizes");
			same(fromPsi(x), da, "A+=B*s refused, and A");
		}
		mc::check(!(a == b), "matrices of different shapes compare equal");
	}
	if (da.c == db.r) {
		D<T> p = model::mul(da, db);
		M c(a * b);
		same(fromPsi(c), p, "M(A*B)", 1e-14);
		M e;
		e = a * b;
		same(fromPsi(e), p, "C=A*B", 1e-14);
		M f = toPsi(model::pat<T>(2, 3, 21));
		f = a * b;
		same(fromPsi(f), p, "C=A*B over other contents", 1e-14);
		f = two * a * b;
		same(fromPsi(f), model::scale(p, two), "C=s*A*B", 1e-14);
		f = a;
		f = f * b;
		same(fromPsi(f), p, "A=A*B", 1e-14);
		f = b;
		f = a * f;
		same(fromPsi(f), p, "B=A*B", 1e-14);
	}
	if (da.r == db.r && da.r) {
		same(fromPsi(multiplyTransposeConjugate(a, b)), model::mul(model::tc(da), db), "multiplyTransposeConjugate C", 1e-14);
		same(fromPsi(multiplyTransposeConjugate(a, b, 'T')), model::mul(model::tr(da), db), "multiplyTransposeConjugate T", 1e-14);
	}
	if (da.r == da.c && db.r == da.r && da.r && db.c) {
		M m = a;
		rotate(m, b);
		same(fromPsi(m), model::mul(model::mul(model::tc(db), da), db), "rotate", 1e-13);
	}
	same(fromPsi(a), da, "left operand changed");
	same(fromPsi(b), db, "right operand changed");
}

// operation sequences over two registers of changing shape
template <typename T> void sequences(int depth)
{
	typedef Matrix<T> M;
	const int NOPS = 12;
	for (int init = 0; init < 4; ++init)
		for (uint64_t s = 0; s < model::ipow(NOPS, depth); ++s) {
			std::string key = std::string("seq ") + model::Gen<T>::name() + " init=" + mc::str(init) + " ops=";
			uint64_t q = s;
			for (int k = 0; k < depth; ++k, q /= NOPS)
				key += (char)('a' + q % NOPS);
			mc::run(key, [&]() {
				D<T> da = init == 0 ? model::pat<T>(2, 2, 7) : init == 1 ? model::pat<T>(2, 3, 45) : init == 2 ? D<T>(0, 0) : model::pat<T>(1, 3, 7);
				D<T> db = init == 0 ? model::pat<T>(2, 2, 11, 3) : init == 1 ? model::pat<T>(3, 2, 58, 1) : init == 2 ? model::pat<T>(1, 2, 3) : model::pat<T>(3, 3, 341);
				M a = toPsi(da), b = toPsi(db);
				uint64_t q = s;
				bool sm = true;
				T two(2);
				for (int k = 0; k < depth; ++k, q /= NOPS) {
					sm = da.r == db.r && da.c == db.c;
					switch (q % NOPS) {
					case 0: if (sm) { a += b; da = model::add(da, db); } break;
					case 1: if (sm) { a = two * (a - b); da = model::add(da, db, two, T(-2)); } break;
					case 2: if (da.c == db.r) { a = a * b; da = model::mul(da, db); } break;
					case 3: { a = transposeConjugate(a); da = model::tc(da); break; }
					case 4: a.swap(b); std::swap(da, db); break;
					case 5: a *= T(-1); da = model::scale(da, T(-1)); break;
					case 6: a = two * b; da = model::scale(db, two); break;
					case 7: if (sm || da.a.empty()) { a += two * b; da = da.a.empty() ? model::scale(db, two) : model::add(da, db, T(1), two); } break;
					case 8: { a.resize(da.r, da.c + 1); D<T> w(da.r, da.c + 1); for (int i = 0; i < da.r; ++i) for (int j = 0; j < da.c; ++j) w(i, j) = da(i, j); da = w; break; }
					case 9: { std::ostringstream o; o.precision(17); o << a; std::istringstream i(o.str()); b.clear(); i >> b; db = da; break; }
					case 10: if (da.r == da.c) { a.setToIdentity(); da = model::eye<T>(da.r); } break;
					case 11: if (da.c == db.r) { b = two * a * b; db = model::scale(model::mul(da, db), two); } break;
					}
					same(fromPsi(a), da, "A after step " + mc::str(k + 1), 1e-12);
					same(fromPsi(b), db, "B after step " + mc::str(k + 1), 1e-12);
				}
			});
		}
}

template <typename T> void hdf5(const D<T>& d1, const D<T>& d2)
{
	mc::run("hdf5 " + std::string(model::Gen<T>::name()) + toS(d1) + " over " + toS(d2), [&]() {
		Matrix<T> a = toPsi(d1), b = toPsi(d2);
		{
			IoNg::Out o("f.hd5", IoNg::ACC_TRUNC);
			o.write(a, "a");
			o.write(b, "b");
		}
		IoNg::In in("f.hd5");
		Matrix<T> x, y = b;
		in.read(x, "a");
		in.read(y, "a");
		same(fromPsi(x), d1, "hdf5 round trip");
		same(fromPsi(y), d1, "hdf5 round trip into a nonempty matrix");
		mc::check(x == a && y == a, "hdf5 round trip: operator==");
		in.read(y, "b");
		mc::check(y == b, "hdf5 second matrix");
	});
}

template <typename T> void all()
{
	std::string N = model::Gen<T>::name();
	auto al = model::Gen<T>::alpha();
	for (int r = 0; r <= 3; ++r)
		for (int c = 0; c <= 3; ++c) {
			if (r * c <= 6 || mc::thorough())
				for (uint64_t n = 0; n < model::ipow(al.size(), std::min(r * c, 8)); ++n) {
					D<T> d = model::nth(r, c, n, al);
					mc::run("unary " + N + toS(d), [&]() { unary(d); });
				}
			for (uint64_t n = 0; n < (1u << r * c); ++n) {
				D<T> d = model::pat<T>(r, c, n);
				mc::run("unary " + N + toS(d), [&]() { unary(d); });
				D<T> u(r, c);
				for (int k = 0; k < r * c; ++k)
					if (n >> k & 1)
						u.a[k] = 1;
				mc::run("unary " + N + toS(u), [&]() { unary(u); });
			}
		}
	for (int r : { 1, 4, 7, 16 })
		for (int c : { 1, 4, 9, 20 })
			mc::run("unary " + N + " full " + mc::str(r) + "x" + mc::str(c), [&]() {
				D<T> d(r, c);
				for (int k = 0; k < r * c; ++k)
					d.a[k] = model::Gen<T>::v(k % 7);
				unary(d);
			});
	// binary: all pairs of shapes, patterns
	for (int r1 = 0; r1 <= 3; ++r1)
		for (int c1 = 0; c1 <= 3; ++c1)
			for (int r2 = 0; r2 <= 3; ++r2)
				for (int c2 = 0; c2 <= 3; ++c2) {
					int n1 = r1 * c1, n2 = r2 * c2;
					uint64_t s1 = n1 > 6 ? (mc::thorough() ? 3 : 37) : n1 > 4 ? 3 : 1, s2 = n2 > 6 ? (mc::thorough() ? 5 : 41) : n2 > 4 ? 3 : 1;
					for (uint64_t x = 0; x < (1u << n1); x += s1)
						mc::run("binary " + N + mc::str(r1) + "x" + mc::str(c1) + " " + mc::str(r2) + "x" + mc::str(c2) + " A=" + mc::str(x), [&]() {
							for (uint64_t y = 0; y < (1u << n2); y += s2)
								binary(model::pat<T>(r1, c1, x), model::pat<T>(r2, c2, y, 5));
							binary(model::pat<T>(r1, c1, x), model::pat<T>(r2, c2, (1u << n2) - 1, 5));
							if (r1 == r2 && c1 == c2)
								binary(model::pat<T>(r1, c1, x), model::pat<T>(r1, c1, x));
						});
				}
	for (int r : { 1, 5, 16, 33, 70 })
		for (int k : { 1, 4, 16, 65 })
			for (int c : { 1, 6, 17, 64 })
				mc::run("binary " + N + " larger " + mc::str(r) + "," + mc::str(k) + "," + mc::str(c), [&]() {
					auto gen = [](int r, int c, int w) {
						D<T> d(r, c);
						for (int i = 0; i < r * c; ++i)
							d.a[i] = model::Gen<T>::v((i * 3 + w) % (5 + w));
						return d;
					};
					for (int w = 0; w < 3; ++w) {
						binary(gen(r, k, w), gen(k, c, w + 1));
						binary(gen(r, k, w), gen(r, k, w + 1));
						binary(gen(r, r, w), gen(r, c, w + 1));
						binary(gen(r, k, w), gen(r, k, w));
					}
				});
	for (int r : { 1, 40, 300 })
		for (int c : { 1, 50 })
			hdf5(model::pat<T>(r, c, ~0ull), model::pat<T>(c, r, ~0ull));
	sequences<T>(mc::thorough() ? 5 : 4);
	for (int r = 0; r <= 3; ++r)
		for (int c = 0; c <= 3; ++c)
			for (int b = 0; b < 3; ++b)
				for (uint64_t bits : { 511ull, 0ull, 170ull })
					hdf5(model::pat<T>(r, c, bits), b == 0 ? model::pat<T>(2, 2, 15) : b == 1 ? D<T>(0, 0) : model::pat<T>(3, 1, 7));
}

void mc::explore()
{
	all<double>();
	all<Z>();
	mc::run("mixed real to complex constructor", [&]() {
		for (uint64_t n = 0; n < 64; ++n) {
			D<double> d = model::pat<double>(2, 3, n);
			Matrix<Z> z(toPsi(d));
			for (int i = 0; i < 2; ++i)
				for (int j = 0; j < 3; ++j)
					mc::check(z(i, j) == Z(d(i, j)), "element");
		}
	});
}
