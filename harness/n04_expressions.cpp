// N04: expressions in the token language and in the sum-of-products language.
#include "AST/ExpressionForAST.h"
#include "AST/PlusMinusMultiplyDivide.h"
#include "CanonicalExpression.h"
#include "words.h"
#include <functional>
#include <map>
#include <regex>
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef PsimagLite::Vector<String>::Type VS;

// ------------------------------------------------------------ token language
struct Leaf {
	std::string text;
	Z value;
};
struct Skip { };
static int arityOf(const std::string& t)
{
	static const std::map<std::string, int> a { { "+", 2 }, { "-", 2 }, { "*", 2 }, { "/", 2 }, { "%", 2 }, { "sin", 1 }, { "cos", 1 }, { "log", 1 }, { "exp", 1 }, { "?", 3 } };
	auto i = a.find(t);
	return i == a.end() ? 0 : i->second;
}
static bool naturalReal(Z x) { return x.imag() == 0 && x.real() >= 0 && x.real() == std::floor(x.real()) && x.real() < 1e9; }
template <typename T> struct Ref;
template <> struct Ref<double> {
	static double un(const std::string& t, double a) { return t == "sin" ? std::sin(a) : t == "cos" ? std::cos(a) : t == "log" ? std::log(a) : std::exp(a); }
	static double of(Z z) { return z.real(); }
};
template <> struct Ref<Z> {
	static Z un(const std::string& t, Z a) { return t == "sin" ? std::sin(a) : t == "cos" ? std::cos(a) : t == "log" ? std::log(a) : std::exp(a); }
	static Z of(Z z) { return z; }
};
template <typename T> T reference(const std::vector<std::string>& tok, const std::vector<Leaf>& leaves)
{
	std::vector<size_t> first;
	size_t need = 1;
	for (auto& t : tok)
		first.push_back(need), need += arityOf(t);
	std::function<T(size_t)> ev = [&](size_t i) -> T {
		const std::string& t = tok[i];
		int n = arityOf(t);
		if (n == 0) {
			for (auto& l : leaves)
				if (l.text == t)
					return Ref<T>::of(l.value);
			mc::fail("harness: unknown leaf");
		}
		T a = ev(first[i]);
		if (n == 1)
			return Ref<T>::un(t, a);
		T b = ev(first[i] + 1);
		if (t == "+") return a + b;
		if (t == "-") return a - b;
		if (t == "*") return a * b;
		if (t == "/") {
			if (std::abs(b) < 0.00101)
				throw Skip(); // protected division
			return a / b;
		}
		if (t == "%") {
			if (!naturalReal(a) || !naturalReal(b) || Z(b).real() == 0)
				throw Skip();
			return T(std::fmod(Z(a).real(), Z(b).real()));
		}
		T c = ev(first[i] + 2);
		if (!(a == T(0)) && !(std::abs(a) >= 1 && std::abs(a) < 1e4))
			throw Skip(); // conditions are whole numbers
		return a != T(0) ? b : c;
	};
	return ev(0);
}
template <typename T> bool agree(T a, T b)
{
	Z x(a), y(b);
	auto one = [](double p, double q) {
		if (std::isnan(p) || std::isnan(q))
			return std::isnan(p) && std::isnan(q);
		if (std::isinf(p) || std::isinf(q))
			return p == q;
		return true;
	};
	if (!std::isfinite(x.real()) || !std::isfinite(x.imag()) || !std::isfinite(y.real()) || !std::isfinite(y.imag()))
		return one(x.real(), y.real()) && one(x.imag(), y.imag());
	return std::abs(x - y) <= 1e-8 * /* pi is given 10 digits */ (1 + std::abs(y));
}
template <typename T> T run(const std::vector<std::string>& tok)
{
	VS v(tok.begin(), tok.end());
	PlusMinusMultiplyDivide<T> prim;
	ExpressionForAST<PlusMinusMultiplyDivide<T>> e(v, prim);
	T x = e.exec();
	T y = e.exec();
	if (!agree(x, y))
		mc::fail("a second evaluation differs");
	return x;
}
static std::string join(const std::vector<std::string>& t)
{
	std::string s;
	for (auto& x : t)
		s += (s.empty() ? "" : ":") + x;
	return s;
}
template <typename T> void tokens(const std::string& w, const std::vector<std::string>& ops, const std::vector<Leaf>& leaves, size_t maxTok)
{
	std::vector<std::string> all(ops);
	for (auto& l : leaves)
		all.push_back(l.text);
	// every complete token sequence of up to maxTok tokens; every incomplete one is an error
	std::vector<std::string> cur;
	std::function<void(int)> rec = [&](int open) {
		if (open == 0) {
			T want;
			try {
				want = reference<T>(cur, leaves);
			} catch (Skip&) {
				return;
			}
			++mc::g().transitions;
			T got = ::run<T>(cur);
			mc::fold(std::isfinite(std::abs(want)) ? std::abs(want) : -1.0);
			if (!agree(got, want))
				mc::fail(join(cur) + ": got " + mc::str(got) + " expected " + mc::str(want));
			return;
		}
		if (cur.size() >= 1 && cur.size() <= 3)
			mc::mustThrow([&] { ::run<T>(cur); }, join(cur) + " (operands missing)");
		if (cur.size() + open > maxTok)
			return;
		for (auto& t : all) {
			cur.push_back(t);
			rec(open - 1 + arityOf(t));
			cur.pop_back();
		}
	};
	mc::run("tokens " + w + " none", [&] { mc::mustThrow([&] { ::run<T>({}); }, "no tokens"); });
	for (auto& a : all) {
		if (arityOf(a) == 0) {
			mc::run("tokens " + w + " " + a, [&] { cur = { a }, rec(0); });
			continue;
		}
		for (auto& b : all)
			mc::run("tokens " + w + " up to " + std::to_string(maxTok) + " starting " + a + " " + b, [&] {
				cur = { a, b };
				rec(arityOf(a) + arityOf(b) - 1);
			});
	}
	mc::run("tokens " + w + " unknown", [&] {
		for (const char* u : { "x", "", "1x", "sine", "--", "+1+", "1..2", "()", "pi" })
			for (auto& o : ops) {
				std::vector<std::string> t { o };
				for (int k = 0; k < arityOf(o); ++k)
					t.push_back(leaves[0].text);
				t.back() = u;
				mc::mustThrow([&] { ::run<T>(t); }, join(t) + " (unknown token)");
			}
	});
}
// ------------------------------------------------------------------ literals
static bool literal(const std::string& s, Z& z, bool& real)
{
	static const std::string U = "((?:[0-9]+\\.?[0-9]*|\\.[0-9]+)(?:[eE][+-]?[0-9]+)?)";
	static const std::regex re("([+-]?)" + U), im("([+-]?)" + U + "?i"), both("([+-]?)" + U + "([+-]|\\+-)" + U + "?i");
	std::smatch m;
	auto val = [](const std::string& sign, bool has, const std::string& t) {
		double v = has ? strtod(t.c_str(), 0) : 1;
		return sign.size() && sign.back() == '-' ? -v : v;
	};
	real = false;
	if (std::regex_match(s, m, re)) {
		z = val(m[1], true, m[2]);
		real = true;
	} else if (std::regex_match(s, m, im))
		z = Z(0, val(m[1], m[2].matched, m[2]));
	else if (std::regex_match(s, m, both))
		z = Z(val(m[1], true, m[2]), val(m[3], m[4].matched, m[4]));
	else
		return false;
	return true;
}
static void literals()
{
	words::explore("literals", words::chars("12.+-ie"), mc::thorough() ? 7 : 6, [](const std::string& w) {
		Z z = 0;
		bool real = false;
		const bool ok = literal(w, z, real);
		const bool op = w == "+" || w == "-";
		if (op)
			return; // operators, above
		Z got = 0;
		bool t = mc::throws([&] { got = ::run<Z>({ w }); });
		mc::check(t != ok, t ? "a complex number refused" : "accepted as a complex number: " + mc::str(got));
		if (ok)
			mc::check(agree(got, z), "complex value " + mc::str(got) + " expected " + mc::str(z));
		double g = 0;
		t = mc::throws([&] { g = ::run<double>({ w }); });
		mc::check(t != (ok && real), t ? "a number refused" : "accepted as a real number: " + mc::str(g));
		if (ok && real)
			mc::check(agree(g, z.real()), "value " + mc::str(g) + " expected " + mc::str(z.real()));
		mc::fold(std::isfinite(std::abs(z)) ? std::abs(z) : -1.0);
	});
}
// ----------------------------------------------- sum-of-products language
template <typename T> struct M2 { // 2x2 matrices that do not commute; empty is "no operator"
	bool empty = true;
	T a[4] = { 0, 0, 0, 0 };
	M2() { }
	M2(T p, T q, T r, T s)
	    : empty(false)
	    , a { p, q, r, s }
	{
	}
	M2& operator*=(const M2& o)
	{
		M2 x(a[0] * o.a[0] + a[1] * o.a[2], a[0] * o.a[1] + a[1] * o.a[3], a[2] * o.a[0] + a[3] * o.a[2], a[2] * o.a[1] + a[3] * o.a[3]);
		return *this = x;
	}
	M2& operator*=(T s)
	{
		for (T& x : a)
			x *= s;
		return *this;
	}
	M2& operator+=(const M2& o)
	{
		for (int i = 0; i < 4; ++i)
			a[i] += o.a[i];
		empty = false;
		return *this;
	}
};
template <typename T> struct MatSpec {
	typedef M2<T> ResultType;
	typedef T ComplexOrRealType;
	typedef int AuxiliaryType;
	static M2<T> get(const std::string& n)
	{
		if (n == "a") return M2<T>(1, 2, 3, 4);
		if (n == "b") return M2<T>(0, 1, -1, 2);
		if (n == "a'") return M2<T>(1, 3, 2, 4);
		if (n == "n0") return M2<T>(0, 0, 0, 1);
		throw RuntimeError("unknown name " + n + "\n");
	}
	M2<T> operator()(const String& n, AuxiliaryType& aux) const
	{
		++aux;
		return get(n);
	}
	static bool isEmpty(const M2<T>& m) { return m.empty; }
	static bool metaEqual(const M2<T>&, const M2<T>&) { return true; }
};
template <typename T> struct NumSpec { // plain numbers: nothing is empty
	typedef T ResultType;
	typedef T ComplexOrRealType;
	typedef int AuxiliaryType;
	static T get(const std::string& n)
	{
		if (n == "a") return 5;
		if (n == "b") return -0.5;
		throw RuntimeError("unknown name " + n + "\n");
	}
	T operator()(const String& n, AuxiliaryType&) const { return get(n); }
	static bool isEmpty(const T&) { return false; }
	static bool metaEqual(const T&, const T&) { return true; }
};
struct Factor {
	std::string text;
	Z scalar;
	bool name;
};
typedef std::vector<std::vector<int>> Expr; // terms of factors
template <typename T> void products(const std::string& w, const std::vector<Factor>& fac, int maxF, int maxT)
{
	std::vector<std::vector<int>> terms;
	std::function<void(std::vector<int>&)> mk = [&](std::vector<int>& t) {
		if (!t.empty())
			terms.push_back(t);
		if ((int)t.size() == maxF)
			return;
		for (size_t i = 0; i < fac.size(); ++i) {
			t.push_back(i);
			mk(t);
			t.pop_back();
		}
	};
	std::vector<int> t0;
	mk(t0);
	auto one = [&](const std::vector<const std::vector<int>*>& e) {
		std::string s;
		for (auto t : e) {
			if (!s.empty())
				s += "+";
			for (size_t k = 0; k < t->size(); ++k)
				s += (k ? "*" : "") + fac[(*t)[k]].text;
		}
		M2<T> want;
		for (auto t : e) {
			M2<T> p;
			T f = 1;
			for (int k : *t)
				if (fac[k].name) {
					M2<T> m = MatSpec<T>::get(fac[k].text);
					if (p.empty) p = m;
					else p *= m;
				} else
					f *= Ref<T>::of(fac[k].scalar);
			if (p.empty)
				continue; // a term without operator contributes none
			p *= f;
			want += p;
		}
		MatSpec<T> spec;
		CanonicalExpression<MatSpec<T>> ce(spec);
		for (int pre = 0; pre < 2; ++pre) { // the result may hold something beforehand
			M2<T> r;
			if (pre)
				r = M2<T>(9, 9, 9, 9);
			int aux = 0;
			bool nonEmpty = ce(r, s, M2<T>(), aux);
			++mc::g().transitions;
			if (want.empty)
				continue;
			mc::check(nonEmpty, s + ": said to be empty");
			for (int i = 0; i < 4; ++i)
				if (!agree(r.a[i], want.a[i]))
					mc::fail(s + (pre ? " into a used result" : "") + ": element " + std::to_string(i) + " got " + mc::str(r.a[i]) + " expected " + mc::str(want.a[i]));
		}
		mc::fold(std::abs(want.a[0]) + 2 * std::abs(want.a[1]) + 3 * std::abs(want.a[3]));
	};
	for (size_t i = 0; i < terms.size(); ++i)
		mc::run("products " + w + " " + std::to_string(maxF) + "x" + std::to_string(maxT) + " first term " + std::to_string(i), [&] {
			one({ &terms[i] });
			for (size_t j = 0; j < terms.size() && maxT > 1; ++j) {
				one({ &terms[i], &terms[j] });
				for (size_t k = 0; k < terms.size() && maxT > 2; ++k)
					one({ &terms[i], &terms[j], &terms[k] });
			}
		});
}
template <typename T> void numbers(const std::string& w, const std::vector<Factor>& fac)
{
	const int n = fac.size();
	for (int a = 0; a < n; ++a)
		mc::run("numbers " + w + " " + std::to_string(a), [&] {
			NumSpec<T> spec;
			CanonicalExpression<NumSpec<T>> ce(spec);
			auto val = [&](int k) { return fac[k].name ? NumSpec<T>::get(fac[k].text) : Ref<T>::of(fac[k].scalar); };
			for (int b = 0; b < n; ++b)
				for (int c = 0; c < n; ++c)
					for (int sh = 0; sh < 8; ++sh) {
						std::string s = fac[a].text + (sh & 1 ? "*" : "+") + fac[b].text + (sh & 2 ? "*" : "+") + fac[c].text;
						T x = val(a), y = val(b), z = val(c);
						T want = (sh & 3) == 0 ? x + y + z : (sh & 3) == 1 ? x * y + z
						    : (sh & 3) == 2                         ? x + y * z
						                                            : x * y * z;
						if (sh & 4)
							s += "+" + fac[a].text, want += x;
						T r = 99;
						int aux = 0;
						ce(r, s, T(1), aux);
						++mc::g().transitions;
						mc::fold(std::abs(want));
						if (!agree(r, want))
							mc::fail(s + ": got " + mc::str(r) + " expected " + mc::str(want));
					}
		});
}
static void refused()
{
	auto ev = [](const std::string& s, bool cplx) {
		int aux = 0;
		if (cplx) {
			MatSpec<Z> sp;
			M2<Z> r;
			CanonicalExpression<MatSpec<Z>> ce(sp);
			ce(r, s, M2<Z>(), aux);
		} else {
			MatSpec<double> sp;
			M2<double> r;
			CanonicalExpression<MatSpec<double>> ce(sp);
			ce(r, s, M2<double>(), aux);
		}
	};
	// parentheses: every way to place up to three of them in a*b+2*a
	const std::string base = "(2)*a+(3)*b";
	const std::vector<std::string> bits { "(", ")", "2", "*a", "+", "(1)*b" };
	words::explore("parentheses", bits, mc::thorough() ? 6 : 5, [&](const std::string& w) {
		int depth = 0;
		bool bad = false;
		for (char c : w) {
			depth += c == '(' ? 1 : c == ')' ? -1 : 0;
			bad |= depth < 0 || depth > 1;
		}
		if (bad || depth)
			mc::mustThrow([&] { ev(w, true); }, "unbalanced or nested parentheses");
	});
	mc::run("refused expressions", [&] {
		for (const char* s : { "x*a", "a*x", "a+x", "c", "2*a+(z)*b", "a-b", "2*-3*a", "()*a", "(+:1)*a", "1.2.3*a", "2*a'*q", "(1)(2)*a", "2(3)*a", "(sin)*a", "@0@*a", "@1@", "(2)*a+@1@*b", "(2)*(3)*a+@2@*b", "a+@0@" }) {
			mc::mustThrow([&] { ev(s, true); }, s);
			mc::mustThrow([&] { ev(s, false); }, s);
		}
		for (const char* s : { "i*a", "2i*a", "a+3i*b", "a*-0.5i", "(2i)*a", "(*:2:3i)*a" })
			mc::mustThrow([&] { ev(s, false); }, s + std::string(" where numbers are real"));
	});
	for (int k = 0; k < 81; ++k)
		mc::run("replace " + std::to_string(k), [&] {
			const char* bits2[] = { "%c", "a", "%" };
			std::string s, all, one;
			bool any = false;
			for (int i = 0, c = k; i < 4; ++i, c /= 3)
				s += bits2[c % 3];
			for (size_t i = 0; i < s.size();)
				if (s.compare(i, 2, "%c") == 0)
					all += "17", one += any ? "%c" : "17", any = true, i += 2;
				else
					all += s[i], one += s[i], ++i;
			auto r = CanonicalExpression<MatSpec<double>>::replaceAll(s, "%c", 17);
			mc::check(r.first == any && r.second == all, "replaceAll in " + s + " gave " + r.second);
			r = CanonicalExpression<MatSpec<double>>::replaceOne(s, "%c", 17);
			mc::check(r.first == any && r.second == one, "replaceOne in " + s + " gave " + r.second);
		});
}
// long token sequences: every shape family x operators, against the reference
template <typename T> static void longTokens(const std::string& w, const std::vector<std::string>& lv, const std::vector<Leaf>& leaves)
{
	const std::vector<std::string> bin { "+", "-", "*", "/" };
	for (int n : { 4, 6, 9, 10, 11, 16, 32, 33, 60 })
		for (int shape = 0; shape < 5; ++shape)
			mc::run("long tokens " + w + " " + std::to_string(n) + " shape " + std::to_string(shape), [&] {
				for (size_t o = 0; o < bin.size(); ++o)
					for (size_t o2 = 0; o2 < bin.size(); ++o2)
						for (size_t sh = 0; sh < lv.size(); ++sh) {
							std::vector<std::string> t;
							auto op = [&](int i) { return bin[i % 2 ? o2 : o]; };
							auto leaf = [&](int i) { return lv[(i * i + sh) % lv.size()]; };
							if (shape == 0 || shape == 1) { // a chain through the second or the first operand
								t.push_back(op(0));
								for (int i = 1; i < n - 1; ++i) {
									t.push_back(shape ? op(i) : leaf(i));
									t.push_back(shape ? leaf(i) : op(i));
								}
								t.push_back(leaf(n));
								t.push_back(leaf(n + 1));
							} else if (shape == 2) { // level by level
								for (int i = 0; i < n - 1; ++i)
									t.push_back(op(i));
								for (int i = 0; i < n; ++i)
									t.push_back(leaf(i));
							} else if (shape == 3) { // with a function of every other operand
								for (int i = 0; i < n; ++i) {
									t.push_back(op(i));
									t.push_back("cos");
								}
								// breadth first: the operands of op(0) are cos and op(1)? keep it complete by counting
								int need = 1, k = 0;
								for (auto& x : t) {
									++k;
									need += arityOf(x);
								}
								for (int i = 0; k + i < need; ++i)
									t.push_back(leaf(i));
							} else { // conditions
								for (int i = 0; i < n / 2; ++i)
									t.push_back(i % 2 ? op(i) : "?");
								int need = 1, k = 0;
								for (auto& x : t) {
									++k;
									need += arityOf(x);
								}
								for (int i = 0; k + i < need; ++i)
									t.push_back(leaf(i));
							}
							T want;
							try {
								want = reference<T>(t, leaves);
							} catch (Skip&) {
								continue;
							}
							if (std::abs(want) > 1e12)
								continue;
							++mc::g().transitions;
							T got = ::run<T>(t);
							mc::fold(std::abs(want));
							if (!agree(got, want))
								mc::fail(join(t) + ": got " + mc::str(got) + " expected " + mc::str(want));
							t.pop_back();
							mc::mustThrow([&] { ::run<T>(t); }, join(t) + " (operands missing)");
						}
			});
}
// many terms of many factors
template <typename T> static void longProducts(const std::string& w, const std::vector<Factor>& fac)
{
	for (int terms : { 1, 2, 5, 9, 10, 11, 24 })
		for (int factors : { 1, 3, 6, 9, 12 })
			for (int sh = 0; sh < 6; ++sh)
				mc::run("long products " + w + " " + std::to_string(terms) + "x" + std::to_string(factors) + " " + std::to_string(sh), [&] {
					std::string s;
					M2<T> want;
					double scale = 0;
					for (int t = 0; t < terms; ++t) {
						M2<T> p;
						T f = 1;
						const int nf = 1 + (t + factors - 1) % factors;
						for (int k = 0; k < nf; ++k) {
							const Factor& x = fac[(k * (sh + 1) + t * t + sh) % fac.size()];
							s += (k ? "*" : t ? "+" : "") + x.text;
							if (x.name) {
								M2<T> m = MatSpec<T>::get(x.text);
								if (p.empty) p = m;
								else p *= m;
							} else
								f *= Ref<T>::of(x.scalar);
						}
						if (p.empty)
							continue;
						p *= f;
						for (int i = 0; i < 4; ++i)
							scale = std::max(scale, (double)std::abs(p.a[i]));
						want += p;
					}
					MatSpec<T> spec;
					CanonicalExpression<MatSpec<T>> ce(spec);
					M2<T> r(9, 9, 9, 9);
					int aux = 0;
					const bool nonEmpty = ce(r, s, M2<T>(), aux);
					if (want.empty)
						return;
					mc::check(nonEmpty, s + ": said to be empty");
					for (int i = 0; i < 4; ++i)
						if (!(std::abs(r.a[i] - want.a[i]) <= 1e-8 * (1 + scale)))
							mc::fail(s + ": element " + std::to_string(i) + " got " + mc::str(r.a[i]) + " expected " + mc::str(want.a[i]));
					mc::fold(std::abs(want.a[0]) + 2 * std::abs(want.a[1]));
				});
}
void mc::explore()
{
	longTokens<double>("real", { "1", "-2.5", "7", "0.5", "0" }, { { "1", 1. }, { "-2.5", -2.5 }, { "7", 7. }, { "0.5", 0.5 }, { "0", 0. } });
	longTokens<Z>("complex", { "i", "1-2i", "3", "0" }, { { "0", 0. }, { "i", Z(0, 1) }, { "1-2i", Z(1, -2) }, { "3", 3. } });
	longProducts<double>("real", { { "a", 0., true }, { "2", 2., false }, { "b", 0., true }, { "(-0.25)", -0.25, false }, { "a'", 0., true }, { "n0", 0., true }, { "(+:1:0.5)", 1.5, false } });
	longProducts<Z>("complex", { { "a", 0., true }, { "i", Z(0, 1), false }, { "b", 0., true }, { "(*:i:0.5)", Z(0, 0.5), false }, { "a'", 0., true } });
	const std::vector<std::string> all { "+", "-", "*", "/", "%", "sin", "cos", "log", "exp", "?" };
	const std::vector<Leaf> rl { { "0", 0. }, { "1", 1. }, { "-2.5", -2.5 }, { "7", 7. } };
	const std::vector<Leaf> cl { { "0", 0. }, { "i", Z(0, 1) }, { "1-2i", Z(1, -2) }, { "3", 3. } };
	const int more = mc::thorough();
	tokens<double>("real", all, rl, 5 + more);
	tokens<Z>("complex", all, cl, 5 + more);
	const std::vector<Leaf> r2 { { "2", 2. }, { "-0.5", -0.5 } };
	tokens<double>("real, fewer", { "+", "-", "/", "cos", "?" }, r2, 7 + more);
	tokens<Z>("complex, fewer", { "-", "*", "exp", "?" }, { { "2i", Z(0, 2) }, { "-1+i", Z(-1, 1) } }, 7 + more);
	tokens<double>("larger numbers", { "%", "+", "?" }, { { "1000001", 1000001. }, { "9", 9. }, { "64", 64. }, { "1001", 1001. }, { "999999999", 999999999. } }, 5 + 2 * more);
	literals();
	longProducts<double>("parentheses", { { "(+:1:0.5)", 1.5, false }, { "(+:1:2.5)", 3.5, false }, { "a", 0., true }, { "(+:1:0.5)", 1.5, false }, { "(*:1:2.5)", 2.5, false }, { "b", 0., true }, { "(+:1:1.5)", 2.5, false }, { "a'", 0., true } });
	const std::vector<Factor> rf { { "a", 0., true }, { "b", 0., true }, { "a'", 0., true }, { "2", 2., false }, { "-1.5", -1.5, false }, { "(+:1:2)", 3., false }, { "(cos:pi)", -1., false }, { "(-0.25)", -0.25, false } };
	std::vector<Factor> cf { { "a", 0., true }, { "b", 0., true }, { "3", 3., false }, { "i", Z(0, 1), false }, { "-2i", Z(0, -2), false }, { "(*:i:1+2i)", Z(-2, 1), false }, { "(exp:*:i:pi)", -1., false } };
	auto minusFirst = [](std::vector<Factor> f) { // a minus sign may only follow nothing, ( or +
		std::vector<Factor> o;
		for (auto& x : f)
			if (x.text[0] != '-')
				o.push_back(x);
		return o;
	};
	auto rf1 = minusFirst(rf), cf1 = minusFirst(cf);
	products<double>("real", rf1, 2, 2);
	products<Z>("complex", cf1, 2, 2);
	products<double>("real, fewer", { rf[0], rf[1], rf[3], rf[7] }, mc::thorough() ? 4 : 3, 2);
	products<Z>("complex, fewer", { cf[0], cf[1], cf[3] }, 2, 3);
	products<double>("real signs", rf, 1, 3);
	products<Z>("complex signs", cf, 1, 3);
	numbers<double>("real", { rf[0], rf[1], rf[3], rf[5], rf[6], rf[7] });
	numbers<Z>("complex", { cf[0], cf[2], cf[3], cf[5], cf[6] });
	refused();
}
