// N03: predicates against their mathematical meaning.
#include "PredicateAwesome.h"
#include "words.h"
#include <cmath>
#include <functional>
#include <map>
using namespace PsimagLite;
typedef std::vector<std::string> VS;

// ---- reference: parse and evaluate; Unspecified is for what the language does not define
struct Bad { };
struct Unspecified { };
static VS cut(const std::string& s, char c)
{
	VS out;
	std::string t;
	for (char x : s + std::string(1, c)) {
		if (x == c) {
			if (!t.empty())
				out.push_back(t);
			t.clear();
		} else
			t += x;
	}
	return out;
}
static bool number(const std::string& t, double& v)
{ // [+-] digits [. digits]
	size_t i = 0;
	if (i < t.size() && (t[i] == '+' || t[i] == '-'))
		++i;
	size_t d = 0, p = 0;
	for (size_t k = i; k < t.size(); ++k) {
		if (isdigit(t[k]))
			++d;
		else if (t[k] == '.')
			++p;
		else
			return false;
	}
	if (!d || p > 1)
		return false;
	v = std::stod(t);
	return true;
}
typedef std::map<std::string, double> Env;
static double side(const std::string& s, const Env& env)
{
	VS tok = cut(s, ':');
	// breadth-first order: the operands of the i-th operator follow those of the earlier ones
	std::vector<int> arity, first;
	size_t need = 1;
	for (size_t i = 0; i < need; ++i) {
		if (i >= tok.size())
			throw Bad();
		const std::string& t = tok[i];
		int a = t == "+" || t == "-" || t == "*" || t == "/" || t == "%" ? 2 : t == "?" ? 3 : 0;
		double v;
		if (a == 0 && !env.count(t) && !number(t, v)) {
			for (auto& e : env)
				if (t.find(e.first) != std::string::npos)
					throw Unspecified(); // a name inside a longer word
			throw Bad();
		}
		arity.push_back(a);
		first.push_back(need);
		need += a;
	}
	if (need < tok.size())
		throw Unspecified(); // something left over
	std::function<double(size_t)> ev = [&](size_t i) -> double {
		const std::string& t = tok[i];
		if (!arity[i]) {
			auto e = env.find(t);
			double v = 0;
			if (e != env.end())
				return e->second;
			number(t, v);
			return v;
		}
		double a = ev(first[i]), b = ev(first[i] + 1);
		if (t == "+")
			return a + b;
		if (t == "-")
			return a - b;
		if (t == "*")
			return a * b;
		if (t == "%") {
			if (a < 0 || b <= 0 || a != std::floor(a) || b != std::floor(b))
				throw Unspecified();
			return std::fmod(a, b);
		}
		throw Unspecified();
	};
	return ev(0);
}
struct Simple {
	std::string l, op, r;
};
static Simple parseSimple(const std::string& s)
{
	static const char* ops[] = { "==", "!=", "<=", ">=", "%%", "<", ">" };
	for (size_t i = 0; i < s.size(); ++i)
		for (const char* o : ops)
			if (s.compare(i, strlen(o), o) == 0) {
				Simple p { s.substr(0, i), o, s.substr(i + strlen(o)) };
				if (p.l.empty() || p.r.empty())
					throw Bad();
				return p;
			}
	throw Bad();
}
static bool holds(const Simple& p, const Env& env)
{
	double a, b;
	bool u = false;
	try {
		a = side(p.l, env);
	} catch (Unspecified&) {
		u = true;
		a = 0;
	}
	b = side(p.r, env); // an error on either side is an error
	if (u)
		throw Unspecified();
	if (p.op == "==") return a == b;
	if (p.op == "!=") return a != b;
	if (p.op == "<") return a < b;
	if (p.op == ">") return a > b;
	if (p.op == "<=") return a <= b;
	if (p.op == ">=") return a >= b;
	if (b == 0)
		throw Bad();
	return std::fmod(a, b) == 0;
}
typedef std::vector<std::vector<Simple>> Pred;
static Pred parse(const std::string& s)
{
	Pred out;
	bool u = false;
	for (auto& item : cut(s, ',')) {
		std::vector<Simple> a;
		for (auto& p : cut(item, '&'))
			a.push_back(parseSimple(p));
		u |= a.empty();
		out.push_back(a);
	}
	if (u)
		throw Unspecified();
	return out;
}
static bool isTrue(const Pred& p, const Env& env)
{
	for (auto& a : p) {
		bool all = true;
		for (auto& s : a)
			if (!holds(s, env)) {
				all = false;
				break;
			}
		if (all)
			return true;
	}
	return false;
}
// ---- the comparison, for one text and one variable
template <typename T> void compare(const std::string& text, const std::vector<T>& values)
{
	for (T v : values) {
		int want = 0; // 0 1; 2 error; 3 unspecified
		try {
			want = isTrue(parse(text), { { "l", (double)v } });
		} catch (Bad&) {
			want = 2;
		} catch (Unspecified&) {
			want = 3;
		}
		if (want == 3)
			continue;
		mc::fold((uint64_t)want);
		++mc::g().transitions;
		int got = 2;
		std::string what;
		try {
			PredicateAwesome<> p(text);
			got = p.isTrue("l", v);
			int again = p.isTrue("l", v);
			if (got != again)
				mc::fail(text + ": a second evaluation differs");
		} catch (const std::exception& e) {
			what = e.what();
		}
		static const char* n[] = { "false", "true", "an error" };
		if (got != want)
			mc::fail(text + " for l=" + mc::str(v) + ": got " + n[got] + " expected " + n[want]);
	}
}
template <typename T> void table(const std::string& w, const VS& sides, const std::vector<T>& values)
{
	const VS ops = { "==", "!=", "<", ">", "<=", ">=", "%%" };
	for (auto& a : sides)
		for (auto& b : sides)
			mc::run("simple " + w + " " + a + " . " + b, [&] {
				for (auto& o : ops)
					compare<T>(a + o + b, values);
			});
}
static std::string replaced(std::string s, const std::string& what, const std::string& by)
{
	for (size_t i = 0; (i = s.find(what, i)) != std::string::npos; i += by.size())
		s.replace(i, what.size(), by);
	return s;
}
void mc::explore()
{
	std::vector<int> ints;
	for (int i = -13; i <= 13; ++i)
		ints.push_back(i);
	ints.push_back(2147483647), ints.push_back(-2147483647), ints.push_back(1000000);
	std::vector<SizeType> sizes;
	for (int i = 0; i <= 13; ++i)
		sizes.push_back(i);
	std::vector<double> dbls;
	for (int i = -13; i <= 13; ++i)
		dbls.push_back(i * 0.25);
	dbls.insert(dbls.end(), { 7, -8, 1e6, 2147483647.0, 0.125, 1e-3, -6.5e-5 });
	table<int>("int", { "l", "0", "1", "2", "3", "-2", "-3", "7", "+:2:3", "%:7:4", "-:1:4", "*:3:2", "+:*:1:2:3" }, ints);
	table<int>("int expressions", { "l", "2", "+:l:1", "*:l:2", "-:3:l", "%:l:3", "+:%:1:l:2", "+:*:l:2:3" },
	           std::vector<int>(ints.begin() + 13, ints.begin() + 27));
	table<SizeType>("unsigned", { "l", "0", "1", "2", "3", "7", "+:2:3", "%:l:4", "*:l:2" }, sizes);
	table<double>("double", { "l", "0", "1", "0.5", "0.25", "-1.5", "2", "+:1:0.5", "-:l:0.5", "*:2:l", "1e6" == std::string() ? "" : "1000000" }, dbls);
	// conjunctions and disjunctions of simple ones, all triples with both connectives
	const VS few = { "l==2", "l!=3", "l<4", "3<=l", "l%%2", "l>1", "m==1", "l%%0", "l==" };
	std::vector<int> small;
	for (int i = -2; i <= 6; ++i)
		small.push_back(i);
	for (auto& a : few)
		for (auto& b : few)
			mc::run("connectives " + a + " . " + b, [&] {
				for (const char* s : { "&", ",", ",,", "&&" }) {
					compare<int>(a + s + b, small);
					for (auto& c : few)
						for (const char* t : { "&", "," }) {
							compare<int>(a + s + b + t + c, small);
							if (mc::thorough())
								for (auto& d : few)
									for (const char* r : { "&", "," })
										compare<int>(a + s + b + t + c + r + d, small);
						}
				}
			});
	// long predicates
	for (int n : { 4, 5, 8, 9, 10, 11, 20, 50 })
		for (int form = 0; form < 6; ++form)
			mc::run("long " + std::to_string(n) + " form " + std::to_string(form), [&] {
				std::string t;
				for (int i = 0; i < n; ++i) {
					const std::string v = std::to_string(i * 3 % n + 10 * (i % 2)), q = std::to_string(i % 5 + 1);
					if (form == 0) t += (i ? "," : "") + std::string("l==") + v;
					else if (form == 1) t += (i ? "&" : "") + std::string("l!=") + v;
					else if (form == 2) t += (i ? "," : "") + std::string("l<=") + v + "&l%%" + q + "&" + v + "<=+:l:" + q;
					else if (form == 3) t += (i ? (i % 3 ? "&" : ",") : "") + std::string(i % 2 ? "l>" : "*:l:2<") + v;
					else if (form == 4) t += (i ? (i % 4 ? "," : "&") : "") + std::string("%:l:") + q + "==" + std::to_string(i % 3);
					else t += (i % 2 ? "," : ",,") + std::string("-:l:") + v + ">=+:" + q + ":" + std::to_string(i) + "&l!=" + v;
				}
				if (form == 5) t = t.substr(2);
				std::vector<int> vals;
				for (int v = 0; v <= n + 15; ++v)
					vals.push_back(v);
				vals.push_back(12345678);
				compare<int>(t, vals);
				std::vector<SizeType> u(vals.begin(), vals.end());
				if (form < 5) // (unsigned numbers have no negative differences)
					compare<SizeType>(t, u);
			});
	// long expressions on the sides: n operands, in each of the shapes of the breadth-first order
	for (int n : { 3, 4, 5, 8, 9, 16, 33 })
		for (int shape_ = 0; shape_ < 12; ++shape_) // three shapes, with l first, everywhere, at every other place, at the end
			for (const char* op : { "+", "-", "*" })
				mc::run("long sides " + std::to_string(n) + " shape " + std::to_string(shape_ % 3) + " l " + std::to_string(shape_ / 3) + " " + op, [&] {
					// shape 0: op:x:op:y:op...; 1: op:op:x:op:y...; 2: all operators first
					std::string t;
					const int where = shape_ / 3, shape = shape_ % 3;
					auto leaf = [&](int i) { return (where == 0 ? i == 0 : where == 1 || (where == 2 ? i % 2 == 1 : i >= n - 2)) ? std::string("l") : std::to_string(op[0] == '*' ? 1 + i % 2 : i % 7 + 1); };
					if (shape == 2) {
						for (int i = 0; i < n - 1; ++i)
							t += op + std::string(":");
						for (int i = 0; i < n; ++i)
							t += (i ? ":" : "") + leaf(i);
					} else {
						t = op;
						for (int i = 0; i < n - 2; ++i)
							t += shape == 0 ? ":" + leaf(i) + ":" + op : std::string(":") + op + ":" + leaf(i);
						t += ":" + leaf(n - 2) + ":" + leaf(n - 1);
					}
					std::vector<int> vals { -3, -1, 0, 1, 2, 5, 8 };
					for (int v : vals) {
						const double want = side(t, { { "l", v } });
						char b[40];
						snprintf(b, sizeof b, "%.0f", want);
						if (std::abs(want) > 1e9 || std::abs(side(t, { { "l", v + 1 } })) > 1e9)
							continue;
						for (const char* o : { "==", "<", ">=" }) {
							compare<int>(t + o + b, { v });
							compare<int>(b + std::string(o) + t, { v, v + 1 });
						}
						compare<int>(t + "==" + t, { v });
					}
				});
	// several variables
	for (int n = 1; n <= 4; ++n)
		for (int k = 0; k < 256; ++k)
			mc::run("variables " + std::to_string(n) + " values " + std::to_string(k), [&] {
				const char* nm[] = { "l", "center", "x", "Z" };
				int v[4];
				Env env;
				for (int i = 0; i < 4; ++i) {
					v[i] = ((k >> (2 * i)) & 3) - 1;
					if (i < n)
						env[nm[i]] = v[i];
				}
				for (auto& text : VS { "l==1", "l<center", "x>=l&center!=0", "Z==l,x%%2", "+:l:center==x", "center==*:x:Z&l<2", "l==center,center==x,x==Z",
				                       "l!=center&center!=x&x!=Z" }) {
					int want;
					try {
						want = ::isTrue(parse(text), env);
					} catch (Bad&) {
						want = 2;
					}
					int got = 2;
					try {
						PredicateAwesome<> p(text);
						got = n == 1 ? p.isTrue(nm[0], v[0]) : n == 2 ? p.isTrue(nm[0], v[0], nm[1], v[1])
						    : n == 3                                 ? p.isTrue(nm[0], v[0], nm[1], v[1], nm[2], v[2])
						                                             : p.isTrue(nm[0], v[0], nm[1], v[1], nm[2], v[2], nm[3], v[3]);
					} catch (const std::exception&) {
					}
					mc::eq(got, want, text + " (2 is an error)");
				}
			});
	// separators given by the caller, settings, and the empty predicate
	struct Spec {
		mutable VS* got;
		void operator()(String s) const { got->push_back(s); }
	};
	for (int k = 0; k < 27; ++k)
		mc::run("settings " + std::to_string(k), [&] {
			VS got, want;
			std::string text;
			const char* items[] = { "@M=2", "l==1", "@x" };
			Pred p;
			for (int i = 0, c = k; i < 3; ++i, c /= 3) {
				text += (i ? ";" : "") + std::string(items[c % 3]);
				if (c % 3 == 1)
					p.push_back({ Simple { "l", "==", "1" }, Simple { "l", "<", "5" } }), text += "^l<5";
				else
					want.push_back(items[c % 3]);
			}
			Spec s { &got };
			PredicateAwesome<Spec> a(text, ";", "^", &s);
			mc::check(got == want, "settings handed over: " + text);
			for (int l = 0; l < 3; ++l)
				mc::eq(a.isTrue("l", l), ::isTrue(p, { { "l", l } }), text);
			if (!want.empty())
				mc::mustThrow([&] { PredicateAwesome<Spec> b(text, ";", "^"); }, "settings without anyone to take them");
			PredicateAwesome<> e("");
			mc::check(!e.isTrue("l", 3), "the empty predicate is false");
			mc::check(!e.isTrue("l", 3, "m", 4), "the empty predicate is false for two names");
			mc::check(!e.isTrue("l", 3, "m", 4, "c", 5), "the empty predicate is false for three names");
			mc::check(!e.isTrue("l", 3, "m", 4, "c", 5, "d", 6), "the empty predicate is false for four names");
		});
	// names of every length, used several times in a row, with values shorter and longer than the name
	{
		const VS names = { "l", "ab", "foo", "site", "center", "coordinate" };
		const VS forms = { "+:A:A", "*:A:A", "-:A:A", "+:+:A:A:A", "*:+:A:A:A", "+:*:A:A:A", "+:+:+:A:A:A:A", "+:A:1", "+:1:A", "A", "+:A:B", "+:B:A", "+:+:A:B:A", "+:+:B:A:A", "+:+:A:A:B",
			           "+:*:A:B:B", "*:+:B:B:A", "-:+:A:B:A", "+:+:*:A:B:A:B" };
		const std::vector<long> vals = { 0, 1, -1, 7, 10, -25, 123, -4567, 98765 };
		for (auto& a : names)
			for (auto& b : names)
				for (const char* sep : { ":", ";", "." })
					mc::run("names " + a + " " + b + " separator " + sep, [&] {
						if (a == b)
							return;
						for (auto& form : forms)
							for (long x : vals)
								for (long y : vals) {
									if (form.find('B') == std::string::npos && y != x)
										continue;
									std::string t = replaced(replaced(form, "A", a), "B", b);
									const long want = (long)side(t, { { a, (double)x }, { b, (double)y } });
									if (std::abs(want) > 1000000000)
										continue;
									t = replaced(t, ":", sep);
									const std::string w = std::to_string(want);
									for (int k = 0; k < 3; ++k) {
										const std::string text = k == 0 ? t + "==" + w : k == 1 ? w + "<" + t : t + "!=" + t;
										PredicateSimple q(text, sep);
										mc::eq((int)q.isTrue(VS { a, b }, std::vector<long> { x, y }), (int)(k == 0), text + " for " + a + "=" + std::to_string(x) + " " + b + "=" + std::to_string(y));
										mc::eq((int)q.isTrue(VS { b, a }, std::vector<long> { y, x }), (int)(k == 0), text + " with the names the other way round");
									}
								}
					});
	}
	// every text
	words::explore("texts", words::chars("l3<>=!%&,:-+"), mc::thorough() ? 6 : 5, [&](const std::string& w) {
		compare<int>(w, { 3, -6 });
	});
}
