// N02: the Ainur input language.
// (1) every program of up to four statements, every label read as every type;
// (2) every short literal as a vector and as a matrix of each type;
// (3) complex literals; (4) functions read from tables in files; (5) characters, layout,
//     unused labels, and the same through InputNg.
#include "InputNg.h"
#include "InputCheckBase.h"
#include "Ainur/Ainur.h"
#include "Ainur/AinurComplex.hh"
#include "wide.h"
#include "words.h"
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <unistd.h>
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef std::vector<std::string> VS;

static bool integer(const std::string& s)
{
	size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
	if (i == s.size())
		return false;
	for (; i < s.size(); ++i)
		if (!isdigit((unsigned char)s[i]))
			return false;
	return true;
}
static bool real(const std::string& s)
{
	size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
	int d = 0, p = 0;
	for (; i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.'); ++i)
		(s[i] == '.' ? p : d)++;
	if (!d || p > 1)
		return false;
	if (i == s.size())
		return true;
	return (s[i] == 'e' || s[i] == 'E') && integer(s.substr(i + 1));
}
static bool toZ(const std::string& s, Z& z)
{
	if (s == "i" || s == "-i") {
		z = Z(0, s == "i" ? 1 : -1);
		return true;
	}
	const size_t i = s.find('i');
	if (i == std::string::npos) {
		if (!real(s))
			return false;
		z = std::atof(s.c_str());
		return true;
	}
	const std::string a = s.substr(0, i), b = s.substr(i + 1);
	if (!(a.empty() || real(a)) || !real(b))
		return false;
	z = Z(a.empty() ? 0 : std::atof(a.c_str()), std::atof(b.c_str()));
	return true;
}
static bool parse(const std::string& s, double& x)
{
	if (!real(s))
		return false;
	x = std::atof(s.c_str());
	return true;
}
static bool parse(const std::string& s, int& x)
{
	if (!integer(s))
		return false;
	x = std::atoi(s.c_str());
	return true;
}
static bool parse(const std::string& s, Z& x) { return toZ(s, x); }
static bool parse(const std::string& s, std::string& x)
{
	x = s;
	return true;
}
static std::string squeeze(const std::string& s)
{
	std::string t;
	for (char c : s)
		if (!isspace((unsigned char)c))
			t += c;
	return t;
}
// [a,b,c] at position i, without blanks; false if it is not there
static bool row(const std::string& s, size_t& i, VS& out)
{
	out.clear();
	if (i >= s.size() || s[i] != '[')
		return false;
	std::string cur;
	for (++i; i < s.size(); ++i) {
		if (s[i] == '[')
			return false;
		if (s[i] == ',' || s[i] == ']') {
			if (cur.empty())
				return false;
			out.push_back(cur);
			cur.clear();
			if (s[i] == ']') {
				++i;
				return true;
			}
		} else
			cur += s[i];
	}
	return false;
}
enum Verdict { BAD, GOOD, UNSPECIFIED };
template <typename T> Verdict wantVector(const std::string& text, size_t presized, std::vector<T>& v)
{
	VS e;
	size_t i = 0;
	const std::string s = squeeze(text);
	if (!row(s, i, e))
		return BAD;
	const bool tail = i != s.size();
	v.clear();
	if (e.size() == 2 && e[1].substr(0, 3) == "...") {
		T x;
		size_t n = presized;
		if (e[1] != "...") {
			if (e[1].size() < 5 || e[1][3] != 'x' || !integer(e[1].substr(4)) || std::atoi(e[1].c_str() + 4) <= 0)
				return parse(e[1], x) ? UNSPECIFIED : BAD;
			n = std::atoi(e[1].c_str() + 4);
		}
		if (!n || !parse(e[0], x))
			return BAD;
		v.assign(n, x);
	} else
		for (auto& x : e) {
			T t;
			if (!parse(x, t))
				return BAD;
			v.push_back(t);
		}
	return tail ? UNSPECIFIED : GOOD;
}
template <typename T> Verdict wantMatrix(const std::string& text, std::vector<std::vector<T>>& m)
{
	const std::string s = squeeze(text);
	m.clear();
	if (s.empty() || s[0] != '[')
		return BAD;
	size_t i = 1;
	if (i < s.size() && s[i] == ']')
		return i + 1 == s.size() ? GOOD : UNSPECIFIED;
	for (;;) {
		VS e;
		if (!row(s, i, e))
			return BAD;
		std::vector<T> r;
		for (auto& x : e) {
			T t;
			if (!parse(x, t))
				return BAD;
			r.push_back(t);
		}
		if (!m.empty() && m[0].size() != r.size())
			return BAD;
		m.push_back(r);
		if (i >= s.size())
			return BAD;
		if (s[i] == ']')
			return i + 1 == s.size() ? GOOD : UNSPECIFIED;
		if (s[i++] != ',')
			return BAD;
	}
}
// f() throws a std::exception (and nothing else)
template <typename F> static bool errs(F f)
{
	try {
		f();
	} catch (const mc::Violation&) {
		throw;
	} catch (const std::exception&) {
		return true;
	} catch (...) {
		mc::fail("something that is not an exception was thrown");
	}
	return false;
}
template <typename F> static void must(bool ok, F f, const std::string& what)
{
	++mc::g().transitions;
	const bool e = errs(f);
	mc::fold(std::string(e ? "error" : "ok"));
	if (ok && e)
		mc::fail(what + ": unexpected error");
	if (!ok && !e)
		mc::fail(what + ": accepted, an error was expected");
}
template <typename T, typename R> static void readVector(const R& read, const std::string& value, size_t presized, const std::string& what)
{
	std::vector<T> v(presized, T()), want;
	const Verdict q = wantVector(value, presized, want);
	if (q == UNSPECIFIED)
		return;
	must(q == GOOD, [&] { read(v); }, what);
	if (q == GOOD)
		mc::check(v == want, what + ": wrong components");
}
template <typename T, typename R> static void readMatrix(const R& read, const std::string& value, const std::string& what)
{
	std::vector<std::vector<T>> want;
	const Verdict q = wantMatrix(value, want);
	if (q == UNSPECIFIED)
		return;
	const size_t c = want.empty() ? 0 : want[0].size();
	Matrix<T> m;
	if (want.empty())
		m.resize(2, 2);
	else if (q == GOOD && c % 2)
		m.resize(want.size(), c);
	must(q == GOOD, [&] { read(m); }, what);
	if (q != GOOD)
		return;
	mc::check(m.rows() == want.size() && m.cols() == c, what + ": wrong shape");
	for (size_t i = 0; i < want.size(); ++i)
		for (size_t j = 0; j < c; ++j)
			mc::check(m(i, j) == want[i][j], what + ": wrong entry");
}
// a label read as each type; value is its text after macros
template <typename R> static void readEvery(const R& io, const std::string& label, bool declared, const std::string& value)
{
	const std::string what = "label " + label + " = " + mc::jsonEsc(value);
	const bool set = declared && !value.empty();
	int i = 0;
	double d = 0;
	SizeType u = 0;
	std::string s = "old";
	must(set && integer(value), [&] { io.readValue(i, label); }, what + " as integer");
	if (set && integer(value))
		mc::eq(i, std::atoi(value.c_str()), what);
	if (!set || !integer(value) || value[0] != '-') {
		must(set && integer(value), [&] { io.readValue(u, label); }, what + " as unsigned");
		if (set && integer(value))
			mc::eq(u, SizeType(std::atoi(value.c_str())), what);
	}
	must(set && real(value), [&] { io.readValue(d, label); }, what + " as real");
	if (set && real(value))
		mc::eq(d, std::atof(value.c_str()), what);
	must(set, [&] { io.readValue(s, label); }, what + " as string");
	if (set) {
		std::string want = value;
		if (want.size() > 1 && want[0] == '"' && want.back() == '"')
			want = want.substr(1, want.size() - 2);
		mc::eq(s, want, what);
	}
	if (!set) {
		std::vector<double> v(3, 7);
		Matrix<double> m;
		must(false, [&] { io.readValue(v, label); }, what + " as vector");
		must(false, [&] { io.readValue(m, label); }, what + " as matrix");
		return;
	}
	for (size_t presized : { 0, 3 }) {
		readVector<double>([&](std::vector<double>& v) { io.readValue(v, label); }, value, presized, what + " as vector");
		readVector<Z>([&](std::vector<Z>& v) { io.readValue(v, label); }, value, presized, what + " as complex vector");
		readVector<int>([&](std::vector<int>& v) { io.readValue(v, label); }, value, presized, what + " as vector of integers");
	}
	readMatrix<double>([&](Matrix<double>& m) { io.readValue(m, label); }, value, what + " as matrix");
	readMatrix<Z>([&](Matrix<Z>& m) { io.readValue(m, label); }, value, what + " as complex matrix");
}
// ------------------------------------------------------------------ (1) programs
struct St {
	std::string type, label, value; // no type: assignment; no value: declaration only
	bool hasValue;
	std::string text(const std::string& sp) const
	{
		std::string t = type.empty() ? "" : type + (sp.empty() ? " " : sp);
		t += label;
		if (hasValue)
			t += sp + "=" + sp + value;
		return t;
	}
};
struct Prog {
	bool ok = true;
	VS order;
	std::map<std::string, std::string> value;
	std::map<std::string, bool> required, set;
};
static bool mchar(char c) { return isalnum((unsigned char)c) || c == '_'; }
static std::string unquote(std::string s)
{
	if (!s.empty() && s[0] == '"')
		s.erase(0, 1);
	if (!s.empty() && s.back() == '"')
		s.pop_back();
	return s;
}
struct Bad { };
struct Unspec { };
static std::string expand(const Prog& p, const std::string& v, std::set<std::string> stack)
{
	if (v.find('\\') == std::string::npos)
		return v;
	std::string out;
	for (size_t i = 0; i < v.size();) {
		if (v[i] != '\\') {
			out += v[i++];
			continue;
		}
		std::string name;
		for (++i; i < v.size() && mchar(v[i]); ++i)
			name += v[i];
		auto it = p.value.find(name);
		if (it == p.value.end() || stack.count(name))
			throw Bad();
		if (!p.set.at(name))
			throw Unspec(); // a macro that has no value
		std::set<std::string> s2 = stack;
		s2.insert(name);
		out += unquote(expand(p, it->second, s2));
	}
	return unquote(out);
}
static Prog meaning(const std::vector<const St*>& v)
{
	Prog p;
	for (auto s : v) {
		const bool known = p.value.count(s->label);
		if (s->type.empty() == !known) {
			p.ok = false;
			return p;
		}
		if (!s->type.empty()) {
			p.order.push_back(s->label);
			p.required[s->label] = s->type.back() != '!';
			p.value[s->label] = "";
			p.set[s->label] = false;
		}
		if (s->hasValue) {
			p.value[s->label] = s->value;
			p.set[s->label] = true;
		}
	}
	Prog q = p;
	for (auto& e : q.value)
		if (q.required[e.first])
			try {
				std::set<std::string> st { e.first };
				e.second = expand(p, e.second, st);
			} catch (const Bad&) {
				q.ok = false;
			}
	return q;
}
static std::vector<St> statements()
{
	return {
		{ "integer", "a", "", false },
		{ "integer", "a", "3", true },
		{ "", "a", "-14", true },
		{ "", "a", "2.5e1", true },
		{ "string", "b", "\"x y\"", true },
		{ "string", "b", "", false },
		{ "", "b", "zed", true },
		{ "", "b", "\"v\\a.w\"", true },
		{ "", "b", "\\a\\c_1", true },
		{ "", "b", "1\\a", true },
		{ "vector", "c_1", "[1, 2]", true },
		{ "", "c_1", "[\\a,7,\\b]", true },
		{ "", "c_1", "[-2.5, ...x3]", true },
		{ "", "c_1", "[4,...]", true },
		{ "", "c_1", "[[1,2],[\\a,4]]", true },
		{ "integer!", "_d0:e", "9", true },
		{ "", "_d0:e", "-3", true },
	};
}
static const VS SEP = { ";\n", ";", " ;\n", ";# x=1;\n", ";\n\n\t\n", ";\n# integer a=9;\n" };
static const VS SPACE = { "", " ", "\t", "\n", " # c=1\n " };
static std::string LABELS[] = { "a", "b", "c_1", "_d0:e", "zz" };
static void program(const std::vector<const St*>& v, const std::string& text, bool fresh = true)
{
	mc::tick();
	try {
		Prog p;
		try {
			p = meaning(v);
		} catch (const Unspec&) {
			return;
		}
		std::unique_ptr<Ainur> a;
		must(p.ok, [&] { a.reset(new Ainur(text)); }, "program");
		if (!p.ok)
			return;
		for (auto& l : LABELS)
			readEvery(*a, l, p.value.count(l), p.value.count(l) ? p.value[l] : "");
		// what was never read
		Ainur b(text);
		std::ostringstream o;
		b.printUnused(o);
		std::string want;
		for (auto& l : p.order)
			if (!p.required[l])
				want += l + "\n";
		mc::eq(o.str(), want.empty() ? want : "Unused keys:\n" + want, "unused labels");
		std::map<std::string, std::string> m;
		b.setMap(m);
		for (auto& l : p.order)
			mc::check(p.required[l] == (m.count(l) > 0), "labels in the map");
		for (auto& l : p.order)
			if (p.required[l] && p.set[l])
				mc::eq(m[l], p.value[l], "value in the map");
		std::string s;
		for (auto& l : p.order)
			if (p.set[l])
				b.readValue(s, l);
		std::ostringstream o2;
		b.printUnused(o2);
		want = "";
		for (auto& l : p.order)
			if (!p.required[l] && !p.set[l])
				want += l + "\n";
		mc::eq(o2.str(), want.empty() ? want : "Unused keys:\n" + want, "unused labels after reading");
	} catch (const mc::Violation& e) {
		throw mc::Violation { "program " + mc::jsonEsc(text) + ": " + e.msg };
	} catch (const std::exception& e) {
		mc::fail("program " + mc::jsonEsc(text) + ": unexpected error: " + e.what());
	}
}
static std::string layout(const std::vector<const St*>& v, const std::string& sep, const std::string& sp)
{
	std::string t;
	for (auto s : v)
		t += s->text(sp) + sep;
	return t;
}
static bool spaced(const std::vector<const St*>& v)
{ // blanks before ; belong to the value
	for (auto s : v)
		if (s->hasValue)
			return true;
	return false;
}
static void programs()
{
	const auto all = statements();
	const int L = mc::thorough() ? 4 : 3;
	for (size_t first = 0; first < all.size(); ++first)
		mc::run("programs of up to " + std::to_string(L) + " statements starting with " + mc::jsonEsc(all[first].text("")), [&] {
			std::vector<const St*> v { &all[first] };
			std::function<void()> rec = [&] {
				if (v.size() <= 2) {
					for (auto& sep : SEP)
						for (auto& sp : SPACE)
							if (sep[0] == ';' || !spaced(v))
								program(v, "##Ainur\n" + layout(v, sep, sp) + "\n");
				} else
					program(v, layout(v, SEP[v.size() % 2], SPACE[0]));
				bool ok = true; // after an error nothing more is said
				try {
					ok = meaning(v).ok || (int)v.size() < 2;
				} catch (const Unspec&) {
				}
				if ((int)v.size() < L && ok)
					for (auto& s : all) {
						v.push_back(&s);
						rec();
						v.pop_back();
					}
			};
			rec();
		});
	mc::run("declarations first, then up to three assignments", [&] {
		std::vector<const St*> as;
		for (auto& s : all)
			if (s.type.empty())
				as.push_back(&s);
		St a { "integer", "a", "", false }, b { "string", "b", "", false }, c { "vector", "c_1", "", false }, d { "integer!", "_d0:e", "", false };
		std::vector<const St*> v { &a, &b, &c, &d };
		std::function<void(int)> rec = [&](int n) {
			program(v, layout(v, ";\n", ""));
			if (n == (mc::thorough() ? 4 : 3))
				return;
			for (auto s : as) {
				v.push_back(s);
				rec(n + 1);
				v.pop_back();
			}
		};
		rec(0);
	});
	mc::run("an input that does not end in a semicolon", [&] {
		for (auto& s : all)
			for (std::string tail : { "", "\n", " \n\n" })
				if (s.type != "") {
					must(false, [&] { Ainur a(s.text("") + tail); }, mc::jsonEsc(s.text("") + tail));
					must(false, [&] { Ainur a("real q=1;\n" + s.text("") + tail); }, mc::jsonEsc("real q=1;" + s.text("") + tail));
				}
		Ainur e(""), f("\n"), g(" \n\t\n");
	});
	mc::run("macros at the start and end of quoted macros", [&] {
		// three strings, each of the others or texts, declared in every order
		const VS val = { "\"\\%\"", "\"\\% x\"", "\"x \\%\"", "\"\\%\\%\"", "\\%", "\\%-y", "\"a\\%-b\"" };
		const VS leaf = { "\"\"", "\"w\"", "w", "\"w w\"", "12" };
		for (auto& v : val)
			for (auto& w : val)
				for (auto& l : leaf) {
					auto with = [](std::string t, const std::string& n) {
						for (size_t i; (i = t.find('%')) != std::string::npos;)
							t.replace(i, 1, n);
						return t;
					};
					std::vector<St> st { { "string", "p", with(v, "q"), true }, { "string", "q", with(w, "r"), true }, { "string", "r", l, true } };
					int o[3] = { 0, 1, 2 };
					do {
						std::vector<const St*> x { &st[o[0]], &st[o[1]], &st[o[2]] };
						const std::string t = layout(x, ";\n", "");
						Prog pr = meaning(x);
						Ainur a(t);
						for (auto& n : { "p", "q", "r" }) {
							if (pr.value[n].empty())
								continue; // nothing remains: read as a label without a value
							std::string got, want = pr.value[n];
							if (want.size() > 1 && want[0] == '"' && want.back() == '"')
								want = want.substr(1, want.size() - 2);
							a.readValue(got, n);
							mc::eq(got, want, std::string("string ") + n + " of " + mc::jsonEsc(t));
						}
					} while (std::next_permutation(o, o + 3));
				}
	});
	mc::run("labels that begin alike", [&] {
		const VS n = { "gt0", "gt0:a", "gt0:ab", "gt", "g", "gt0_a", "gt00", "GeometryTerm", "GeometryTerm:x", "GeometryTerm:xy", "Geometry", "GeometryTermX", "_gt0", "gT0" };
		for (int order = 0; order < 4; ++order)
			for (size_t skip = 0; skip <= n.size(); ++skip) {
				std::string t;
				std::vector<size_t> seq;
				for (size_t k = 0; k < n.size(); ++k)
					seq.push_back(order & 1 ? n.size() - 1 - k : k);
				if (order & 2)
					std::rotate(seq.begin(), seq.begin() + 5, seq.end());
				for (size_t k : seq)
					if (k != skip)
						t += "integer " + n[k] + "=" + std::to_string(k + 10) + ";\n";
				Ainur a(t);
				for (size_t k = 0; k < n.size(); ++k) {
					int x = 0;
					must(k != skip, [&] { a.readValue(x, n[k]); }, "label " + n[k]);
					if (k != skip)
						mc::eq(x, int(k + 10), "label " + n[k]);
				}
			}
	});
	mc::run("empty strings", [&] {
		for (const char* v : { "\"\"", "\" \"", "\"0\"" }) {
			Ainur a(std::string("string s=") + v + ";\nstring t=x\\s;\n");
			std::string x = "old", y = "old", w = std::string(v).substr(1, std::string(v).size() - 2);
			a.readValue(x, "s");
			mc::eq(x, w, "string read");
			a.readValue(y, "t");
			mc::eq(y, "x" + w, "macro of it");
		}
	});
	mc::run("chains of macros", [&] {
		for (int n = 1; n <= 20; ++n)
			for (int back = 0; back < 2; ++back) {
				std::string t;
				for (int k = 0; k < n; ++k) {
					const int i = back ? n - 1 - k : k;
					t += "string m" + std::string(1, char('a' + i)) + " = ";
					t += i ? "\"<\\m" + std::string(1, char('a' + i - 1)) + ">\";\n" : "\"0\";\n";
				}
				Ainur a(t);
				for (int i = 0; i < n; ++i) {
					std::string s, want(i, '<');
					want += "0" + std::string(i, '>');
					a.readValue(s, "m" + std::string(1, char('a' + i)));
					mc::eq(s, want, "macro " + std::to_string(i) + " of " + std::to_string(n));
				}
				// and the first defined in terms of the last
				t += "ma=\"\\m" + std::string(1, char('a' + n - 1)) + " \\m" + std::string(1, char('a' + n - 1)) + "\";\n";
				must(false, [&] { Ainur b(t); }, "cycle of " + std::to_string(n) + " macros");
			}
	});
}
// ------------------------------------------------------------------ (2) literals
static AinurMacros* noMacros = nullptr;
struct Direct {
	const std::string& w;
	template <typename T> void operator()(T& t) const
	{
		AinurConvert c(*noMacros);
		AinurVariable v { "k", w, "vector", "NORMAL" };
		c.convert(t, v);
	}
};
static void literal(const std::string& w)
{
	if (!noMacros)
		noMacros = new AinurMacros;
	Direct f { w };
	for (size_t presized : { 0, 3 }) {
		readVector<double>(f, w, presized, "as vector");
		readVector<Z>(f, w, presized, "as complex vector");
	}
	readVector<int>(f, w, 2, "as vector of integers");
	readVector<std::string>(f, w, 2, "as vector of strings");
	readMatrix<double>(f, w, "as matrix");
	readMatrix<Z>(f, w, "as complex matrix");
}
static void grids()
{
	for (int rows = 1; rows <= 4; ++rows)
		mc::run("matrices of " + std::to_string(rows) + " rows", [&] {
			const VS sp = { "", " ", "\n", "\t" };
			for (int shape = 0; shape < std::pow(4, rows); ++shape)
				for (auto& s : sp)
					for (int kind = 0; kind < 3; ++kind) {
						int h = shape, n = 0;
						std::string t = "[" + s;
						for (int i = 0; i < rows; ++i, h /= 4) {
							t += (i ? "," + s : "") + "[";
							for (int j = 0; j <= h % 4; ++j)
								t += (j ? s + "," + s : s) + (kind == 0 ? std::to_string(++n) : kind == 1 ? "-" + std::to_string(++n) + ".5" : std::to_string(++n) + s + "i" + s + "2e1");
							t += s + "]";
						}
						literal(t + s + "]");
					}
		});
	mc::run("ellipses", [] {
		for (int presized = 0; presized < 6; ++presized)
			for (int n = -3; n <= 40; ++n) {
				const std::string w = n == 40 ? "[2.5, ...]" : "[2.5, ...x" + std::to_string(n) + "]";
				if (!noMacros)
					noMacros = new AinurMacros;
				readVector<double>(Direct { w }, w, presized, w);
				readVector<Z>(Direct { w }, w, presized, w);
			}
	});
}
// ------------------------------------------------------------------ (3) complex literals
static void zword(const std::string& w)
{
	Z z(7, 7), want;
	const bool ok = toZ(w, want);
	must(ok, [&] { AinurComplex::convert(z, w); }, "complex literal");
	if (ok)
		mc::check(z == want, "complex literal: got " + mc::str(z) + " expected " + mc::str(want));
}
// ------------------------------------------------------------------ (4) tables
static std::string scratch(const char* ext)
{
	return std::string(access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + "/n02_" + std::to_string(getpid()) + ext;
}
static void atEnd()
{
	::unlink(scratch(".txt").c_str());
	::unlink(scratch(".ain").c_str());
}
static std::vector<double> fields(const std::string& l, char sep, bool& ok)
{
	std::vector<double> v;
	std::string cur;
	ok = true;
	for (char c : l + std::string(1, sep))
		if (c == sep) {
			if (!cur.empty()) {
				ok = ok && real(cur);
				v.push_back(std::atof(cur.c_str()));
			}
			cur.clear();
		} else
			cur += c;
	return v;
}
static void table(const VS& lines, bool comma, int cols, int cx, int cy, bool newline)
{
	const std::string file = scratch(".txt");
	std::string text;
	for (size_t i = 0; i < lines.size(); ++i)
		text += lines[i] + (i + 1 < lines.size() || newline ? "\n" : "");
	{
		std::ofstream f(file.c_str());
		f << text;
	}
	std::string args = "\"" + file + "\"";
	if (cols >= 1)
		args += comma ? ",comma" : ",space";
	if (cols >= 2)
		args += "," + std::to_string(cx);
	if (cols >= 3)
		args += "," + std::to_string(cy);
	if (cols < 1)
		comma = false;
	if (cols < 2)
		cx = 0;
	if (cols < 3)
		cy = 1;
	std::vector<std::pair<double, double>> data;
	bool good = true;
	for (auto& l : lines) {
		if (l.find_first_not_of(" \t") == std::string::npos)
			continue;
		bool ok = false;
		auto v = fields(l, comma ? ',' : ' ', ok);
		if (cx >= (int)v.size() || cy >= (int)v.size()) {
			good = false;
			break;
		}
		if (!ok)
			return; // other columns may hold anything
		data.push_back({ v[cx], v[cy] });
	}
	const std::string def = "function f=\\AinurFromFile(" + args + ");\n";
	const std::string what = "table " + mc::jsonEsc(text) + " " + args;
	must(good, [&] { Ainur a(def); }, what);
	if (!good)
		return;
	for (std::string x : { "0", "1", "2", "-1.5", "1e-3", "7" }) {
		double want = 0;
		bool found = false;
		for (auto& p : data)
			if (!found && p.first == std::atof(x.c_str())) {
				found = true;
				want = p.second;
			}
		Ainur a(def + "real y=\\f(" + x + ");\nvector v=[3,4];\nstring s=\"\\f(%t)\";\n");
		double y = 99;
		must(found, [&] { a.readValue(y, "y"); }, what + " at " + x);
		if (found)
			mc::eq(y, want, what + " at " + x);
		if (cols == 0) { // (commas separate the components of a vector)
			Ainur b(def + "vector v=[\\f(" + x + "), 5];\nmatrix m=[[1, \\f(" + x + ")]];\n");
			std::vector<double> v;
			must(found, [&] { b.readValue(v, "v"); }, what + " in a vector");
			if (found)
				mc::eq(v, std::vector<double> { want, 5 }, what + " in a vector");
			Matrix<double> m;
			must(found, [&] { b.readValue(m, "m"); }, what + " in a matrix");
			if (found)
				mc::check(m(0, 0) == 1 && m(0, 1) == want, what + " in a matrix");
		}
		// resolved later, by replacing a placeholder
		std::string s;
		a.readValue(s, "s");
		replaceAll(s, "%t", x);
		must(found, [&] { s = a.resolve(s); }, what + " resolved at " + x);
		if (found)
			mc::eq(std::atof(s.c_str()), want, what + " resolved at " + x);
	}
}
static void tables()
{
	const VS sp = { "0 5", "1 -2.5 8", "2 1e-9 3", "", "  ", "-1.5 0.123456789012345 4", "7", "1 6 1" };
	const VS co = { "0,5", "1,-2.5,8", "", "2,1e-9,3", "7" };
	for (size_t first = 0; first < sp.size(); ++first)
		mc::run("tables starting with \"" + sp[first] + "\"", [&] {
			for (size_t j = 0; j <= sp.size(); ++j)
				for (size_t k = 0; k <= sp.size(); ++k) {
					if (j == sp.size() && k < sp.size())
						continue;
					VS l { sp[first] };
					if (j < sp.size())
						l.push_back(sp[j]);
					if (k < sp.size())
						l.push_back(sp[k]);
					for (int nl = 0; nl < 2; ++nl) {
						table(l, false, 0, 0, 1, nl);
						if (l.size() > 2 && !mc::thorough())
							continue;
						table(l, false, 1, 0, 1, nl);
						for (int cx = 0; cx < 4; ++cx) {
							table(l, false, 2, cx, 1, nl);
							for (int cy = 0; cy < 4; ++cy)
								table(l, false, 3, cx, cy, nl);
						}
					}
					mc::tick();
				}
		});
	mc::run("tables separated by commas", [&] {
		for (auto& a : co)
			for (auto& b : co)
				for (int cx = 0; cx < 4; ++cx)
					for (int cy = 0; cy < 4; ++cy)
						for (int cols = 1; cols <= 3; ++cols)
							table({ a, b }, true, cols, cx, cy, true);
	});
	mc::run("tables of close numbers and of many digits", [&] {
		const VS key = { "0.1", "0.10000000000000002", "1", "1.00000001", "1.0000000000000002", "0.99999999", "16777216", "16777217", "1e300", "1.0000000001e300", "-0.1", "1e-300", "0" };
		const VS val = { "0.1234567890123456", "0.12345678901234568", "3.141592653589793", "1e-17", "0.30000000000000004", "123456789.12345679", "-2.2250738585072014e-308", "1.7976931348623157e308", "16777217", "9007199254740993", "5", "-7", "0.1" };
		const std::string f = scratch(".txt");
		for (size_t shift = 0; shift < val.size(); ++shift)
			for (int rev = 0; rev < 2; ++rev) {
				{
					std::ofstream o(f.c_str());
					for (size_t i = 0; i < key.size(); ++i) {
						const size_t k = rev ? key.size() - 1 - i : i;
						o << key[k] << " " << val[(k + shift) % val.size()] << "\n";
					}
				}
				std::string t = "function f=\\AinurFromFile(\"" + f + "\");\nstring s=\"\\f(%t)\";\n";
				for (size_t k = 0; k < key.size(); ++k)
					t += "real y" + std::to_string(k) + "=\\f(" + key[k] + ");\n";
				Ainur a(t);
				for (size_t k = 0; k < key.size(); ++k) {
					const double want = std::strtod(val[(k + shift) % val.size()].c_str(), 0);
					double y = 0;
					a.readValue(y, "y" + std::to_string(k));
					mc::eq(y, want, "value at " + key[k]);
					std::string s;
					a.readValue(s, "s");
					replaceAll(s, "%t", key[k]);
					mc::eq(std::strtod(a.resolve(s).c_str(), 0), want, "value resolved at " + key[k]);
				}
			}
	});
	mc::run("other tables", [&] {
		for (int n : { 100, 2040, 2046, 2047, 2048, 2049, 5000 })
			table({ "0 5" + std::string(n, ' '), "1 2" }, false, 0, 0, 1, true);
		VS l;
		for (int i = 0; i < 50; ++i)
			l.push_back(std::to_string(i % 3 == 0 ? 100 + i : i % 3) + " " + std::to_string(i));
		table(l, false, 0, 0, 1, true);
		must(false, [&] { Ainur a("function f=\\AinurFromFile(\"/nonexistent/table\");\n"); }, "missing table");
		table({ "1 2" }, false, 0, 0, 1, true);
		const std::string f = "\"" + scratch(".txt") + "\"";
		for (std::string args : { std::string(""), f + ",tab", f + ",space,0,1,2", f + ",space,x", f + ",space,0,-1", f + ",space,1.5" })
			must(false, [&] { Ainur a("function f=\\AinurFromFile(" + args + ");\n"); }, "arguments " + args);
		must(false, [&] { Ainur a("function f=\\Unknown(" + f + ");\n"); }, "unknown macro");
		// two functions at once
		const std::string g = scratch(".ain");
		{
			std::ofstream o(g.c_str());
			o << "1 30\n2 40\n";
		}
		Ainur a("function f=\\AinurFromFile(" + f + ");\nfunction g=\\AinurFromFile(\"" + g + "\");\nfunction h=\\AinurFromFile(" + f + ");\nreal x=\\f(1);\nreal y=\\g(1);\nreal z=\\g(2);\nreal w=\\h(1);\n");
		double x = 0, y = 0, z = 0, w = 0;
		a.readValue(x, "x");
		a.readValue(y, "y");
		a.readValue(z, "z");
		a.readValue(w, "w");
		mc::check(x == 2 && y == 30 && z == 40 && w == 2, "two functions");
		// used before they are defined
		Ainur b("real z=\\g(2);\nvector v=[\\h(1),\\g(1)];\nreal x=\\f(1);\nfunction h=\\AinurFromFile(" + f + ");\nfunction f=\\AinurFromFile(" + f + ");\nfunction g=\\AinurFromFile(\"" + g + "\");\n");
		b.readValue(x, "x");
		b.readValue(z, "z");
		std::vector<double> v;
		b.readValue(v, "v");
		mc::check(x == 2 && z == 40 && v == std::vector<double> { 2, 30 }, "functions used before they are defined");
	});
}
// ------------------------------------------------------------------ (5) the rest
struct Check : public InputCheckBase {
	std::string import() const { return "integer n;\nvector v;\nstring s;\nreal t0x;\nreal t1x;\nreal t2x;\nmatrix m;\n"; }
	bool check(const String&, const Vector<String>::Type&, SizeType) const { return false; }
	void check(const String&, const String&, SizeType) const { }
};
static void rest()
{
	mc::run("characters", [] {
		for (int c = 1; c < 256; ++c)
			for (int at = 0; at < 3; ++at) {
				const std::string ch(1, char(c));
				const std::string t = at == 0 ? "string s=\"a" + ch + "b\";\n" : at == 1 ? "# " + ch + " comment\nstring s=\"ab\";\n" : "string s=\"ab\";\n# " + ch + "\n";
				const bool allowed = (c > 32 && c < 127 && c != 96) || c == ' ' || c == '\t' || c == '\n' || c == '\r';
				if (at == 0 && (c == ';' || c == '\\'))
					continue; // they mean something
				if (at && (c == '\n' || c == '\r'))
					continue;
				must(allowed, [&] {
					Ainur a(t);
					std::string s;
					a.readValue(s, "s");
					if (at)
						mc::eq(s, std::string("ab"), "string");
					else
						mc::eq(s, "a" + ch + "b", "string");
				}, "character " + std::to_string(c));
			}
	});
	mc::run("statements that are not", [] {
		for (std::string t : { "a=3;\n", "integer a;\ninteger a;\n", "integer a=1;\nb=2;\n", "integer a=;\nreal b=1;\n", "integer;\nreal b=1;\n", "integer 3a=1;\nreal b=1;\n",
		         "integer a b=1;\nreal b=1;\n", "integer a=1;\n=2;\n", "integer a==1;\nfoo\n", "integer a=\\nothing;\n", "integer a=1;\n}\n\n", "real b=1;\n;\nreal c=2;\n" })
			must(false, [&] {
				Ainur a(t);
				double d = 0;
				a.readValue(d, "a");
			}, mc::jsonEsc(t));
	});
	for (int file = 0; file < 2; ++file)
		mc::run(file ? "through InputNg, from a file" : "through InputNg", [&] {
			typedef InputNg<Check> Ng;
			Check c;
			struct Piece {
				std::string text;
				int what;
			};
			const std::vector<Piece> pieces = { { "n=17;\n", 0 }, { "v=[1,-2.5];\n", 1 }, { "s=\"a b\";\n", 2 }, { "!t$ix 3 4 5\n", 3 }, { "m=[[1,2],[3,4]];\n", 4 }, { "real extra=2;\n", 5 } };
			for (int mask = 0; mask < 64; ++mask)
				for (int rev = 0; rev < 2; ++rev)
					for (int nl = 0; nl < 2; ++nl) {
						std::string t = "##Ainur1.0\n";
						for (int k = 0; k < 6; ++k) {
							const int i = rev ? 5 - k : k;
							if (mask >> i & 1)
								t += pieces[i].text;
						}
						if (!nl && t.back() == '\n')
							t.pop_back();
						if (file) {
							std::ofstream o(scratch(".ain").c_str());
							o << t;
						}
						std::unique_ptr<Ng::Writeable> w(file ? new Ng::Writeable(scratch(".ain"), c) : new Ng::Writeable(c, t));
						Ng::Readable io(*w);
						mc::check(io.isAinur() && io.version() == 3., "Ainur input");
						int n = 0;
						SizeType u = 0;
						long l = 0;
						std::vector<double> v;
						std::string s;
						double d[3] = { 0, 0, 0 }, e = 0;
						Matrix<double> m;
						const std::string what = mc::jsonEsc(t);
						must(mask & 1, [&] { io.readline(n, "n="); io.readline(u, "n="); io.readline(l, "n"); }, what + " n");
						must(mask & 2, [&] { io.read(v, "v"); }, what + " v");
						must(mask & 4, [&] { io.readline(s, "s="); }, what + " s");
						for (int i = 0; i < 3; ++i)
							must(mask & 8, [&] { io.readline(d[i], "t" + std::to_string(i) + "x="); }, what + " t");
						must(mask & 16, [&] { io.read(m, "m"); }, what + " m");
						must(mask & 32, [&] { io.readline(e, "extra="); }, what + " extra");
						if (mask & 1)
							mc::check(n == 17 && u == 17 && l == 17, what + " n");
						if (mask & 2)
							mc::eq(v, std::vector<double> { 1, -2.5 }, what + " v");
						if (mask & 4)
							mc::eq(s, std::string("a b"), what + " s");
						if (mask & 8)
							mc::check(d[0] == 3 && d[1] == 4 && d[2] == 5, what + " t");
						if (mask & 16)
							mc::check(m.rows() == 2 && m.cols() == 2 && m(0, 1) == 2 && m(1, 0) == 3, what + " m");
						if (mask & 32)
							mc::eq(e, 2.0, what + " extra");
					}
		});
}
template <typename T, typename F> static void exact(const wide::Word& w, F get, const std::string& what)
{
	T x = 77;
	bool t = mc::throws([&] { get(x); });
	if (!t)
		mc::check(wide::in<T>(w) && x == (T)w.v, what + " " + w.text + " became " + std::to_string(x));
	else
		mc::check(!wide::mustAccept<T>(w), what + " " + w.text + " refused");
}
template <typename T> static void exactIn(const wide::Word& w, const std::string& what)
{
	const std::string text = "integer n;\nvector v;\nmatrix m;\nn = " + w.text + ";\nv = [3, " + w.text + "];\nm = [[1, 2], [" + w.text + ", 4]];\n";
	Ainur io(text);
	exact<T>(w, [&](T& x) { io.readValue(x, "n"); }, what);
	if constexpr (!std::is_same<T, long>::value) {
	exact<T>(w, [&](T& x) { std::vector<T> v; io.readValue(v, "v"); mc::check(v.size() == 2 && v[0] == 3, what + ": other component"); x = v[1]; }, what + " in a vector");
	Ainur io2("vector v;\nv = [" + w.text + ", ...x3];\n");
	exact<T>(w, [&](T& x) { std::vector<T> v; io2.readValue(v, "v"); mc::check(v.size() == 3 && v[0] == v[1] && v[1] == v[2], what + ": ellipsis"); x = v[1]; }, what + " in an ellipsis");
	}
}
static void limits()
{
	for (const wide::Word& w : wide::words())
		mc::run("limits " + w.text, [&] {
			exactIn<int>(w, "int");
			exactIn<long>(w, "long");
			exactIn<SizeType>(w, "SizeType");
			Ainur io("real x;\nx = " + w.text + ";\n");
			double d = 0;
			io.readValue(d, "x");
			mc::eq(d, std::strtod(w.text.c_str(), 0), "as real");
		});
}
// long vectors, larger matrices, many statements
static void larger()
{
	for (int n : { 9, 10, 11, 16, 33, 100, 257, 1000 })
		mc::run("larger vectors of " + std::to_string(n), [&] {
			for (int lay = 0; lay < 4; ++lay) {
				static const char* sep[] = { ",", ", ", " ,\n", ",\t\n  " };
				std::string t = "[", z = "[", q = "[";
				std::vector<double> v;
				std::vector<Z> vz;
				std::vector<int> vi;
				VS vs;
				for (int i = 0; i < n; ++i) {
					char b[60];
					const double x = (i - 5) * 0.375, y = i % 7 - 3;
					snprintf(b, sizeof b, "%s%.17g", i ? sep[lay] : "", x);
					t += b;
					v.push_back(x);
					snprintf(b, sizeof b, i % 2 ? "%s%.17gi%.17g" : "%s%.17g", i ? sep[lay] : "", x, y);
					z += b;
					vz.push_back(Z(x, i % 2 ? y : 0));
					snprintf(b, sizeof b, "%s%d", i ? sep[lay] : "", i * 1000 - 7);
					q += b;
					vi.push_back(i * 1000 - 7);
				}
				t += "]", z += "]", q += "]";
				Ainur a("vector z;\nvector v = " + t + ";\nz=" + z + ";\nvector q\n=\n" + q + ";integer last=4;\n");
				for (size_t pre : { (size_t)0, (size_t)3, (size_t)n }) {
					std::vector<double> r(pre, 9);
					std::vector<Z> rz(pre, 9);
					std::vector<int> ri(pre, 9);
					std::vector<Z> rr(pre, 9);
					int last = 0;
					a.readValue(rz, "z");
					a.readValue(r, "v");
					a.readValue(ri, "q");
					a.readValue(rr, "v");
					a.readValue(last, "last");
					mc::check(r == v && rz == vz && ri == vi && last == 4, "long vectors");
					mc::check(rr.size() == v.size(), "real vector as complex");
					for (int i = 0; i < n; ++i)
						mc::check(rr[i] == Z(v[i], 0), "real vector as complex");
				}
				Matrix<double> m;
				must(false, [&] { a.readValue(m, "v"); }, "vector as matrix");
				must(false, [&] { std::vector<int> r; a.readValue(r, "z"); }, "complex as integers");
			}
			for (int k : { n, n * 100 + 1 }) {
				std::vector<double> r(2), want(k, -1.25);
				Ainur a("vector v=[-1.25,...x" + std::to_string(k) + "];\nvector w=[-1.25, ...];\n");
				a.readValue(r, "v");
				mc::check(r == want, "long ellipsis");
				std::vector<double> w(k, 3);
				a.readValue(w, "w");
				mc::check(w == want, "long open ellipsis");
			}
			mc::fold((uint64_t)n);
		});
	for (int r : { 5, 10, 17 })
		for (int k : { 1, 2, 10, 12, 25 })
			mc::run("larger matrix " + std::to_string(r) + "x" + std::to_string(k), [&] {
				for (int lay = 0; lay < 3; ++lay)
					for (int bad = 0; bad < 3; ++bad) { // 1: a row too short, 2: a row too long
						static const char* sep[] = { ",", ", ", ",\n\t" };
						std::string t = "[", z = "[";
						for (int i = 0; i < r; ++i) {
							const int kk = k + (i == r - 2 ? (bad == 1 ? -1 : bad == 2 ? 1 : 0) : 0);
							t += std::string(i ? sep[lay] : "") + "[";
							z += std::string(i ? sep[lay] : "") + "[";
							for (int j = 0; j < kk; ++j) {
								const std::string e = std::to_string(i * 50 - j) + (j % 2 ? ".25" : "");
								t += std::string(j ? sep[lay] : "") + e;
								z += std::string(j ? sep[lay] : "") + e + (j % 3 ? "i" + std::to_string(j - i) : "");
							}
							t += "]", z += "]";
						}
						Ainur a("matrix m=" + t + "];\nmatrix z=" + z + "];\n");
						Matrix<double> m;
						Matrix<Z> mz;
						must(!bad, [&] { a.readValue(m, "m"); }, "matrix");
						must(!bad, [&] { a.readValue(mz, "z"); }, "complex matrix");
						if (bad)
							continue;
						mc::check((int)m.rows() == r && (int)m.cols() == k && (int)mz.rows() == r && (int)mz.cols() == k, "shape");
						for (int i = 0; i < r; ++i)
							for (int j = 0; j < k; ++j) {
								const double x = std::atof((std::to_string(i * 50 - j) + (j % 2 ? ".25" : "")).c_str());
								mc::check(m(i, j) == x && mz(i, j) == Z(x, j % 3 ? j - i : 0), "entry");
							}
					}
				mc::fold((uint64_t)(100 * r + k));
			});
	for (int n : { 9, 10, 11, 40, 130 })
		mc::run("many statements " + std::to_string(n), [&] {
			auto name = [](int i) { return std::string(1 + i % 13, char('a' + i % 26)) + "_" + std::to_string(i); };
			for (int order = 0; order < 2; ++order) {
				std::string t;
				for (int q = 0; q < n; ++q) {
					const int i = order ? n - 1 - q : q;
					switch (i % 4) {
					case 0: t += "integer " + name(i) + "=" + std::to_string(i * 31 - 5) + ";\n"; break;
					case 1: t += "real " + name(i) + ";# " + name(i) + "=3;\n" + name(i) + " = " + std::to_string(i) + ".5;\n"; break;
					case 2: t += "string " + name(i) + " = \"s\\" + name(i - 2) + "-\";"; break;
					default: t += "vector " + name(i) + "=[\\" + name(i - 3) + ", 1];\n" + name(i) + "=[7,\\" + name(i - 3) + "];\n";
					}
				}
				Ainur a(t);
				for (int q = 0; q < n; ++q) {
					const int i = q * 7 % n;
					if (i % 4 == 0) {
						int x = 0;
						a.readValue(x, name(i));
						mc::eq(x, i * 31 - 5, name(i));
					} else if (i % 4 == 1) {
						double x = 0;
						a.readValue(x, name(i));
						mc::eq(x, i + 0.5, name(i));
					} else if (i % 4 == 2) {
						std::string x;
						a.readValue(x, name(i));
						mc::eq(x, "s" + std::to_string((i - 2) * 31 - 5) + "-", name(i));
					} else {
						std::vector<double> x;
						a.readValue(x, name(i));
						mc::eq(x, std::vector<double> { 7, (i - 3) * 31.0 - 5 }, name(i));
					}
				}
				for (int i = 0; i < n; ++i)
					must(false, [&] { double x; a.readValue(x, name(i) + "x"); }, "absent label");
				must(false, [&] { Ainur b(t + "integer " + name(n / 2) + "=1;\n"); }, "declared twice");
				must(false, [&] { Ainur b(t + "zz" + name(n / 2) + "=1;\n"); }, "never declared");
			}
			mc::fold((uint64_t)n);
		});
}
void mc::explore()
{
	larger();
	std::cerr.setstate(std::ios::failbit); // warnings of the library
	std::cout.setstate(std::ios::failbit);
	programs();
	words::explore("literal", { "[", "]", ",", "1", "-2.5", " ", "i", "...", "x3" }, mc::thorough() ? 7 : 6, literal);
	words::explore("bracketed", { "[[1,2]", "[3,4]", "[5]", "]", ",", "[1,2", "7", "[0i1,i]", "[" }, mc::thorough() ? 6 : 5, literal);
	grids();
	words::explore("complex literal", words::chars("07.+-ie"), mc::thorough() ? 7 : 5, zword);
	tables();
	rest();
	limits();
	std::cout.clear();
	std::cerr.clear();
	atEnd();
}
