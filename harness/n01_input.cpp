// N01: classic input files (InputNg.h).
// (1) every sequence of statements x separators x spacings x file endings, read back in
//     several orders and compared with a table of label -> successive values;
// (2) every short word where a number is expected;
// (3) counts and shapes of vectors and matrices.
#undef USE_BOOST // classic input only: no need of the Ainur parser
#include "InputNg.h"
#include "InputCheckBase.h"
#include "wide.h"
#include "words.h"
#include <fstream>
#include <functional>
#include <map>
#include <unistd.h>
using namespace PsimagLite;
typedef std::complex<double> Z;

struct Check : public InputCheckBase {
	std::string import() const { return ""; }
	bool check(const String& label, const Vector<String>::Type&, SizeType) const { return label[0] == 'M'; }
	void check(const String&, const String&, SizeType) const { }
};
typedef InputNg<Check> Ng;
typedef Ng::Writeable W;
typedef Ng::Readable R;

// ------------------------------------------------------------------ (1) files
struct Stmt {
	std::vector<std::string> tokens; // joined by the spacing under test
	std::string label, kind; // s scalar, t text, v vector, z complex vector, m matrix, c complex matrix, d map, i shorthand, n nothing
	std::vector<double> re, im;
	std::string text;
};
static std::vector<Stmt> stmts()
{
	std::vector<Stmt> s;
	auto add = [&](std::vector<std::string> t, std::string l, std::string k, std::vector<double> re = {}, std::vector<double> im = {}, std::string text = "") {
		s.push_back(Stmt { t, l, k, re, im, text });
	};
	add({ "a=5" }, "a", "s", { 5 });
	add({ "a=7" }, "a", "s", { 7 });
	add({ "ab=-12" }, "ab", "s", { -12 });
	add({ "b=-2.5e3" }, "b", "f", { -2500 });
	add({ "n=x,y=z.q" }, "n", "t", {}, {}, "x,y=z.q");
	add({ "V", "3", "1", "-2.5", "1e1" }, "V", "v", { 1, -2.5, 10 });
	add({ "V", "1", "9" }, "V", "v", { 9 });
	add({ "C", "2", "(1,-2)", "3" }, "C", "z", { 1, 3 }, { -2, 0 });
	add({ "M", "2", "1", "4", "-1.5" }, "M", "m", { 2, 1, 4, -1.5 });
	add({ "Mc", "1", "2", "(0,1)", "6" }, "Mc", "c", { 1, 2, 0, 6 }, { 0, 0, 1, 0 });
	add({ "D[k]=2" }, "D[k]", "d", { 2 });
	add({ "xD[q]=3" }, "xD[q]", "d", { 3 });
	add({ "!p$iq 4 5" }, "p", "i", { 4, 5 });
	add({ "" }, "", "n");
	add({ "#a=99" }, "", "n");
	return s;
}
struct Table { // what the file says: label -> successive values
	std::map<std::string, std::vector<const Stmt*>> one;
	std::vector<Stmt> keep;
};
static bool scalarKind(char k) { return k == 's' || k == 'f'; }
static void readOne(R& io, const std::string& label, const Stmt& s, int how)
{
	const char k = s.kind[0];
	if (scalarKind(k)) {
		double d = 77;
		int i = 77;
		long l = 77;
		SizeType u = 77;
		std::string t = "77";
		const bool whole = k == 's', pos = s.re[0] >= 0;
		if (how == 1 && whole) {
			io.readline(i, label + "=");
			mc::eq(i, int(s.re[0]), label + " as int");
		} else if (how == 2 && whole) {
			io.readline(l, label);
			mc::eq(l, long(s.re[0]), label + " as long");
		} else if (how == 3 && whole && pos) {
			io.readline(u, label + "=");
			mc::eq(u, SizeType(s.re[0]), label + " as unsigned");
		} else if (how == 4 && whole && pos) {
			io.read(u, label);
			mc::eq(u, SizeType(s.re[0]), label + " as unsigned with read");
		} else {
			io.readline(d, label + "=");
			mc::eq(d, s.re[0], label + " as double");
		}
	} else if (k == 't') {
		std::string t = "old";
		io.readline(t, label + "=");
		mc::eq(t, s.text, label + " as text");
	} else if (k == 'v') {
		if (how == 2) {
			std::vector<Z> v(1);
			io.read(v, label);
			mc::check(v.size() == s.re.size(), label + " size");
			for (size_t i = 0; i < v.size(); ++i)
				mc::check(v[i] == Z(s.re[i], 0), label + " component as complex");
		} else {
			std::vector<double> v(how);
			io.read(v, label);
			mc::eq(v, s.re, label + " as vector");
		}
	} else if (k == 'z') {
		std::vector<Z> v;
		io.read(v, label);
		mc::check(v.size() == s.re.size(), label + " size");
		for (size_t i = 0; i < v.size(); ++i)
			mc::check(v[i] == Z(s.re[i], s.im[i]), label + " component");
	} else if (k == 'm') {
		Matrix<double> m;
		io.read(m, label);
		mc::check(m.rows() == s.re[0] && m.cols() == s.re[1], label + " shape");
		size_t n = 2;
		for (size_t i = 0; i < m.rows(); ++i)
			for (size_t j = 0; j < m.cols(); ++j)
				mc::eq(double(m(i, j)), s.re[n++], label + " entry");
	} else if (k == 'c') {
		Matrix<Z> m;
		io.read(m, label);
		mc::check(m.rows() == s.re[0] && m.cols() == s.re[1], label + " shape");
		size_t n = 2;
		for (size_t i = 0; i < m.rows(); ++i)
			for (size_t j = 0; j < m.cols(); ++j, ++n)
				mc::check(m(i, j) == Z(s.re[n], s.im[n]), label + " entry");
	}
}
// every label the statements can mention, with a statement of its kind
static void readAll(const W& w, const std::vector<Stmt>& all, const std::map<std::string, std::vector<Stmt>>& table, int order)
{
	R io(w);
	std::vector<std::pair<std::string, Stmt>> labels;
	std::map<std::string, bool> seen;
	for (auto& s : all) {
		if (s.kind == "n" || s.kind == "d" || s.kind == "i" || seen[s.label])
			continue;
		seen[s.label] = true;
		labels.push_back({ s.label, s });
	}
	for (int i = 0; i < 3; ++i) {
		Stmt s;
		s.kind = "s";
		s.re = { 0 };
		labels.push_back({ "p" + std::to_string(i) + "q", s });
	}
	if (order & 1)
		std::reverse(labels.begin(), labels.end());
	const bool roundRobin = order & 2;
	std::map<std::string, size_t> at;
	for (int pass = 0; pass < (roundRobin ? 4 : 1); ++pass)
		for (auto& l : labels)
			for (int rep = 0; rep < (roundRobin ? 1 : 4); ++rep) {
				auto it = table.find(l.first);
				if (it == table.end()) {
					mc::mustThrow([&] { readOne(io, l.first, l.second, 0); }, "reading the absent label " + l.first);
					if (!roundRobin)
						break;
					continue;
				}
				size_t& k = at[l.first];
				readOne(io, l.first, it->second[k], (order + int(k) + pass) % 5);
				if (k + 1 < it->second.size())
					++k; // the last value stays readable
			}
	std::map<std::string, double> got, want;
	io.read(got, "D");
	if (table.count("D[k]"))
		want["k"] = 2;
	mc::check(got == want, "entries of the map D");
}
static std::string glue(const Stmt& s, const std::string& space)
{
	std::string t;
	for (size_t i = 0; i < s.tokens.size(); ++i)
		t += (i ? space : "") + s.tokens[i];
	return t;
}
static std::map<std::string, std::vector<Stmt>> tableOf(const std::vector<const Stmt*>& v)
{
	std::map<std::string, std::vector<Stmt>> t;
	for (auto s : v) {
		if (s->kind == "n")
			continue;
		if (s->kind == "i") {
			for (size_t i = 0; i < s->re.size(); ++i) {
				Stmt x;
				x.kind = "s";
				x.re = { s->re[i] };
				t["p" + std::to_string(i) + "q"].push_back(x);
			}
			continue;
		}
		t[s->label].push_back(*s);
	}
	return t;
}
static std::string scratch()
{
	static std::string s;
	if (s.empty())
		s = std::string(access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + "/n01_" + std::to_string(getpid()) + ".inp";
	return s;
}
static void atEnd() { ::unlink(scratch().c_str()); }
static void oneFile(const std::string& text, const std::vector<const Stmt*>& v, const std::vector<Stmt>& all, bool file, int order)
{
	mc::tick();
	try {
		Check c;
		auto table = tableOf(v);
		// a map entry given twice has no defined key
		if (file) {
			{
				std::ofstream f(scratch().c_str());
				f << text;
			}
			W w(scratch(), c);
			readAll(w, all, table, order);
		} else {
			W w(c, text);
			readAll(w, all, table, order);
		}
	} catch (const mc::Violation& e) {
		throw mc::Violation { "file " + mc::jsonEsc(text) + ": " + e.msg };
	} catch (const std::exception& e) {
		mc::fail("file " + mc::jsonEsc(text) + ": unexpected error: " + e.what());
	}
}
static bool usable(const std::vector<const Stmt*>& v)
{
	std::map<std::string, int> n;
	for (auto s : v)
		if (s->kind == "d" && ++n[s->label] > 1)
			return false;
	return true;
}
// a shorthand line starts at the start of the line
static bool shorthand(const std::vector<const Stmt*>& v)
{
	for (auto s : v)
		if (s->kind == "i")
			return true;
	return false;
}
static const std::vector<std::string> SEP = { "\n", "\n\n", " # c=3\n", "#c=3\n", "\n# c 4\n", " \t\n\t ", "\t#\n \n" };
static const std::vector<std::string> SPACE = { " ", "  ", "\t", "\n", "\n # x=1\n", " #4 4\n" };
static const std::vector<std::string> TAIL = { "\n", "", " ", "#", " # a=1" };
static void files()
{
	const std::vector<Stmt> all = stmts();
	const int L = mc::thorough() ? 4 : 3;
	// same separator and spacing throughout
	for (size_t first = 0; first < all.size(); ++first)
		mc::run("files of up to " + std::to_string(L) + " statements starting with " + mc::jsonEsc(glue(all[first], " ")), [&] {
			std::vector<const Stmt*> v { &all[first] };
			std::function<void()> rec = [&] {
				if (usable(v)) {
					int n = 0;
					for (size_t s = 0; s < SEP.size(); ++s)
						for (size_t p = 0; p < SPACE.size(); ++p) {
							if (shorthand(v) && SEP[s].back() != '\n')
								continue;
							// all spacings with the plain separator and the reverse; both in short files
							if (v.size() > 2 && s && p)
								continue;
							for (size_t t = 0; t < TAIL.size(); ++t) {
								if (v.size() > 2 && t > 1)
									continue;
								std::string text;
								for (size_t i = 0; i < v.size(); ++i)
									text += glue(*v[i], SPACE[p]) + (i + 1 < v.size() ? SEP[s] : TAIL[t]);
								oneFile(text, v, all, v.size() <= 1 || (v.size() == 2 && !s && !p), n++ % 4);
							}
						}
				}
				if ((int)v.size() < L)
					for (auto& s : all) {
						v.push_back(&s);
						rec();
						v.pop_back();
					}
			};
			rec();
		});
	// a separator and spacing for each statement
	mc::run("files with a separator of its own after each statement", [&] {
		for (auto& a : all)
			for (auto& b : all)
				for (auto& s : SEP)
					for (auto& p : SPACE)
						for (auto& q : SPACE) {
							std::vector<const Stmt*> v { &a, &b };
							if (usable(v) && (!shorthand(v) || s.back() == '\n'))
								oneFile(s + glue(a, p) + SEP[2] + s + glue(b, q) + s, v, all, false, 1);
						}
	});
	// long runs of duplicates
	for (int n = 1; n <= 25; ++n)
		mc::run("label given " + std::to_string(n) + " times", [&] {
			std::string text;
			for (int i = 0; i < n; ++i)
				text += "a=" + std::to_string(i) + "\nab=" + std::to_string(100 + i) + "\nV 2 " + std::to_string(i) + " 1\n";
			Check c;
			W w(c, text);
			R io(w);
			for (int i = 0; i < n + 2; ++i) {
				int x = -1, y = -1;
				io.readline(x, "a=");
				io.readline(y, "ab=");
				mc::eq(x, std::min(i, n - 1), "occurrence of a");
				mc::eq(y, 100 + std::min(i, n - 1), "occurrence of ab");
				std::vector<int> v;
				io.read(v, "V");
				mc::eq(v, std::vector<int> { std::min(i, n - 1), 1 }, "occurrence of V");
			}
		});
	for (int n = 1; n <= 4; ++n)
		mc::run("keeping and removing values, " + std::to_string(n) + " times", [&] {
			for (int hist = 0; hist < 81; ++hist) { // 4 reads: plain, keep, remove
				std::string text;
				for (int i = 0; i < n; ++i)
					text += "a=" + std::to_string(i) + "\nb=8\n";
				Check c;
				W w(c, text);
				R io(w);
				int at = 0, h = hist;
				for (int i = 0; i < 4; ++i, h /= 3) {
					std::string x = "none";
					const int how = h % 3;
					auto get = [&] { io.readline(x, "a=", how != 1, how == 2); };
					if (at >= n) {
						mc::mustThrow(get, "reading a removed label");
						continue;
					}
					get();
					mc::eq(x, std::to_string(at), "value");
					if (how == 2 || (how == 0 && at + 1 < n))
						++at;
				}
			}
		});
}
// ------------------------------------------------------------------ (2) words in the place of numbers
static bool integer(const std::string& s)
{
	size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
	if (i == s.size())
		return false;
	for (; i < s.size(); ++i)
		if (!isdigit((unsigned char)s[i]))
			return false;
	return true;
}
static bool real(const std::string& s)
{
	size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
	int d = 0, p = 0;
	for (; i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.'); ++i)
		(s[i] == '.' ? p : d)++;
	if (!d || p > 1)
		return false;
	if (i == s.size())
		return true;
	if (s[i] != 'e' && s[i] != 'E')
		return false;
	const std::string t = s.substr(i + 1);
	return integer(t);
}
static void number(const std::string& w)
{
	if (w.empty())
		return;
	Check c;
	W wr(c, "z=1\na=" + w + "\nb=2\n");
	{
		R io(wr);
		int i = 77;
		long l = 77;
		SizeType u = 77;
		double d = 77;
		if (integer(w)) {
			io.readline(i, "a=");
			mc::eq(i, std::atoi(w.c_str()), "integer");
			io.readline(l, "a=");
			mc::eq(l, std::atol(w.c_str()), "long");
		} else {
			mc::mustThrow([&] { io.readline(i, "a="); }, "read as integer");
			mc::mustThrow([&] { io.readline(l, "a="); }, "read as long");
			mc::mustThrow([&] { io.readline(u, "a="); }, "read as unsigned");
			mc::mustThrow([&] { io.read(u, "a"); }, "read as unsigned");
		}
		if (real(w)) {
			io.readline(d, "a=");
			mc::eq(d, std::atof(w.c_str()), "real");
		} else
			mc::mustThrow([&] { io.readline(d, "a="); }, "read as real");
		io.readline(i, "b=");
		mc::eq(i, 2, "the label after");
		io.readline(i, "z=");
		mc::eq(i, 1, "the label before");
	}
	// as a component of a vector and a matrix
	for (int pos = 0; pos < 2; ++pos) {
		const std::string pair = pos ? "3 " + w : w + " 3";
		std::vector<double> v;
		auto vec = [&] {
			W x(c, "V 2 " + pair + "\nb=2\n");
			R io(x);
			io.read(v, "V");
		};
		std::vector<Z> vz;
		auto zvec = [&] {
			W x(c, "V 2 " + pair + "\nb=2\n");
			R io(x);
			io.read(vz, "V");
		};
		Matrix<double> m;
		auto mat = [&] {
			W x(c, "M 1 2 " + pair + "\nb=2\n");
			R io(x);
			io.read(m, "M");
		};
		Matrix<Z> mz;
		auto zmat = [&] {
			W x(c, "M 1 2 " + pair + "\nb=2\n");
			R io(x);
			io.read(mz, "M");
		};
		const bool labelLike = isalpha((unsigned char)w[0]); // starts another statement
		if (real(w) && !labelLike) {
			const double want = std::atof(w.c_str());
			vec();
			mc::eq(v, pos ? std::vector<double> { 3, want } : std::vector<double> { want, 3 }, "vector");
			zvec();
			mc::check(vz.size() == 2 && vz[pos] == Z(want, 0) && vz[1 - pos] == Z(3, 0), "complex vector");
			mat();
			mc::check(m(0, pos) == want && m(0, 1 - pos) == 3, "matrix");
			zmat();
			mc::check(mz(0, pos) == Z(want, 0) && mz(0, 1 - pos) == Z(3, 0), "complex matrix");
		} else {
			mc::mustThrow(vec, "read as a component of a vector");
			mc::mustThrow(zvec, "read as a component of a complex vector");
			mc::mustThrow(mat, "read as an entry of a matrix");
			mc::mustThrow(zmat, "read as an entry of a complex matrix");
		}
	}
}
// complex literals: (real,real)
static void zliteral(const std::string& inner)
{
	const std::string w = "(" + inner;
	const size_t comma = inner.find(',');
	bool ok = false;
	Z want;
	if (comma != std::string::npos && !inner.empty() && inner.back() == ')') {
		const std::string a = inner.substr(0, comma), b = inner.substr(comma + 1, inner.size() - comma - 2);
		ok = real(a) && real(b);
		if (ok)
			want = Z(std::atof(a.c_str()), std::atof(b.c_str()));
	}
	Check c;
	std::vector<Z> v;
	Matrix<Z> m;
	auto vec = [&] {
		W x(c, "V 2 3 " + w + "\nb=2\n");
		R io(x);
		io.read(v, "V");
	};
	auto mat = [&] {
		W x(c, "M 1 2 3 " + w + "\nb=2\n");
		R io(x);
		io.read(m, "M");
	};
	if (ok) {
		vec();
		mc::check(v.size() == 2 && v[1] == want, "complex component");
		mat();
		mc::check(m(0, 1) == want, "complex entry");
	} else {
		mc::mustThrow(vec, "read as a complex component");
		mc::mustThrow(mat, "read as a complex entry");
	}
}
// ------------------------------------------------------------------ (3) counts and shapes
static void shapes()
{
	mc::run("vector counts", [&] {
		Check c;
		for (int n = -2; n <= 5; ++n)
			for (int m = 0; m <= 5; ++m) {
				std::string t = "V " + std::to_string(n);
				std::vector<double> want;
				for (int i = 0; i < m; ++i) {
					t += " " + std::to_string(i + 1);
					want.push_back(i + 1);
				}
				for (int last = 0; last < 3; ++last) {
					std::vector<double> v;
					auto get = [&] {
						W w(c, last == 0 ? t : last == 1 ? t + "\na=1\n" : "a=1\n" + t + "\nU 1 2\n");
						R io(w);
						io.read(v, "V");
					};
					const std::string what = mc::jsonEsc(t) + " layout " + std::to_string(last);
					if (n == m && n > 0) {
						get();
						mc::eq(v, want, what);
					} else
						mc::mustThrow(get, what);
				}
			}
	});
	mc::run("matrix shapes", [&] {
		Check c;
		for (int n = -2; n <= 3; ++n)
			for (int k = -2; k <= 3; ++k)
				for (int m = 0; m <= std::max(1, n * k); ++m)
					for (int last = 0; last < 2; ++last) {
						std::string t = "M " + std::to_string(n) + " " + std::to_string(k);
						for (int i = 0; i < m; ++i)
							t += " " + std::to_string(i + 1);
						Matrix<double> a;
						Matrix<Z> z;
						auto get = [&] {
							W w(c, last ? t + "\na=1\n" : t);
							R io(w);
							io.read(a, "M");
						};
						auto zet = [&] {
							W w(c, last ? t + "\na=1\n" : t);
							R io(w);
							io.read(z, "M");
						};
						if (n > 0 && k > 0 && m == n * k) {
							get();
							zet();
							mc::check(int(a.rows()) == n && int(a.cols()) == k && int(z.rows()) == n && int(z.cols()) == k, t + " shape");
							for (int i = 0; i < n; ++i)
								for (int j = 0; j < k; ++j)
									mc::check(a(i, j) == i * k + j + 1 && z(i, j) == Z(i * k + j + 1, 0), t + " entries");
						} else if (n <= 0 || k <= 0 || m < n * k) {
							mc::mustThrow(get, t);
							mc::mustThrow(zet, t);
						}
					}
		// a matrix of one number only
		for (std::string t : { "M 1\n", "M 1\na=3\n" })
			mc::mustThrow([&] {
				W w(c, t);
				R io(w);
				Matrix<double> a;
				io.read(a, "M");
			}, t);
	});
	mc::run("statements without a value", [&] {
		Check c;
		for (std::string t : { "a=\nb=2\n", "b=2\na=\n", "a=#3\nb=2\n", "a= # 3\nb=2\n", "a=\n\nb=2\n", "a=", "a" }) {
			auto get = [&] {
				W w(c, t);
				R io(w);
				std::string x;
				io.readline(x, "a=");
			};
			mc::mustThrow(get, mc::jsonEsc(t));
		}
	});
	mc::run("shorthand lines", [&] {
		Check c;
		for (int n = 1; n <= 12; ++n)
			for (int form = 0; form < 4; ++form) {
				std::string t = "!Term$iName ";
				for (int i = 0; i < n; ++i)
					t += (i ? (form == 1 ? "   " : " ") : "") + std::to_string(i * i);
				if (form == 2)
					t += " # not me";
				if (form == 3)
					t += "#not me";
				W w(c, "x=1\n" + t + "\ny=2\n");
				R io(w);
				for (int i = 0; i < n + 3; ++i) {
					int v = -1;
					auto get = [&] { io.readline(v, "Term" + std::to_string(i) + "Name="); };
					if (i < n) {
						get();
						mc::eq(v, i * i, "shorthand value");
					} else
						mc::mustThrow(get, "more values than given");
				}
				int x = 0;
				io.readline(x, "x=");
				mc::eq(x, 1, "line before");
				io.readline(x, "y=");
				mc::eq(x, 2, "line after");
			}
		// a comment starts anywhere, also glued to a value
		for (int n = 1; n <= 4; ++n)
			for (int at = 0; at < n; ++at)
				for (std::string tail : { "#", "#9", "# 9 8", "#9 #8", "##" })
					for (int glued = 0; glued < 2; ++glued) {
						std::string t = "!T$iN";
						int given = 0;
						for (int i = 0; i < n; ++i) {
							t += " " + std::to_string(i + 20);
							if (i <= at)
								++given;
							if (i == at)
								t += (glued ? "" : " ") + tail;
						}
						W w(c, "x=1\n" + t + "\ny=2\n");
						R io(w);
						for (int i = 0; i < n + 3; ++i) {
							int v = -1;
							auto get = [&] { io.readline(v, "T" + std::to_string(i) + "N="); };
							if (i < given) {
								get();
								mc::eq(v, i + 20, "value before the comment in " + t);
							} else
								mc::mustThrow(get, "value within the comment in " + t);
						}
						int y = 0;
						io.readline(y, "y=");
						mc::eq(y, 2, "line after " + t);
					}
		for (int n : { 13, 50, 99, 100, 101, 128, 257, 1001 }) {
			std::string t = "!T$iN";
			for (int i = 0; i < n; ++i)
				t += " " + std::to_string(3 * i + 1);
			W w(c, t + "\n");
			R io(w);
			for (int i = 0; i <= n; ++i) {
				int v = -1;
				auto get = [&] { io.readline(v, "T" + std::to_string(i) + "N="); };
				if (i < n) {
					get();
					mc::eq(v, 3 * i + 1, "value of a long shorthand line");
				} else
					mc::mustThrow(get, "more values than given");
			}
			mc::tick();
		}
		for (std::string t : { "!", "!A", "!A$", "!A$jB 1 2", "!A$iB", "!A$iB " })
			mc::mustThrow([&] { W w(c, t + "\n"); }, t);
	});
	mc::run("a file that is not there", [&] {
		Check c;
		mc::mustThrow([&] { W w("/nonexistent/x.inp", c); }, "missing file");
	});
}

// numbers at the limits of the types: what is read is what is written, or it is refused
template <typename T, typename F> static void exact(const wide::Word& w, F get, const std::string& what)
{
	T x = 77;
	bool t = mc::throws([&] { get(x); });
	if (!t)
		mc::check(wide::in<T>(w) && x == (T)w.v, what + " " + w.text + " became " + std::to_string(x));
	else
		mc::check(!wide::mustAccept<T>(w), what + " " + w.text + " refused");
}
template <typename T> static void exactVector(const wide::Word& w, const std::string& what)
{
	Check c;
	for (int pos = 0; pos < 2; ++pos)
		exact<T>(w, [&](T& x) {
			W wr(c, "V 2 " + (pos ? "3 " + w.text : w.text + " 3") + "\nb=2\n");
			R io(wr);
			std::vector<T> v;
			io.read(v, "V");
			mc::check(v.size() == 2 && v[1 - pos] == T(3), what + ": the other component");
			x = v[pos]; }, what);
}
static void limits()
{
	for (const wide::Word& w : wide::words())
		mc::run("limits " + w.text, [&] {
			Check c;
			W wr(c, "z=1\na=" + w.text + "\nb=2\n");
			exact<int>(w, [&](int& x) { R io(wr); io.readline(x, "a="); }, "int");
			exact<long>(w, [&](long& x) { R io(wr); io.readline(x, "a="); }, "long");
			exact<SizeType>(w, [&](SizeType& x) { R io(wr); io.readline(x, "a="); }, "SizeType");
			exact<SizeType>(w, [&](SizeType& x) { R io(wr); io.read(x, "a"); }, "SizeType, read");
			{
				R io(wr);
				double d = 0;
				io.readline(d, "a=");
				mc::eq(d, std::strtod(w.text.c_str(), 0), "as real");
			}
			exactVector<int>(w, "component of int vector");
			exactVector<unsigned>(w, "component of unsigned vector");
			exactVector<long>(w, "component of long vector");
			exactVector<SizeType>(w, "component of SizeType vector");
		});
	// integers written as reals, and reals, into vectors of integers
	for (std::string t : { "2.0", "1e3", "1.5e1", "-2.00", "2.5", "-0.5", "1e-3", "1e30", "1e400", "-1e30", "0.0", "4e9", "9e18", "2.", "12e-1" })
		mc::run("whole " + t, [&] {
			Check c;
			const long double d = std::strtold(t.c_str(), 0);
			const bool whole = d == (__int128)d;
			wide::Word w { t, whole, fabsl(d) < 1e30L, fabsl(d) < 1e30L ? (__int128)d : 0 };
			exactVector<int>(w, "component of int vector");
			exactVector<long>(w, "component of long vector");
			exactVector<SizeType>(w, "component of SizeType vector");
			W wr(c, "a=" + t + "\n");
			mc::mustThrow([&] { R io(wr); int x; io.readline(x, "a="); }, "a real read as integer");
			mc::mustThrow([&] { R io(wr); SizeType x; io.readline(x, "a="); }, "a real read as integer");
		});
}
// values: texts with equal signs, reals of many digits, matrices of zeros and ones, maps
static void values()
{
	const std::string al = "x=,.7";
	for (int first = 0; first < 25; ++first)
		mc::run("text values " + std::to_string(first), [&] {
			Check c;
			for (int n = 1; n <= 5; ++n) {
				std::vector<int> w(n, 0);
				w[0] = first % 5;
				if (n > 1)
					w[1] = first / 5;
				else if (first / 5)
					continue;
				for (;;) {
					std::string t;
					for (int k : w)
						t += al[k];
					if (t[0] != '=')
						for (const char* end : { "\n", "", " ", "#c", " #c", "\t\n\n" }) {
							W wr(c, "z=9\nt=" + t + end + (end[0] == '\n' || std::string(end).back() == '\n' ? "b=2" : ""));
							R io(wr);
							std::string x;
							io.readline(x, "t=");
							mc::eq(x, t, "text value followed by " + mc::jsonEsc(end));
						}
					int i = std::min(n, 2);
					while (i < n && ++w[i] == 5)
						w[i++] = 0;
					if (i >= n)
						break;
				}
			}
		});
	mc::run("reals of many digits", [&] {
		Check c;
		for (const char* head : { "0.", "-0.", "1.", "12345.", "-1234567890." })
			for (int n = 0; n <= 30; ++n)
				for (const char* e : { "", "e5", "E-7", "e+10", "e-300" }) {
					std::string t = head;
					for (int i = 0; i < n; ++i)
						t += char('0' + (7 * i + 3) % 10);
					if (n == 0)
						t += "0";
					t += e;
					const double want = std::strtod(t.c_str(), 0);
					W wr(c, "a=" + t + "\nV 2 " + t + " -3\nC 1 (" + t + ",1)\nM 1 1 " + t + "\n");
					R io(wr);
					double x = 0;
					io.readline(x, "a=");
					mc::eq(x, want, t);
					std::vector<double> v;
					io.read(v, "V");
					mc::check(v.size() == 2 && v[0] == want && v[1] == -3, t + " in a vector");
					std::vector<Z> z;
					io.read(z, "C");
					mc::check(z.size() == 1 && z[0] == Z(want, 1), t + " in a complex vector");
					Matrix<double> m;
					io.read(m, "M");
					mc::check(m.rows() == 1 && m.cols() == 1 && m(0, 0) == want, t + " in a matrix");
				}
	});
	for (int r = 1; r <= 4; ++r)
		for (int k = 1; k <= 4; ++k)
			if (r * k <= 12)
				mc::run("matrices of zeros and ones " + std::to_string(r) + "x" + std::to_string(k), [&] {
					Check c;
					for (int bits = 0; bits < (1 << (r * k)); ++bits) {
						std::string t = "M " + std::to_string(r) + " " + std::to_string(k), z = "Mz " + std::to_string(r) + " " + std::to_string(k);
						for (int i = 0; i < r * k; ++i) {
							t += bits >> i & 1 ? " 1" : " 0";
							z += bits >> i & 1 ? " (1,-1)" : " 0";
						}
						W wr(c, t + "\n" + z + "\n");
						R io(wr);
						Matrix<double> m;
						Matrix<Z> mz;
						io.read(m, "M");
						io.read(mz, "Mz");
						mc::check((int)m.rows() == r && (int)m.cols() == k && (int)mz.rows() == r && (int)mz.cols() == k, "shape");
						for (int i = 0; i < r * k; ++i) {
							const bool one = bits >> i & 1;
							mc::check(m(i / k, i % k) == one && mz(i / k, i % k) == (one ? Z(1, -1) : Z(0, 0)), "entry of matrix " + std::to_string(bits));
						}
					}
				});
	// maps: every set of entries of maps whose names begin alike
	const std::vector<std::pair<std::string, std::string>> e { { "D", "k" }, { "D", "kk" }, { "D2", "k" }, { "Db", "q" }, { "D", "k2" }, { "xD", "q" }, { "DD", "k" } };
	mc::run("maps", [&] {
		Check c;
		for (int set = 0; set < (1 << (int)e.size()); ++set) {
			std::string t = "D=7\n";
			std::map<std::string, std::map<std::string, double>> want;
			for (size_t i = 0; i < e.size(); ++i)
				if (set >> i & 1) {
					t += e[i].first + "[" + e[i].second + "]=" + std::to_string(i) + ".5\n";
					want[e[i].first][e[i].second] = i + 0.5;
				}
			W wr(c, t);
			for (const char* n : { "D", "D2", "Db", "xD", "DD", "E" }) {
				R io(wr);
				std::map<std::string, double> got;
				io.read(got, n);
				mc::check(got == want[n], std::string("entries of the map ") + n + " in " + mc::jsonEsc(t));
			}
		}
	});
	// a file that ends where numbers are expected
	for (const char* end : { "", " ", "\n", "#", " # c", "\n\n" })
		mc::run(std::string("unfinished vector ") + mc::jsonEsc(end), [&] {
			Check c;
			for (const char* t : { "V 3", "V 1", "V 2 7", "V 3\n1 2", "a=1\nV 3 # 1 2 3", "V 1 2 3" })
				mc::mustThrow([&] {
					W wr(c, std::string(t) + end); // refused when it is taken in, whether read or not
				},
				              t);
			W wr(c, std::string("V 3 1 2 3") + end);
			R io(wr);
			std::vector<double> v;
			io.read(v, "V");
			mc::eq(v, std::vector<double> { 1, 2, 3 }, "finished vector");
		});
}
// long vectors, larger matrices, many statements
static void larger()
{
	for (int n : { 6, 9, 10, 11, 16, 33, 64, 100, 128, 300 })
		mc::run("larger vectors of " + std::to_string(n), [&] {
			Check c;
			for (int wrap : { 1, 2, 7, 10, 1000 })
				for (int com = 0; com < 3; ++com)
					for (int off = -1; off <= 1; ++off) {
						std::string t = com == 2 ? "# W 3 1 2 3\nV\t" : "V ";
						t += std::to_string(n) + (com ? " # 1 2\n" : "\n");
						std::vector<double> want;
						std::vector<Z> zw;
						std::string zt = "C " + std::to_string(n) + "\n";
						for (int i = 0; i < n + off; ++i) {
							const double x = (i - 3) * 0.25, y = i % 5 - 2;
							char b[60];
							snprintf(b, sizeof b, "%.17g", x);
							t += b;
							want.push_back(x);
							zw.push_back(Z(x, i % 2 ? y : 0));
							snprintf(b, sizeof b, i % 2 ? "(%.17g,%.17g)" : "%.17g", x, y);
							zt += b;
							const std::string sep = i % wrap == wrap - 1 ? (com == 1 ? " #" + std::to_string(i) + "\n" : "\n") : (i % 3 ? " " : "  ");
							t += sep, zt += sep;
						}
						Check ck;
						std::vector<double> v(3);
						std::vector<Z> z(2);
						int a = 0, b = 0;
						auto get = [&] {
							W w(c, "a=11\n" + t + "\nb=12\n");
							R io(w);
							io.readline(b, "b=");
							io.read(v, "V");
							io.readline(a, "a=");
						};
						auto zet = [&] {
							W w(c, "a=11\n" + zt + "\nb=12\n");
							R io(w);
							io.read(z, "C");
						};
						if (off) {
							mc::mustThrow(get, "wrong count");
							mc::mustThrow(zet, "wrong count of complex");
							continue;
						}
						get(), zet();
						mc::check(v == want && z == zw && a == 11 && b == 12, "long vector");
					}
			mc::fold((uint64_t)n);
		});
	for (int r : { 4, 10, 20, 37 })
		for (int k : { 1, 5, 12, 30 })
			mc::run("larger matrix " + std::to_string(r) + "x" + std::to_string(k), [&] {
				Check c;
				std::string t = "M " + std::to_string(r) + " " + std::to_string(k) + "\n";
				for (int i = 0; i < r; ++i) {
					for (int j = 0; j < k; ++j)
						t += std::to_string(i * 100 - j) + ".5" + (j % 4 == 3 ? "\n" : " ");
					t += i % 2 ? "# row\n" : "\n";
				}
				W w(c, t + "x=1\n");
				R io(w);
				Matrix<double> m;
				Matrix<Z> z;
				io.read(m, "M");
				R io2(w);
				io2.read(z, "M");
				mc::check((int)m.rows() == r && (int)m.cols() == k && (int)z.rows() == r && (int)z.cols() == k, "shape");
				for (int i = 0; i < r; ++i)
					for (int j = 0; j < k; ++j) {
						const double x = std::strtod((std::to_string(i * 100 - j) + ".5").c_str(), 0);
						mc::check(m(i, j) == x && z(i, j) == Z(x, 0), "entry");
					}
				mc::fold((uint64_t)(100 * r + k));
			});
	for (int n : { 9, 10, 11, 26, 100, 400 })
		for (int dup : { 1, 2, 5 })
			mc::run("many labels " + std::to_string(n) + " x " + std::to_string(dup), [&] {
				Check c;
				std::string t;
				auto name = [](int i) { return std::string(1 + i % 40, char('a' + i % 26)) + "_" + std::to_string(i); };
				for (int d = 0; d < dup; ++d)
					for (int i = 0; i < n; ++i) {
						if (i % 3 == 0)
							t += name(i) + "=" + std::to_string(i * 7 + d) + "\n";
						else if (i % 3 == 1)
							t += name(i) + "=text" + std::to_string(i) + "." + std::to_string(d) + (i % 2 ? " # end\n" : "\n");
						else
							t += name(i) + " 3 " + std::to_string(i) + " " + std::to_string(d) + " -1\n";
					}
				W w(c, t);
				R io(w);
				for (int d = 0; d < dup + 1; ++d)
					for (int q = 0; q < n; ++q) {
						const int i = d % 2 ? n - 1 - q : q, e = std::min(d, dup - 1);
						if (i % 3 == 0) {
							long x = -1;
							io.readline(x, name(i) + "=");
							mc::eq(x, long(i * 7 + e), "number of " + name(i));
						} else if (i % 3 == 1) {
							std::string x;
							io.readline(x, name(i) + "=");
							mc::eq(x, "text" + std::to_string(i) + "." + std::to_string(e), "text of " + name(i));
						} else {
							std::vector<int> v;
							io.read(v, name(i));
							mc::eq(v, std::vector<int> { i, e, -1 }, "vector of " + name(i));
						}
					}
				mc::fold((uint64_t)(n * 10 + dup));
			});
}
void mc::explore()
{
	values();
	larger();
	files();
	limits();
	shapes();
	words::explore("number", words::chars("07.+-ex,"), mc::thorough() ? 5 : 4, number);
	words::explore("complex literal", words::chars("(1-.,)"), mc::thorough() ? 7 : 6, zliteral);
	atEnd();
}
