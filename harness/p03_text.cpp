// P03: the labelled plain-text format (Io/IoSimple.h).
// (1) every value of the value tables, written and read back by label;
// (2) every file of up to N records x every history of reader calls to a depth,
//     compared with a list of records and a position.
#include "Io/IoSimple.h"
#include "LineMarker.h"
#include "Stack.h"
#include "mc.h"
#include <functional>
#include <unistd.h>
using namespace PsimagLite;
typedef std::complex<double> Z;
typedef IoSimple::In In;
typedef IoSimple::Out Out;
template <typename T> struct V_ { typedef typename PsimagLite::Vector<T>::Type Type; };

static std::string scratch()
{
	static std::string s;
	if (s.empty()) {
		const char* shm = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
		s = std::string(shm) + "/p03_" + std::to_string(getpid()) + ".txt";
	}
	return s;
}
static void atEnd() { ::unlink(scratch().c_str()); }

// ------------------------------------------------------------------ values
template <typename T> bool same(const T& a, const T& b) { return a == b; }
template <typename T> bool same(const Matrix<T>& a, const Matrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols())
		return false;
	for (size_t i = 0; i < a.rows(); ++i)
		for (size_t j = 0; j < a.cols(); ++j)
			if (!(a(i, j) == b(i, j)))
				return false;
	return true;
}
// what a target holds before the read: another value; a matrix refuses to change
// its shape unless it is empty
template <typename T> T target(const T& other) { return other; }
template <typename T> Matrix<T> target(const Matrix<T>&) { return Matrix<T>(); }
template <typename T> void scalarRound(const std::string& w, const std::vector<T>& vals)
{
	for (size_t i = 0; i < vals.size(); ++i)
		for (size_t j = 0; j < vals.size(); ++j)
			mc::run("scalar " + w + " " + std::to_string(i) + "," + std::to_string(j), [&] {
				{
					Out o(scratch());
					o.setPrecision(17);
					o.write(vals[i], "First");
					o.write(vals[j], "Second");
				}
				T x = vals[j], y = vals[i];
				In in(scratch());
				in.readline(x, "First=");
				in.readline(y, "Second=");
				mc::check(same(x, vals[i]) && same(y, vals[j]), "scalars not read back");
				mc::fold((uint64_t)i), mc::fold((uint64_t)j);
				in.rewind();
				in.readline(y, "Second=");
				in.rewind();
				in.readline(x, "First=", In::LAST_INSTANCE);
				mc::check(same(x, vals[i]) && same(y, vals[j]), "scalars not read back in the opposite order");
			});
}
// i is written under First, j under Second; targets hold the other value beforehand
template <typename T> void blockRound(const std::string& w, const std::vector<T>& vals)
{
	for (size_t i = 0; i < vals.size(); ++i)
		for (size_t j = 0; j < vals.size(); ++j)
			mc::run("block " + w + " " + std::to_string(i) + "," + std::to_string(j), [&] {
				{
					Out o(scratch());
					o.setPrecision(17);
					o.write(vals[i], "First");
					o.write(7, "Between");
					o.write(vals[j], "Second");
					o.write(8, "After");
				}
				mc::fold((uint64_t)i), mc::fold((uint64_t)j);
				for (int lev = 0; lev < 2; ++lev) {
					In::LongIntegerType l = lev ? In::LAST_INSTANCE : In::ONLY_INSTANCE;
					T x(target(vals[j])), y(target(vals[i]));
					int a = 0;
					In in(scratch());
					in.read(x, "First", l);
					in.readline(a, "Between=");
					mc::check(a == 7, "the record after was consumed");
					in.read(y, "Second", l);
					in.readline(a, "After=");
					mc::check(a == 8, "the record after was consumed");
					mc::check(same(x, vals[i]), "first value not read back");
					mc::check(same(y, vals[j]), "second value not read back");
					in.rewind();
					y = target(vals[i]), x = target(vals[j]);
					in.read(y, "Second", l);
					in.rewind();
					in.read(x, "First", l);
					mc::check(same(x, vals[i]) && same(y, vals[j]), "not read back in the opposite order");
				}
				// close, open again, and a second file through the same object
				T x(target(vals[j]));
				In in(scratch());
				mc::mustThrow([&] { in.read(x, "Absent"); }, "missing label");
				in.close();
				in.open(scratch());
				in.read(x, "First");
				mc::check(same(x, vals[i]), "not read back after close and open");
			});
}
template <typename T> typename V_<T>::Type vec(std::initializer_list<T> l) { return typename V_<T>::Type(l.begin(), l.end()); }
template <typename T> std::vector<typename V_<T>::Type> vecs(const std::vector<T>& v, size_t maxlen)
{ // all vectors up to maxlen over the table
	std::vector<typename V_<T>::Type> out { typename V_<T>::Type() };
	for (size_t b = 0, len = 1; len <= maxlen; ++len) {
		size_t e = out.size();
		for (; b < e; ++b)
			for (T x : v) {
				auto w = out[b];
				w.push_back(x);
				out.push_back(w);
			}
	}
	return out;
}
template <typename T> std::vector<Matrix<T>> mats(const std::vector<T>& v)
{
	std::vector<Matrix<T>> out;
	for (int r = 0; r <= 3; ++r)
		for (int c = 0; c <= 3; ++c)
			for (size_t k = 0; k < v.size(); ++k) {
				Matrix<T> m(r, c);
				for (int i = 0; i < r; ++i)
					for (int j = 0; j < c; ++j)
						m(i, j) = v[(k + 2 * i + j) % v.size()];
				out.push_back(m);
				if (r * c == 0)
					break;
			}
	return out;
}
enum Kind { KIND_A, KIND_B, KIND_C };
static std::istream& operator>>(std::istream& is, Kind& k)
{
	int i = 0;
	is >> i;
	k = Kind(i);
	return is;
}
template <typename S> std::vector<S> stacks(const std::vector<typename S::value_type>& v, size_t maxlen)
{
	std::vector<S> out;
	for (auto& w : vecs(v, maxlen)) {
		S s;
		for (auto& x : w)
			s.push(x);
		out.push_back(s);
	}
	return out;
}
static void values()
{
	const std::vector<int> ints { 0, -1, 7, 2147483647, -2147483647 - 1 };
	const std::vector<double> dbls { 0, 1, -2.5, 0.1, 1e-300, 1.7976931348623157e308, 1.0 / 3, -123456789.125 };
	const std::vector<Z> cplx { { 0, 0 }, { 1, 0 }, { 0, -1 }, { 0.1, 1.0 / 3 }, { -1e-20, 1e20 } };
	scalarRound<int>("int", ints);
	scalarRound<long>("long", { 0, -1, 9223372036854775807L });
	scalarRound<size_t>("size_t", { 0, 1, ~(size_t)0 });
	scalarRound<unsigned>("unsigned", { 0, 1, ~0u });
	scalarRound<bool>("bool", { false, true });
	scalarRound<double>("double", dbls);
	scalarRound<Z>("complex", cplx);
	scalarRound<Kind>("enum", { KIND_A, KIND_B, KIND_C });
	const size_t L = mc::thorough() ? 3 : 2;
	blockRound("vector<int>", vecs<int>({ 0, -1, 2147483647 }, L));
	blockRound("vector<size_t>", vecs<size_t>({ 0, 5, ~(size_t)0 }, L));
	blockRound("vector<bool>", vecs<bool>({ false, true }, L));
	blockRound("vector<double>", vecs<double>({ 0, 0.1, -1.0 / 3, 1e-300 }, 2));
	blockRound("vector<complex>", vecs<Z>({ { 0, 0 }, { 0.1, -1 }, { -1e-20, 1e20 } }, L));
	blockRound("vector<string>", vecs<String>({ "a", "two", "=3" }, L));
	typedef V_<double>::Type VD;
	typedef std::pair<SizeType, SizeType> P;
	blockRound<V_<P>::Type>("vector<pair>", vecs<P>({ P(0, 0), P(1, 2), P(~0u, 3) }, L));
	blockRound<V_<VD>::Type>("vector<vector>", vecs<VD>({ {}, { 1.5 }, { 0.1, -2 } }, L));
	blockRound("matrix<int>", mats<int>({ 0, -1, 5 }));
	blockRound("matrix<double>", mats<double>({ 0, 0.1, -1.0 / 3 }));
	blockRound("matrix<complex>", mats<Z>({ { 0, 0 }, { 0.1, -1 }, { 3, 1.0 / 3 } }));
	blockRound("stack<int>", stacks<PsimagLite::Stack<int>::Type>({ 0, -1, 5 }, L));
	blockRound("stack<double>", stacks<PsimagLite::Stack<double>::Type>({ 0.1, -2 }, L));
	blockRound("stack<vector<int>>", stacks<PsimagLite::Stack<V_<int>::Type>::Type>({ {}, { 1 }, { 2, 3 } }, 2));
}

// lines of text: nothing more and nothing less than what was printed
static void lines()
{
	const char* t[] = { "", "a", "two words", "#long line with = signs and numbers 1 2 3" };
	const int depth = mc::thorough() ? 4 : 3;
	std::vector<int> h;
	std::function<void()> rec = [&] {
		if (!h.empty()) {
			std::string k = "lines";
			for (int x : h)
				k += " " + std::to_string(x);
			mc::run(k, [&] {
				std::string want;
				{
					Out o(scratch());
					OstringStream msg(6);
					for (int x : h) {
						if (x < 4)
							o.printline(String(t[x]));
						else if (x < 8) {
							msg() << t[x - 4];
							o.printline(msg);
						} else
							LineMarker("#M").save(o);
						want += std::string(x < 8 ? t[x % 4] : "#M=0") + "\n";
					}
				}
				mc::eq(mc::slurp(scratch()), want, "text of the file");
				int nm = 0;
				for (int x : h)
					nm += x == 8;
				In in(scratch());
				mc::eq((int)in.count("#M=0"), nm, "markers counted");
				for (int i = 0; i < 3; ++i) {
					in.rewind();
					mc::check(mc::throws([&] { LineMarker m(in, "#M", i); }) == (i >= nm), "marker found iff it is there");
				}
			});
		}
		if ((int)h.size() == depth)
			return;
		for (int x = 0; x < 9; ++x) {
			h.push_back(x);
			rec();
			h.pop_back();
		}
	};
	rec();
}

// --------------------------------------------------------- reader histories
// record kinds: 0 int, 1 double, 2 vector, 3 matrix, 4 vector; 5 is a label that is not there
// (some end in, contain, or differ only in case from others; none begins another)
static const char* label[] = { "Alpha", "TheAlpha", "VecG", "MatVecG", "VECG", "oTheAlphaMatVecGo" };
struct Rec {
	int kind, val;
};
static V_<double>::Type vecOf(int val)
{
	V_<double>::Type v;
	for (int i = 0; i < val % 3; ++i)
		v.push_back(val + 0.5 * i);
	return v;
}
static Matrix<double> matOf(int val)
{
	Matrix<double> m(val % 3, 2);
	for (size_t i = 0; i < m.rows(); ++i)
		for (size_t j = 0; j < 2; ++j)
			m(i, j) = val + i + 0.25 * j;
	return m;
}
static void histories(const std::vector<int>& kinds, int depth)
{
	std::string fkey = "file";
	std::vector<Rec> file;
	for (size_t i = 0; i < kinds.size(); ++i) {
		fkey += std::string(" ") + label[kinds[i]];
		file.push_back({ kinds[i], (int)(3 * kinds[i] + 11 * i + 4) });
	}
	// operations: rewind; for each label and level (0,1,2,LAST): read; count; advance to a level
	struct Op {
		int what, kind, level;
	};
	std::vector<Op> ops { { 0, 0, 0 } };
	for (int k = 0; k < 6; ++k) {
		if (k != 5 && std::find(kinds.begin(), kinds.end(), k) == kinds.end())
			continue;
		for (int l : { 0, 1, 2, -1 })
			ops.push_back({ 1, k, l });
		ops.push_back({ 2, k, 0 });
		ops.push_back({ 3, k, 0 });
		ops.push_back({ 3, k, 1 });
		ops.push_back({ 3, k, -1 });
	}
	const int N = file.size();
	mc::run(fkey + " depth " + std::to_string(depth), [&] {
		{
			Out o(scratch());
			o.setPrecision(17);
			for (auto& r : file) {
				if (r.kind == 0)
					o.write(r.val, label[0]);
				else if (r.kind == 1)
					o.write(r.val + 0.1, label[1]);
				else if (r.kind == 3)
					o.write(matOf(r.val), label[3]);
				else
					o.write(vecOf(r.val), label[r.kind]);
			}
		}
		std::vector<size_t> h(depth, 0);
		while (true) {
			In in(scratch());
			int pos = 0; // next record; -1: past the end, -2: just before the instance `next` of a label
			int next = -1;
			std::string hist;
			for (int d = 0; d < depth; ++d) {
				const Op& op = ops[h[d]];
				const int k = op.kind;
				auto name = [&](const char* what) {
					return std::string(what) + " after" + hist;
				};
				// the record the model says this call finds
				int found = -1, total = 0;
				for (int i = 0; i < N; ++i)
					total += file[i].kind == k;
				if (op.what == 1 || op.what == 3) {
					if (op.level == -1) {
						for (int i = 0; i < N; ++i)
							if (file[i].kind == k)
								found = i;
					} else if (pos >= 0) {
						int c = 0;
						for (int i = pos; i < N; ++i)
							if (file[i].kind == k && c++ == op.level) {
								found = i;
								break;
							}
					} else if (pos == -2 && file[next].kind == k && op.level == 0)
						found = next;
				}
				static const char* wn[] = { "rewind", "read", "count", "advance" };
				hist += std::string(" ") + wn[op.what] + (op.what ? " " + std::string(label[k]) + "@" + std::to_string(op.level) : "");
				if (op.what == 0) {
					in.rewind();
					pos = 0;
				} else if (op.what == 2) {
					// counts from here on, and rewinds
					int c = 0;
					if (pos == -2)
						in.rewind(), pos = 0;
					if (pos >= 0)
						for (int i = pos; i < N; ++i)
							c += file[i].kind == k;
					mc::eq((int)in.count(label[k]), c, name("count"));
					pos = 0;
				} else if (op.what == 3) {
					if (pos == -2 && op.level != -1)
						break; // leaves the model's domain
					std::pair<String, SizeType> r;
					bool t = mc::throws([&] { r = in.advance(label[k], op.level, true); });
					mc::check(t == (found < 0), name("advance found or not"));
					if (t) {
						pos = -1;
					} else {
						mc::check(r.first.substr(0, strlen(label[k])) == label[k], name("label returned"));
						if (op.level == -1) {
							mc::eq((int)r.second, total, name("instances counted"));
							pos = -2;
							next = found;
						} else {
							mc::eq((int)r.second, op.level, name("level returned"));
							pos = found + 1;
						}
					}
				} else {
					if (pos == -2 && found < 0)
						break; // leaves the model's domain
					V_<double>::Type v(2, -7.5);
					Matrix<double> m;
					double x = -3;
					int n = -4;
					SizeType lv = 0;
					std::pair<String, SizeType> r("", 0);
					bool t = mc::throws([&] {
						if (k == 0 || k == 5)
							lv = in.readline(n, std::string(label[k]) + "=", op.level);
						else if (k == 1)
							lv = in.readline(x, std::string(label[1]) + "=", op.level);
						else if (k == 3)
							in.read(m, label[3], op.level);
						else
							r = in.read(v, label[k], op.level, true);
					});
					mc::check(t == (found < 0), name(t ? "present label not found" : "absent label accepted"));
					if (t) {
						pos = -1;
					} else {
						int val = file[found].val;
						bool ok = k == 0 ? n == val : k == 1 ? x == val + 0.1
						    : k == 3                             ? same(m, matOf(val))
						                                         : v == vecOf(val);
						mc::check(ok, name("wrong value"));
						(void)lv;
						pos = found + 1;
					}
				}
				mc::fold((uint64_t)(pos + 10)), mc::fold((uint64_t)(found + 3));
				++mc::g().transitions;
			}
			++mc::g().schedules;
			mc::tick();
			int d = depth - 1;
			while (d >= 0 && ++h[d] == ops.size())
				h[d--] = 0;
			if (d < 0)
				break;
		}
		mc::addExtra("reader histories", (uint64_t)std::pow(ops.size(), depth));
	});
}
static void reader()
{
	const int maxN = mc::thorough() ? 5 : 4;
	std::vector<int> kinds;
	std::function<void()> rec = [&] {
		int n = kinds.size();
		histories(kinds, n <= 3 || mc::thorough() ? 3 : 2);
		if (n <= 2 && mc::thorough())
			histories(kinds, 4);
		if (n == maxN)
			return;
		for (int k = 0; k < 5; ++k) {
			kinds.push_back(k);
			rec();
			kinds.pop_back();
		}
	};
	rec();
}
// ------------------------------------------------------------ larger values
template <typename T> void largerVec(const std::string& w, std::function<T(size_t)> f)
{
	for (size_t n : { 5, 9, 10, 11, 16, 31, 33, 100, 257, 1000 }) {
		std::vector<typename V_<T>::Type> v(1);
		for (size_t i = 0; i < n; ++i)
			v[0].push_back(f(i));
		v.push_back(typename V_<T>::Type(1, f(n)));
		blockRound("larger " + w + " " + std::to_string(n), v);
	}
}
static void larger()
{
	largerVec<int>("vector<int>", [](size_t i) { return (int)(i * 7919 * 7919) - 12345; });
	largerVec<double>("vector<double>", [](size_t i) { return std::ldexp(1.0 / (i + 3), (int)(i % 61) * 7 - 200); });
	largerVec<Z>("vector<complex>", [](size_t i) { return Z(1.0 / (i + 1), -(double)i / 7); });
	largerVec<bool>("vector<bool>", [](size_t i) { return i * i % 7 < 3; });
	largerVec<String>("vector<string>", [](size_t i) { return String(1 + i % 90, 'a' + i % 26) + ttos(i); });
	const int sh[][2] = { { 1, 40 }, { 40, 1 }, { 13, 40 }, { 40, 13 }, { 100, 100 }, { 4, 12 }, { 12, 4 } };
	for (auto& d : sh) {
		std::vector<Matrix<double>> m { Matrix<double>(d[0], d[1]), Matrix<double>(d[1], d[0]) };
		std::vector<Matrix<Z>> z { Matrix<Z>(d[0], d[1]), Matrix<Z>(d[1], d[0]) };
		for (int q = 0; q < 2; ++q)
			for (size_t i = 0; i < m[q].rows(); ++i)
				for (size_t j = 0; j < m[q].cols(); ++j) {
					m[q](i, j) = (double(i * 101) - double(j)) / 3;
					z[q](i, j) = Z(1.0 / (1 + i + 7 * j), q ? -(double)j : i);
				}
		std::string n = std::to_string(d[0]) + "x" + std::to_string(d[1]);
		blockRound("larger matrix<double> " + n, m);
		blockRound("larger matrix<complex> " + n, z);
	}
	// every instance of a label that occurs N times, among other records
	for (int N : { 9, 10, 11, 12, 40, 101 })
		mc::run("instances " + std::to_string(N), [&] {
			{
				Out o(scratch());
				o.setPrecision(17);
				for (int i = 0; i < N; ++i) {
					o.write(i * 3 + 1, "Num");
					if (i % 3 == 0)
						o.printline(String("some text Num between"));
					V_<double>::Type v(i % 5, i + 0.5);
					o.write(v, "Vec");
					Matrix<double> m(1 + i % 3, 2);
					m(0, 1) = i;
					o.write(m, "Mat");
				}
			}
			In in(scratch());
			mc::eq((int)in.count("Vec"), N, "count");
			for (int i = 0; i < N; ++i) {
				int x = -1;
				in.rewind();
				in.readline(x, "Num=", i);
				mc::eq(x, i * 3 + 1, "number at level " + std::to_string(i));
				V_<double>::Type v;
				in.rewind();
				in.read(v, "Vec", i);
				mc::check(v == V_<double>::Type(i % 5, i + 0.5), "vector at level " + std::to_string(i));
				Matrix<double> m;
				in.rewind();
				in.read(m, "Mat", i);
				mc::check((int)m.rows() == 1 + i % 3 && m(0, 1) == i, "matrix at level " + std::to_string(i));
			}
			in.rewind();
			for (int i = 0; i < N; ++i) {
				int x = -1;
				in.readline(x, "Num=");
				Matrix<double> m;
				in.read(m, "Mat");
				mc::check(x == i * 3 + 1 && m(0, 1) == i, "in sequence");
			}
			int x = -1;
			mc::mustThrow([&] { in.readline(x, "Num="); }, "past the last");
			in.rewind();
			in.readline(x, "Num=", In::LAST_INSTANCE);
			mc::eq(x, N * 3 - 2, "last number");
			in.rewind();
			mc::mustThrow([&] { in.readline(x, "Num=", N); }, "level past the last");
			mc::fold((uint64_t)N);
		});
}
// digits, and files opened again to be replaced or added to
static void modes()
{
	for (int by = 0; by < 2; ++by)
		for (int p = 1; p <= 20; ++p)
			mc::run("precision " + std::to_string(p) + (by ? " returned" : ""), [&] {
				const double x[] = { 1.0 / 3, -2e10 / 7, 5e-7 / 9, 4, 0.1 };
				std::ostringstream want;
				want.precision(p);
				{
					Out o(scratch());
					if (by)
						mc::eq((int)o.precision(p), p, "precision");
					else
						o.setPrecision(p);
					for (double v : x) {
						o.write(v, "A");
						o.write(V_<double>::Type(1, v), "B");
						want << "A=" << v << "\nB\n1\n" << v << "\n\n";
					}
				}
				std::ifstream f(scratch());
				std::string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
				std::string a, b; // blanks are free
				for (char c : got)
					a += c == ' ' || c == '\n' ? '|' : c;
				for (char c : want.str())
					b += c == ' ' || c == '\n' ? '|' : c;
				auto squeeze = [](std::string& s) { s.erase(std::unique(s.begin(), s.end(), [](char q, char r) { return q == '|' && r == '|'; }), s.end()); };
				squeeze(a), squeeze(b);
				mc::eq(a, b, "digits written");
				mc::fold(a);
			});
	const int D = mc::thorough() ? 7 : 5;
	int total = 1;
	for (int i = 0; i < D; ++i)
		total *= 5;
	for (int h = 0; h < total; ++h)
		mc::run("open modes, history " + std::to_string(h), [&] {
			remove(scratch().c_str());
			const String second = scratch() + ".2";
			remove(second.c_str());
			std::string want[2];
			{
				Out o(scratch());
				bool opened = true;
				int file = 0, x = h;
				for (int i = 0; i < D; ++i, x /= 5) {
					const int op = x % 5;
					if (op == 0) {
						if (!opened)
							continue;
						o.write(i, "Num");
						o.printline(String("line ") + ttos(i));
						want[file] += "Num=" + std::to_string(i) + "\nline " + std::to_string(i) + "\n";
						continue;
					}
					if (opened)
						o.close();
					opened = op != 4;
					if (op == 4)
						continue;
					file = op == 3;
					o.open(file ? second : scratch(), op == 1 ? std::ios_base::out : std::ios_base::app);
					mc::check(o.filename() == (file ? second : scratch()), "name of the file");
					if (op == 1)
						want[file].clear();
				}
			}
			for (int k = 0; k < 2; ++k) {
				std::ifstream f(k ? second : scratch());
				std::string got((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
				mc::eq(got, want[k], "contents of file " + std::to_string(k));
				mc::fold(got);
			}
			remove(second.c_str());
		});
}
void mc::explore()
{
	modes();
	larger();
	values();
	lines();
	reader();
	atEnd();
}
