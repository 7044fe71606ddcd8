// P01: every history of HDF5 store operations against a map model.
#include <set>
#include "mc.h"
#include "CrsMatrix.h"
#include "Io/IoNg.h"
#include "Matrix.h"
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <stack>

using namespace PsimagLite;
typedef IoNgSerializer Ser;
typedef std::complex<double> C;
typedef std::vector<double> VD;
typedef std::vector<C> VC;
enum PlainEnum { PE_A, PE_B, PE_C = 200, PE_D = 1000, PE_E = 70000 };
enum class EC { A, B, C = 3, BIG = 300 };

// a class that is written by delegation, used for stacks and vectors of classes
struct Item {
	int i;
	VD v;
	Item(int i_ = 0, VD v_ = VD())
	    : i(i_)
	    , v(v_)
	{
	}
	bool operator==(const Item& o) const { return i == o.i && v == o.v; }
	void write(String label, Ser& s, Ser::WriteMode m = Ser::NO_OVERWRITE) const
	{
		if (m != Ser::ALLOW_OVERWRITE || !s.doesGroupExist(label))
			s.createGroup(label);
		s.write(label + "/i", i, m);
		s.write(label + "/v", v, m);
	}
	void overwrite(String label, Ser& s) const { write(label, s, Ser::ALLOW_OVERWRITE); }
	void read(String label, Ser& s)
	{
		s.read(i, label + "/i");
		s.read(v, label + "/v");
	}
};

template <typename T> bool same(const T& a, const T& b) { return a == b; }
template <typename T> bool same(const CrsMatrix<T>& a, const CrsMatrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols())
		return false;
	return a.rows() == 0 || a == b;
}
template <typename T> bool same(std::stack<T> a, std::stack<T> b)
{
	if (a.size() != b.size())
		return false;
	while (a.size()) {
		if (!(a.top() == b.top()))
			return false;
		a.pop();
		b.pop();
	}
	return true;
}

struct Value {
	std::string name;
	std::string kind;
	bool canOverwrite;
	std::function<void(IoNg::Out&, String, bool)> write;
	std::function<void(Ser&, String)> check; // fails unless the value is read back
	std::function<void(Ser&, String)> tryRead; // reads as this type, whatever is there
	std::function<void(Ser&, String)> extra;
};
typedef std::shared_ptr<Value> VP;

template <typename T> struct WriteIt {
	static void f(IoNg::Out& o, const T& v, String l, bool ow)
	{
		if (ow)
			o.write(v, l, Ser::ALLOW_OVERWRITE);
		else
			o.write(v, l);
	}
};
template <typename T> struct WriteIt<std::stack<T>> {
	static void f(IoNg::Out& o, std::stack<T> v, String l, bool ow)
	{
		o.serializer().write(l, v, ow ? Ser::ALLOW_OVERWRITE : Ser::NO_OVERWRITE);
	}
};
template <typename T> struct ReadIt {
	static void f(Ser& s, T& v, String l) { s.read(v, l); }
};
template <typename T> struct ReadIt<Matrix<T>> {
	static void f(Ser& s, Matrix<T>& v, String l) { v.read(l, s); }
};
template <typename T> struct ReadIt<CrsMatrix<T>> {
	static void f(Ser& s, CrsMatrix<T>& v, String l) { v.read(l, s); }
};
template <> struct ReadIt<Item> {
	static void f(Ser& s, Item& v, String l) { v.read(l, s); }
};

template <typename T> VP mk(std::string kind, std::string name, T v, std::vector<T> dirty, bool canOverwrite = true)
{
	VP p(new Value);
	p->kind = kind;
	p->name = kind + ":" + name;
	p->canOverwrite = canOverwrite;
	p->write = [v](IoNg::Out& o, String l, bool ow) { WriteIt<T>::f(o, v, l, ow); };
	std::string n = p->name;
	p->check = [v, dirty, n](Ser& s, String l) {
		for (const T& d : dirty) {
			T x = d;
			try {
				ReadIt<T>::f(s, x, l);
			} catch (mc::Violation&) {
				throw;
			} catch (std::exception& e) {
				mc::fail("reading " + l + " (last written: " + n + ") is refused: " + e.what());
			} catch (H5::Exception& e) {
				mc::fail("reading " + l + " (last written: " + n + ") is refused: " + e.getDetailMsg());
			}
			mc::check(same(x, v), "reading " + l + " gives another value than the last one written, " + n);
		}
	};
	T d0 = dirty.back();
	p->tryRead = [d0](Ser& s, String l) {
		T x = d0;
		ReadIt<T>::f(s, x, l);
	};
	return p;
}

static std::vector<VP> g_all; // every type, several values
static std::vector<VP> g_hist; // the ones used in histories

template <typename T> std::vector<T> L(std::initializer_list<T> x) { return std::vector<T>(x); }

template <typename T> Matrix<T> mat(int r, int c, int s)
{
	Matrix<T> m(r, c);
	for (int i = 0; i < r; ++i)
		for (int j = 0; j < c; ++j)
			m(i, j) = (T)(s + 3 * i - 2 * j) * T(0.5);
	return m;
}
template <> Matrix<C> mat<C>(int r, int c, int s)
{
	Matrix<C> m(r, c);
	for (int i = 0; i < r; ++i)
		for (int j = 0; j < c; ++j)
			m(i, j) = C(s + i, j - s);
	return m;
}
template <typename T> CrsMatrix<T> crs(int r, int c, int s)
{
	Matrix<T> m = mat<T>(r, c, s);
	for (int i = 0; i < r; ++i)
		for (int j = 0; j < c; ++j)
			if ((i * 5 + j * 3 + s) % 3 == 0)
				m(i, j) = 0;
	return CrsMatrix<T>(m);
}
template <typename T> void scalars(std::string kind, std::initializer_list<T> vals)
{
	for (T v : vals) {
		std::ostringstream o;
		o << +v;
		g_all.push_back(mk<T>(kind, o.str(), v, { (T)0, (T)7 }));
	}
}
template <typename T> void vectors(std::string kind, std::vector<T> pool)
{
	std::vector<std::vector<T>> dirty { {}, std::vector<T>(1, pool[0]), std::vector<T>(9, pool[pool.size() - 1]) };
	for (int n : { 0, 1, 2, 3, 8, 17 }) {
		std::vector<T> v;
		for (int i = 0; i < n; ++i)
			v.push_back(pool[(i * 7 + n) % pool.size()]);
		g_all.push_back(mk<std::vector<T>>(kind, mc::str(n), v, dirty));
	}
}

static void build()
{
	scalars<int>("int", { 0, 1, -1, INT32_MAX, INT32_MIN });
	scalars<unsigned>("unsigned", { 0u, 1u, UINT32_MAX });
	scalars<long>("long", { 0l, -1l, INT64_MAX, INT64_MIN });
	scalars<unsigned long>("ulong", { 0ul, UINT64_MAX, 1ul << 40 });
	scalars<short>("short", { (short)0, (short)-1, (short)32767 });
	scalars<unsigned short>("ushort", { (unsigned short)0, (unsigned short)65535 });
	scalars<char>("char", { 'a', '\0', (char)-128, (char)127 });
	scalars<unsigned char>("uchar", { (unsigned char)0, (unsigned char)255 });
	scalars<float>("float", { 0.f, -1.5f, 3.4e38f, 1e-38f });
	scalars<double>("double", { 0., -0.1, 1e308, 5e-324, 1. / 3 });
	scalars<bool>("bool", { false, true });
	for (PlainEnum e : { PE_A, PE_B, PE_C, PE_D, PE_E })
		g_all.push_back(mk<PlainEnum>("enum", mc::str((int)e), e, { PE_A, PE_C }));
	for (EC e : { EC::A, EC::C, EC::BIG })
		g_all.push_back(mk<EC>("enumclass", mc::str((int)e), e, { EC::A, EC::B }));
	for (std::string s : { "", "x", "hello world", " lead", "two\nlines", "a\0b" })
		g_all.push_back(mk<String>("string", s, s, { "", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzz" }, false));
	g_all.push_back(mk<String>("string", "with nul", String("a\0b\0", 4), { "", "q" }, false));
	g_all.push_back(mk<String>("string", "long", String(5000, 'k') + "end", { "", "q" }, false));
	vectors<int>("vint", { 3, -2, INT32_MAX, 0 });
	vectors<unsigned>("vunsigned", { 3, UINT32_MAX, 0 });
	vectors<unsigned long>("vulong", { 3, UINT64_MAX, 0 });
	vectors<char>("vchar", { 'a', 'b', '\0' });
	vectors<double>("vdouble", { 0.1, -2, 1e300, 0 });
	vectors<float>("vfloat", { 0.1f, -2, 1e30f });
	vectors<C>("vcomplex", { C(0, 1), C(0.1, -2), C(3, 0) });
	vectors<std::complex<float>>("vcomplexfloat", { { 0, 1 }, { 0.1f, -2 } });
	{
		std::vector<std::vector<bool>> dirty { {}, std::vector<bool>(3, true), std::vector<bool>(40, true) };
		for (int n = 0; n < 20; ++n)
			for (unsigned bits : { 0u, ~0u, 0x5555u, 1u << (n ? n - 1 : 0), 0x8181u }) {
				std::vector<bool> v;
				for (int i = 0; i < n; ++i)
					v.push_back((bits >> i) & 1);
				g_all.push_back(mk<std::vector<bool>>("vbool", mc::str(n) + "/" + mc::str(bits), v, dirty));
			}
		for (int n : { 255, 256, 257, 2047, 2048, 65535, 65536, 70000 }) {
			std::vector<bool> v(n, false);
			for (int i = 0; i < n; i += 3)
				v[i] = true;
			v[n - 1] = true;
			g_all.push_back(mk<std::vector<bool>>("vbool", mc::str(n), v, dirty));
		}
	}
	{
		typedef std::vector<VD> W;
		std::vector<W> dirty { {}, { { 9, 9, 9 } }, { { 1 }, { 2 }, { 3 }, { 4 } } };
		g_all.push_back(mk<W>("vvdouble", "0", {}, dirty));
		g_all.push_back(mk<W>("vvdouble", "1", { { 1 } }, dirty));
		g_all.push_back(mk<W>("vvdouble", "1e", { {} }, dirty));
		g_all.push_back(mk<W>("vvdouble", "3", { { 1 }, { 2, 3 }, { 4, 5, 6 } }, dirty));
		g_all.push_back(mk<W>("vvdouble", "3e", { { 1 }, {}, { 4 } }, dirty));
		typedef std::vector<VC> X;
		g_all.push_back(mk<X>("vvcomplex", "2", { { C(1, 2) }, { C(2, 1), 3 } }, { {}, { { C(1, 2) } } }));
		g_all.push_back(mk<X>("vvcomplex", "2e", { {}, { C(2, 1), 3 } }, { {}, { { C(1, 2) } } }));
		typedef std::vector<std::vector<SizeType>> U;
		g_all.push_back(mk<U>("vvsize", "2", { { 5 }, { 6, 7 } }, { {}, { { 1 }, { 1 }, { 1 } } }));
		g_all.push_back(mk<U>("vvsize", "12", U(12, { 5, 6 }), { {}, { { 1 }, { 1 }, { 1 } } }));
		typedef std::vector<std::vector<int>> I;
		g_all.push_back(mk<I>("vvint", "1", { { 5, -6 } }, { {}, { { 1 }, { 1 }, { 1 } } }));
	}
	{
		typedef std::pair<int, double> Pr;
		g_all.push_back(mk<Pr>("pair", "a", { 3, 0.5 }, { { 0, 0 } }));
		g_all.push_back(mk<Pr>("pair", "b", { -3, 1e100 }, { { 0, 0 } }));
		g_all.push_back(mk<Pr>("pair", "c", { 3, 0.0 }, { { 0, 0 }, { 7, 7 } }));
		g_all.push_back(mk<Pr>("pair", "d", { 0, 0.5 }, { { 0, 0 }, { 7, 7 } }));
		g_all.push_back(mk<Pr>("pair", "e", { 0, 0.0 }, { { 0, 0 }, { 7, 7 } }));
		typedef std::pair<SizeType, Matrix<double>> Pm;
		g_all.push_back(mk<Pm>("pairmatrix", "a", { 3, mat<double>(2, 3, 1) }, { { 0, Matrix<double>() }, { 9, mat<double>(4, 4, 2) } }, false));
		typedef std::vector<std::pair<int, double>> VPr;
		g_all.push_back(mk<VPr>("vpair", "0", {}, { {}, { { 1, 2 } } }, false));
		g_all.push_back(mk<VPr>("vpair", "2", { { 3, 0.5 }, { 4, 1.5 } }, { {}, { { 1, 2 } } }, false));
		typedef std::vector<EC> VE;
		g_all.push_back(mk<VE>("venumclass", "0", {}, { {}, { EC::B } }, false));
		g_all.push_back(mk<VE>("venumclass", "3", { EC::A, EC::BIG, EC::C }, { {}, { EC::B } }, false));
	}
	for (int r : { 0, 1, 2, 3 })
		for (int c : { 0, 1, 2, 4 }) {
			std::string n = mc::str(r) + "x" + mc::str(c);
			g_all.push_back(mk<Matrix<double>>("matrix", n, mat<double>(r, c, 1), { Matrix<double>(), mat<double>(2, 2, 7), mat<double>(5, 5, 7) }));
			g_all.push_back(mk<Matrix<C>>("matrixC", n, mat<C>(r, c, 1), { Matrix<C>(), mat<C>(2, 2, 7) }));
			g_all.push_back(mk<CrsMatrix<double>>("crs", n, crs<double>(r, c, 1), { CrsMatrix<double>(), crs<double>(4, 4, 0) }));
			g_all.push_back(mk<CrsMatrix<C>>("crsC", n, crs<C>(r, c, 1), { CrsMatrix<C>(), crs<C>(4, 4, 0) }));
		}
	{
		CrsMatrix<double> z(2, 2);
		g_all.push_back(mk<CrsMatrix<double>>("crs", "2x2zero", z, { CrsMatrix<double>(), crs<double>(4, 4, 0) }));
		typedef std::vector<Matrix<double>> VM;
		VM m1 { mat<double>(2, 2, 1), mat<double>(1, 3, 2), Matrix<double>() };
		VM m2 { mat<double>(1, 1, 5) };
		for (auto& m : { VM(), m1, m2 })
			g_all.push_back(mk<VM>("vmatrix", mc::str(m.size()), m, { VM(), m1 }));
		typedef std::vector<Item> VI;
		VI i1 { Item(1, { 1, 2 }), Item(2, {}), Item(3, { 3 }) };
		for (auto& m : { VI(), i1, VI { Item(5, { 5 }) } })
			g_all.push_back(mk<VI>("vitem", mc::str(m.size()), m, { VI(), i1 }));
		g_all.push_back(mk<Item>("item", "a", Item(3, { 1 }), { Item(), Item(1, { 4, 5, 6 }) }));
		g_all.push_back(mk<Item>("item", "b", Item(3, {}), { Item(), Item(1, { 4, 5, 6 }) }));
		typedef std::stack<Item> SI;
		SI s0, s1, s3;
		s1.push(Item(4));
		s3.push(Item(1, { 1 }));
		s3.push(Item(2, { 1, 2 }));
		s3.push(Item(3, {}));
		for (auto& s : { s0, s1, s3 })
			g_all.push_back(mk<SI>("stack", mc::str(s.size()), s, { s0, s1 }, false));
	}
	for (VP p : g_all) {
		static const char* h[] = { "int:1", "string:x", "vdouble:0", "vdouble:2", "vcomplex:0", "vcomplex:2", "vint:3", "vbool:3/21845", "bool:1",
			"vvdouble:3e", "vvdouble:1", "pair:a", "matrix:2x2", "matrix:0x1", "crs:2x2", "vmatrix:3", "vmatrix:1", "vcomplex:1", "vdouble:3", "venumclass:3" };
		for (const char* x : h)
			if (p->name == x)
				g_hist.push_back(p);
	}
}

struct Model {
	std::map<std::string, VP> vals;
	bool group = false; // the group g
};
static void checkAll(Ser& s, const Model& m, const std::vector<std::string>& labels)
{
	static VP anInt = mk<int>("int", "1", 1, { 0 }), aVec = mk<VD>("vdouble", "1", { 1 }, { {} }),
	          aCplx = mk<VC>("vcomplex", "1", { 1 }, { {} }), aMat = mk<Matrix<double>>("matrix", "1", mat<double>(1, 1, 1), { Matrix<double>() });
	for (auto& l : labels) {
		auto it = m.vals.find(l);
		if (it == m.vals.end()) {
			for (VP p : { anInt, aVec, aCplx, aMat })
				mc::mustThrow([&] { p->tryRead(s, l); }, "reading " + l + ", where nothing was written");
			continue;
		}
		it->second->check(s, l);
		const std::string& k = it->second->kind;
		// element types do not change silently
		if (k == "vcomplex")
			mc::mustThrow([&] { aVec->tryRead(s, l); }, "reading the complex " + l + " as real");
		if (k == "vdouble") {
			VC z(3, C(8, 8));
			s.read(z, l);
			VD x;
			s.read(x, l);
			mc::eq(z.size(), x.size(), "size of the real " + l + " read as complex");
			for (size_t i = 0; i < x.size(); ++i)
				mc::check(z[i] == C(x[i]), "the real " + l + " read as complex differs");
		}
	}
	mc::eq(s.doesGroupExist("g"), m.group, "doesGroupExist(g)");
}

static std::string g_file;
static void full(const std::string& key, const std::function<void(IoNg::Out*&, Model&)>& script, const std::vector<std::string>& labels)
{
	mc::run(key, [&] {
		unlink(g_file.c_str());
		Model m;
		IoNg::Out* o = new IoNg::Out(g_file, IoNg::ACC_TRUNC);
		try {
			script(o, m);
			checkAll(o->serializer(), m, labels);
		} catch (H5::Exception& e) {
			mc::fail("H5 exception: " + e.getDetailMsg());
		}
		delete o;
		try {
			IoNg::In in(g_file);
			checkAll(in.serializer(), m, labels);
			in.close();
			in.open(g_file);
			checkAll(in.serializer(), m, labels);
		} catch (H5::Exception& e) {
			mc::fail("H5 exception when reopening: " + e.getDetailMsg());
		}
		// nothing keeps the file open: it can be opened for append and replaced
		try {
			IoNg::Out again(g_file, IoNg::ACC_RDW);
			checkAll(again.serializer(), m, labels);
			again.close();
			IoNg::Out trunc(g_file, IoNg::ACC_TRUNC);
			checkAll(trunc.serializer(), Model(), labels);
		} catch (H5::Exception& e) {
			mc::fail("H5 exception when opening again: " + e.getDetailMsg());
		}
		for (auto& kv : m.vals)
			mc::fold(kv.first + kv.second->name);
	});
}

static bool isLeaf(const std::string& k)
{
	for (const char* g : { "pair", "pairmatrix", "vpair", "matrix", "matrixC", "crs", "crsC", "vmatrix", "vitem", "item", "stack", "venumclass", "vvdouble", "vvcomplex", "vvsize", "vvint" })
		if (k == g)
			return false;
	return true;
}
// one write with the model
static void doWrite(IoNg::Out& o, Model& m, const std::string& label, VP v, bool ow)
{
	bool present = m.vals.count(label);
	bool parent = label[0] != 'g' || m.group;
	// a dataset cannot turn into a group
	bool kinds = !present || !isLeaf(m.vals[label]->kind) || isLeaf(v->kind);
	if (ow && present && !isLeaf(v->kind) && !isLeaf(m.vals[label]->kind) && v->kind != m.vals[label]->kind)
		return; // one structure in place of another: not supported
	bool ok = parent && (ow ? v->canOverwrite && kinds : !present);
	bool threw = mc::throws([&] { v->write(o, label, ow); });
	if (ok) {
		mc::check(!threw, "writing " + v->name + " to " + label + (ow ? " (overwrite allowed)" : "") + " is refused");
		m.vals[label] = v;
	}
}

struct Op {
	std::string name;
	std::function<void(IoNg::Out*&, Model&)> f;
};

void mc::explore()
{
	IoNg::dontPrintDebug();
	std::cerr.setstate(std::ios::failbit);
	g_file = "p01_" + mc::str(getpid()) + ".hdf5";
	build();

	// 1. every value of every type, alone, in the root and in a group, then overwritten
	// by every other value of its kind, and refused without permission
	{ // more booleans than fit three bytes of length
		const int n = (1 << 24) + 9;
		std::vector<bool> v(n, false);
		for (int i = 0; i < n; i += 5)
			v[i] = true;
		VP p = mk<std::vector<bool>>("vbool", mc::str(n), v, std::vector<std::vector<bool>> { {} });
		full("roundtrip a " + p->name, [&](IoNg::Out*& o, Model& m) { doWrite(*o, m, "a", p, false); }, { "a" });
	}
	for (size_t pi = 0; pi < g_all.size(); ++pi) {
		VP p = g_all[pi];
		for (std::string l : { "a", "g/a" })
			full("roundtrip " + l + " " + p->name, [&](IoNg::Out*& o, Model& m) {
				o->createGroup("g");
				m.group = true;
				doWrite(*o, m, l, p, false); }, { "a", "g/a" });
		if (p->canOverwrite)
			full("fresh-overwrite " + p->name, [&](IoNg::Out*& o, Model& m) { doWrite(*o, m, "a", p, true); }, { "a", "b" });
		for (size_t qi = 0; qi < g_all.size(); ++qi) {
			VP q = g_all[qi];
			if (q->kind != p->kind)
				continue;
			if (!mc::thorough() && q->kind == "vbool" && pi != qi && (pi + qi) % 5)
				continue;
			full("rewrite " + p->name + " by " + q->name, [&](IoNg::Out*& o, Model& m) {
				doWrite(*o, m, "a", p, false);
				doWrite(*o, m, "b", q, false);
				doWrite(*o, m, "a", q, false); }, { "a", "b" });
			if (q->canOverwrite)
				for (int reopen : { 0, 1 })
					full("overwrite " + p->name + " by " + q->name + (reopen ? " after reopening" : ""), [&](IoNg::Out*& o, Model& m) {
						doWrite(*o, m, "a", p, false);
						doWrite(*o, m, "b", p, false);
						if (reopen) {
							delete o;
							o = new IoNg::Out(g_file, IoNg::ACC_RDW);
						}
						doWrite(*o, m, "a", q, true); }, { "a", "b" });
		}
	}

	// 2. every history of operations up to a depth
	std::vector<Op> ops;
	for (std::string l : { "a", "g/a" })
		for (VP p : g_hist)
			for (bool ow : { false, true }) {
				if (ow && !p->canOverwrite)
					continue;
				ops.push_back({ std::string(ow ? "ow " : "wr ") + l + " " + p->name, [=](IoNg::Out*& o, Model& m) { doWrite(*o, m, l, p, ow); } });
			}
	ops.push_back({ "group g", [](IoNg::Out*& o, Model& m) {
		               bool threw = mc::throws([&] { o->createGroup("g"); });
		               mc::eq(threw, m.group, "creating an existing group is refused");
		               m.group = true;
	               } });
	ops.push_back({ "reopen", [](IoNg::Out*& o, Model&) {
		               delete o;
		               o = new IoNg::Out(g_file, IoNg::ACC_RDW);
	               } });
	ops.push_back({ "close+open", [](IoNg::Out*& o, Model&) {
		               o->close();
		               o->open(g_file, IoNg::ACC_RDW);
		               mc::eq(o->filename(), g_file, "filename");
	               } });
	ops.push_back({ "flush", [](IoNg::Out*& o, Model&) { o->flush(); } });
	ops.push_back({ "close+open trunc", [](IoNg::Out*& o, Model& m) {
		               o->close();
		               o->open(g_file, IoNg::ACC_TRUNC);
		               m = Model();
	               } });
	ops.push_back({ "truncate", [](IoNg::Out*& o, Model& m) {
		               delete o;
		               o = new IoNg::Out(g_file, IoNg::ACC_TRUNC);
		               m = Model();
	               } });
	ops.push_back({ "replace", [](IoNg::Out*& o, Model& m) {
		               delete o;
		               mc::mustThrow([&] { IoNg::Out x(g_file, IoNg::ACC_EXCL); }, "exclusive creation of an existing file");
		               unlink(g_file.c_str());
		               o = new IoNg::Out(g_file, IoNg::ACC_EXCL);
		               m = Model();
	               } });
	ops.push_back({ "wrong reads", [](IoNg::Out*& o, Model& m) {
		               // a refused read changes nothing
		               delete o;
		               {
			               IoNg::In in(g_file);
			               for (std::string l : { "a", "g/a", "nothing" })
				               for (VP p : g_hist)
					               if (p->kind != "vbool")
						               mc::throws([&] { p->tryRead(in.serializer(), l); });
		               }
		               o = new IoNg::Out(g_file, IoNg::ACC_RDW);
	               } });
	const size_t N = ops.size();
	auto hist = [&](const std::vector<size_t>& h) {
		std::string key = "history";
		for (size_t i : h)
			key += " | " + ops[i].name;
		full(key, [&](IoNg::Out*& o, Model& m) {
			for (size_t i : h)
				ops[i].f(o, m); }, { "a", "g/a" });
	};
	for (size_t i = 0; i < N; ++i)
		hist({ i });
	for (size_t i = 0; i < N; ++i)
		for (size_t j = 0; j < N; ++j)
			hist({ i, j });
	// depth 3 (quick: the values that share no structure, and on one label only)
	auto big = [&](size_t i) {
		if (mc::thorough())
			return true;
		const std::string& n = ops[i].name;
		if (n.find("g/a") != std::string::npos)
			return false;
		for (const char* x : { "vdouble:0", "vdouble:2", "vcomplex:2", "vint:3", "vvdouble:3e", "vvdouble:1", "matrix:2x2", "vmatrix:1", "group", "open", "flush" })
			if (n.find(x) != std::string::npos)
				return true;
		return false;
	};
	// after the group first, then all pairs; and all triples in thorough or on label a
	size_t grp = 0;
	while (ops[grp].name != "group g")
		++grp;
	for (size_t i = 0; i < N; ++i)
		for (size_t j = 0; j < N; ++j)
			if (mc::thorough() || ops[i].name.find("g/a") != std::string::npos || ops[j].name.find("g/a") != std::string::npos)
				hist({ grp, i, j });
	for (size_t i = 0; i < N; ++i)
		for (size_t j = 0; j < N; ++j)
			for (size_t k = 0; k < N; ++k) {
				if (!big(i) || !big(j) || !big(k))
					continue;
				hist({ i, j, k });
			}

	// 3. vectors written entry by entry
	for (int n : { 0, 1, 2, 3, 4, 5, 9, 10, 11, 12, 21, 64, 101, 130, 260 })
		for (int reopenAt : std::set<int> { 0, 1, 2, 3, 4, 5, 9, 10, 11, n / 2, n - 1, n })
			if (reopenAt >= 0 && reopenAt <= n)
			mc::run("writeVectorEntry n=" + mc::str(n) + " reopenAt=" + mc::str(reopenAt), [&] {
				unlink(g_file.c_str());
				IoNg::Out* o = new IoNg::Out(g_file, IoNg::ACC_TRUNC);
				for (int i = 0; i < n; ++i) {
					if (i == reopenAt) {
						delete o;
						o = new IoNg::Out(g_file, IoNg::ACC_RDW);
					}
					o->writeVectorEntry(1.5 * i, "v", i);
					o->writeVectorEntry(VD(i + 1, i), "w", i);
				}
				delete o;
				IoNg::In in(g_file);
				double x = -1;
				VD w(7, 7);
				if (n == 0) {
					mc::mustThrow([&] { in.readLastVectorEntry(x, "v"); }, "the last entry of nothing");
				} else {
					in.readLastVectorEntry(x, "v");
					mc::eq(x, 1.5 * (n - 1), "last entry");
					in.readLastVectorEntry(w, "w");
					mc::eq(w, VD(n, n - 1), "last vector entry");
					for (int i = 0; i < n; ++i) {
						in.read(x, "v/" + mc::str(i));
						mc::eq(x, 1.5 * i, "entry");
					}
				}
			});

	// 4. vectors of classes overwritten by longer and shorter ones: all sequences of lengths
	// (entries beyond the current length are still in the file, and must not be seen)
	typedef std::vector<Item> VI;
	auto items = [](int n, int step) {
		VI v;
		for (int i = 0; i < n; ++i)
			v.push_back(Item(100 * step + i, VD((i + step) % 4, step + 0.5 * i)));
		return v;
	};
	std::vector<std::vector<int>> lens;
	for (int a = 0; a <= 3; ++a)
		for (int b = 0; b <= 3; ++b)
			for (int c = 0; c <= 3; ++c) {
				lens.push_back({ a, b, c });
				if (mc::thorough())
					for (int d = 0; d <= 3; ++d)
						lens.push_back({ a, b, c, d });
			}
	for (auto& l : std::vector<std::vector<int>> { { 12, 5, 12 }, { 5, 12, 3, 11 }, { 0, 130, 7, 101 }, { 2, 4, 1, 3 }, { 3, 0, 3, 0, 3 } })
		lens.push_back(l);
	for (auto& l : lens)
		for (int reopen : { 0, 1 }) {
			mc::run("vector of classes overwritten, lengths " + mc::str(l) + (reopen ? " reopening" : ""), [&] {
				unlink(g_file.c_str());
				IoNg::Out* o = new IoNg::Out(g_file, IoNg::ACC_TRUNC);
				o->write(items(3, 9), "other");
				for (size_t k = 0; k < l.size(); ++k) {
					if (k == 0)
						o->write(items(l[k], k), "v");
					else
						o->overwrite(items(l[k], k), "v");
					o->write(Item(7, VD(1, k)), "w", k == 0 ? Ser::NO_OVERWRITE : Ser::ALLOW_OVERWRITE);
					if (!reopen && k + 1 < l.size())
						continue;
					delete o;
					o = 0;
					{
						IoNg::In in(g_file);
						VI got { Item(1, VD(2, 3)), Item(5, VD(1, 1)) }, oth;
						Item w;
						in.read(got, "v");
						in.read(oth, "other");
						in.read(w, "w");
						mc::check(got == items(l[k], k), "a vector of classes reads back as overwritten at step " + mc::str(k));
						mc::check(oth == items(3, 9), "another vector is left alone");
						mc::check(w == Item(7, VD(1, k)), "a class reads back as overwritten");
					}
					if (k + 1 < l.size())
						o = new IoNg::Out(g_file, IoNg::ACC_RDW);
				}
				delete o;
			});
		}

	// 5. vectors of pointers to classes read back as vectors of classes
	for (int n : { 0, 1, 2, 3, 4, 9, 10, 11, 12, 21, 101, 130 })
		mc::run("vector of pointers n=" + mc::str(n), [&] {
			unlink(g_file.c_str());
			VI v = items(n, 2);
			std::vector<Item*> p;
			for (int i = 0; i < n; ++i)
				p.push_back(&v[i]);
			{
				IoNg::Out o(g_file, IoNg::ACC_TRUNC);
				o.serializer().write("p", p);
				o.createGroup("g");
				o.serializer().write("g/p", p);
			}
			IoNg::In in(g_file);
			for (std::string l : { "p", "g/p" }) {
				VI got(2, Item(1, VD(2, 3)));
				in.read(got, l);
				mc::check(got == v, "what a vector of pointers points to reads back");
			}
		});
	unlink(g_file.c_str());
}
