// T04: PsimagLite's message passing (MpiYes, InterNode, Concurrency) over an
// in-process message-passing library whose ranks run under the controlled scheduler
#include <ostream>
#include <utility>
namespace std
{
template <typename A, typename B> std::ostream& operator<<(std::ostream& o, const std::pair<A, B>& a) { return o << "{" << a.first << "," << a.second << "}"; }
}
#include "explorer.h"
#include "mpifake.h"
#include "Concurrency.h"
#include "InterNode.h"
#include "LoadBalancerWeights.h"
#include "Io/IoSimple.h"
#include "CrsMatrix.h"
#include "ProgressIndicator.h"
#include <fstream>
#include <complex>
using namespace PsimagLite;
namespace M = PsimagLite::MPI;
typedef std::complex<double> Z;
typedef std::vector<double> VD;
typedef std::vector<VD> VVD;
typedef std::vector<Z> VZ;
typedef std::vector<int> VI;
typedef std::vector<SizeType> VS;
typedef std::vector<unsigned> VU;
typedef std::pair<double, SizeType> PR;

struct Obj { // a class that sends itself, as pointByPointGather and bcast expect
	double x = 0;
	int y = 0;
	bool operator==(const Obj& o) const { return x == o.x && y == o.y; }
	void send(int dst, int tag, M::CommType c)
	{
		M::send(x, dst, tag, c);
		M::send(y, dst, tag, c);
	}
	void recv(int src, int tag, M::CommType c)
	{
		M::recv(x, src, tag, c);
		M::recv(y, src, tag, c);
	}
	void bcast(int root, M::CommType c)
	{
		M::bcast(x, root, c);
		M::bcast(y, root, c);
	}
};
std::ostream& operator<<(std::ostream& o, const Obj& a) { return o << "{" << a.x << "," << a.y << "}"; }

typedef CrsMatrix<double> CD;
typedef CrsMatrix<Z> CZ;
template <typename T> bool equalCrs(const CrsMatrix<T>& a, const CrsMatrix<T>& b)
{
	if (a.rows() != b.rows() || a.cols() != b.cols())
		return false;
	for (SizeType i = 0; i < a.rows(); ++i) {
		if (a.getRowPtr(i) != b.getRowPtr(i) || a.getRowPtr(i + 1) != b.getRowPtr(i + 1))
			return false;
		for (int k = a.getRowPtr(i); k < a.getRowPtr(i + 1); ++k)
			if (a.getCol(k) != b.getCol(k) || a.getValue(k) != b.getValue(k))
				return false;
	}
	return a.rows() == 0 || a.nonZeros() == b.nonZeros();
}
template <typename T> std::string textCrs(const CrsMatrix<T>& m)
{
	std::ostringstream o;
	o << m.rows() << "x" << m.cols();
	for (SizeType i = 0; i < m.rows(); ++i)
		for (int k = m.getRowPtr(i); k < m.getRowPtr(i + 1); ++k)
			o << " (" << i << "," << m.getCol(k) << ")=" << m.getValue(k);
	return o.str();
}

// values of each type: distinct by rank and position
template <typename T> struct V;
template <> struct V<double> {
	static double get(int r, int i) { return 0.5 + r * 1.25 + i * 16; }
};
template <> struct V<int> {
	static int get(int r, int i) { return -7 + 3 * r + 100 * i; }
};
template <> struct V<unsigned> {
	static unsigned get(int r, int i) { return 3000000000u + r + 100 * i; }
};
template <> struct V<SizeType> {
	static SizeType get(int r, int i) { return ((SizeType)1 << 40) + r + 100 * i; }
};
template <> struct V<Z> {
	static Z get(int r, int i) { return Z(0.25 + r, 10 * r - i); }
};
template <> struct V<PR> {
	static PR get(int r, int i) { return PR(0.5 + r, 7 + r + 10 * i); }
};
template <> struct V<Obj> {
	static Obj get(int r, int i)
	{
		Obj o;
		o.x = 1.5 * r + i;
		o.y = r - 4 * i;
		return o;
	}
};
template <typename T> struct V<CrsMatrix<T>> { // of many shapes, some with empty rows or nothing in them
	static CrsMatrix<T> get(int r, int i)
	{
		static const int shapes[][2] = { { 2, 3 }, { 3, 1 }, { 1, 1 }, { 2, 2 }, { 0, 0 }, { 4, 7 }, { 5, 2 } };
		const int rows = shapes[(r + 2 * i) % 7][0], cols = shapes[(r + 2 * i) % 7][1];
		if (rows == 0)
			return CrsMatrix<T>();
		Matrix<T> m(rows, cols);
		for (int a = 0; a < rows; ++a)
			for (int b = 0; b < cols; ++b)
				if ((a * 5 + b * 3 + i) % 4 != 1 && a != 1 && (r + i) % 5 != 4)
					m(a, b) = V<T>::get(r, i + 10 * a + 100 * b);
		return CrsMatrix<T>(m);
	}
};
template <typename T> struct V<std::vector<T>> {
	static std::vector<T> get(int r, int i)
	{
		std::vector<T> v((i + 1) % 3 + 1);
		for (size_t j = 0; j < v.size(); ++j)
			v[j] = V<T>::get(r, i * 10 + (int)j);
		return v;
	}
};
template <typename T> std::vector<T> vec(int r, int n)
{
	std::vector<T> v(n);
	for (int i = 0; i < n; ++i)
		v[i] = V<T>::get(r, i);
	return v;
}
// what a rank of communicator c is
static int inComm(int world, int n, int c) { return c == MPI_COMM_WORLD ? world : c == 92 ? n - 1 - world : world - 1; }
static int sizeComm(int n, int c) { return c == 93 ? n - 1 : n; }
static bool member(int world, int c) { return c != 93 || world > 0; }

template <typename F> void scenario(const std::string& what, int n, int comm, bool sync, int bound, F f)
{
	if (comm == 93 && n < 2)
		return;
	mc::run(what + " ranks=" + std::to_string(n) + " comm=" + std::to_string(comm) + (sync ? " synchronous" : " buffered"), [=]() {
		sched::exploreAll(bound, [=]() {
			mpifake::World* w = new mpifake::World; // leaked when an execution dies
			w->n = n;
			w->synchronous = sync;
			mpifake::runRanks(*w, [=](int world) {
				if (member(world, comm))
					f(inComm(world, n, comm), sizeComm(n, comm));
			});
			delete w;
		});
	});
}
template <typename T> void same(const T& got, const T& want, const std::string& what)
{
	++mc::g().transitions;
	if (!(got == want))
		sched::check(false, what + ": got " + mc::str(got) + " expected " + mc::str(want));
}
static std::string mark(int r) { return " at rank " + std::to_string(r); }

template <typename T> void scalar(const char* ty, int n, int c, bool sync, int bound)
{
	int P = sizeComm(n, c);
	for (int root = 0; root < P; ++root)
		scenario(std::string("bcast ") + ty + " root=" + std::to_string(root), n, c, sync, bound, [=](int r, int) {
			T v = V<T>::get(r, 1);
			M::bcast(v, root, c);
			same(v, V<T>::get(root, 1), "bcast" + mark(r));
		});
	for (int op : { MPI_SUM, MPI_MAX, MPI_MIN })
		scenario(std::string("allReduce ") + ty + " op=" + std::to_string(op), n, c, sync, bound, [=](int r, int p) {
			T v = V<T>::get(r, 1), e = V<T>::get(0, 1);
			for (int q = 1; q < p; ++q)
				e = op == MPI_SUM ? e + V<T>::get(q, 1) : op == MPI_MAX ? std::max(e, V<T>::get(q, 1)) : std::min(e, V<T>::get(q, 1));
			M::allReduce(v, op, c);
			same(v, e, "allReduce" + mark(r));
		});
}
template <typename T> void transfer(const char* ty, int n, int c, bool sync, int bound)
{
	int P = sizeComm(n, c);
	for (int a = 0; a < P; ++a)
		for (int b = 0; b < P; ++b) {
			if (a == b)
				continue;
			for (int stale = 0; stale < 3; ++stale)
				scenario(std::string("send ") + ty + " " + std::to_string(a) + "->" + std::to_string(b) + " stale=" + std::to_string(stale), n, c, sync, bound, [=](int r, int) {
					// two messages, one after the other
					for (int k = 0; k < 2; ++k) {
						T v = V<T>::get(r, r == b ? stale + k : k + 3);
						if (r == a) {
							M::send(v, b, 5 + k, c);
							same(v, V<T>::get(a, k + 3), "the sent value");
						} else if (r == b) {
							M::recv(v, a, 5 + k, c);
							same(v, V<T>::get(a, k + 3), "received value");
						}
					}
				});
		}
	if (P > 2) // two senders
		scenario(std::string("two senders ") + ty, n, c, sync, bound, [=](int r, int) {
			T v = V<T>::get(r, 2);
			if (r == 1 || r == 2)
				M::send(v, 0, 5, c);
			if (r == 0) {
				T x = V<T>::get(5, 1), y = V<T>::get(6, 1);
				M::recv(x, 1, 5, c);
				M::recv(y, 2, 5, c);
				same(x, V<T>::get(1, 2), "first");
				same(y, V<T>::get(2, 2), "second");
			}
		});
}
template <typename T> void bcastVec(const char* ty, int n, int c, bool sync, int bound)
{
	int P = sizeComm(n, c);
	for (int root = 0; root < P; ++root)
		for (int len = 0; len <= 3; ++len)
			for (int other = 0; other <= 3; ++other) {
				if (other != len && std::is_same<T, Obj>::value)
					continue;
				scenario(std::string("bcast vector<") + ty + "> root=" + std::to_string(root) + " n=" + std::to_string(len) + " others have " + std::to_string(other), n, c, sync, bound, [=](int r, int) {
					auto v = vec<T>(r, r == root ? len : other);
					M::bcast(v, root, c);
					same(v, vec<T>(root, len), "bcast" + mark(r));
				});
			}
}
template <typename T> void reduceVec(const char* ty, int n, int c, bool sync, int bound)
{
	int P = sizeComm(n, c);
	for (int len = 0; len <= 3; ++len) {
		for (int root = 0; root < P; ++root)
			scenario(std::string("reduce vector<") + ty + "> root=" + std::to_string(root) + " n=" + std::to_string(len), n, c, sync, bound, [=](int r, int p) {
				auto v = vec<T>(r, len), e = vec<T>(0, len);
				for (int q = 1; q < p; ++q)
					for (int i = 0; i < len; ++i)
						e[i] += V<T>::get(q, i);
				M::reduce(v, MPI_SUM, root, c);
				same(v, r == root ? e : vec<T>(r, len), "reduce" + mark(r));
			});
		scenario(std::string("allReduce vector<") + ty + "> n=" + std::to_string(len), n, c, sync, bound, [=](int r, int p) {
			auto v = vec<T>(r, len), e = vec<T>(0, len);
			for (int q = 1; q < p; ++q)
				for (int i = 0; i < len; ++i)
					e[i] += V<T>::get(q, i);
			M::allReduce(v, MPI_SUM, c);
			same(v, e, "allReduce" + mark(r));
		});
	}
}
template <typename T> void gather(const char* ty, int n, int c, bool sync, int bound)
{
	int P = sizeComm(n, c);
	for (int root = 0; root < P; ++root)
		for (int len = 0; len <= 2 * P + 1; ++len)
			scenario(std::string("gather vector<") + ty + "> root=" + std::to_string(root) + " n=" + std::to_string(len), n, c, sync, len > P ? std::min(bound, 1) : bound, [=](int r, int p) {
				auto v = vec<T>(r, len), e = v;
				int block = (len + p - 1) / p;
				if (r == root)
					for (int i = 0; i < len; ++i)
						e[i] = V<T>::get(i / block, i);
				M::pointByPointGather(v, root, c);
				same(v, e, "gather" + mark(r));
			});
}
// sparse matrices: sent, received, gathered and broadcast over what the receiver had
template <typename T> void sparse(const char* ty, int n, int c, bool sync, int bound)
{
	typedef CrsMatrix<T> C;
	auto is = [](const C& got, const C& want, const std::string& what) {
		++mc::g().transitions;
		if (!equalCrs(got, want))
			sched::check(false, what + ": got " + textCrs(got) + " expected " + textCrs(want));
	};
	int P = sizeComm(n, c);
	for (int a = 0; a < P; ++a)
		for (int b = 0; b < P; ++b)
			for (int i = 0; i < 7; ++i)
				for (int stale = 0; stale < 7; stale += 3)
					if (a != b)
						scenario(std::string("send sparse ") + ty + " " + std::to_string(a) + "->" + std::to_string(b) + " " + std::to_string(i) + " over " + std::to_string(stale), n, c, sync, bound, [=](int r, int) {
							for (int k = 0; k < 2; ++k) {
								C v = V<C>::get(r, r == b ? stale + k : i + k);
								if (r == a)
									v.send(b, 5 + k, c);
								else if (r == b)
									v.recv(a, 5 + k, c);
								is(v, r == a || r == b ? V<C>::get(a, i + k) : V<C>::get(r, i + k), "sparse matrix" + mark(r));
							}
						});
	for (int root = 0; root < P; ++root)
		for (int len = 0; len <= 2 * P + 1; ++len)
			scenario(std::string("gather sparse ") + ty + " root=" + std::to_string(root) + " n=" + std::to_string(len), n, c, sync, bound, [=](int r, int p) {
				std::vector<C> v;
				for (int i = 0; i < len; ++i)
					v.push_back(V<C>::get(r, i));
				M::pointByPointGather(v, root, c);
				const int block = (len + p - 1) / p;
				for (int i = 0; i < len; ++i)
					is(v[i], V<C>::get(r == root ? i / block : r, i), "gathered sparse matrix" + mark(r));
			});
	if (c == MPI_COMM_WORLD)
		for (int i = 0; i < 7; ++i)
			for (int stale = 0; stale < 7; ++stale)
				scenario(std::string("bcast sparse ") + ty + " " + std::to_string(i) + " over " + std::to_string(stale), n, c, sync, bound, [=](int r, int) {
					C v = V<C>::get(r, r == 0 ? i : stale);
					bcast(v);
					is(v, V<C>::get(0, i), "sparse matrix" + mark(r));
				});
}
static void loops(int n, int c, bool sync, int bound, std::vector<int> Ns = { 0, 1, 2, 3, 4, 5, 6, 7 })
{
	for (int start = 0; start < 2; ++start)
		for (int N : Ns)
			for (int how = 0; how < 4; ++how)
				scenario("InterNode start=" + std::to_string(start) + " N=" + std::to_string(N) + " how=" + std::to_string(how), n, c, sync, bound, [=](int r, int p) {
					std::vector<int>& who = mpifake::w()->shared; // one process: the ranks share it
					who.assign(N, -1);
					MPI_Barrier(c); // everybody has entered before the loop starts
					auto f = [&](SizeType i, SizeType t) {
						sched::check((int)t == r, "the loop body got the wrong rank");
						sched::check(i >= (SizeType)start && i < (SizeType)(start + N), "task out of range");
						sched::check(who[i - start] < 0, "task " + std::to_string(i) + " runs twice");
						who[i - start] = r;
						sched::point();
					};
					VS w(N);
					for (int i = 0; i < N; ++i)
						w[i] = (i * 5 + 1) % 4;
					if (how == 0) {
						InterNode<> x(c);
						sched::check((int)x.size() == p, "size()");
						x.parallelFor(start, start + N, f);
					} else if (how == 1) {
						InterNode<> x(c);
						x.parallelFor(start, start + N, f, LoadBalancerMpi(N, p));
					} else if (how == 2) {
						InterNode<LoadBalancerWeights> x(c);
						x.parallelFor(start, start + N, f, w);
					} else {
						InterNode<LoadBalancerWeights> x(c);
						x.parallelFor(start, start + N, f);
					}
					for (int i = 0; i < N; ++i)
						sched::check(who[i] >= 0, "the loop returned before task " + std::to_string(i) + " ran");
					MPI_Barrier(c);
				});
}
// sequences of calls: every sequence of `depth` operations
static void sequences(int n, bool sync, int depth, int bound)
{
	const int c = MPI_COMM_WORLD, K = 7;
	int total = 1;
	for (int i = 0; i < depth; ++i)
		total *= K;
	for (int s = 0; s < total; ++s)
		scenario("sequence " + std::to_string(s) + " depth=" + std::to_string(depth), n, c, sync, bound, [=](int r, int p) {
			VD v = vec<double>(r, 2);
			std::vector<VD> m; // the model holds every rank's vector
			for (int q = 0; q < p; ++q)
				m.push_back(vec<double>(q, 2));
			int code = s;
			for (int k = 0; k < depth; ++k, code /= K) {
				int root = (code % K) < 5 ? 0 : p - 1;
				VD sum(2, 0);
				for (auto& x : m)
					for (int i = 0; i < 2; ++i)
						sum[i] += x[i];
				switch (code % K) {
				case 0:
				case 5:
					M::bcast(v, root, c);
					for (auto& x : m)
						x = VD(m[root]);
					break;
				case 1:
				case 6:
					M::reduce(v, MPI_SUM, root, c);
					m[root] = sum;
					break;
				case 2:
					M::allReduce(v, MPI_SUM, c);
					for (auto& x : m)
						x = sum;
					break;
				case 3:
					M::barrier(c);
					break;
				case 4: {
					M::pointByPointGather(v, root, c);
					int block = (2 + p - 1) / p;
					for (int i = 0; i < 2; ++i)
						m[root][i] = m[i / block][i];
					break;
				}
				}
				// copies of m[root] in the loop above must not be aliased
				same(v, m[r], "after step " + std::to_string(k) + mark(r));
			}
		});
}
// output of many processes: the file and the messages are those of the first one
static std::string slurp(const std::string& f)
{
	std::ifstream i(f);
	std::ostringstream o;
	o << i.rdbuf();
	return o.str();
}
static void output(int n, int comm, bool sync, int bound)
{
	scenario("text file", n, comm, sync, bound, [=](int, int) {
		const int r = Concurrency::rank();
		const std::string name = "t04.txt";
		if (r == 0)
			std::ofstream(name) << "old";
		M::barrier(MPI_COMM_WORLD);
		{
			IoSimple::Out io(name);
			same(io.rank(), r, "rank of the file" + mark(r));
			io.setPrecision(4 + r);
			io.printline("line " + std::to_string(r));
			io.write(10 + r, "Number");
			io.write(0.5 + r, "Real");
			io.write(Z(r, 1), "Complex");
			io.write(vec<double>(r, 2), "Vector");
			io.write(std::string("text"), "String");
			OstringStream msg(3);
			msg() << "message " << r;
			io.printline(msg);
			io << "end " << r << "\n";
			io.close();
			io.open(name, std::ios::app);
			io << "more " << r << "\n";
		}
		M::barrier(MPI_COMM_WORLD);
		std::ostringstream w;
		w << "line 0\nNumber=10\nReal=0.5\nComplex=" << Z(0, 1) << "\nVector\n2\n" << V<double>::get(0, 0) << "\n" << V<double>::get(0, 1) << "\n\nString\ntext\nmessage 0\nend 0\nmore 0\n";
		same(slurp(name), w.str(), "file" + mark(r));
		std::ostringstream os;
		ProgressIndicator p("Caller");
		p.print("a ", os);
		p.printline("b ", os);
		OstringStream m2(6);
		m2() << "c" << r;
		p.printline(m2, os);
		const std::string t = os.str();
		sched::check(r == 0 ? std::count(t.begin(), t.end(), '\n') == 2 && t.find("a Caller [") != std::string::npos && t.find("]: c0\n") != std::string::npos : t.empty(), "messages" + mark(r) + ": " + t);
	});
}
static std::string infoOf(std::vector<std::string> k, std::vector<std::string> v)
{
	std::ostringstream o;
	mpifake::World w;
	w.infoKey = k;
	w.infoVal = v;
	mpifake::w() = &w;
	w.comms[MPI_COMM_WORLD] = { 0 };
	M::info(o);
	return o.str();
}
void mc::explore()
{
	int B = mc::thorough() ? 3 : 2;
	for (int n = 1; n <= (mc::thorough() ? 4 : 3); ++n)
		for (int c : { MPI_COMM_WORLD, 92, 93 })
			for (bool sync : { false, true }) {
				int b = n <= 2 ? B : n == 3 ? B - 1 : 1;
				if (c != MPI_COMM_WORLD)
					b = std::min(b, 1);
				scalar<int>("int", n, c, sync, b);
				scalar<unsigned>("unsigned", n, c, sync, 0);
				scalar<SizeType>("unsigned long", n, c, sync, 0);
				scalar<double>("double", n, c, sync, b);
				for (int root = 0; root < sizeComm(n, c); ++root)
					scenario("bcast pair root=" + std::to_string(root), n, c, sync, b, [=](int r, int) {
						PR v = V<PR>::get(r, 1);
						M::bcast(v, root, c);
						same(v, V<PR>::get(root, 1), "bcast" + mark(r));
					});
				transfer<int>("int", n, c, sync, 0);
				transfer<SizeType>("unsigned long", n, c, sync, 0);
				transfer<double>("double", n, c, sync, b);
				transfer<PR>("pair", n, c, sync, 1);
				transfer<VD>("vector<double>", n, c, sync, b);
				transfer<VI>("vector<int>", n, c, sync, 0);
				transfer<VZ>("vector<complex>", n, c, sync, 1);
				bcastVec<double>("double", n, c, sync, n <= 2 || mc::thorough() ? 1 : 0);
				bcastVec<int>("int", n, c, sync, 0);
				bcastVec<SizeType>("unsigned long", n, c, sync, 0);
				bcastVec<Z>("complex", n, c, sync, n <= 2 || mc::thorough() ? 1 : 0);
				bcastVec<VD>("vector<double>", n, c, sync, 0);
				bcastVec<Obj>("class", n, c, sync, 0);
				reduceVec<double>("double", n, c, sync, b);
				reduceVec<int>("int", n, c, sync, 0);
				reduceVec<unsigned>("unsigned", n, c, sync, 0);
				reduceVec<Z>("complex", n, c, sync, 1);
				gather<double>("double", n, c, sync, mc::thorough() ? b : n <= 2 ? 1 : 0);
				gather<SizeType>("unsigned long", n, c, sync, 0);
				gather<VD>("vector<double>", n, c, sync, 0);
				gather<PR>("pair", n, c, sync, 0);
				gather<Obj>("class", n, c, sync, n <= 2 || mc::thorough() ? 1 : -1);
				sparse<double>("real", n, c, sync, n <= 2 ? 0 : -1);
				sparse<Z>("complex", n, c, sync, -1);
				loops(n, c, sync, n <= 2 ? 1 : mc::thorough() ? 0 : -1);
				if (c == MPI_COMM_WORLD) {
					sequences(n, sync, 2, n <= 2 ? 1 : 0);
					sequences(n, sync, 3, n <= 2 ? 0 : -1);
				}
				if (c == MPI_COMM_WORLD)
					output(n, c, sync, n <= 2 ? 1 : 0);
				scenario("rank and size", n, c, sync, 1, [=](int r, int p) {
					sched::check((int)Concurrency::rank(c) == r && (int)Concurrency::nprocs(c) == p, "rank or size");
					sched::check(Concurrency::root(c) == (r == 0), "root()");
				});
			}
	// more ranks and longer vectors, in one schedule each
	for (int n : { 3, 4, 5, 7, 8 })
		for (int c : { MPI_COMM_WORLD, 92, 93 })
			for (bool sync : { false, true }) {
				int P = sizeComm(n, c);
				loops(n, c, sync, -1, { 1, n - 1, n, n + 1, 2 * n + 1, 31, 64 });
				for (int len : { 1, 16, 100, 1000 })
					for (int root : { 0, 1, P - 1 }) {
						std::string w = " root=" + std::to_string(root) + " n=" + std::to_string(len);
						scenario("long bcast" + w, n, c, sync, -1, [=](int r, int) {
							auto v = vec<double>(r, r == root ? len : r);
							auto z = vec<Z>(r, r == root ? len : 2 * r);
							auto i = vec<SizeType>(r, r == root ? len : 0);
							const int few = std::min(len, 20); // each is a broadcast
							auto o = vec<VD>(r, r == root ? few : r);
							M::bcast(v, root, c);
							M::bcast(z, root, c);
							M::bcast(i, root, c);
							M::bcast(o, root, c);
							same(v, vec<double>(root, len), "bcast" + mark(r));
							same(z, vec<Z>(root, len), "bcast complex" + mark(r));
							same(i, vec<SizeType>(root, len), "bcast integers" + mark(r));
							same(o, vec<VD>(root, few), "bcast vectors" + mark(r));
						});
						scenario("long reduce" + w, n, c, sync, -1, [=](int r, int p) {
							for (int op : { MPI_SUM, MPI_MAX, MPI_MIN })
								for (int every = 0; every < 2; ++every) {
									auto v = vec<double>(r, len), e = vec<double>(0, len);
									for (int q = 1; q < p; ++q)
										for (int i = 0; i < len; ++i) {
											double x = V<double>::get(q, i);
											e[i] = op == MPI_SUM ? e[i] + x : op == MPI_MAX ? std::max(e[i], x) : std::min(e[i], x);
										}
									if (every)
										M::allReduce(v, op, c);
									else
										M::reduce(v, op, root, c);
									same(v, every || r == root ? e : vec<double>(r, len), "reduce" + mark(r));
								}
						});
						scenario("long gather" + w, n, c, sync, -1, [=](int r, int p) {
							auto v = vec<double>(r, len), e = v;
							int block = (len + p - 1) / p;
							if (r == root)
								for (int i = 0; i < len; ++i)
									e[i] = V<double>::get(i / block, i);
							M::pointByPointGather(v, root, c);
							same(v, e, "gather" + mark(r));
						});
						for (int b = 0; b < P; ++b)
							if (b != root && root < P)
								scenario("long send to " + std::to_string(b) + w, n, c, sync, -1, [=](int r, int) {
									auto v = vec<double>(r, r == root ? len : 3);
									auto z = vec<Z>(r, r == root ? len : 0);
									if (r == root) {
										M::send(v, b, 3, c);
										M::send(z, b, 4, c);
									} else if (r == b) {
										M::recv(v, root, 3, c);
										M::recv(z, root, 4, c);
									}
									same(v, vec<double>(r == b ? root : r, r == b || r == root ? len : 3), "send" + mark(r));
									same(z, vec<Z>(r == b ? root : r, r == b || r == root ? len : 0), "send complex" + mark(r));
								});
					}
			}
	mc::run("environment", []() {
		mc::eq(infoOf({}, {}), std::string(""), "no keys");
		mc::eq(infoOf({ "a", "bb" }, { "x", "yy" }), std::string("MPI_INFO_ENV key=a value=x\nMPI_INFO_ENV key=bb value=yy\n"), "two keys");
		mc::eq(infoOf({ "a", "b" }, { "", "y" }), std::string("MPI_INFO_ENV key=b value=y\n"), "a key without value is left out");
		std::string k(MPI_MAX_INFO_KEY, 'k'), v(MPI_MAX_INFO_VAL - 1, 'v');
		mc::eq(infoOf({ k }, { v }), "MPI_INFO_ENV key=" + k + " value=" + v + "\n", "longest key and value");
		std::ostringstream o;
		mpifake::World w;
		w.comms[MPI_COMM_WORLD] = { 0 };
		mpifake::w() = &w;
		M::version(o);
		mc::check(o.str().find("MPI version=3.1\n") != std::string::npos, "version");
		auto* old = std::cout.rdbuf(o.rdbuf());
		{
			int argc = 0;
			char** argv = 0;
			Concurrency conc(&argc, &argv, 2);
			mc::check(Concurrency::hasMpi() && Concurrency::hasPthreads(), "mode");
			mc::eq(Concurrency::storageSize(3), (SizeType)3, "storage with threads and message passing");
			mc::eq(w.inits, 1, "MPI_Init calls");
			Concurrency::mpiDisable("here");
			mc::check(Concurrency::isMpiDisabled("here") && !Concurrency::isMpiDisabled("there"), "disabled labels");
			SizeType rk = 3, bs = 5;
			Concurrency::mpiDisableIfNeeded(rk, bs, "there", 9);
			mc::check(rk == 3 && bs == 5, "a label that is not disabled changes nothing");
			Concurrency::mode = Concurrency::MPI;
			Concurrency::mpiDisableIfNeeded(rk, bs, "here", 9);
			mc::check(rk == 0 && bs == 9, "a disabled label puts all tasks on rank 0");
			Concurrency::mode = Concurrency::PTHREADS_AND_MPI;
			mc::mustThrow([&]() { Concurrency::mpiDisableIfNeeded(rk, bs, "here", 9); }, "disabled label with threads");
		}
		std::cout.rdbuf(old);
		mc::eq(w.finals, 1, "MPI_Finalize calls");
		mpifake::w() = nullptr;
	});
}
