// lattice.h: what each lattice is (bonds, directions, bond numbers), written down
// independently of the code, and an input that the lattices can be read from.
#pragma once
#ifndef WITH_AINUR
#undef USE_BOOST
#endif
#include <cassert>
#include <cmath>
#include "Vector.h"
#include "Geometry/Geometry.h"
#include "mc.h"
#include <map>
#include <memory>
#include <set>
namespace lat
{
struct Io { // stands for an input file
	std::map<std::string, std::string> line;
	std::map<std::string, std::vector<double>> re, im;
	std::map<std::string, std::pair<int, int>> shape;
	std::string pre;
	double ver = 2;
	std::set<std::string> used;
	const std::string& get(const std::string& l)
	{
		std::string k = pre + l.substr(0, l.find('='));
		used.insert(k);
		auto it = line.find(k);
		if (it == line.end())
			throw PsimagLite::RuntimeError("no line " + k + "\n");
		return it->second;
	}
	void readline(std::string& s, const std::string& l, bool = true) { s = get(l); }
	void readline(int& s, const std::string& l, bool = true) { s = std::stoi(get(l)); }
	void readline(SizeType& s, const std::string& l, bool = true) { s = std::stoi(get(l)); }
	void readline(double& s, const std::string& l, bool = true) { s = std::stod(get(l)); }
	static void num(double& x, double r, double) { x = r; }
	static void num(std::complex<double>& x, double r, double i) { x = { r, i }; }
	template <typename T, typename A> void read(std::vector<T, A>& v, const std::string& l)
	{
		std::string k = pre + l;
		used.insert(k);
		if (!re.count(k))
			throw PsimagLite::RuntimeError("no vector " + k + "\n");
		v.resize(re[k].size());
		for (size_t i = 0; i < v.size(); ++i)
			num(v[i], re[k][i], im.count(k) ? im[k][i] : 0);
	}
	template <typename T> void read(PsimagLite::Matrix<T>& m, const std::string& l)
	{
		std::string k = pre + l;
		used.insert(k);
		if (!re.count(k))
			throw PsimagLite::RuntimeError("no matrix " + k + "\n");
		auto s = shape[k];
		m.clear();
		m.resize(s.first, s.second);
		for (int i = 0; i < s.first; ++i)
			for (int j = 0; j < s.second; ++j)
				num(m(i, j), re[k][i * s.second + j], im.count(k) ? im[k][i * s.second + j] : 0);
	}
	std::string& prefix() { return pre; }
	std::string prefix() const { return pre; }
	double version() const { return ver; }
};

struct Bond {
	int dir, number; // number -1: not numbered
};
struct Model {
	bool ok = false; // false: the lattice must be refused
	bool numbered = true; // bonds have numbers
	bool ends = true; // fringe(): follows the definition of the documentation
	std::string why;
	int n = 0, dirs = 1;
	std::map<std::pair<int, int>, Bond> bonds; // i < j
	std::vector<int> announced; // connectors per direction
	// translation by one in each direction, if the lattice has it, and reflection
	std::vector<std::vector<int>> shift;
	std::vector<bool> shiftSymmetric;
	std::vector<int> lengths, mirror;
	std::function<int(int, int)> sign; // of i, j
	void add(int i, int j, int dir, int number)
	{
		if (i > j)
			std::swap(i, j);
		bonds.insert({ { i, j }, Bond { dir, number } });
	}
	const Bond* find(int i, int j) const
	{
		auto it = bonds.find({ std::min(i, j), std::max(i, j) });
		return it == bonds.end() ? nullptr : &it->second;
	}
};
struct Opt { // -1: no such line in the input
	int leg = -1, px = -1, py = -1, dist = -1, bath = -1, ly = -1, sign = -1;
	std::string text() const
	{
		std::string s;
		auto a = [&](const char* n, int v) {
			if (v != -1)
				s += std::string(" ") + n + mc::str(v);
		};
		a("leg", leg);
		a("px", px);
		a("py", py);
		a("d", dist);
		a("bath", bath);
		a("ly", ly);
		if (sign != -1)
			s += " sign" + mc::str(sign - 10);
		return s;
	}
	void put(Io& io, const std::string& p = "") const
	{
		auto a = [&](const char* n, int v) {
			if (v != -1)
				io.line[p + n] = mc::str(v);
		};
		a("LadderLeg", leg);
		a("IsPeriodicX", px);
		a("IsPeriodicY", py);
		a("LongChainDistance", dist);
		a("BathSitesPerSite", bath);
		a("HoneycombLy", ly);
		if (sign != -1)
			io.line[p + "SignChange"] = mc::str(sign - 10);
	}
};

inline Model chain(int n, const Opt& o)
{
	Model m;
	m.n = n;
	const int d = o.dist == -1 ? 1 : o.dist;
	if (d == 0 || d >= n)
		return m;
	m.ok = true;
	const bool p = o.px > 0;
	m.ends = !p;
	for (int i = 0; i + d < n; ++i)
		m.add(i, i + d, 0, i);
	if (p && 2 * d != n)
		for (int i = n - d; i < n; ++i)
			m.add(i, i + d - n, 0, i);
	m.announced = { p ? n : n - d };
	m.lengths = { n };
	m.shift.resize(1);
	m.shiftSymmetric = { p };
	for (int i = 0; i < n; ++i) {
		m.shift[0].push_back((i + 1) % n);
		m.mirror.push_back(n - 1 - i);
	}
	return m;
}
inline Model ladder(int n, const Opt& o, bool diagonals = false)
{
	Model m;
	m.n = n;
	const int L = o.leg;
	if (L < 1 || n % L != 0 || (L > 2 && o.py == -1) || (L == 2 && o.py > 0))
		return m;
	m.ok = true;
	m.dirs = diagonals ? 4 : 2;
	const bool px = o.px > 0, py = o.py > 0;
	const int lx = n / L;
	auto site = [&](int x, int y) { return y + x * L; };
	for (int x = 0; x < lx; ++x)
		for (int y = 0; y < L; ++y) {
			if (x + 1 < lx)
				m.add(site(x, y), site(x + 1, y), 0, site(x, y));
			if (y + 1 < L)
				m.add(site(x, y), site(x, y + 1), 1, py ? site(x, y) : x * (L - 1) + y);
			if (diagonals && x + 1 < lx) {
				if (y > 0)
					m.add(site(x, y), site(x + 1, y - 1), 2, x * (L - 1) + y - 1);
				if (y + 1 < L)
					m.add(site(x, y), site(x + 1, y + 1), 3, x * (L - 1) + y);
			}
		}
	if (px && lx > 1)
		for (int y = 0; y < L; ++y) // no second bond between the same sites
			m.add(site(lx - 1, y), site(0, y), 0, lx > 2 ? site(lx - 1, y) : -2);
	if (px && lx == 2)
		for (int y = 0; y < L; ++y)
			m.bonds[{ site(0, y), site(1, y) }].number = site(1, y);
	if (py && L > 2)
		for (int x = 0; x < lx; ++x)
			m.add(site(x, L - 1), site(x, 0), 1, site(x, L - 1));
	m.announced = { px ? n : n - L, py ? n : n - lx };
	m.ends = L <= 2 && !px && !py && (L == 2);
	if (diagonals) {
		m.announced.push_back(n - L);
		m.announced.push_back(n - L);
		return m;
	}
	m.lengths = { lx, L };
	m.shift.resize(2);
	m.shiftSymmetric = { px, py };
	for (int i = 0; i < n; ++i) {
		int x = i / L, y = i % L;
		m.shift[0].push_back(site((x + 1) % lx, y));
		m.shift[1].push_back(site(x, (y + 1) % L));
		m.mirror.push_back(site(lx - 1 - x, y));
	}
	return m;
}
// the first half of the bath, the cluster, the other half; the k-th bath sites of a half
// come together, in the order of the cluster's sites of that half
inline Model bath(int n, const Opt& o)
{
	Model m;
	m.n = n;
	const int b = o.bath;
	if (b < 0 || n % (1 + b) != 0)
		return m;
	const int c = n / (1 + b);
	if (b > 0 && c % 2 != 0)
		return m;
	Model l = ladder(c, o);
	if (!l.ok)
		return m;
	m.ok = true;
	m.dirs = 3;
	m.ends = false;
	const int first = c / 2 * b;
	for (auto& x : l.bonds)
		m.add(x.first.first + first, x.first.second + first, x.second.dir, x.second.number);
	for (int k = 0; k < b; ++k)
		for (int s = 0; s < c; ++s) {
			int bathSite = s < c / 2 ? k * (c / 2) + s : first + c + k * (c / 2) + s - c / 2;
			m.add(bathSite, first + s, 2, s * b + k);
		}
	m.announced = l.announced;
	m.announced.push_back(b * c);
	return m;
}
inline Model star(int n, const Opt&)
{
	Model m;
	m.n = n;
	m.ok = true;
	m.ends = false;
	for (int i = 0; i < n; ++i)
		if (i != 1 && n > 1)
			m.add(1, i, 0, std::max(i - 1, 0));
	m.announced = { n - 1 };
	return m;
}
// cells of two oxygens in x, two in y around each copper: X, Ya, Yb, Cu, with the X of the
// next cell on the other side
inline Model k2nif4(int n, const Opt& o)
{
	Model m;
	m.n = n;
	m.ok = true;
	m.ends = false;
	m.numbered = false;
	m.dirs = 4;
	auto add = [&](int i, int j, int dir) {
		if (i < n && j < n)
			m.add(i, j, dir, -1);
	};
	for (int k = 0; 4 * k < n; ++k) {
		const int X = 4 * k, Ya = X + 1, Yb = X + 2, Cu = X + 3, X2 = X + 4;
		add(X, Cu, 0);
		add(X2, Cu, 0);
		add(Ya, Cu, 1);
		add(Yb, Cu, 1);
		add(X, Ya, 2);
		add(X2, Yb, 2);
		add(X, Yb, 3);
		add(X2, Ya, 3);
	}
	const int change = o.sign - 10;
	m.sign = [change](int i, int j) {
		if (i > j)
			std::swap(i, j);
		const bool cu = i % 4 == 3 || j % 4 == 3;
		int s = cu && j - i == 1 ? -1 : 1; // the copper's later neighbours
		if (i % 8 == 4 || j % 8 == 4) // every second x oxygen is inverted
			s *= change;
		return s;
	};
	return m;
}
inline Model longrange(int n, const Opt&)
{
	Model m;
	m.n = n;
	m.ok = true;
	m.numbered = false;
	m.ends = false;
	for (int i = 0; i < n; ++i)
		for (int j = i + 1; j < n; ++j)
			m.add(i, j, 0, -1);
	m.lengths = { n };
	m.shift.resize(1);
	m.shiftSymmetric = { true };
	for (int i = 0; i < n; ++i) {
		m.shift[0].push_back((i + 1) % n);
		m.mirror.push_back(n - 1 - i);
	}
	return m;
}
// doc/honeycomb.tex: a column zigzags down with bonds y, z, x, z; columns are joined in x
// and y
inline Model honeycomb(int n, const Opt& o)
{
	Model m;
	m.n = n;
	const int L = o.ly;
	if (L < 4 || L % 4 != 0 || n % L != 0 || o.py == -1)
		return m;
	m.ok = true;
	m.numbered = false;
	m.ends = false;
	m.dirs = 3;
	const int lx = n / L;
	for (int x = 0; x < lx; ++x)
		for (int y = 0; y < L; ++y) {
			auto site = [&](int xx, int yy) { return xx % lx * L + yy; };
			const int s = site(x, y);
			const int down[] = { 1, 2, 0, 2 }; // y, z, x, z
			if (y + 1 < L || o.py > 0)
				m.add(s, site(x, (y + 1) % L), down[y % 4], -1);
			if (lx == 1 || (x + 1 == lx && o.px < 1))
				continue;
			if (y % 4 == 0)
				m.add(s, site(x + 1, y + 1), 0, -1);
			if (y % 4 == 3)
				m.add(s, site(x + 1, y - 1), 1, -1);
		}
	return m;
}
struct Kind {
	std::string name; // as in the input
	Model (*model)(int, const Opt&);
};
inline Model ladderPlain(int n, const Opt& o) { return ladder(n, o, false); }
inline Model ladderx(int n, const Opt& o) { return ladder(n, o, true); }
inline std::vector<Kind> kinds()
{
	return { { "chain", chain }, { "ladder", ladderPlain }, { "ladderx", ladderx }, { "ladderbath", bath },
		 { "star", star }, { "ktwoniffour", k2nif4 }, { "LongRange", longrange }, { "Honeycomb", honeycomb } };
}
// every kind with its options and sizes up to maxN
inline void each(int maxN, std::function<void(const Kind&, int, const Opt&, const Model&)> f)
{
	const std::vector<int> three { -1, 0, 1 };
	auto go = [&](const Kind& k, int n, const Opt& o) { f(k, n, o, k.model(n, o)); };
	for (auto& k : kinds())
		for (int n = 1; n <= maxN; ++n) {
			Opt o;
			if (k.name == "chain") {
				for (int px : three)
					for (int d = -1; d <= std::min(n + 1, 7); ++d) {
						o.px = px;
						o.dist = d;
						go(k, n, o);
					}
			} else if (k.name.substr(0, 6) == "ladder") {
				for (int px : three)
					for (int py : three)
						for (int leg = 0; leg <= 5; ++leg)
							for (int b = 0; b <= (k.name == "ladderbath" ? 7 : 0); ++b) {
								o.px = px;
								o.py = py;
								o.leg = leg;
								o.bath = k.name == "ladderbath" ? b : -1;
								go(k, n, o);
							}
			} else if (k.name == "Honeycomb") {
				for (int px : three)
					for (int py : three)
						for (int ly : { 0, 1, 2, 3, 4, 5, 6, 8, 12, 16 }) {
							o.px = px;
							o.py = py;
							o.ly = ly;
							go(k, n, o);
						}
			} else if (k.name == "ktwoniffour") {
				for (int s : { 9, 11 }) {
					o.sign = s;
					go(k, n, o);
				}
			} else
				go(k, n, o);
		}
}
}
