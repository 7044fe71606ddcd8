// g02_body.h: couplings of every lattice, from numbered connectors, against the input.
#pragma once
#include "lattice.h"
#include "InputNg.h"
#include "InputCheckBase.h"
#include <algorithm>
#include <fstream>
#include <unistd.h>
using namespace PsimagLite;
typedef std::complex<double> Z;
struct Globals {
	enum class ConnectionEnum { SYSTEM_SYSTEM, SYSTEM_ENVIRON, ENVIRON_SYSTEM, ENVIRON_ENVIRON };
};
typedef Globals::ConnectionEnum Side;
struct Check : public InputCheckBase {
	std::string import() const { return ""; }
	bool check(const String& label, const PsimagLite::Vector<String>::Type&, SizeType) const { return matrices && label.find("Connectors") != String::npos; }
	void check(const String&, const String&, SizeType) const { }
	bool matrices = false;
};
typedef InputNg<Check> Ng;

// the number in row a, column b of connector p of direction d of term t
template <typename T> T value(int t, int d, int p, int a, int b);
template <> double value<double>(int t, int d, int p, int a, int b) { return 1 + b + 4 * (a + 4 * (p + 64 * (d + 5 * t))); }
template <> Z value<Z>(int t, int d, int p, int a, int b) { return Z(value<double>(t, d, p, a, b), 0.5 + a + 3 * b + 20 * p + d); }
inline double cj(double x) { return x; }
inline Z cj(Z x) { return std::conj(x); }

struct Term {
	lat::Kind kind;
	lat::Opt opt;
	lat::Model model;
	int orbitals;
	bool constant;
	std::string text() const
	{
		return kind.name + " n" + mc::str(model.n) + opt.text() + " orb" + mc::str(orbitals) + (constant ? " constant" : "");
	}
};
template <typename T> T coupling(int t, const Term& x, int i, int a, int j, int b)
{
	const lat::Bond* e = i == j ? nullptr : x.model.find(i, j);
	if (!e)
		return 0;
	if (x.kind.name == "LongRange") // the matrix as given
		return value<T>(t, 0, 0, i * x.orbitals + a, j * x.orbitals + b);
	const int p = x.constant ? 0 : e->number;
	if (x.orbitals == 1)
		return value<T>(t, e->dir, p, 0, 0);
	T v = i > j ? value<T>(t, e->dir, p, a, b) : cj(value<T>(t, e->dir, p, b, a));
	return x.model.sign ? v * double(x.model.sign(i, j)) : v;
}
static int orbitalsOf(const Term& x, int site)
{
	return x.kind.name == "ktwoniffour" && site % 4 == 3 ? 1 : x.orbitals;
}
// a defect to plant in the input: which, 0 none
template <typename T> void fill(lat::Io& io, int t, int terms, const Term& x, int spoil = 0)
{
	const std::string p = terms > 1 ? "gt" + mc::str(t) + ":" : "";
	io.ver = 3;
	io.line[p + "DegreesOfFreedom"] = mc::str(spoil == 1 ? 0 : x.orbitals);
	io.line[p + "GeometryKind"] = spoil == 2 ? "lader" : x.kind.name;
	io.line[p + "GeometryOptions"] = x.constant ? "ConstantValues" : "none";
	if (spoil == 3)
		io.line[p + "GeometryValueModifier"] = "+:1";
	x.opt.put(io, p);
	if (x.kind.name == "LongRange") {
		io.line[p + "GeometryMaxConnections"] = "0";
		const int r = x.model.n * x.orbitals + (spoil == 4 ? 1 : spoil == 5 ? -1 : 0), c = x.model.n * x.orbitals + (spoil == 6 ? -1 : 0);
		auto &re = io.re[p + "Connectors"], &im = io.im[p + "Connectors"];
		io.shape[p + "Connectors"] = { r, c };
		for (int i = 0; i < r; ++i)
			for (int j = 0; j < c; ++j) {
				re.push_back(Z(value<T>(t, 0, 0, i, j)).real());
				im.push_back(Z(value<T>(t, 0, 0, i, j)).imag());
			}
		if (spoil == 7)
			io.line.erase(p + "GeometryMaxConnections");
		return;
	}
	for (int d = 0; d < x.model.dirs; ++d) {
		const std::string l = p + "dir" + mc::str(d) + ":Connectors";
		int n = x.constant ? 1 : d < (int)x.model.announced.size() ? x.model.announced[d] : 1;
		const bool last = d + 1 == x.model.dirs;
		if (x.orbitals == 1) {
			if (last && (spoil == 4 || spoil == 5))
				n += spoil == 4 ? 1 : -1;
			auto &re = io.re[l], &im = io.im[l];
			for (int k = 0; k < n; ++k) {
				re.push_back(Z(value<T>(t, d, k, 0, 0)).real());
				im.push_back(Z(value<T>(t, d, k, 0, 0)).imag());
			}
			if (last && spoil == 6)
				io.re.erase(l);
			continue;
		}
		if (n == 0)
			n = 1; // one is read all the same
		for (int k = 0; k < n; ++k) {
			const std::string lk = n > 1 ? l + mc::str(k) : l;
			const bool end = last && k + 1 == n;
			const int r = x.orbitals + (end && spoil == 4 ? 1 : 0), c = x.orbitals + (end && spoil == 5 ? -1 : 0);
			auto &re = io.re[lk], &im = io.im[lk];
			io.shape[lk] = { r, c };
			for (int a = 0; a < r; ++a)
				for (int b = 0; b < c; ++b) {
					re.push_back(Z(value<T>(t, d, k, a, b)).real());
					im.push_back(Z(value<T>(t, d, k, a, b)).imag());
				}
			if (end && spoil == 6)
				io.re.erase(lk);
		}
	}
}
template <typename T> std::string num(T x) { return mc::str(x); }

template <typename T, typename IoType> void compare(IoType& io, const std::vector<Term>& terms)
{
	typedef Geometry<T, IoType, Globals> G;
	G g(io);
	const int n = terms[0].model.n, nt = terms.size();
	mc::eq((int)g.numberOfSites(), n, "sites");
	mc::eq((int)g.terms(), nt, "terms");
	std::ostringstream printed, want;
	g.print(printed);
	SizeType most = 0;
	for (int t = 0; t < nt; ++t)
		most = std::max(most, g.maxConnections(t));
	mc::eq(g.maxConnections(), most, "largest number of connections of all terms");
	for (int t = 0; t < nt; ++t) {
		const Term& x = terms[t];
		mc::eq((int)g.directions(t), x.model.dirs, "directions");
		mc::eq(g.options(t), std::string(x.constant ? "ConstantValues" : "none"), "options");
		want << "#orbital changes first\n";
		for (int i = 0; i < n; ++i) {
			const int oi = orbitalsOf(x, i);
			mc::eq((int)g.orbitals(t, i), oi, "orbitals");
			for (int a = 0; a < oi; ++a) {
				for (int j = 0; j < n; ++j)
					for (int b = 0; b < orbitalsOf(x, j); ++b) {
						const T v = coupling<T>(t, x, i, a, j, b);
						if (x.model.find(i, j) && i != j)
							want << v << " ";
						else
							want << "0 ";
						const std::string w = mc::str(i) + "," + mc::str(a) + " to " + mc::str(j) + "," + mc::str(b) + " in term " + mc::str(t);
						mc::near(Z(g(i, a, j, b, t)), Z(v), 1e-13, "coupling " + w);
						for (int smax = 0; smax + 1 < n; ++smax)
							if (g(smax, smax + 1, i, a, j, b, t) != g(i, a, j, b, t))
								mc::fail("coupling " + w + " split after " + mc::str(smax) + " is " + mc::str(g(smax, smax + 1, i, a, j, b, t)));
					}
				want << "\n";
			}
			for (int j = 0; j < n; ++j)
				if (const lat::Bond* b = i == j ? nullptr : x.model.find(i, j)) {
					mc::eq((int)g.calcDir(t, i, j), b->dir, "direction");
					if (x.model.numbered)
						mc::eq((int)g.handle(t, i, j), b->number, "bond number");
				}
		}
	}
	mc::eq(printed.str(), want.str(), "printed couplings");
	for (int smax = 0; smax + 1 < n; ++smax)
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j) {
				bool b = false;
				for (auto& x : terms)
					b |= i != j && x.model.find(i, j);
				if (g.connected(smax, smax + 1, i, j) != b)
					mc::fail(mc::str(i) + "-" + mc::str(j) + " connected, cut after " + mc::str(smax));
				const Side s = i <= smax ? (j <= smax ? Side::SYSTEM_SYSTEM : Side::SYSTEM_ENVIRON) : (j <= smax ? Side::ENVIRON_SYSTEM : Side::ENVIRON_ENVIRON);
				if (g.connectionKind(smax, i, j) != s)
					mc::fail("side of " + mc::str(i) + "-" + mc::str(j) + ", cut after " + mc::str(smax));
				mc::g().transitions += 2;
			}
	// while the lattice grows, the sites between system and environment are missing and the
	// environment is joined to the system as if it followed
	for (int t = 0; t < nt; ++t) {
		const Term& x = terms[t];
		const bool lr = x.kind.name == "LongRange", two = x.opt.leg == 2;
		if (!x.model.ends && !lr)
			continue;
		for (int smax = 1; smax + 2 < n; ++smax)
			for (int emin = smax + 2; emin < n; ++emin) {
				const int gap = emin - smax - 1;
				if (two && (gap % 2 || smax < 2 || n - emin < 3))
					continue; // these grow by as much on both sides
				for (int i = 0; i <= smax; ++i)
					for (int j = emin; j < n; ++j) {
						const lat::Bond *near = x.model.find(i, j - gap), *far = x.model.find(i, j);
						if (!near && far)
							continue; // unspecified: a bond over the missing sites
						const std::string w = mc::str(i) + " to " + mc::str(j) + " with " + mc::str(smax + 1) + ".." + mc::str(emin - 1) + " missing";
						if (near)
							mc::check(g.connected(smax, emin, i, j) && g.connected(smax, emin, j, i), w + ": not connected");
						for (int a = 0; a < x.orbitals; ++a)
							for (int b = 0; b < x.orbitals; ++b) {
								const T v = near ? coupling<T>(t, x, i, a, j - gap, b) : T(0);
								mc::near(Z(g(smax, emin, i, a, j, b, t)), Z(v), 1e-13, "coupling " + w);
								if (!lr && sizeof(T) == sizeof(double))
									mc::near(Z(g(smax, emin, j, b, i, a, t)), Z(v), 1e-13, "coupling " + w + ", opposite order");
							}
					}
			}
	}
}
template <typename T> void oneCase(const std::vector<Term>& terms, int spoil)
{
	lat::Io io;
	io.line["TotalNumberOfSites"] = mc::str(terms[0].model.n);
	io.line["NumberOfTerms"] = mc::str(terms.size());
	for (size_t t = 0; t < terms.size(); ++t)
		fill<T>(io, t, terms.size(), terms[t], t + 1 == terms.size() ? spoil : 0);
	// the user's own prefix stands before every name
	const std::string own = (terms.size() > 1 ? terms.size() % 2 == 0 : terms[0].model.n % 3 == 0) ? "mine:" : "";
	if (!own.empty()) {
		auto all = [&](auto& m) {
			auto was = m;
			m.clear();
			for (auto& p : was)
				m[own + p.first] = p.second;
		};
		all(io.line);
		all(io.re);
		all(io.im);
		all(io.shape);
		io.pre = own;
	}
	bool possible = spoil == 0;
	for (auto& x : terms)
		possible &= x.model.ok && (x.constant || x.model.numbered || x.kind.name == "LongRange");
	if (!possible) {
		mc::mustThrow([&] { Geometry<T, lat::Io, Globals> g(io); }, "an impossible input");
		return;
	}
	compare<T>(io, terms);
	mc::eq(io.pre, own, "prefix left behind");
}

