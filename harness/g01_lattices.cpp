// G01: every lattice, size and option against the lattice written down by hand.
#include "lattice.h"
using namespace PsimagLite;
typedef GeometryBase<double, lat::Io> Base;

static std::unique_ptr<Base> make(const lat::Kind& k, int n, const lat::Opt& o)
{
	lat::Io io;
	o.put(io);
	if (k.name == "LongRange") {
		io.line["DegreesOfFreedom"] = "1";
		io.line["GeometryMaxConnections"] = "0";
		io.re["Connectors"].assign(n * n, 0.);
		io.shape["Connectors"] = { n, n };
		return std::unique_ptr<Base>(new LongRange<double, lat::Io>(n, "none", io));
	}
#define KIND(NAME, CLASS) \
	if (k.name == NAME) \
		return std::unique_ptr<Base>(new CLASS<double, lat::Io>(n, io));
	KIND("chain", LongChain)
	KIND("ladder", Ladder)
	KIND("ladderx", LadderX)
	KIND("ladderbath", LadderBath)
	KIND("star", Star)
	KIND("ktwoniffour", KTwoNiFFour)
	KIND("Honeycomb", Honeycomb)
#undef KIND
	mc::fail("unknown kind");
}

static void lattice(const lat::Kind& k, int n, const lat::Opt& o, const lat::Model& m)
{
	std::unique_ptr<Base> g;
	bool threw = false;
	try {
		g = make(k, n, o);
	} catch (std::exception&) {
		threw = true;
	}
	mc::check(threw == !m.ok, threw ? "a possible lattice was refused" : "an impossible lattice was accepted");
	mc::fold((uint64_t)m.ok);
	if (threw)
		return;
	mc::eq((int)g->dirs(), m.dirs, "directions");
	std::vector<int> announced;
	for (int d = 0; d < m.dirs && m.numbered; ++d) {
		announced.push_back(g->getVectorSize(d));
		mc::eq(announced[d], m.announced[d], "connectors announced in direction " + mc::str(d));
	}
	std::set<std::pair<int, int>> numbers;
	int bonds = 0;
	for (int i = 0; i < n; ++i)
		for (int j = 0; j < n; ++j) {
			const std::string w = mc::str(i) + "-" + mc::str(j);
			const lat::Bond* b = i == j ? nullptr : m.find(i, j);
			mc::eq(g->connected(i, j), b != nullptr, w + " connected");
			if (!b)
				continue;
			mc::eq((int)g->calcDir(i, j), b->dir, w + " direction");
			if (m.numbered) {
				const int h = g->handle(i, j);
				mc::eq(h, b->number, w + " number");
				mc::check(h < announced[b->dir], w + ": number beyond those announced");
				if (i < j)
					mc::check(numbers.insert({ b->dir, h }).second, w + ": number used twice");
			}
			++bonds;
		}
	mc::eq(bonds, 2 * (int)m.bonds.size(), "number of bonds");
	// the fringe of a cut: the sites with a bond across it
	if (m.ends || k.name == "Honeycomb")
		for (int smax = k.name == "ladderx" || k.name == "ladder" ? 1 : 0; smax + 1 < n - 1; ++smax) {
			if ((k.name == "ladder" || k.name == "ladderx") && (smax + 3 >= n || smax < 2))
				continue; // these look at whole columns around the cut
			for (int i = 0; i < n; ++i) {
				bool across = false;
				for (int j = 0; j < n; ++j)
					across |= m.find(i, j) && ((i <= smax) != (j <= smax));
				if (k.name == "ladder") { // may name a neighbour that has no bond across
					if (across)
						mc::check(g->fringe(i, smax, smax + 1), mc::str(i) + " is on the fringe of the cut after " + mc::str(smax));
				} else if (k.name != "ladderx" || across)
					mc::eq(g->fringe(i, smax, smax + 1), across, mc::str(i) + " on the fringe of the cut after " + mc::str(smax));
			}
		}
	for (size_t d = 0; d < m.shift.size(); ++d) {
		mc::eq((int)g->length(d), m.lengths[d], "length in direction " + mc::str(d));
		std::vector<int> at(n);
		for (int i = 0; i < n; ++i)
			at[i] = i;
		for (int amount = 0; amount <= 2 * n; ++amount) {
			for (int i = 0; i < n; ++i)
				mc::eq((int)g->translate(i, d, amount), at[i], mc::str(i) + " translated by " + mc::str(amount) + " in " + mc::str(d));
			if (m.shiftSymmetric[d])
				for (int i = 0; i < n; ++i)
					for (int j = 0; j < i; ++j)
						if (g->connected(i, j) != g->connected(g->translate(i, d, amount), g->translate(j, d, amount)))
							mc::fail("a translation changed the bonds of " + mc::str(i) + "-" + mc::str(j));
			for (int i = 0; i < n; ++i)
				at[i] = m.shift[d][at[i]];
		}
	}
	for (size_t i = 0; i < m.mirror.size(); ++i) {
		mc::eq((int)g->findReflection(i), m.mirror[i], "reflection of " + mc::str(i));
		for (size_t j = 0; j < i; ++j)
			mc::check(g->connected(i, j) == g->connected(g->findReflection(i), g->findReflection(j)), "a reflection changed the bonds");
	}
}

void mc::explore()
{
	std::cerr.setstate(std::ios::failbit); // the lattices talk
	std::cout.setstate(std::ios::failbit);
	lat::each(mc::thorough() ? 48 : 24, [](const lat::Kind& k, int n, const lat::Opt& o, const lat::Model& m) {
		mc::run(k.name + " n" + mc::str(n) + o.text(), [&] { lattice(k, n, o, m); });
	});
}
