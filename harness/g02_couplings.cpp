// G02: the couplings of every lattice, from numbered connectors, against the input.
#include "g02_body.h"
// the same through a classic input file
template <typename T> void throughFile(const Term& x)
{
	static std::string dir = "/tmp/g02-" + mc::str(getpid());
	std::string text = "TotalNumberOfSites=" + mc::str(x.model.n) + "\nNumberOfTerms=1\nDegreesOfFreedom=" + mc::str(x.orbitals)
	    + "\nGeometryKind=" + x.kind.name + "\nGeometryOptions=" + (x.constant ? "ConstantValues" : "none") + "\n";
	lat::Io o;
	x.opt.put(o);
	for (auto& p : o.line)
		text += p.first + "=" + p.second + "\n";
	auto n2s = [](Z v) {
		std::ostringstream s;
		s.precision(17);
		if (v.imag() == 0)
			s << v.real();
		else
			s << v;
		return s.str();
	};
	if (x.kind.name == "LongRange") {
		const int r = x.model.n * x.orbitals;
		text += "GeometryMaxConnections=0\nConnectors " + mc::str(r) + " " + mc::str(r) + "\n";
		for (int i = 0; i < r; ++i) {
			for (int j = 0; j < r; ++j)
				text += n2s(value<T>(0, 0, 0, i, j)) + " ";
			text += "\n";
		}
	} else
		for (int d = 0; d < x.model.dirs; ++d) {
			int n = x.constant ? 1 : x.model.announced[d];
			if (x.orbitals == 1) {
				text += "Connectors " + mc::str(n);
				for (int k = 0; k < n; ++k)
					text += " " + n2s(value<T>(0, d, k, 0, 0));
				text += "\n";
				continue;
			}
			for (int k = 0; k < std::max(n, 1); ++k) {
				text += "Connectors " + mc::str(x.orbitals) + " " + mc::str(x.orbitals) + "\n";
				for (int a = 0; a < x.orbitals; ++a) {
					for (int b = 0; b < x.orbitals; ++b)
						text += n2s(value<T>(0, d, k, a, b)) + " ";
					text += "\n";
				}
			}
		}
	const std::string file = dir + ".inp";
	{
		std::ofstream f(file);
		f << text;
	}
	Check check;
	check.matrices = x.orbitals > 1 || x.kind.name == "LongRange";
	Ng::Writeable w(file, check);
	unlink(file.c_str());
	Ng::Readable io(w);
	compare<T>(io, { x });
}

// LongRange's other ways of giving the connectors
template <typename T> void longRange(int n, int dofs, int way, uint64_t code)
{
	const std::string k[] = { "compact", "entangler", "bad option" };
	mc::run("LongRange n" + mc::str(n) + " orb" + mc::str(dofs) + " " + k[way] + " " + mc::str(code) + (sizeof(T) > 8 ? " complex" : ""), [&] {
		lat::Io io;
		io.line["TotalNumberOfSites"] = mc::str(n);
		io.line["NumberOfTerms"] = "1";
		io.line["DegreesOfFreedom"] = mc::str(dofs);
		io.line["GeometryKind"] = "LongRange";
		io.line["GeometryOptions"] = way == 0 ? "compact" : way == 1 ? "none" : "Compact";
		const int r = n * dofs;
		std::vector<T> m(r * r);
		bool bad = way == 2;
		if (way == 1) {
			io.line["GeometryEntangler"] = "2.5";
			for (int i = 0; i < r; ++i)
				for (int j = i + 1; j < r; ++j)
					m[i * r + j] = 2.5;
		} else {
			io.line["GeometryMaxConnections"] = "3";
			// code: up to two entries, each a pair of site-orbitals, or something wrong
			const int per = r * r + 4, cols = dofs > 1 ? 5 : 3;
			auto &re = io.re["Connectors"], &im = io.im["Connectors"];
			int rows = 0;
			bool wide = false;
			for (uint64_t c = code, e = 0; e < 2; ++e, c /= per) {
				const int q = c % per;
				T v = value<T>(0, 0, e, 1, 2);
				double si = q % r / dofs, a = q % r % dofs, sj = q / r / dofs, b = q / r % dofs;
				if (q >= r * r) {
					si = 0, sj = n - 1, a = 0, b = dofs - 1;
					bad = true;
					if (q == r * r)
						sj = n;
					if (q == r * r + 1)
						si = 0.5;
					if (q == r * r + 2)
						si = -1;
					if (q == r * r + 3)
						wide = true;
				} else
					m[int(si * dofs + a) * r + int(sj * dofs + b)] = v;
				std::vector<double> row { si, a, sj, b };
				if (dofs == 1)
					row = { si, sj };
				for (double y : row) {
					re.push_back(y);
					im.push_back(0);
				}
				re.push_back(Z(v).real());
				im.push_back(Z(v).imag());
				++rows;
			}
			io.shape["Connectors"] = { rows, cols };
			if (wide) {
				re.resize(rows * (cols + 1));
				im.resize(rows * (cols + 1));
				io.shape["Connectors"] = { rows, cols + 1 };
			}
		}
		typedef Geometry<T, lat::Io, Globals> G;
		if (bad) {
			mc::mustThrow([&] { G g(io); }, "wrong connectors");
			return;
		}
		G g(io);
		for (int i = 0; i < n; ++i)
			for (int j = 0; j < n; ++j)
				for (int a = 0; a < dofs; ++a)
					for (int b = 0; b < dofs; ++b)
						mc::near(Z(g(i, a, j, b, 0)), i == j ? Z(0) : Z(m[(i * dofs + a) * r + j * dofs + b]), 1e-13,
						         "coupling " + mc::str(i) + "," + mc::str(a) + " to " + mc::str(j) + "," + mc::str(b));
	});
}

// the order in which blocks of sites are added: every site once, outer blocks last
static void blocks(int n, int per, bool all)
{
	lat::Io io;
	Term x { lat::Kind { "star", lat::star }, lat::Opt(), lat::star(n, lat::Opt()), 1, true };
	io.line["TotalNumberOfSites"] = mc::str(n);
	io.line["NumberOfTerms"] = "1";
	fill<double>(io, 0, 1, x);
	Geometry<double, lat::Io, Globals> g(io);
	typedef PsimagLite::Vector<SizeType>::Type VS;
	VS S, E;
	PsimagLite::Vector<VS>::Type X, Y;
	if (per > 1 && (n % per || n / per < 3)) {
		mc::mustThrow([&] { g.split(per, S, X, Y, E, all); }, "impossible blocks");
		return;
	}
	g.split(per, S, X, Y, E, all);
	std::vector<std::string> wantX, wantY;
	const int middle = (n + 1) / 2;
	auto block = [&](int k) {
		std::vector<int> b;
		for (int i = 0; i < per; ++i)
			b.push_back(k * per + i);
		return mc::str(b);
	};
	for (int k = 1; k + 1 < n / per; ++k) {
		if (k * per < middle || all)
			wantX.push_back(block(k));
		else
			wantY.insert(wantY.begin(), block(k));
	}
	std::string gx, gy, wx, wy;
	if (all) // the order within a block is left open here
		for (auto& b : X)
			std::sort(b.begin(), b.end());
	for (auto& b : X)
		gx += mc::str(std::vector<int>(b.begin(), b.end()));
	for (auto& b : Y)
		gy += mc::str(std::vector<int>(b.begin(), b.end()));
	for (auto& b : wantX)
		wx += b;
	for (auto& b : wantY)
		wy += b;
	mc::eq(mc::str(std::vector<int>(S.begin(), S.end())), block(0), "first block");
	mc::eq(mc::str(std::vector<int>(E.begin(), E.end())), block(n / per - 1), "last block");
	mc::eq(gx, wx, "blocks of the system");
	mc::eq(gy, wy, "blocks of the environment");
}

void mc::explore()
{
	std::cerr.setstate(std::ios::failbit);
	std::cout.setstate(std::ios::failbit);
	const int maxN = mc::thorough() ? 16 : 9;
	std::vector<Term> pool; // for several terms
	lat::each(maxN, [&](const lat::Kind& k, int n, const lat::Opt& o, const lat::Model& m) {
		if (k.name == "Honeycomb" && o.ly > 8)
			return;
		for (int orb = 1; orb <= (k.name == "ktwoniffour" ? 2 : 3); ++orb)
			for (int constant = 0; constant < 2; ++constant) {
				Term x { k, o, m, orb, constant != 0 };
				if (!m.ok && orb > 1)
					continue;
				mc::run(x.text(), [&] { oneCase<double>({ x }, 0); });
				mc::run(x.text() + " complex", [&] { oneCase<Z>({ x }, 0); });
				if (!m.ok)
					continue;
				for (int spoil = 1; spoil <= 7; ++spoil) {
					if (n > 6 || (spoil == 7 && k.name != "LongRange"))
						continue;
					if (!constant && m.numbered && orb == 1 && spoil == 5 && m.announced.back() == 0)
						continue;
					mc::run(x.text() + " spoilt " + mc::str(spoil), [&] { oneCase<double>({ x }, spoil); });
				}
				bool empty = false; // an input file cannot give no numbers
				for (int a : m.announced)
					empty |= a == 0 && !constant && orb == 1;
				if (n <= 8 && !empty && (constant || m.numbered || k.name == "LongRange")) {
					mc::run(x.text() + " file", [&] { throughFile<double>(x); });
					mc::run(x.text() + " file complex", [&] { throughFile<Z>(x); });
				}
				if (n == 4 && (constant || m.numbered || k.name == "LongRange") && o.px != 0 && o.py != 0 && o.dist != 0)
					pool.push_back(x);
			}
	});
	// larger lattices, with every option given
	lat::each(mc::thorough() ? 40 : 24, [&](const lat::Kind& k, int n, const lat::Opt& o, const lat::Model& m) {
		if (n <= maxN || !m.ok || o.px == -1 && k.name != "star" && o.leg > 0 || o.py < 0 && o.leg > 0 || (n > 12 && n % 4 && n != 15 && n != 21))
			return;
		for (int orb = 1; orb <= (n <= 12 && k.name != "ktwoniffour" ? 2 : 1); ++orb)
			for (int constant = 0; constant < 2; ++constant) {
				Term x { k, o, m, orb, constant != 0 };
				mc::run(x.text(), [&] { oneCase<double>({ x }, 0); });
				if (n <= 16)
					mc::run(x.text() + " complex", [&] { oneCase<Z>({ x }, 0); });
			}
	});
	for (int n : { 8, 16 }) // honeycombs larger than that
		for (int px = 0; px < 2; ++px)
			for (int orb = 1; orb <= 2; ++orb) {
				lat::Opt o;
				o.ly = 4;
				o.px = o.py = px;
				Term x { lat::Kind { "Honeycomb", lat::honeycomb }, o, lat::honeycomb(n, o), orb, true };
				mc::run(x.text(), [&] { oneCase<double>({ x }, 0); });
			}
	for (size_t i = 0; i < pool.size(); ++i)
		for (size_t j = 0; j < pool.size(); j += mc::thorough() ? 1 : 3)
			mc::run(pool[i].text() + " + " + pool[j].text(), [&] { oneCase<double>({ pool[i], pool[j] }, 0); });
	for (int nt : { 3, 4, 9, 10, 11, 12 }) // many terms
		for (size_t i = 0; i < pool.size(); i += mc::thorough() ? 1 : 4)
			mc::run(mc::str(nt) + " terms from " + mc::str(i) + " " + pool[i].text(), [&] {
				std::vector<Term> t;
				for (int k = 0; k < nt; ++k)
					t.push_back(pool[(i + k * 7 + k * k) % pool.size()]);
				oneCase<double>(t, 0);
				oneCase<Z>(t, 0);
			});
	for (int n = 1; n <= (mc::thorough() ? 4 : 3); ++n)
		for (int dofs = 1; dofs <= 2; ++dofs) {
			const int per = n * dofs * n * dofs + 4;
			for (int c = 0; c < per * per; ++c) {
				longRange<double>(n, dofs, 0, c);
				longRange<Z>(n, dofs, 0, c);
			}
			longRange<double>(n, dofs, 1, 0);
			longRange<Z>(n, dofs, 1, 0);
			longRange<double>(n, dofs, 2, 0);
		}
	for (int n = 2; n <= (mc::thorough() ? 60 : 36); ++n)
		for (int per = 1; per <= 7; ++per)
			for (int all = 0; all < 2; ++all)
				mc::run("blocks of " + mc::str(per) + " in " + mc::str(n) + (all ? " in the system" : ""), [&] { blocks(n, per, all); });
}
