// N07: solver parameters (ParametersForSolver.h): every parameter, every subset of its
// entries present in the input, every index asked for; through the real input reader and
// through a plain table; alone and next to every other parameter's entries.
#undef USE_BOOST
#include "InputNg.h"
#include "InputCheckBase.h"
#include "ParametersForSolver.h"
#include "PlotParams.h"
#include "mc.h"
#include <map>
using namespace PsimagLite;
struct Check : public InputCheckBase {
	std::string import() const { return ""; }
	void check(const String&, const String&, SizeType) const { }
	bool check(const String&, const Vector<String>::Type&, SizeType) const { return false; }
};
typedef InputNg<Check> Ng;
typedef std::map<std::string, std::string> Table;
struct FakeIo {
	const Table& t;
	std::string get(const std::string& label)
	{
		auto it = t.find(label.substr(0, label.size() - 1));
		if (label.empty() || label.back() != '=' || it == t.end())
			throw RuntimeError("no " + label + "\n");
		return it->second;
	}
	void readline(String& s, String label) { s = get(label); }
	void readline(double& s, String label) { s = std::stod(get(label)); }
	void readline(SizeType& s, String label) { s = std::stoul(get(label)); }
	void readline(int& s, String label) { s = std::stoi(get(label)); }
};
static const char* NAMES[] = { "Steps", "MinSteps", "Eps", "StepsForEnergyConvergence", "EigsForStop", "Options", "OneOverA", "B", "Energy", "NoSaveLanczosVectors" };
static const int N = 10;
// the entry of parameter p that says v
static std::string value(int p, int v)
{
	switch (p) {
	case 2: return "0.00" + std::to_string(v + 1);
	case 5: return "opt" + std::to_string(v);
	case 6:
	case 7:
	case 8: return (v % 2 ? "-" : "") + std::to_string(v) + ".25";
	case 9: return std::to_string(v % 3 == 0 ? 0 : v % 3 == 1 ? 1 : 5);
	}
	return std::to_string(11 * v + 3);
}
template <typename P> std::string look(const P& s, int p)
{
	switch (p) {
	case 0: return mc::str(s.steps);
	case 1: return mc::str(s.minSteps);
	case 2: return mc::str(s.tolerance);
	case 3: return mc::str(s.stepsForEnergyConvergence);
	case 4: return mc::str(s.eigsForStop);
	case 5: return s.options;
	case 6: return mc::str(s.oneOverA);
	case 7: return mc::str(s.b);
	case 8: return mc::str(s.Eg);
	}
	return mc::str(int(s.lotaMemory));
}
static std::string canon(int p, const std::string& v)
{
	if (p == 5)
		return v;
	if (p == 9)
		return std::stoi(v) > 0 ? "0" : "1";
	if (p == 2 || (p >= 6 && p <= 8))
		return mc::str(std::stod(v));
	return v;
}
static std::string fallback(int p)
{
	static const char* d[] = { "200", "4", "", "1000000", "1", "none", "0", "0", "0", "1" };
	return p == 2 ? mc::str(1e-12) : d[p];
}
static std::string expected(const Table& t, const std::string& prefix, int p, int ind)
{
	auto has = [&](const std::string& l) { return t.count(l) > 0; };
	for (int j = ind; j >= 0; --j) {
		const std::string l = prefix + std::to_string(j) + NAMES[p];
		if (has(l))
			return canon(p, t.at(l));
	}
	if (has(prefix + NAMES[p]))
		return canon(p, t.at(prefix + NAMES[p]));
	return fallback(p);
}
static std::string show(const Table& t)
{
	std::string s;
	for (auto& e : t)
		s += e.first + "=" + e.second + ";";
	return s;
}
template <typename P> void compare(const P& s, const Table& t, const std::string& prefix, int ind, const char* how)
{
	for (int p = 0; p < N; ++p) {
		const std::string want = expected(t, prefix, p, ind), got = look(s, p);
		++mc::g().transitions;
		mc::fold(want);
		if (got != want)
			mc::fail("{" + show(t) + "} prefix " + prefix + " index " + std::to_string(ind) + " " + how + ": " + NAMES[p] + " is " + got + " expected " + want);
	}
	mc::check(s.weight == 0 && s.isign == 0, "weight and sign stay as they were");
}
static void one(const Table& t, const std::string& prefix, int ind, bool file = true)
{
	{
		FakeIo io { t };
		ParametersForSolver<double> s = ind == -1 ? ParametersForSolver<double>(io, prefix) : ParametersForSolver<double>(io, prefix, ind);
		compare(s, t, prefix, ind, "from a table");
	}
	if (!file)
		return;
	std::string text;
	for (auto& e : t)
		text += e.first + "=" + e.second + "\n";
	Check c;
	Ng::Writeable w(c, text);
	Ng::Readable io(w);
	ParametersForSolver<double> s(io, prefix, ind);
	compare(s, t, prefix, ind, "from an input file");
}
void mc::explore()
{
	const int K = mc::thorough() ? 6 : 4; // indices 0..K-1 may be present
	for (int p = 0; p < N; ++p)
		for (const std::string prefix : { "Lanczos", "Tridiag", "" })
			mc::run(std::string("entries of ") + NAMES[p] + " with prefix \"" + prefix + "\"", [&] {
				for (int mask = 0; mask < (2 << K); ++mask)
					for (int ind = -1; ind <= K + 1; ++ind) {
						Table t;
						for (int j = 0; j < K; ++j)
							if (mask >> j & 1)
								t[prefix + std::to_string(j) + NAMES[p]] = value(p, j + 1);
						if (mask >> K & 1)
							t[prefix + NAMES[p]] = value(p, 9);
						one(t, prefix, ind);
						// entries of another prefix say nothing
						Table u = t;
						u["Other" + std::to_string(0) + NAMES[p]] = value(p, 20);
						u[std::string("Other") + NAMES[p]] = value(p, 21);
						if (!(prefix == ""))
							u[NAMES[p]] = value(p, 22);
						one(u, prefix, ind);
						mc::tick();
					}
			});
	// two parameters at once: all pairs of subsets
	for (int p = 0; p < N; ++p)
		for (int q = 0; q < N; ++q)
			if (p < q)
				mc::run(std::string("entries of ") + NAMES[p] + " and " + NAMES[q], [&] {
					for (int a = 0; a < 16; ++a)
						for (int b = 0; b < 16; ++b)
							for (int ind = -1; ind <= 3; ++ind) {
								Table t;
								for (int j = 0; j < 3; ++j) {
									if (a >> j & 1)
										t["Lanczos" + std::to_string(j) + NAMES[p]] = value(p, j + 1);
									if (b >> j & 1)
										t["Lanczos" + std::to_string(j) + NAMES[q]] = value(q, j + 4);
								}
								if (a & 8)
									t[std::string("Lanczos") + NAMES[p]] = value(p, 9);
								if (b & 8)
									t[std::string("Lanczos") + NAMES[q]] = value(q, 10);
								one(t, "Lanczos", ind, mc::thorough() || a == b);
							}
				});
	mc::run("two-digit indices", [&] {
		for (int p = 0; p < N; ++p)
			for (int x = 0; x <= 13; ++x)
				for (int y = x; y <= 13; ++y)
					for (int ind = 0; ind <= 14; ++ind) {
						Table t;
						t["Lanczos" + std::to_string(x) + NAMES[p]] = value(p, x);
						t["Lanczos" + std::to_string(y) + NAMES[p]] = value(p, y);
						one(t, "Lanczos", ind);
					}
	});
	// every parameter at once, each with its own set of entries, in words over the subsets
	for (int seed = 0; seed < (mc::thorough() ? 512 : 64); ++seed)
		mc::run("all parameters, arrangement " + std::to_string(seed), [&] {
			for (const std::string prefix : { "Lanczos", "A0", "7" })
				for (int ind = -1; ind <= 4; ++ind) {
					Table t;
					for (int p = 0; p < N; ++p) {
						const int mask = (seed * (2 * p + 1) + 5 * p + seed / 16) % 16;
						for (int j = 0; j < 3; ++j)
							if (mask >> j & 1)
								t[prefix + std::to_string(j) + NAMES[p]] = value(p, 13 * p + j + 1);
						if (mask & 8)
							t[prefix + NAMES[p]] = value(p, 13 * p + 9);
					}
					one(t, prefix, ind);
				}
		});
	for (int p = 0; p < N; ++p)
		mc::run(std::string("long lists of indices, ") + NAMES[p], [&] {
			for (int x : { 0, 9, 98, 99, 100, 101, 120 })
				for (int y : { 2, 99, 100, 130 })
					for (int ind : { 8, 10, 99, 100, 101, 126 }) {
						Table t;
						t["Lanczos" + std::to_string(x) + NAMES[p]] = value(p, x);
						t["Lanczos" + std::to_string(y) + NAMES[p]] = value(p, y);
						t[std::string("Lanczos") + NAMES[p]] = value(p, 7);
						mc::tick();
						one(t, "Lanczos", ind, x == 99 && ind < 102);
						mc::tick();
					}
		});
	mc::run("extreme values", [&] {
		for (int p = 0; p < N; ++p) {
			std::vector<std::string> vs;
			if (p == 5)
				vs = { "a,b,c", "none", "0", "-1", "a.b", std::string(300, 'x') };
			else if (p == 9)
				vs = { "0", "1", "-1", "2147483647" };
			else if (p == 2 || (p >= 6 && p <= 8))
				vs = { "0", "-0.5", "1e-300", "1e300", "-1e-15", "0.1", "3", "-7", "1.5e+2" };
			else
				vs = { "0", "1", "65536", "2147483647", "1000000" };
			for (auto& v : vs)
				for (int ind = -1; ind <= 2; ++ind) {
					Table t;
					t["Tridiag" + std::string(ind > 0 ? "1" : "") + NAMES[p]] = v;
					one(t, "Tridiag", ind);
				}
		}
	});
	mc::run("no input", [] {
		ParametersForSolver<double> s;
		mc::eq(s.options, std::string(""), "options");
		mc::check(!s.lotaMemory, "lotaMemory");
		for (int p = 0; p < 9; ++p)
			if (p != 5)
				mc::eq(look(s, p), fallback(p), NAMES[p]);
	});
	mc::run("plot parameters", [] {
		PlotParams<double> p(-1.5, 2.5, 0.25, 0.125, 7, 9);
		mc::eq(p.omega1, -1.5, "first frequency");
		mc::eq(p.omega2, 2.5, "last frequency");
		mc::eq(p.deltaOmega, 0.25, "step");
		mc::eq(p.delta, 0.125, "broadening");
		mc::eq(p.beta, 7.0, "inverse temperature");
		mc::eq(p.numberOfMatsubaras, SizeType(9), "number of Matsubara frequencies");
	});
}
