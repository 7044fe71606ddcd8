// G02: the couplings of every lattice when the input is written in the Ainur language, with
// the labels that the geometry declares for itself.
#define WITH_AINUR
#include "InputNg.h"
#include "g02_body.h"

struct Declares : public InputCheckBase {
	std::string text;
	std::string import() const { return text; }
	bool check(const String&, const PsimagLite::Vector<String>::Type&, SizeType) const { return false; }
	void check(const String&, const String&, SizeType) const { }
};
typedef InputNg<Declares> Ain;

static std::string number(double v)
{
	std::ostringstream s;
	s.precision(17);
	s << v;
	return s.str();
}
static std::string number(Z v)
{
	if (v.imag() == 0)
		return number(v.real());
	return number(v.real()) + "i" + number(v.imag());
}
template <typename T> std::string vec(const std::vector<T>& v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i)
		s += (i ? ", " : "") + number(v[i]);
	return s + "]";
}
template <typename T> std::string mat(int r, std::function<T(int, int)> f)
{
	std::string s = "[";
	for (int i = 0; i < r; ++i) {
		std::vector<T> v;
		for (int j = 0; j < r; ++j)
			v.push_back(f(i, j));
		s += (i ? ",\n" : "") + vec(v);
	}
	return s + "]";
}
template <typename T> std::string write(int t, int terms, const Term& x)
{
	const std::string p = terms > 1 ? "gt" + mc::str(t) + ":" : "";
	std::string s = p + "DegreesOfFreedom=" + mc::str(x.orbitals) + ";\n" + p + "GeometryKind=\"" + x.kind.name + "\";\n" + p + "GeometryOptions=\""
	    + (x.constant ? "ConstantValues" : "none") + "\";\n";
	lat::Io o;
	x.opt.put(o);
	for (auto& l : o.line) // those the geometry does not declare are declared by the user
		s += (l.first == "LadderLeg" || l.first == "LongChainDistance" || l.first == "BathSitesPerSite" ? "" : "integer ") + p + l.first + "=" + l.second + ";\n";
	if (x.kind.name == "LongRange")
		return s + "integer " + p + "GeometryMaxConnections=0;\nmatrix " + p + "Connectors=" + mat<T>(x.model.n * x.orbitals, [&](int i, int j) { return value<T>(t, 0, 0, i, j); }) + ";\n";
	for (int d = 0; d < x.model.dirs; ++d) {
		const std::string l = p + "dir" + mc::str(d) + ":Connectors";
		int n = x.constant ? 1 : d < (int)x.model.announced.size() ? x.model.announced[d] : 1;
		if (x.orbitals == 1) {
			std::vector<T> v;
			for (int k = 0; k < n; ++k)
				v.push_back(value<T>(t, d, k, 0, 0));
			s += l + "=" + vec(v) + ";\n";
			continue;
		}
		for (int k = 0; k < std::max(n, 1); ++k)
			s += (n > 1 ? "matrix " + l + mc::str(k) : l) + "=" + mat<T>(x.orbitals, [&](int a, int b) { return value<T>(t, d, k, a, b); }) + ";\n";
	}
	return s;
}
template <typename T> void through(const std::vector<Term>& terms)
{
	typedef Geometry<T, Ain::Readable, Globals> G;
	Declares check;
	check.text = G::import();
	std::string text = "##Ainur1.0\nTotalNumberOfSites=" + mc::str(terms[0].model.n) + ";\nNumberOfTerms=" + mc::str(terms.size()) + ";\n";
	for (size_t t = 0; t < terms.size(); ++t)
		text += write<T>(t, terms.size(), terms[t]);
	Ain::Writeable w(check, text);
	Ain::Readable io(w);
	compare<T>(io, terms);
	mc::eq(io.prefix(), std::string(), "prefix left behind");
}
void mc::explore()
{
	std::cerr.setstate(std::ios::failbit);
	std::cout.setstate(std::ios::failbit);
	std::vector<Term> pool;
	lat::each(mc::thorough() ? 12 : 8, [&](const lat::Kind& k, int n, const lat::Opt& o, const lat::Model& m) {
		if (!m.ok)
			return;
		for (int orb = 1; orb <= (k.name == "ktwoniffour" ? 2 : 3); ++orb)
			for (int constant = 0; constant < 2; ++constant) {
				Term x { k, o, m, orb, constant != 0 };
				bool empty = false; // a lattice with no bond in a direction has nothing to list
				for (int a : m.announced)
					empty |= a == 0 && !constant && orb == 1;
				if (empty || !(constant || m.numbered || k.name == "LongRange"))
					continue;
				mc::run(x.text(), [&] { through<double>({ x }); });
				mc::run(x.text() + " complex", [&] { through<Z>({ x }); });
				if ((n == 4 || n == 8) && o.px != 0 && o.py != 0 && o.dist != 0)
					pool.push_back(x);
			}
	});
	for (int nt = 2; nt <= 9; ++nt)
		for (size_t i = 0; i < pool.size(); i += mc::thorough() ? 1 : 3) {
			std::vector<Term> t;
			for (size_t k = i; (int)t.size() < nt; k += 1 + k % 5)
				if (pool[k % pool.size()].model.n == pool[i].model.n)
					t.push_back(pool[k % pool.size()]);
			mc::run(mc::str(nt) + " terms from " + mc::str(i) + " " + pool[i].text(), [&] { through<double>(t); });
		}
}
