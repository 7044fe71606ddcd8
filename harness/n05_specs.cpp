// N05: operator and bra/ket specifications.
#include "PsimagLite.h"
#include "GetBraOrKet.h"
#include "OneOperatorSpec.h"
#include "words.h"
#include <regex>
using namespace PsimagLite;

struct State {
	bool ok = false, isKet = true;
	char kind = 'E';
	unsigned long sector = 0, level = 0;
	std::string text;
};
static bool digits(const std::string& s, size_t& i, unsigned long& v)
{
	size_t b = i;
	v = 0;
	while (i < s.size() && isdigit((unsigned char)s[i]))
		v = 10 * v + (s[i++] - '0');
	return i > b;
}
static State reference(const std::string& s)
{
	State r;
	r.text = s;
	const size_t l = s.size();
	if (l > 2 && s[0] == '|' && s[l - 1] == '>')
		r.text = s.substr(1, l - 2);
	else if (l > 2 && s[0] == '<' && s[l - 1] == '|')
		r.text = s.substr(1, l - 2), r.isKet = false;
	const std::string& t = r.text;
	if (t == "gs") {
		r.ok = true;
		return r;
	}
	if (t == "time") { // legacy name of P0
		r.ok = true;
		r.kind = 'P';
		return r;
	}
	size_t i = 0;
	if (!t.empty() && (t[0] == 'P' || t[0] == 'Q' || t[0] == 'R')) {
		r.kind = t[0] == 'Q' ? 'E' : t[0];
		i = 1;
		if (!digits(t, i, r.sector))
			return r;
	} else if (t.empty() || t[0] != 'X')
		return r;
	if (i < t.size() && t[i] == 'X' && r.kind != 'R') {
		++i;
		if (!digits(t, i, r.level))
			return r;
	}
	r.ok = i == t.size();
	return r;
}
static void braket(const std::string& w)
{
	State want = reference(w);
	bool t = false;
	try {
		GetBraOrKet g(w);
		if (!want.ok)
			mc::fail("accepted");
		mc::check(g.isKet() == want.isKet, "bra or ket");
		mc::eq(g.toString(), want.text, "text without brackets");
		mc::check(g.isPvector() == (want.kind == 'P'), "is a P vector");
		mc::check(g.isRvector() == (want.kind == 'R'), "is an R vector");
		if (want.kind == 'E') {
			mc::eq((unsigned long)g.sectorIndex(), want.sector, "sector");
			mc::eq((unsigned long)g.levelIndex(), want.level, "level");
			mc::mustThrow([&] { g.pIndex(); }, "index of a P vector asked of another");
		} else {
			mc::eq((unsigned long)g.pIndex(), want.sector, "P or R index");
			mc::mustThrow([&] { g.sectorIndex(); }, "sector asked of a P vector");
			mc::mustThrow([&] { g.levelIndex(); }, "level asked of a P vector");
		}
		mc::fold(want.sector * 1000 + want.level + want.kind);
	} catch (const mc::Violation&) {
		throw;
	} catch (const std::exception&) {
		t = true;
	}
	mc::check(t == !want.ok, "refused");
}
static void oper(const std::string& w)
{
	std::string label = w;
	bool tr = false, ok = true;
	unsigned long dof = 0;
	if (!label.empty() && label.back() == '\'')
		label.pop_back(), tr = true;
	size_t q = label.find('?');
	if (q != std::string::npos) {
		size_t i = q + 1;
		ok = digits(label, i, dof) && i == label.size();
		label = label.substr(0, q);
	}
	bool t = false;
	try {
		OneOperatorSpec o(w);
		if (!ok)
			mc::fail("accepted");
		mc::eq(o.label, label, "label");
		mc::eq((unsigned long)o.dof, dof, "degree of freedom");
		mc::check(o.transpose == tr, "transposition mark");
		mc::fold(label), mc::fold((uint64_t)dof);
	} catch (const mc::Violation&) {
		throw;
	} catch (const std::exception&) {
		t = true;
	}
	mc::check(t == !ok, "refused");
}
static void site(const std::string& w, char b, char e)
{
	size_t nb = std::count(w.begin(), w.end(), b), ne = std::count(w.begin(), w.end(), e);
	size_t pb = w.find(b), pe = w.find(e);
	if (nb == ne && nb > 1)
		return; // several sites: not defined
	const bool ok = nb == ne && (nb == 0 || pb < pe);
	bool t = false;
	try {
		auto s = OneOperatorSpec::extractSiteIfAny(w, b, e);
		if (!ok)
			mc::fail("accepted");
		mc::check(s.hasSiteString == (nb == 1), "has a site");
		mc::eq(s.root, nb ? w.substr(0, pb) + w.substr(pe + 1) : w, "name without site");
		mc::eq(s.siteString, nb ? w.substr(pb + 1, pe - pb - 1) : std::string(), "site");
		mc::fold(s.root);
	} catch (const mc::Violation&) {
		throw;
	} catch (const std::exception&) {
		t = true;
	}
	mc::check(t == !ok, "refused");
}
void mc::explore()
{
	const int more = mc::thorough();
	words::explore("braket", { "|", "<", ">", "P", "Q", "R", "X", "gs", "time", "0", "7", "13", "z" }, 5 + more, braket);
	words::explore("braket with brackets", { "P", "X", "Q", "R", "12", "3", "gs" }, 5, [](const std::string& w) {
		for (const char* o : { "|", "<", ">", "" })
			for (const char* c : { "|", "<", ">", "" })
				braket(o + w + c);
	});
	words::explore("operator", words::chars("aB?'0[-7"), 6 + more, oper);
	words::explore("site", words::chars("a[]0?'"), 7 + more, [](const std::string& w) { site(w, '[', ']'); });
	words::explore("site, other brackets", words::chars("a(){1}"), 6, [](const std::string& w) {
		site(w, '(', ')');
		site(w, '{', '}');
	});
	words::explore("number", words::chars("019-+. a"), 5 + more, [](const std::string& w) {
		bool ok = !w.empty() && w.find_first_not_of("0123456789") == std::string::npos;
		mc::check(OneOperatorSpec::isNonNegativeInteger(w) == ok, "is a non-negative integer");
		if (ok)
			mc::eq((long)OneOperatorSpec::strToNumberOrFail(w), std::stol(w), "value");
		else
			mc::mustThrow([&] { OneOperatorSpec::strToNumberOrFail(w); }, "no integer");
	});
	// larger numbers and longer names
	for (unsigned long v : { 10ul, 11ul, 99ul, 100ul, 101ul, 255ul, 256ul, 1000ul, 65535ul, 65536ul, 999999ul, 1000000ul, 12345678ul, 2147483646ul, 2147483647ul })
		mc::run("larger numbers " + std::to_string(v), [&] {
			const std::string n = std::to_string(v);
			for (const std::string& t : { "P" + n, "R" + n, "Q" + n, "X" + n, "Q" + n + "X" + n, "Q3X" + n, "Q" + n + "X2", "P" + n + "X1", "R" + n + "X1", "00" + n, "P00" + n, "Q0X0" + n, n, "P" + n + "z" })
				for (const char* o : { "|", "<", "" })
					for (const char* c : { "|", ">", "" })
						braket(o + t + c);
			for (const std::string& l : { std::string("c"), std::string(40, 'n') + "up", std::string("a_b+-*/") })
				for (const char* tr : { "", "'" }) {
					oper(l + "?" + n + tr);
					oper(l + "?0" + n + tr);
					oper(l + n + tr);
					oper(l + "?" + n + "x" + tr);
					site(l + "[" + n + "]" + tr, '[', ']');
					site(l + "[" + n + "]?" + n + tr, '[', ']');
					site(l + "(" + l + n + ")" + tr, '(', ')');
				}
			mc::eq((long)OneOperatorSpec::strToNumberOrFail(n), (long)v, "number");
		});
	// a name as users write it: label, site, degree of freedom and mark together
	for (int k = 0; k < 108; ++k)
		mc::run("together " + std::to_string(k), [&] {
			const char* lab[] = { "c", "nup", "S+" };
			const char* sit[] = { "", "[0]", "[12]" };
			const char* dof[] = { "", "?0", "?1", "?25" };
			const char* tr[] = { "", "'", "'" };
			const int a = k % 3, b = k / 3 % 3, c = k / 9 % 4, d = k / 36;
			std::string w = std::string(lab[a]) + (d < 2 ? std::string(sit[b]) : "") + dof[c] + tr[d] + (d < 2 ? "" : sit[b]);
			auto s = OneOperatorSpec::extractSiteIfAny(w);
			OneOperatorSpec o(s.root);
			mc::eq(o.label, std::string(lab[a]), w + ": label");
			mc::eq((int)o.dof, c < 2 ? 0 : c == 2 ? 1 : 25, w + ": degree of freedom");
			mc::check(o.transpose == (d > 0), w + ": transposition mark");
			mc::eq(s.siteString, std::string(b == 0 ? "" : b == 1 ? "0" : "12"), w + ": site");
		});
}
