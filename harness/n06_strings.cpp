// N06: option sets and text helpers.
#include "LabelDisabled.h"
#include "Options.h"
#include "PsimagLite.h"
#include "wide.h"
#include "words.h"
#include <regex>
#include <set>
using namespace PsimagLite;
typedef PsimagLite::Vector<String>::Type VS;

static std::vector<std::string> pieces(const std::string& s, const std::string& delim)
{
	std::vector<std::string> out;
	std::string t;
	for (char c : s)
		if (delim.find(c) != std::string::npos) {
			if (!t.empty())
				out.push_back(t);
			t.clear();
		} else
			t += c;
	if (!t.empty())
		out.push_back(t);
	return out;
}
static void options()
{
	const std::vector<std::string> known { "alpha", "al", "b", "none" };
	std::vector<std::string> toks(known);
	toks.insert(toks.end(), { ",", "phab", "" });
	toks.pop_back();
	const int more = mc::thorough();
	// every subset of the known ones registered
	words::explore("options", { "alpha", "al", "b", ",", "x" }, 6 + more, [&](const std::string& w) {
		for (int mask : { 0, 1, 5, 15 }) {
			VS reg;
			std::set<std::string> regset;
			for (int i = 0; i < 4; ++i)
				if (mask >> i & 1)
					reg.push_back(known[i]), regset.insert(known[i]);
			std::vector<std::string> want = pieces(w, ",");
			bool unknown = false;
			for (auto& x : want)
				unknown |= !regset.count(x);
			for (int mode : { Options::Writeable::DISABLED, Options::Writeable::PERMISSIVE, Options::Writeable::STRICT }) {
				Options::Writeable ow(reg, mode);
				bool strict = mode == Options::Writeable::STRICT && unknown;
				bool t = mc::throws([&] {
					Options::Readable r(ow, w);
					for (auto& x : { "alpha", "al", "b", "none", "x", "xx", "alb", "bx", "" }) {
						bool in = mode != Options::Writeable::DISABLED && std::find(want.begin(), want.end(), x) != want.end();
						if (r.isSet(x) != in)
							mc::fail("option " + std::string(x) + (in ? " not set" : " set"));
					}
					Options::Readable again(ow, "b"); // earlier texts leave nothing behind
					if (mask & 4)
						mc::check(!again.isSet("alpha") && again.isSet("b") == (mode != Options::Writeable::DISABLED), "a later option set is influenced by an earlier one");
				});
				if (!strict && mode == Options::Writeable::STRICT && !(mask & 4)) {
					mc::check(t, "unknown option b accepted"); // by `again`
					continue;
				}
				mc::check(t == strict, t ? "known options refused" : "unknown option accepted");
			}
		}
	});
	// LabelDisabled: a set of labels
	for (int k = 0; k < 64; ++k)
		mc::run("labels " + std::to_string(k), [&] {
			LabelDisabled d;
			const char* n[] = { "A", "AB", "B" };
			std::set<std::string> s;
			for (int i = 0, c = k; i < 3; ++i, c /= 4)
				if (c % 4 < 3)
					d.disable(n[c % 4]), s.insert(n[c % 4]);
			for (auto x : { "A", "AB", "B", "" })
				mc::eq((bool)d(x), s.count(x) > 0, std::string("label ") + x);
		});
}
static void text()
{
	const int more = mc::thorough();
	words::explore("split", words::chars("ab, :"), 6 + more, [](const std::string& w) {
		for (const char* d : { ",", ", ", " :,", "a", "" }) {
			VS t;
			t.push_back("kept"); // appends
			split(t, w, d);
			std::vector<std::string> want = pieces(w, d);
			want.insert(want.begin(), "kept");
			mc::check(std::vector<std::string>(t.begin(), t.end()) == want, std::string("split at \"") + d + "\"");
		}
		VS t;
		split(t, w);
		mc::check(std::vector<std::string>(t.begin(), t.end()) == pieces(w, " "), "split at blanks");
		mc::fold((uint64_t)t.size());
	});
	words::explore("replaceAll", words::chars("ab%"), 7 + more, [](const std::string& w) {
		for (const char* f : { "a", "b", "ab", "aa", "aba", "%b", "" })
			for (const char* t : { "", "a", "b", "aa", "xyz", "bab" }) {
				std::string from(f), want, got(w);
				for (size_t i = 0; i < w.size();)
					if (!from.empty() && w.compare(i, from.size(), from) == 0)
						want += t, i += from.size();
					else
						want += w[i++];
				replaceAll(got, f, t);
				mc::check(got == want, std::string("replace ") + f + " by " + t + ": got " + got);
			}
		mc::fold(w);
	});
	static const std::regex intRe("[0-9]+"), sintRe("[+-]?[0-9]+"), fltRe("[+-]?([0-9]+\\.?[0-9]*|\\.[0-9]+)([eE][+-]?[0-9]+)?");
	words::explore("numbers", words::chars("10.+-eE a"), 5 + more, [](const std::string& w) {
		const bool i = std::regex_match(w, intRe), s = std::regex_match(w, sintRe), f = std::regex_match(w, fltRe);
		mc::check(isAnInteger(w) == i, "isAnInteger");
		mc::check(isAfloat(w) == f, "isAfloat");
		if (s)
			mc::eq(PsimagLite::atoi(w), (int)std::stol(w), "atoi");
		else
			mc::mustThrow([&] { PsimagLite::atoi(w); }, "atoi of no integer");
		if (f) {
			double x = PsimagLite::atof(w), y = strtod(w.c_str(), 0);
			mc::check(x == y, "atof gives " + mc::str(x));
		} else
			mc::mustThrow([&] { PsimagLite::atof(w); }, "atof of no number");
		mc::fold((uint64_t)(4 * i + 2 * s + f));
	});
	words::explore("paths", words::chars("a./b"), 8 + more, [](const std::string& w) {
		size_t p = w.rfind('/');
		mc::eq(PsimagLite::basename(w), p == std::string::npos ? w : w.substr(p + 1), "basename");
		p = w.rfind('.');
		mc::eq(basenameOf(w), p == std::string::npos ? w : w.substr(0, p), "basenameOf");
	});
}
static void numbers()
{
	for (uint64_t hi = 0; hi < 64; ++hi)
		mc::run("log2 " + std::to_string(hi), [&] {
			auto one = [](SizeType x) {
				SizeType bits = 0;
				for (SizeType b = 0; b < 8 * sizeof(SizeType); ++b)
					if (x >> b & 1)
						bits = b + 1;
				if (log2Integer(x) != bits)
					mc::fail("number of binary digits of " + mc::str(x) + " is " + mc::str(log2Integer(x)));
				++mc::g().transitions;
			};
			for (uint64_t lo = 0; lo < 1024; ++lo)
				one(hi * 1024 + lo);
			if (hi < 8 * sizeof(SizeType))
				for (int d : { -1, 0, 1 })
					one((SizeType(1) << hi) + d);
			mc::fold(hi);
		});
	for (int a = 0; a <= 40; ++a)
		mc::run("division " + std::to_string(a), [&] {
			for (int b = 1; b <= 40; ++b) {
				if (a % b)
					mc::mustThrow([&] { integerDivision(a, b); }, "inexact division");
				else
					mc::eq((int)integerDivision(a, b), a / b, "division");
			}
		});
	mc::run("ttos", [&] {
		for (int x = -200; x <= 200; ++x) {
			mc::eq(ttos(x), std::to_string(x), "ttos");
			mc::eq(ttos((long)x * 12345678901L), std::to_string(x * 12345678901L), "ttos");
			mc::near(PsimagLite::atof(ttos(x * 0.123456789)), x * 0.123456789, 1e-9, "ttos and back");
		}
		mc::eq(ttos(String("word")), String("word"), "ttos of a word");
	});
}
static void limits()
{
	for (const wide::Word& w : wide::words())
		mc::run("limits " + w.text, [&] {
			int x = 77;
			bool t = mc::throws([&] { x = PsimagLite::atoi(w.text); });
			mc::check(t ? !wide::in<int>(w) : wide::in<int>(w) && x == (int)w.v, "atoi " + w.text);
			mc::eq(PsimagLite::isAnInteger(w.text), isdigit(w.text[0]) != 0, "isAnInteger");
			mc::check(PsimagLite::isAfloat(w.text), "isAfloat");
			mc::eq(PsimagLite::atof(w.text), std::strtod(w.text.c_str(), 0), "atof");
		});
}
static void larger()
{
	for (int n : { 5, 9, 10, 11, 31, 32, 33, 64, 65, 200 })
		for (int stride : { 1, 2, 3, 7 })
			mc::run("larger options " + std::to_string(n) + " stride " + std::to_string(stride), [&] {
				VS reg;
				auto name = [](int i) { return std::string(1 + i % 17, char('a' + i % 26)) + std::to_string(i / 26); };
				for (int i = 0; i < n; ++i)
					reg.push_back(name(i));
				std::string t;
				std::set<std::string> in;
				for (int i = 0; i < n; i += stride) {
					const int k = (i * 11 + 3) % n;
					t += (t.empty() ? "" : i % 5 ? "," : ",,") + name(k);
					in.insert(name(k));
				}
				for (int mode : { Options::Writeable::PERMISSIVE, Options::Writeable::STRICT, Options::Writeable::DISABLED }) {
					Options::Writeable ow(reg, mode);
					Options::Readable r(ow, t);
					for (int i = 0; i < n; ++i)
						mc::eq(r.isSet(name(i)), mode != Options::Writeable::DISABLED && in.count(name(i)) > 0, name(i) + " in " + t);
					bool thrown = mc::throws([&] { Options::Readable x(ow, t + ",unregistered"); });
					mc::eq(thrown, mode == Options::Writeable::STRICT, "unknown option at the end");
					thrown = mc::throws([&] { Options::Readable x(ow, "unregistered," + t); });
					mc::eq(thrown, mode == Options::Writeable::STRICT, "unknown option at the start");
					// strangers of many lengths, and known ones altered a little
					std::vector<std::string> strange;
					for (int len : { 1, 2, 3, 15, 16, 17, 31, 32, 33, 64, 100, 300 })
						strange.push_back(std::string(len, 'z') + "_");
					const std::string k = name((n - 1) / 2);
					for (const std::string& x : { k + "_", "_" + k, k + k + "-", k.substr(0, k.size() - 1) + "_", std::string(1, char(k[0] - 32)) + k.substr(1), k + ";" })
						strange.push_back(x);
					for (auto& x : strange) {
						thrown = mc::throws([&] {
							Options::Readable y(ow, t + "," + x + "," + k);
							mc::eq(y.isSet(x), mode != Options::Writeable::DISABLED, x + " set");
						});
						mc::eq(thrown, mode == Options::Writeable::STRICT, "unknown option " + x + " in the middle");
						mc::check(!r.isSet(x), x + " is set");
					}
				}
				LabelDisabled d;
				for (auto& x : in)
					d.disable(x);
				for (int i = 0; i < n; ++i)
					mc::eq((bool)d(name(i)), in.count(name(i)) > 0, "label " + name(i));
				mc::fold((uint64_t)(n * 10 + stride));
			});
	for (int n : { 9, 16, 100, 255, 256, 257, 1023, 1024, 5000 })
		for (int w : { 1, 2, 5, 40 })
			mc::run("larger text " + std::to_string(n) + " words of " + std::to_string(w), [&] {
				std::string t, u;
				VS words;
				for (int i = 0; i < n; ++i) {
					words.push_back(std::string(1 + i % w, char('a' + i % 23)));
					t += std::string(i % 4 ? 1 : 2, i % 3 ? ',' : ' ') + words.back();
					u += (i ? "%w" : "") + words.back();
				}
				VS got;
				split(got, t, ", ");
				mc::check(got == words, "split of a long text");
				got.clear();
				split(got, t + " ,,", " ,");
				mc::check(got == words, "split of a long text that ends in delimiters");
				for (const char* to : { "", "x", "%w%w", "a longer replacement" }) {
					std::string v(u), want;
					for (int i = 0; i < n; ++i)
						want += (i ? to : "") + words[i];
					replaceAll(v, "%w", to);
					mc::check(v == want, std::string("replaceAll by ") + to);
				}
				mc::eq(PsimagLite::basename("/" + u + "/" + t.substr(0, 20) + "/" + u), u, "basename");
				mc::eq(basenameOf(u + ".x.inp"), u + ".x", "basenameOf");
				mc::eq(basenameOf("a.b." + u), std::string("a.b"), "basenameOf");
				mc::eq(basenameOf("../a.b/" + u + "." + u), "../a.b/" + u, "basenameOf");
				mc::eq(basenameOf("." + u), std::string(), "basenameOf");
				mc::eq(PsimagLite::basename(u + "/"), std::string(), "basename");
				mc::fold((uint64_t)(n * 50 + w));
			});
}
void mc::explore()
{
	limits();
	if (!freopen("/dev/null", "w", stderr)) // warnings about unknown options
		return;
	options();
	larger();
	text();
	numbers();
}
