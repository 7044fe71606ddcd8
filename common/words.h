// words.h: all words over an alphabet of tokens, up to a length, as mc cases.
#pragma once
#include "mc.h"
namespace words
{
typedef std::vector<std::string> Tokens;
// f(word, number of tokens) for every word of at most maxLen tokens
template <typename F> void below(const Tokens& a, int maxLen, const std::string& w, int len, F& f)
{
	f(w);
	if (len == maxLen)
		return;
	for (auto& t : a)
		below(a, maxLen, w + t, len + 1, f);
}
// one case per pair of leading tokens
template <typename F> void explore(const std::string& name, const Tokens& a, int maxLen, F f)
{
	auto one = [&](const std::string& w) {
		++mc::g().transitions;
		try {
			f(w);
		} catch (const mc::Violation& v) {
			throw mc::Violation { "\"" + w + "\": " + v.msg };
		} catch (const std::exception& e) {
			mc::fail("\"" + w + "\": unexpected exception: " + e.what());
		}
	};
	mc::run(name + " words of up to one token", [&] {
		one("");
		for (auto& t : a)
			one(t);
	});
	for (size_t i = 0; i < a.size(); ++i)
		for (size_t j = 0; j < a.size(); ++j)
			mc::run(name + " words up to " + std::to_string(maxLen) + " starting \"" + a[i] + "\" \"" + a[j] + "\"", [&] {
				below(a, maxLen, a[i] + a[j], 2, one);
				mc::tick();
			});
}
inline Tokens chars(const std::string& s)
{
	Tokens t;
	for (char c : s)
		t.push_back(std::string(1, c));
	return t;
}
}
