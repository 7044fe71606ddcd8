// Integers around the limits of the integer types, as text.
#ifndef VERIF_WIDE_H
#define VERIF_WIDE_H
#include <limits>
#include <string>
#include <vector>
namespace wide {
struct Word {
	std::string text;
	bool isInt; // an integer, written as one
	bool fits; // in 64 bits at all
	__int128 v;
};
inline std::string str(__int128 v)
{
	if (v < 0)
		return "-" + str(-v);
	std::string s;
	do
		s = char('0' + int(v % 10)) + s;
	while (v /= 10);
	return s;
}
inline std::vector<Word> words()
{
	std::vector<Word> r;
	for (int b : { 0, 7, 8, 15, 16, 24, 31, 32, 33, 53, 62, 63, 64, 65, 80 })
		for (int d = -2; d <= 2; ++d)
			for (int sign : { 1, -1 }) {
				__int128 v = sign * ((__int128(1) << b) + d);
				if (v == 0 && sign < 0)
					continue;
				r.push_back({ str(v), true, true, v });
				if (v >= 0 && d == 1)
					r.push_back({ "+" + str(v), true, true, v }), r.push_back({ "000" + str(v), true, true, v });
			}
	r.push_back({ "-0", true, true, 0 });
	r.push_back({ "99999999999999999999999999999999999999999999", true, false, 0 });
	r.push_back({ "-99999999999999999999999999999999999999999999", true, false, 0 });
	return r;
}
template <typename T> bool in(const Word& w)
{
	return w.isInt && w.fits && w.v >= __int128(std::numeric_limits<T>::min()) && w.v <= __int128(std::numeric_limits<T>::max());
}
// what is accepted must be exact; what is refused must not be a number that every
// implementation can hold (the top half of the unsigned range may be refused)
template <typename T> bool mustAccept(const Word& w) { return in<T>(w) && w.v <= __int128(std::numeric_limits<long>::max()); }
}
#endif
