// P04: PsiBase64 against RFC 4648.
#include "PsiBase64.h"
#include "mc.h"
using namespace PsimagLite;

static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string b64(const std::string& s)
{
	std::string out;
	for (size_t i = 0; i < s.size(); i += 3) {
		unsigned v = (unsigned char)s[i] << 16;
		if (i + 1 < s.size())
			v |= (unsigned char)s[i + 1] << 8;
		if (i + 2 < s.size())
			v |= (unsigned char)s[i + 2];
		out += A[v >> 18];
		out += A[(v >> 12) & 63];
		out += i + 1 < s.size() ? A[(v >> 6) & 63] : '=';
		out += i + 2 < s.size() ? A[v & 63] : '=';
	}
	return out;
}
// the longest prefix of symbols, and the whole bytes they carry
static std::string refDecode(const std::string& s)
{
	std::string out;
	unsigned acc = 0;
	int bits = 0;
	for (unsigned char c : s) {
		size_t p = c ? A.find(c) : std::string::npos;
		if (p == std::string::npos)
			break;
		acc = (acc << 6) | p;
		bits += 6;
		if (bits >= 8) {
			bits -= 8;
			out += (char)(acc >> bits);
			acc &= (1u << bits) - 1;
		}
	}
	return out;
}
static std::string hex(const std::string& s)
{
	static const char* d = "0123456789abcdef";
	std::string o;
	for (unsigned char c : s)
		o += d[c >> 4], o += d[c & 15];
	return o;
}
static void checkBytes(const std::string& s)
{
	const std::string want = b64(s);
	++mc::g().transitions;
	if (PsiBase64::Encode(s)() != want)
		mc::fail("encoding of " + hex(s) + ": got " + PsiBase64::Encode(s)() + " expected " + want);
	unsigned char* heap = new unsigned char[s.size()]; // exact size: reads past it are seen
	memcpy(heap, s.data(), s.size());
	std::string e = PsiBase64::Encode(heap, s.size())();
	delete[] heap;
	if (e != want)
		mc::fail("encoding of the bytes " + hex(s) + ": got " + e + " expected " + want);
	if (PsiBase64::Decode(want)() != s)
		mc::fail("decoding " + want + ": got " + hex(PsiBase64::Decode(want)()) + " expected " + hex(s));
	if (PsiBase64::Decode(want + "=AAAA")() != s && s.size() % 3)
		mc::fail("decoding " + want + " went on after the padding");
	mc::fold(want);
}
static void checkText(const std::string& s)
{
	++mc::g().transitions;
	std::string got = PsiBase64::Decode(std::string(s.data(), s.size()))();
	if (got != refDecode(s))
		mc::fail("decoding the text " + hex(s) + ": got " + hex(got) + " expected " + hex(refDecode(s)));
	mc::fold(got);
}
template <typename F> void all(const std::string& alphabet, int len, const std::string& prefix, F f)
{
	std::string s(prefix);
	s.resize(prefix.size() + len, 0);
	std::vector<int> i(len, 0);
	while (true) {
		for (int k = 0; k < len; ++k)
			s[prefix.size() + k] = alphabet[i[k]];
		f(s);
		int d = len - 1;
		while (d >= 0 && ++i[d] == (int)alphabet.size())
			i[d--] = 0;
		if (d < 0)
			break;
	}
}
void mc::explore()
{
	std::string bytes;
	for (int i = 0; i < 256; ++i)
		bytes += (char)i;
	mc::run("empty", [&] { checkBytes(""), checkText(""); });
	// every byte string of up to 2 (thorough 3) bytes, every byte in every position of longer ones
	for (int b = 0; b < 256; ++b)
		mc::run("bytes starting " + std::to_string(b), [&] {
			for (int len = 0; len <= (mc::thorough() ? 2 : 1); ++len)
				all(bytes, len, std::string(1, (char)b), checkBytes);
			for (int len = 3; len <= 8; ++len)
				for (int pos = 0; pos < len; ++pos)
					for (unsigned char fill : { 0x00, 0xff, 0x55, 0xaa }) {
						std::string s(len, (char)fill);
						s[pos] = (char)b;
						checkBytes(s);
					}
		});
	// boundary alphabet, all strings
	const std::string bnd("\x00\x01\x3f\x40\x7f\x80\xfb\xff", 8);
	for (int a = 0; a < 8; ++a)
		for (int b = 0; b < 8; ++b)
			mc::run("boundary bytes " + std::to_string(a) + "," + std::to_string(b), [&] {
				for (int len = 0; len <= (mc::thorough() ? 5 : 3); ++len)
					all(bnd, len, { bnd[a], bnd[b] }, checkBytes);
			});
	// long strings, every length to 300
	for (int len = 0; len <= 300; ++len)
		mc::run("length " + std::to_string(len), [&] {
			for (int step : { 0, 1, 7, 85 }) {
				std::string s;
				for (int i = 0; i < len; ++i)
					s += (char)(i * step + len);
				checkBytes(s);
			}
		});
	// lengths around those where a count of bytes or of symbols outgrows 15 or 16 bits
	for (int base : { 24576, 32768, 49152, 65536, 98304, 131072, 196608 })
		for (int len = base - 4; len <= base + 4; ++len)
			mc::run("length " + std::to_string(len), [&] {
				std::string s;
				for (int i = 0; i < len; ++i)
					s += (char)(i * 7 + i / 251 + len);
				checkBytes(s);
			});
	// texts: every string of up to 4 symbols over the whole alphabet plus padding and strangers
	const std::string sym = A + "=\n _-\x80\xff" + std::string(1, 0);
	for (size_t a = 0; a < sym.size(); ++a)
		mc::run("texts starting " + std::to_string(a), [&] {
			for (int len = 0; len <= (mc::thorough() ? 3 : 2); ++len)
				all(sym, len, { sym[a] }, checkText);
		});
	const std::string few = "AZz9+/=-";
	for (int a = 0; a < 8; ++a)
		for (int b = 0; b < 8; ++b)
			mc::run("longer texts " + std::to_string(a) + "," + std::to_string(b), [&] {
				for (int len = 1; len <= (mc::thorough() ? 6 : 4); ++len)
					all(few, len, { few[a], few[b] }, checkText);
			});
	// stream output and store
	for (int len = 0; len < 8; ++len)
		mc::run("stream " + std::to_string(len), [&] {
			std::string s(len, 'q');
			std::ostringstream o;
			o << PsiBase64::Encode(s);
			mc::eq(o.str(), "#InputStartsHere\n" + b64(s) + "\n#InputEndsHere\n", "stream form");
		});
}
