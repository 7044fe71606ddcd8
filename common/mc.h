// mc.h: bounded-exhaustive exploration of the real code.
// A harness enumerates cases deterministically; every case has a unique key (a
// readable description) that alone determines what is run. Cases are split over
// shards by the hash of the key, so the union of the shards is the whole space and
// every distinct case is run exactly once. mc::run executes one case on the real
// code; the checks made inside it compare with the reference model.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc
{
struct Violation {
	std::string msg;
};

struct Note { // shared with run.py: which case is running
	volatile uint64_t counter;
	volatile uint64_t len;
	char text[8192];
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; ++i) {
		h ^= c[i];
		h *= 1099511628211ull;
	}
	return h;
}
inline uint64_t mix(uint64_t h)
{
	h ^= h >> 33;
	h *= 0xff51afd7ed558ccdull;
	h ^= h >> 33;
	h *= 0xc4ceb9fe1a85ec53ull;
	h ^= h >> 33;
	return h;
}

struct Global {
	int shard = 0, nshards = 1;
	bool only = false, verbose = false, replaying = false;
	std::string onlyKey;
	std::unordered_set<std::string> skip;
	std::unordered_set<uint64_t> keys;
	std::unordered_set<uint64_t> states;
	uint64_t cases = 0, transitions = 0, completed = 0, schedules = 0, faults = 0;
	uint64_t digest = 0;
	std::vector<std::string> samples;
	std::vector<std::pair<std::string, std::string>> fails;
	bool thorough = false;
	Note* note = nullptr;
	std::string out;
	std::string curKey;
	bool capped = false;
	std::vector<std::pair<std::string, uint64_t>> extra;
	size_t maxFails = 40;
};
inline Global& g()
{
	static Global* G = new Global;
	return *G;
}
inline bool thorough() { return g().thorough; }
inline void fold(uint64_t x) { g().digest = mix(g().digest * 31 + x + 0x9e3779b97f4a7c15ull); }
inline void fold(const std::string& s) { fold(fnv(s.data(), s.size())); }
inline void fold(double d)
{ // rounded, so that the digest does not depend on the last bits
	fold((uint64_t)(int64_t)std::llround(std::max(-1e12, std::min(1e12, d)) * 1e4));
}

[[noreturn]] inline void fail(const std::string& msg) { throw Violation { msg }; }
inline void check(bool b, const std::string& msg)
{
	++g().transitions;
	if (!b)
		fail(msg);
}
inline void check(bool b, const char* msg)
{
	++g().transitions;
	if (!b)
		fail(msg);
}
template <typename T> std::string str(const T& x)
{
	std::ostringstream o;
	o.precision(17);
	o << x;
	return o.str();
}
template <typename T, typename A> std::string str(const std::vector<T, A>& v)
{
	std::string s = "[";
	for (size_t i = 0; i < v.size(); ++i)
		s += (i ? "," : "") + str((T)v[i]);
	return s + "]";
}
template <typename A, typename B> void eq(const A& got, const B& want, const std::string& what)
{
	++g().transitions;
	fold(str(want));
	if (!(got == want))
		fail(what + ": got " + str(got) + " expected " + str(want));
}
inline bool closeTo(std::complex<double> a, std::complex<double> b, double tol)
{
	return std::abs(a - b) <= tol * (1.0 + std::abs(b));
}
inline void near(std::complex<double> got, std::complex<double> want, double tol, const std::string& what)
{
	++g().transitions;
	fold(want.real());
	fold(want.imag());
	if (!(std::abs(got - want) <= tol * (1.0 + std::abs(want))))
		fail(what + ": got " + str(got) + " expected " + str(want));
}
inline void near(double got, double want, double tol, const std::string& what)
{
	++g().transitions;
	fold(want);
	if (!(std::fabs(got - want) <= tol * (1.0 + std::fabs(want))))
		fail(what + ": got " + str(got) + " expected " + str(want));
}
inline void addExtra(const std::string& name, uint64_t v)
{
	for (auto& p : g().extra)
		if (p.first == name) {
			p.second += v;
			return;
		}
	g().extra.push_back({ name, v });
}
// true if f() threw anything
template <typename F> bool throws(F f)
{
	try {
		f();
	} catch (const Violation&) {
		throw;
	} catch (...) {
		return true;
	}
	return false;
}
template <typename F> void mustThrow(F f, const std::string& what)
{
	++g().transitions;
	fold("throws");
	if (!throws(f))
		fail(what + ": accepted, an error was expected");
}
inline std::string jsonEsc(const std::string& s)
{
	std::string o;
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 32 || c > 126) {
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else
			o += c;
	}
	return o;
}

inline bool wanted(const std::string& key)
{
	Global& G = g();
	if (G.only)
		return key == G.onlyKey;
	if (G.capped)
		return false;
	static const char* dl = getenv("VERIF_DEADLINE");
	static const long deadline = dl ? atol(dl) : 0;
	if (deadline && time(nullptr) > deadline) {
		G.capped = true;
		return false;
	}
	uint64_t h = mix(fnv(key.data(), key.size()));
	if ((int)(h % G.nshards) != G.shard)
		return false;
	if (!G.keys.insert(h).second)
		return false;
	if (!G.skip.empty() && G.skip.count(key))
		return false;
	return true;
}

inline void setNote(const std::string& key)
{
	Global& G = g();
	G.curKey = key;
	if (G.note) {
		size_t n = std::min(key.size(), sizeof(G.note->text) - 1);
		memcpy((void*)G.note->text, key.data(), n);
		G.note->len = n;
		++G.note->counter;
	}
}
inline void count(uint64_t n) { g().transitions += n; }
inline void tick()
{
	if (g().note)
		++g().note->counter;
}

template <typename F> void run(const std::string& key, F body)
{
	Global& G = g();
	if (!wanted(key))
		return;
	++G.cases;
	setNote(key);
	G.digest = fnv("", 0);
	std::string bad;
	try {
		body();
		++G.completed;
	} catch (const Violation& v) {
		bad = v.msg;
	} catch (const std::exception& e) {
		bad = std::string("unexpected exception: ") + e.what();
	} catch (const char* e) {
		bad = std::string("unexpected exception (char*): ") + e;
	} catch (...) {
		bad = "unexpected exception of unknown type";
	}
	G.states.insert(G.digest);
	if (G.samples.size() < 3 || (G.cases & (G.cases - 1)) == 0) {
		if (G.samples.size() < 12)
			G.samples.push_back(key.substr(0, 300));
	}
	if (!bad.empty()) {
		if (G.only)
			fprintf(stderr, "FAIL %s\n  %s\n", key.c_str(), bad.c_str());
		G.fails.push_back({ key, bad });
		if (G.fails.size() >= G.maxFails)
			G.capped = true;
	}
}

void explore(); // given by the harness

inline void finish()
{
	Global& G = g();
	if (!G.out.empty()) {
		std::string tmp = G.out + ".tmp";
		{
			std::ofstream f(tmp);
			f << "{\"cases\":" << G.cases << ",\"completed\":" << G.completed
			  << ",\"transitions\":" << G.transitions << ",\"schedules\":" << G.schedules
			  << ",\"faults\":" << G.faults << ",\"capped\":" << (G.capped ? "true" : "false")
			  << ",\"samples\":[";
			for (size_t i = 0; i < G.samples.size(); ++i)
				f << (i ? "," : "") << "\"" << jsonEsc(G.samples[i]) << "\"";
			f << "],\"extra\":{";
			for (size_t i = 0; i < G.extra.size(); ++i)
				f << (i ? "," : "") << "\"" << jsonEsc(G.extra[i].first)
				  << "\":" << G.extra[i].second;
			f << "},\"fails\":[";
			for (size_t i = 0; i < G.fails.size(); ++i)
				f << (i ? "," : "") << "[\"" << jsonEsc(G.fails[i].first) << "\",\""
				  << jsonEsc(G.fails[i].second.substr(0, 4000)) << "\"]";
			f << "]}\n";
		}
		std::ofstream s(G.out + ".states", std::ios::binary);
		for (uint64_t x : G.states)
			s.write((const char*)&x, 8);
		s.close();
		rename(tmp.c_str(), G.out.c_str());
	}
}
inline std::string slurp(const std::string& path)
{
	std::ifstream f(path, std::ios::binary);
	std::ostringstream o;
	o << f.rdbuf();
	return o.str();
}
inline void init(int argc, char** argv)
{
	Global& G = g();
	const char* t = getenv("VERIF_TIER");
	G.thorough = t && !strcmp(t, "thorough");
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--shard") {
			std::string v = val();
			sscanf(v.c_str(), "%d/%d", &G.shard, &G.nshards);
		} else if (a == "--only") {
			G.only = true;
			G.onlyKey = val();
		} else if (a == "--only-file") {
			G.only = true;
			G.onlyKey = slurp(val());
		} else if (a == "--skip-file") { // keys separated by \0
			std::string s = slurp(val());
			size_t b = 0;
			while (b < s.size()) {
				size_t e = s.find('\0', b);
				if (e == std::string::npos)
					e = s.size();
				G.skip.insert(s.substr(b, e - b));
				b = e + 1;
			}
		} else if (a == "--out") {
			G.out = val();
		} else if (a == "--note") {
			int fd = open(val().c_str(), O_RDWR | O_CREAT, 0644);
			if (fd >= 0 && ftruncate(fd, sizeof(Note)) == 0)
				G.note = (Note*)mmap(0, sizeof(Note), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		} else if (a == "-v") {
			G.verbose = true;
		}
	}
}
} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv)
{
	mc::init(argc, argv);
	mc::explore();
	mc::finish();
	fflush(stdout);
	_exit(0);
}
#endif
