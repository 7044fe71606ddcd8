// R01: run identifiers, command lines, progress messages, redirected output.
// The clock, the process number and the host name are supplied by the harness.
#include <algorithm>
#include <cassert>
#include "Vector.h"
#include "ApplicationInfo.h"
#include "Io/IoNg.h"
#include "ProgressIndicator.h"
#include "Profiling.h"
#include "PsimagLite.h"
#include "RedirectOutput.hh"
#include "mc.h"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
using mc::check;
using mc::eq;
typedef std::string S;

static bool fake = false;
static timeval fakeTime = { 0, 0 };
static pid_t fakePid = 0;
static S fakeHost;
static bool hostFails = false;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
	if (fake) {
		*tv = fakeTime;
		return 0;
	}
	timespec t;
	clock_gettime(CLOCK_REALTIME, &t);
	tv->tv_sec = t.tv_sec;
	tv->tv_usec = t.tv_nsec / 1000;
	return 0;
}
extern "C" pid_t getpid() noexcept { return fake && fakePid ? fakePid : (pid_t)syscall(SYS_getpid); }
extern "C" int gethostname(char* name, size_t len) noexcept
{
	if (hostFails)
		return -1;
	snprintf(name, len, "%s", fakeHost.c_str());
	return 0;
}
struct Fake {
	Fake(time_t s, suseconds_t u, pid_t p)
	{
		fake = true;
		fakeTime = { s, u };
		fakePid = p;
	}
	~Fake() { fake = false; }
};
S scratch; // this process's own directory
S slurp(const S& f)
{
	std::ifstream i(f);
	std::ostringstream o;
	o << i.rdbuf();
	return o.str();
}
void put(const S& f, const S& text)
{
	std::ofstream o(f);
	o << text;
}
struct Capture { // standard output
	std::ostringstream o;
	std::streambuf* old;
	std::ios::iostate st;
	Capture()
	    : old(std::cout.rdbuf(o.rdbuf()))
	    , st(std::cout.rdstate())
	{
		std::cout.clear();
	}
	~Capture()
	{
		std::cout.rdbuf(old);
		std::cout.clear(st);
	}
	S str() { return o.str(); }
};
S at3(time_t s, suseconds_t u)
{
	char b[64];
	snprintf(b, sizeof b, "%.3f", s + u / 1e6);
	return b;
}

// ---- identifiers
void identifier(time_t s, suseconds_t u, pid_t p)
{
	Fake f(s, u, p);
	PsimagLite::ApplicationInfo a("app");
	const S id = a.runId();
	check(id.size() >= 3, "too short: " + id);
	for (char c : id)
		check(c >= '0' && c <= '9', "not a number: " + id);
	unsigned long long n = 0;
	for (char c : id.substr(0, id.size() - 2)) {
		check(n <= (~0ull - 9) / 10, "number too large: " + id);
		n = 10 * n + (c - '0');
	}
	const int bits = __builtin_popcountll(n);
	const S want = S(bits < 10 ? "0" : "") + std::to_string(bits);
	eq(id.substr(id.size() - 2), want, "check digits of " + id);
	check(a.pid() == (unsigned)p, "process number");
}
void identifiers()
{
	const std::vector<int> pids { 1, 2, 17, 4321, 32767, 65536, 4194304, 2147483647 };
	const int block = 500;
	for (int u = 0; u < 1000000; u += block) {
		if (!mc::thorough() && u / block % 40 && u + block < 1000000)
			continue;
		for (int p : pids)
			mc::run("run identifiers at " + std::to_string(u) + " microseconds, process " + std::to_string(p), [=] {
				for (int k = u; k < u + block; ++k)
					identifier(1700000000, k, p);
			});
	}
	// times and processes found by search, whose identifiers have few bits: 7 to 11 of them
	const std::vector<std::pair<int, int>> few { { 110781, 1619867 }, { 407687, 3272588 }, { 544870, 1389095 }, { 711090, 165488 }, { 792887, 118871 }, { 908490, 4084579 }, { 13864, 576641 }, { 281580, 1675825 }, { 328538, 4019000 }, { 37756, 3075514 }, { 508110, 3326331 }, { 544862, 1389103 }, { 604607, 1332339 }, { 690511, 3819580 }, { 747199, 701263 }, { 777365, 3879050 }, { 785232, 3306472 }, { 910381, 1434121 }, { 119312, 2681107 }, { 124178, 3753037 }, { 154091, 3408511 }, { 15947, 3965022 }, { 15975, 3964994 }, { 163849, 2989668 }, { 180055, 990843 }, { 189285, 4052932 }, { 201109, 1026102 }, { 212153, 2970575 }, { 239062, 1774145 }, { 241823, 1523189 }, { 101383, 3600702 }, { 108529, 1403676 }, { 130048, 3932862 }, { 130054, 3932856 }, { 14187, 359856 }, { 147553, 149554 }, { 150463, 600737 }, { 15941, 3965028 }, { 15943, 3965026 }, { 15963, 3965006 }, { 180058, 990840 }, { 183566, 1502701 }, { 100877, 2684924 }, { 106064, 908211 }, { 108513, 1403692 }, { 116711, 762528 }, { 119296, 2681123 }, { 130072, 3932838 }, { 130110, 3932800 }, { 135260, 552788 }, { 136453, 3580972 }, { 139323, 3430844 }, { 143554, 466776 }, { 150427, 600773 } };
	for (auto& f : few)
		mc::run("run identifiers with few bits " + std::to_string(f.first) + " " + std::to_string(f.second), [=] { identifier(1700000000, f.first, f.second); });
	mc::run("run identifiers of successive processes", [] {
		for (int p = 1; p < 3000; ++p)
			identifier(0, 123456, p);
	});
}
void info()
{
	for (time_t s : { 0l, 1l, 1700000000l, 2147483647l, 2147483648l, 4102444800l })
		for (const S& h : std::vector<S> { "a", "host.name", S(100, 'x') }) {
			mc::run("information at " + std::to_string(s) + " on " + h, [=] {
				fakeHost = h;
				Fake f(s, 5, 77);
				PsimagLite::ApplicationInfo a("my app");
				struct tm t;
				const time_t now = s;
				localtime_r(&now, &t);
				char date[100];
				strftime(date, sizeof date, "%a %b %e %H:%M:%S %Y\n", &t);
				eq(a.getTimeDate(), S(date), "date");
				eq(a.hostname(), h, "host");
				eq(a.unixTime(), s, "time");
				eq(a.unixTime(true), 5, "microseconds");
				const S id = a.runId(), size = std::to_string(sizeof(SizeType));
				std::ostringstream o;
				o << a;
				eq(o.str(), S(date) + "Hostname: " + h + "\nRunID=" + id + "\nUnixTimeStart=" + std::to_string(s) + "\nSizeType=" + size + "\n", "printed");
				const S file = scratch + "/info.hdf5";
				{
					PsimagLite::IoNg::Out out(file, PsimagLite::IoNg::ACC_TRUNC);
					PsimagLite::IoNgSerializer& ser = out.serializer();
					a.write("ApplicationInfo", ser);
					fakeTime.tv_sec += 100;
					a.finalize();
					a.write("ApplicationInfo", ser);
				}
				eq(a.runId(), id, "identifier changed");
				std::ostringstream q;
				q << a;
				check(q.str().find("my app\n") == 0 && q.str().find("UnixTimeEnd=" + std::to_string(s + 100) + "\n") != S::npos, "printed at the end: " + q.str());
				{
					PsimagLite::IoNg::In in(file);
					S name, rid;
					in.read(name, "ApplicationInfo/Name");
					in.read(rid, "ApplicationInfo/RunId");
					eq(name, "my app", "recorded name");
					eq(rid, id, "recorded identifier");
					SizeType b = 0, e = 0;
					in.read(b, "ApplicationInfo/UnixTimeStart");
					in.read(e, "ApplicationInfo/UnixTimeEnd");
					eq((long)b, (long)s, "recorded start");
					eq((long)e, (long)s + 100, "recorded end");
				}
			});
		}
	mc::run("host without a name", [] {
		hostFails = true;
		const S h = PsimagLite::ApplicationInfo("x").hostname();
		hostFails = false;
		eq(h, "UNKNOWN", "host");
	});
	for (const S& v : std::vector<S> { "", "1", "a b" })
		mc::run("environment '" + v + "'", [=] {
			Capture c;
			PsimagLite::ApplicationInfo::setEnv("VERIF_R01", "old");
			PsimagLite::ApplicationInfo::setEnv("VERIF_R01", v);
			check(getenv("VERIF_R01") && S(getenv("VERIF_R01")) == v, "not set");
			eq(c.str(), "Set VERIF_R01=old\nSet VERIF_R01=" + v + "\n", "printed");
			mc::mustThrow([&] { PsimagLite::ApplicationInfo::setEnv("", v); }, "no name");
			mc::mustThrow([&] { PsimagLite::ApplicationInfo::setEnv("A=B", v); }, "name with an equal sign");
		});
}

// ---- command lines
int decode(char c)
{
	static const S abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	return abc.find(c);
}
void commands()
{
	const std::vector<S> words { "", "a", "-f", "a b", "x/y", "--long=1" };
	const int top = mc::thorough() ? 5 : 4;
	uint64_t total = 1;
	for (int n = 0; n <= top; ++n, total *= words.size())
		for (uint64_t i = 0; i < total; ++i)
			mc::run("command line " + std::to_string(n) + " " + std::to_string(i), [=] {
				std::vector<S> w { "./prog" };
				uint64_t x = i;
				for (int k = 0; k < n; ++k, x /= words.size())
					w.push_back(words[x % words.size()]);
				std::vector<char*> v;
				S want = "PsiApp: CmdLine: ";
				for (S& s : w) {
					v.push_back(&s[0]);
					want += s + " ";
				}
				v.push_back(nullptr);
				int argc = w.size();
				char** argv = v.data();
				PsimagLite::PsiApp app(n % 2 ? "dir/sub/name" : "name", &argc, &argv, 1);
				std::ostringstream o;
				app.printCmdLine(o);
				eq(o.str(), want + "\n", "command line");
				eq(app.name(), "name", "name");
			});
	for (int n : { 5, 17, 100, 1000 })
		for (int len : { 0, 1, 300, 5000 })
			mc::run("command line of " + std::to_string(n) + " words of length " + std::to_string(len), [=] {
				std::vector<S> w { "./prog" };
				for (int k = 1; k <= n; ++k)
					w.push_back(S(len, char(33 + k % 90)));
				std::vector<char*> v;
				S want = "PsiApp: CmdLine: ";
				for (S& s : w) {
					v.push_back(&s[0]);
					want += s + " ";
				}
				v.push_back(nullptr);
				int argc = w.size();
				char** argv = v.data();
				PsimagLite::PsiApp app("some/where/name", &argc, &argv, 1);
				std::ostringstream a, b;
				app.printCmdLine(a);
				app.printCmdLine(b);
				eq(a.str(), want + "\n", "command line");
				eq(b.str(), want + "\n", "command line again");
			});
	for (const S& p : std::vector<S> { "", "a", "/", "a/", "/a", "a/b", "//b", "a//b.x", "./q", "../..", "a b/c d" })
		mc::run("program name " + p, [=] {
			int argc = 1;
			char prog[] = "p";
			char* v[] = { prog, nullptr };
			char** argv = v;
			PsimagLite::PsiApp app(p, &argc, &argv, 1);
			eq(app.name(), p.find('/') == S::npos ? p : p.substr(p.rfind('/') + 1), "name");
			std::ostringstream a, b, c;
			app.checkMicroArch(a, "no such thing");
			check(a.str().find("WARNING") != S::npos && a.str().find("no such thing\n") != S::npos, "warning");
			const S arch = PsimagLite::MicroArchitecture().vendorId();
			app.checkMicroArch(b, arch);
			check(b.str().find("WARNING") == S::npos, "same architecture");
		});
	std::vector<int> sizes { 0, 1, 2, 3, 4, 5, 6, 7 };
	for (int n : { 8, 9, 10, 56, 57, 58, 75, 76, 77, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65537 })
		sizes.push_back(n);
	for (int n : sizes)
		for (int k = 0; k < 4; ++k)
			mc::run("echo " + std::to_string(n) + " " + std::to_string(k), [=] {
				S data;
				for (int i = 0; i < n; ++i)
					data += char(k == 0 ? 'a' + i : k == 1 ? '\n' : k == 2 ? 0 : 255 - i);
				const S file = scratch + "/echo";
				put(file, data);
				eq(PsimagLite::PsiApp::slurp(file), data, "slurp");
				std::ostringstream o, p, q;
				PsimagLite::PsiApp::echoBase64(o, file);
				const S head = "PsiApp::echoBase64: Echo of " + file + " in base64\n";
				check(o.str().substr(0, head.size()) == head, "heading " + o.str());
				PsimagLite::PsiApp::base64encode(p, data, false);
				eq(o.str().substr(head.size()), p.str(), "body");
				PsimagLite::PsiApp::base64encode(q, data, true);
				eq(q.str(), "PsiApp::echoBase64: Echo of [[data]] in base64\n" + p.str(), "flag");
				const S b = p.str();
				check(b.size() && b.back() == '\n', "end of line");
				S back;
				int acc = 0, bits = 0;
				for (char c : b) {
					if (c == '=' || c == '\n')
						break;
					acc = (acc << 6 | decode(c)) & 0xffffff;
					bits += 6;
					if (bits >= 8) {
						bits -= 8;
						back += char(acc >> bits & 255);
					}
				}
				eq(back, data, "echo decodes to something else");
			});
}

// ---- memory usage
void memory()
{
	const std::vector<S> lines { "VmPeak:\t  12 kB", "VmSize: 7 kB", "VmPeak: 99", "other", "", "Name:x y ", S(300, 'z') + " VmSize:3" };
	const int top = mc::thorough() ? 5 : 4;
	uint64_t total = 1;
	for (int n = 0; n <= top; ++n, total *= lines.size())
		for (uint64_t i = 0; i < total; ++i)
			for (int nl = 0; nl < (n ? 2 : 1); ++nl)
				mc::run("status file " + std::to_string(n) + " " + std::to_string(i) + (nl ? " complete" : " open"), [=] {
					std::vector<S> v;
					S text;
					uint64_t x = i;
					for (int k = 0; k < n; ++k, x /= lines.size()) {
						v.push_back(lines[x % lines.size()]);
						text += (k ? "\n" : "") + v.back();
					}
					const S file = scratch + "/status";
					put(file, text + (nl ? "\n" : ""));
					PsimagLite::MemoryUsage m(file);
					auto look = [&](const S& label) -> S {
						for (const S& l : v) {
							const size_t p = l.find(label);
							if (p == S::npos)
								continue;
							const S r = l.substr(p + label.size());
							const size_t q = r.find_first_not_of(" \t");
							return q == S::npos ? "" : r.substr(q);
						}
						return "NOT_FOUND";
					};
					for (const S& label : { "VmPeak:", "VmSize:", "Name:", "absent:" })
						eq(m.findEntry(label), look(label), S(label));
					put(file, "VmPeak: 1\n");
					eq(m.findEntry("VmSize:"), look("VmSize:"), "before update");
					m.update();
					eq(m.findEntry("VmPeak:"), "1", "after update");
					eq(m.findEntry("VmSize:"), "NOT_FOUND", "after update");
				});
	// any blanks before and after the value, any blanks and colons inside it
	for (int n = 0; n <= (mc::thorough() ? 9 : 7); ++n)
		for (int bits = 0; bits < (1 << n); ++bits)
			mc::run("blanks " + std::to_string(n) + " " + std::to_string(bits), [=] {
				S blanks;
				for (int k = 0; k < n; ++k)
					blanks += (bits >> k) & 1 ? '\t' : ' ';
				const S file = scratch + "/status";
				for (const S& value : { "12 kB", "1", "a: b", "12\t kB  x" })
					for (const S& after : { S(), S(" "), blanks }) {
						put(file, "Name:\tx\nVmPeak:" + blanks + value + after + "\nVmSize:\t9 kB\n");
						PsimagLite::MemoryUsage m(file);
						eq(m.findEntry("VmPeak:"), value + after, "value");
						eq(m.findEntry("VmSize:"), "9 kB", "next value");
					}
			});
	for (int n : { 1000, 40238, 40239, 40240, 40241, 100000 })
		mc::run("status file with a line of " + std::to_string(n), [=] {
			const S file = scratch + "/status";
			put(file, "A: " + S(n, 'x') + "\nB: 5\n");
			PsimagLite::MemoryUsage m(file);
			eq(m.findEntry("A:"), S(n, 'x'), "long");
			eq(m.findEntry("B:"), "5", "after the long line");
		});
	mc::run("status file that does not exist", [] {
		PsimagLite::MemoryUsage m(scratch + "/none");
		eq(m.findEntry("VmPeak:"), "NOT_FOUND", "entry");
		m.update();
		eq(m.findEntry(""), "", "entry");
	});
	mc::run("status of this process", [] {
		PsimagLite::MemoryUsage m;
		const S v = m.findEntry("VmSize:");
		check(v.size() > 3 && v.substr(v.size() - 3) == " kB" && v[0] >= '1' && v[0] <= '9', "VmSize " + v);
	});
	for (long s0 : { 0l, 5l, 1700000000l })
		for (long u0 : { 0l, 1l, 500000l, 999999l })
			for (long ds : { 0l, 1l, 100l })
				for (long u1 : { 0l, 250000l, 999999l })
					mc::run("elapsed " + std::to_string(s0) + " " + std::to_string(u0) + " " + std::to_string(ds) + " " + std::to_string(u1), [=] {
						Fake f(s0, u0, 3);
						PsimagLite::MemoryUsage m(scratch + "/none");
						fakeTime = { s0 + ds, u1 };
						const double want = ds + (u1 - u0) / 1e6;
						mc::near(m.time().millis(), want, 1e-9, "elapsed seconds");
						PsimagLite::MemoryUsage::TimeHandle sum(1, 500000);
						sum += m.time();
						mc::near(sum.millis(), want + 1.5, 1e-9, "sum");
					});
}

// ---- progress messages: all histories of a few operations
void progress()
{
	typedef PsimagLite::ProgressIndicator P;
	const int depth = mc::thorough() ? 6 : 4, ops = 8;
	uint64_t total = 1;
	for (int i = 0; i < depth; ++i)
		total *= ops;
	for (uint64_t h = 0; h < total; ++h)
		mc::run("progress history " + std::to_string(h), [=] {
			Fake f(100, 250000, 0);
			static bool active = false; // of the class; survives a failed history
			static S wantBuffer;
			const S name = "buffer" + std::to_string(getpid()) + ".txt";
			auto toggle = [&] {
				P::updateBuffer(10);
				if (active) {
					eq(slurp(name), wantBuffer + "\n", "buffer file");
					wantBuffer = "";
				}
				active = !active;
			};
			if (active) {
				P::updateBuffer(10);
				active = false;
				wantBuffer = "";
			}
			unlink(name.c_str());
			P p("Caller"), q("Other"), thread("Thread", 1);
			// the process started at some time before; find out with one message
			std::ostringstream os;
			S want;
			uint64_t x = h;
			auto base = P::time();
			const double zero = base.millis();
			auto prefix = [&](const S& c) {
				char b[64];
				snprintf(b, sizeof b, "%.3f", zero + (fakeTime.tv_sec - 100) + (fakeTime.tv_usec - 250000) / 1e6);
				return c + " [" + b + "]: ";
			};
			auto expect = [&](const S& t) {
				want += t;
				if (active)
					wantBuffer += t;
			};
			for (int i = 0; i < depth; ++i, x /= ops) {
				const S n = std::to_string(i);
				switch (x % ops) {
				case 0:
					p.print("part" + n, os);
					expect(prefix("Caller") + "part" + n);
					break;
				case 1:
					q.printline("line " + n + " ", os);
					expect(prefix("Other") + "line " + n + " \n");
					break;
				case 2: {
					PsimagLite::OstringStream m(3);
					m() << "stream " << n << " " << 0.5;
					p.printline(m, os);
					expect(prefix("Caller") + "stream " + n + " 0.5\n");
					break;
				}
				case 3:
					toggle();
					break;
				case 4: {
					Capture c;
					p.printMemoryUsage();
					const S t = c.str(), pre = prefix("Caller") + "Current virtual memory is ";
					check(t.compare(0, pre.size(), pre) == 0 && std::count(t.begin(), t.end(), '\n') == 1 && t.back() == '\n', "memory usage: " + t);
					check(t.find(" kB maximum was ") != S::npos, "memory usage: " + t);
					if (active)
						wantBuffer += t;
					break;
				}
				case 5: {
					PsimagLite::OstringStream m(6);
					m() << "no";
					thread.print("no", os);
					thread.printline("no", os);
					thread.printline(m, os);
					break;
				}
				case 6:
					fakeTime.tv_sec += 3;
					fakeTime.tv_usec = (fakeTime.tv_usec + 123000) % 1000000;
					break;
				case 7: {
					Capture c;
					{
						PsimagLite::Profiling a("Clock", "more " + n, std::cout), b("Last", std::cout);
						b.end("message");
						b.end("again"); // not twice
					}
					{
						PsimagLite::Profiling a("Empty", std::cout);
						a.end("");
					}
					const S t = prefix("Clock") + "starting clock more " + n + "\n" + prefix("Last") + "starting clock\n" + prefix("Last") + "stopping clock message\n" + prefix("Clock") + "stopping clock \n" + prefix("Empty") + "starting clock\n" + prefix("Empty") + "stopping clock \n";
					eq(c.str(), t, "profiling");
					if (active)
						wantBuffer += t;
					break;
				}
				}
				eq(os.str(), want, "messages after operation " + n);
			}
			if (active)
				toggle();
			unlink(name.c_str());
		});
}

// ---- long messages, many of them, precise numbers
void longProgress()
{
	typedef PsimagLite::ProgressIndicator P;
	for (int n : { 1, 2, 50, 1000 })
		for (int len : { 0, 1, 80, 4096, 100000 })
			for (int prec : { 1, 6, 12 }) {
				if (n * len > 1000000)
					continue;
				mc::run("progress " + std::to_string(n) + " messages of " + std::to_string(len) + " precision " + std::to_string(prec), [=] {
					Fake f(100, 250000, 0);
					P p("Caller with spaces");
					const double zero = P::time().millis();
					std::ostringstream os;
					S want;
					for (int i = 0; i < n; ++i) {
						fakeTime = { 100 + 37 * i, (250000 + 1000 * i) % 1000000 };
						char b[64];
						snprintf(b, sizeof b, "%.3f", zero + (fakeTime.tv_sec - 100) + (fakeTime.tv_usec - 250000) / 1e6);
						PsimagLite::OstringStream m(prec);
						m() << S(len, char('a' + i % 26)) << 1.0 / 3;
						char num[64];
						snprintf(num, sizeof num, "%.*g", prec, 1.0 / 3);
						want += "Caller with spaces [" + S(b) + "]: " + S(len, char('a' + i % 26)) + num + "\n";
						p.printline(m, os);
					}
					// one stream for messages of different lengths
					PsimagLite::OstringStream one(6);
					for (int k : { 3, 7, 0, 2, len % 50, 1 }) {
						char b[64];
						snprintf(b, sizeof b, "%.3f", zero + (fakeTime.tv_sec - 100) + (fakeTime.tv_usec - 250000) / 1e6);
						one() << S(k, 'r') << k;
						p.printline(one, os);
						want += "Caller with spaces [" + S(b) + "]: " + S(k, 'r') + std::to_string(k) + "\n";
					}
					eq(os.str(), want, "messages");
				});
			}
	// characters of all kinds
	for (int ch = 0; ch < 256; ++ch)
		mc::run("progress with character " + std::to_string(ch), [=] {
			Fake f(100, 250000, 0);
			P p("Caller");
			char b[64];
			snprintf(b, sizeof b, "%.3f", P::time().millis());
			const S text = S("ab") + char(ch) + "cd" + char(ch), pre = "Caller [" + S(b) + "]: ";
			std::ostringstream os;
			p.printline(text, os);
			p.print(text, os);
			PsimagLite::OstringStream m(6);
			m() << text;
			p.printline(m, os);
			eq(os.str(), pre + text + "\n" + pre + text + pre + text + "\n", "messages");
		});
}

// ---- redirected output: all crash points of short histories
void redirect()
{
	enum End { RETURN, NOW, ABORT };
	for (int mode = 0; mode < 2; ++mode)
		for (int unbuffered = 0; unbuffered < 2; ++unbuffered)
			for (int before = 0; before < 3; ++before)
				for (int messages = 0; messages <= 4; ++messages)
					for (int end = RETURN; end <= ABORT; ++end)
						for (int trouble = 0; trouble < 3; ++trouble) {
							std::ostringstream o;
							o << "redirect " << (mode ? "append" : "truncate") << (unbuffered ? " unbuffered" : " buffered") << " before=" << before << " messages=" << messages << " end=" << end << " trouble=" << trouble;
							mc::run(o.str(), [=] {
								const S file = scratch + "/log", term = scratch + "/terminal", other = scratch + "/other";
								put(file, "earlier\n");
								put(term, "");
								put(other, "");
								const S big(5000, 'b');
								auto text = [&](int k) { return k == 2 ? big + "\n" : "message " + std::to_string(k) + (k % 2 ? "\n" : ""); };
								S first, second;
								for (int k = 0; k < before; ++k)
									first += "before " + std::to_string(k) + "\n";
								for (int k = 0; k < messages; ++k)
									second += text(k);
								fflush(nullptr);
								const pid_t c = fork();
								if (c == 0) {
									alarm(100);
									const int fd = open(term.c_str(), O_WRONLY | O_TRUNC);
									dup2(fd, 1);
									std::cout.clear();
									signal(SIGABRT, SIG_DFL);
									typedef PsimagLite::RedirectOutput R;
									R::setAppName("app", "app2");
									for (int k = 0; k < before; ++k)
										std::cout << "before " << k << "\n";
									std::cout.flush();
									bool bad = false;
									if (trouble == 1) {
										try {
											R::doIt(scratch + "/no/such/directory", std::ios::out, true);
											bad = true;
										} catch (std::exception&) {
										}
										bad = bad || R().hasBeenRedirected();
									}
									if (R().hasBeenRedirected())
										bad = true;
									R::doIt(file, mode ? std::ios::app : std::ios::out, unbuffered);
									if (!R().hasBeenRedirected())
										bad = true;
									if (trouble == 2 && messages) {
										try { // redirected already
											R::doIt(other, std::ios::out, unbuffered);
											bad = true;
										} catch (std::exception&) {
										}
									}
									for (int k = 0; k < messages; ++k)
										std::cout << text(k);
									if (bad)
										_exit(9);
									if (end == NOW)
										_exit(0);
									if (end == ABORT) {
										kill((pid_t)syscall(SYS_getpid), SIGKILL);
									}
									std::exit(0);
								}
								int st = 0;
								waitpid(c, &st, 0);
								check(!(WIFEXITED(st) && WEXITSTATUS(st) == 9), "redirection refused or accepted wrongly");
								check(end == ABORT ? WIFSIGNALED(st) : WIFEXITED(st) && WEXITSTATUS(st) == 0, "process ended with " + std::to_string(st));
								const S got = slurp(file), want = (mode ? "earlier\n" : "") + second;
								if (end == RETURN || unbuffered)
									check(got == want, "file has " + std::to_string(got.size()) + " bytes instead of " + std::to_string(want.size()) + ": " + got.substr(0, 60));
								else // what was written so far, nothing else
									check(got == want.substr(0, got.size()), "not the beginning of the messages: " + got.substr(0, 60));
								eq(slurp(term), first, "terminal");
								eq(slurp(other), "", "another file");
								mc::fold(uint64_t(got.size()));
							});
						}
}

void mc::explore()
{
	char dir[4096]; // the caller starts every process in a folder of its own
	if (!getcwd(dir, sizeof dir))
		throw std::runtime_error("getcwd");
	scratch = dir;
	std::cerr.setstate(std::ios::failbit);
	std::cout.setstate(std::ios::failbit);
	identifiers();
	info();
	commands();
	memory();
	progress();
	longProgress();
	redirect();
}
