// P02: the process dies at every point of every history of an HDF5 output file.
// All writes the HDF5 library makes to the file are recorded; the file that a death
// leaves behind is every prefix of that record (the last write possibly torn). Each
// is opened for reading with the real code.
#include "mc.h"
#include "Io/IoNg.h"
#include <map>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>

using namespace PsimagLite;
typedef IoNgSerializer Ser;
typedef std::vector<double> VD;
typedef std::map<std::string, VD> State;

struct Entry {
	enum Kind { WRITE, TRUNCATE, RESET, MARK } kind;
	off_t off = 0;
	std::string data;
	int mark = 0; // index into the marks
};
static std::vector<Entry> g_log;
static bool g_rec = false;
static dev_t g_dev;
static ino_t g_ino;

static bool ours(int fd)
{ // the recorded file, by name: the descriptor's link
	if (!g_rec)
		return false;
	char p[64], t[512];
	snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
	ssize_t n = readlink(p, t, sizeof t - 1);
	if (n <= 0)
		return false;
	t[n] = 0;
	return strstr(t, "p02live_") != nullptr;
}
extern "C" ssize_t pwrite(int fd, const void* b, size_t n, off_t off)
{
	if (ours(fd)) {
		Entry e;
		e.kind = Entry::WRITE;
		e.off = off;
		e.data.assign((const char*)b, n);
		g_log.push_back(e);
	}
	return syscall(SYS_pwrite64, fd, b, n, off);
}
extern "C" int ftruncate(int fd, off_t len) noexcept
{
	if (ours(fd)) {
		Entry e;
		e.kind = Entry::TRUNCATE;
		e.off = len;
		g_log.push_back(e);
	}
	return syscall(SYS_ftruncate, fd, len);
}

// what may be found by a reader
struct Mark {
	std::vector<State> allowed; // the states a reader may see
	bool must = false; // a reader must be able to see it
	std::string what;
};
static std::vector<Mark> g_marks;
static void mark(std::vector<State> allowed, bool must, std::string what)
{
	Entry e;
	e.kind = Entry::MARK;
	e.mark = g_marks.size();
	g_marks.push_back({ allowed, must, what });
	g_log.push_back(e);
}
static std::vector<std::string> g_labels;
static std::string show(const State& s)
{
	std::string r = "{";
	for (auto& kv : s)
		r += kv.first + "[" + mc::str(kv.second.size()) + "]" + (kv.second.size() ? "=" + mc::str(kv.second[0]) : "") + " ";
	return r + "}";
}
// the file at path, as a reader sees it
static void inspect(const std::string& path, const Mark& m, size_t point, size_t torn)
{
	mc::tick();
	++mc::g().faults;
	std::string where = "death after write " + mc::str(point) + (torn ? " torn at " + mc::str(torn) : "") + " (" + m.what + ")";
	IoNg::In* in = nullptr;
	try {
		in = new IoNg::In(path);
	} catch (H5::Exception&) {
	} catch (std::exception&) {
	}
	if (!in) {
		mc::check(!m.must, where + ": the file is refused although it was closed properly");
		mc::fold((uint64_t)0);
		return;
	}
	State got;
	std::string err;
	for (auto& l : g_labels) {
		VD x;
		try {
			in->serializer().read(x, l);
			got[l] = x;
		} catch (...) {
		}
	}
	for (const char* gr : { "g", "h" })
		if (in->serializer().doesGroupExist(gr))
			got[std::string("group ") + gr] = VD();
	delete in;
	bool ok = false;
	for (auto& s : m.allowed)
		ok |= (s == got);
	std::string want;
	for (auto& s : m.allowed)
		want += show(s) + " ";
	mc::check(ok, where + ": accepted as complete, with contents " + show(got) + ", expected a refusal" + (m.allowed.empty() ? "" : " or " + want));
	for (auto& kv : got)
		mc::fold(kv.first + mc::str(kv.second.size()));
}
// A torn local heap of HDF5 sends HDF5 itself (1.10) into an endless loop in which it
// allocates memory: such a file is inspected in a child with little memory, where that
// ends in a refusal.
static void inspectInChild(const std::string& path, const Mark& m, size_t point, size_t torn)
{
	int p[2];
	if (pipe(p) != 0)
		abort();
	pid_t pid = fork();
	if (pid == 0) {
		close(p[0]);
		std::ifstream f("/proc/self/statm");
		rlim_t pages = 0;
		f >> pages;
		rlimit rl { pages * 4096 + (32 << 20), pages * 4096 + (32 << 20) };
		setrlimit(RLIMIT_AS, &rl);
		alarm(20);
		try {
			inspect(path, m, point, torn);
		} catch (mc::Violation& v) {
			if (::write(p[1], v.msg.data(), v.msg.size()) < 0)
				_exit(2);
			_exit(1);
		}
		_exit(0);
	}
	close(p[1]);
	std::string msg;
	char b[4096];
	for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;)
		msg.append(b, n);
	close(p[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	++mc::g().faults;
	mc::tick();
	if (!msg.empty())
		mc::fail(msg);
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
		mc::addExtra("HDF5 died on a torn heap", 1);
	mc::check(true, "");
}
static void applyTo(int fd, off_t off, const char* p, size_t n)
{
	if (syscall(SYS_pwrite64, fd, p, n, off) != (ssize_t)n)
		abort();
}
static void replay(const std::string& path)
{
	unlink(path.c_str());
	int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
	const Mark* m = nullptr;
	size_t point = 0;
	for (auto& e : g_log) {
		switch (e.kind) {
		case Entry::RESET:
			syscall(SYS_ftruncate, fd, (off_t)0);
			break;
		case Entry::MARK:
			m = &g_marks[e.mark];
			break;
		case Entry::TRUNCATE:
			syscall(SYS_ftruncate, fd, e.off);
			break;
		case Entry::WRITE:
			if (m && e.data.size() > 1) {
				std::vector<size_t> cuts;
				cuts.push_back(e.data.size() / 2);
				for (off_t c = (e.off / 512 + 1) * 512; c < e.off + (off_t)e.data.size(); c += 512)
					cuts.push_back(c - e.off);
				if (cuts.size() > 20) { // long data: page boundaries near both ends
					std::vector<size_t> c2(cuts.begin(), cuts.begin() + 10);
					c2.insert(c2.end(), cuts.end() - 10, cuts.end());
					cuts = c2;
				}
				for (size_t c : cuts) {
					applyTo(fd, e.off, e.data.data(), c);
					if (e.data.find("HEAP") != std::string::npos)
						inspectInChild(path, *m, point, c);
					else
						inspect(path, *m, point, c);
				}
			}
			applyTo(fd, e.off, e.data.data(), e.data.size());
			++point;
			break;
		}
		if (m)
			inspect(path, *m, point, 0);
	}
	close(fd);
	unlink(path.c_str());
}

struct Run {
	IoNg::Out* o = nullptr;
	State cur; // what was written
	std::vector<State> committed; // the state at the last flush or close
	bool clean = false; // nothing written since
	std::string file;
	bool group = false;
};
static void dirty(Run& r, const std::string& what)
{
	mark(r.committed, false, "during " + what);
}
static void write(Run& r, const std::string& l, VD v, bool ow)
{
	std::string what = std::string(ow ? "overwrite " : "write ") + l;
	dirty(r, what);
	bool present = r.cur.count(l), parent = l[0] != 'g' || r.group;
	bool threw = mc::throws([&] {
		if (ow)
			r.o->write(v, l, Ser::ALLOW_OVERWRITE);
		else
			r.o->write(v, l);
	});
	if (parent && (ow || !present)) {
		mc::check(!threw, what + " is refused");
		r.cur[l] = v;
		r.clean = false;
	}
	dirty(r, "the time after " + what);
}
static void committing(Run& r, const std::string& what, const std::function<void()>& f)
{
	std::vector<State> al = r.committed;
	al.push_back(r.cur);
	mark(al, false, "during " + what);
	f();
	r.committed = { r.cur };
	r.clean = true;
	mark(r.committed, true, "after " + what);
}
static void replaced(Run& r)
{ // from here on the file is empty
	mark(r.committed, false, "before the replacement");
	Entry e;
	e.kind = Entry::RESET;
	g_log.push_back(e);
	r.committed.clear();
	r.cur.clear();
	r.group = false;
}
static void openFile(Run& r, IoNg::OpenMode mode, const std::string& what)
{
	if (mode == IoNg::ACC_TRUNC) {
		replaced(r);
	}
	mark(r.committed, false, "during " + what);
	r.o = new IoNg::Out(r.file, mode);
}
struct Op {
	std::string name;
	std::function<void(Run&)> f;
};
static VD vec(size_t n, double s)
{
	VD v(n);
	for (size_t i = 0; i < n; ++i)
		v[i] = s + i;
	return v;
}
static void libraryFlush()
{ // as the HDF5 library does on its own: at exit, or when its cache is full
	hid_t ids[8];
	ssize_t n = H5Fget_obj_ids(H5F_OBJ_ALL, H5F_OBJ_FILE, 8, ids);
	for (ssize_t i = 0; i < n && i < 8; ++i)
		H5Fflush(ids[i], H5F_SCOPE_GLOBAL);
}

static void history(const std::string& key, const std::vector<const Op*>& ops)
{
	mc::run(key, [&] {
		g_log.clear();
		g_marks.clear();
		Run r;
		r.file = "p02live_" + mc::str(getpid()) + ".hdf5";
		unlink(r.file.c_str());
		g_rec = true;
		try {
			openFile(r, IoNg::ACC_TRUNC, "creation");
			for (auto* o : ops)
				o->f(r);
			committing(r, "destruction", [&] { delete r.o; r.o = nullptr; });
		} catch (H5::Exception& e) {
			g_rec = false;
			mc::fail("H5 exception: " + e.getDetailMsg());
		} catch (...) {
			g_rec = false;
			throw;
		}
		g_rec = false;
		mc::check(g_log.size() > 4, "writes were recorded");
		unlink(r.file.c_str());
		replay("p02crash_" + mc::str(getpid()) + ".hdf5");
	});
}

void mc::explore()
{
	IoNg::dontPrintDebug();
	std::cerr.setstate(std::ios::failbit);
	g_labels = { "a", "b", "g/a" };
	std::vector<Op> ops {
		{ "write a[2]", [](Run& r) { write(r, "a", vec(2, 1), false); } },
		{ "write b[700]", [](Run& r) { write(r, "b", vec(700, 10000), false); } },
		{ "overwrite a[2]", [](Run& r) { write(r, "a", vec(2, 50), true); } },
		{ "overwrite a[300]", [](Run& r) { write(r, "a", vec(300, 5000), true); } },
		{ "group g, write g/a[3]", [](Run& r) {
		         dirty(r, "creation of a group");
		         bool threw = mc::throws([&] { r.o->createGroup("g"); });
		         mc::eq(threw, r.group, "creating a group twice is refused");
		         r.group = true;
		         r.clean = false;
		         r.cur["group g"] = VD();
		         write(r, "g/a", vec(3, 7), false);
	         } },
		{ "group h", [](Run& r) {
		         dirty(r, "creation of a group");
		         bool threw = mc::throws([&] { r.o->createGroup("h"); });
		         mc::eq(threw, r.cur.count("group h") > 0, "creating a group twice is refused");
		         r.clean = r.clean && threw;
		         r.cur["group h"] = VD();
		         dirty(r, "the time after the creation of a group");
	         } },
		{ "flush", [](Run& r) { committing(r, "flush", [&] { r.o->flush(); }); } },
		{ "library flush", [](Run& r) {
		         if (r.clean)
			         return libraryFlush();
		         dirty(r, "the library's flush");
		         libraryFlush();
		         dirty(r, "the time after the library's flush");
	         } },
		{ "close, reopen", [](Run& r) {
		         committing(r, "destruction", [&] { delete r.o; r.o = nullptr; });
		         openFile(r, IoNg::ACC_RDW, "reopening");
	         } },
		{ "close(), open()", [](Run& r) {
		         committing(r, "close", [&] { r.o->close(); });
		         mark(r.committed, false, "during open");
		         r.o->open(r.file, IoNg::ACC_RDW);
	         } },
		{ "truncate", [](Run& r) {
		         committing(r, "destruction", [&] { delete r.o; r.o = nullptr; });
		         openFile(r, IoNg::ACC_TRUNC, "replacement");
	         } },
		{ "close(), open() truncating", [](Run& r) {
		         committing(r, "close", [&] { r.o->close(); });
		         replaced(r);
		         mark(r.committed, false, "during open");
		         r.o->open(r.file, IoNg::ACC_TRUNC);
	         } },
	};
	size_t maxDepth = mc::thorough() ? 5 : 4;
	std::vector<size_t> h;
	std::function<void()> rec = [&] {
		std::string key = "history";
		std::vector<const Op*> v;
		for (size_t i : h) {
			key += " | " + ops[i].name;
			v.push_back(&ops[i]);
		}
		history(key, v);
		if (h.size() == maxDepth)
			return;
		for (size_t i = 0; i < ops.size(); ++i) {
			if (!mc::thorough() && h.size() == 3 && (i >= 9 || h[0] > 1 || h[1] == 11 || h[2] == 11))
				continue; // four operations: the first is a write, the last is not an opening
			h.push_back(i);
			rec();
			h.pop_back();
		}
	};
	rec();
	// only the mark of a closed file is such a mark
	for (int c = 0; c < 256; ++c)
		mc::run("mark " + mc::str(c), [c] {
			const std::string f = "p02mark_" + mc::str(getpid()) + ".hdf5";
			{
				IoNg::Out o(f, IoNg::ACC_TRUNC);
				o.write(vec(2, 1), "a");
			}
			unsigned char was = 0;
			{
				H5::H5File h(f, H5F_ACC_RDWR);
				H5::DataSet d(h.openDataSet("/Def/Canary"));
				d.read(&was, H5::PredType::NATIVE_UCHAR);
				unsigned char now = c;
				d.write(&now, H5::PredType::NATIVE_UCHAR);
			}
			mc::eq(!mc::throws([&] { IoNg::In in(f); }), c == was, "accepted");
			unlink(f.c_str());
		});
	if (mc::thorough())
		for (int n : { 100, 1000, 6000 }) { // the library's cache overflows on its own
			g_labels.clear();
			Op many { "", [n](Run& r) { for (int i = 0; i < n; ++i) write(r, "x" + mc::str(i), vec(1 + i % 3, i), false); } };
			for (int i = 0; i < n; i += n / 20)
				g_labels.push_back("x" + mc::str(i));
			Op fl = ops[6];
			Op more { "", [n](Run& r) { for (int i = 0; i < n; i += 2) write(r, "x" + mc::str(i), vec(2, i), true); } };
			history("many " + mc::str(n), { &many });
			history("many overwritten " + mc::str(n), { &many, &fl, &more });
		}
}
