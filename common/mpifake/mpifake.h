#pragma once
#include "explorer.h"
#include "mpi.h"
namespace mpifake
{
struct Msg {
	int comm, src, dst, tag, type;
	std::vector<char> data;
	bool taken = false;
};
struct Coll {
	int kind = 0, root = 0, count = 0, type = 0, op = 0;
	int arrived = 0, left = 0;
	std::vector<std::vector<char>> in; // by rank
	std::vector<bool> here;
};
struct World {
	int n = 1;
	bool synchronous = false; // sends rendezvous and collectives wait for everybody
	std::map<int, std::vector<int>> comms; // communicator -> world ranks
	std::vector<Msg*> msgs;
	std::map<std::pair<int, int>, Coll> colls; // (comm, number)
	std::map<std::pair<int, int>, int> seq; // (comm, world rank) -> number of the next collective
	std::vector<int> shared; // for the harness
	int inits = 0, finals = 0, aborts = 0;
	std::vector<std::string> infoKey, infoVal;
};
inline World*& w()
{
	static World* x = nullptr;
	return x;
}
inline thread_local int me = 0; // world rank
[[noreturn]] inline void bad(const std::string& s)
{
	sched::abortExec("message passing: rank " + std::to_string(me) + ": " + s);
}
inline int rankIn(int comm)
{
	auto it = w()->comms.find(comm);
	if (it == w()->comms.end())
		bad("invalid communicator " + std::to_string(comm));
	for (size_t i = 0; i < it->second.size(); ++i)
		if (it->second[i] == me)
			return (int)i;
	bad("call on a communicator the rank is not part of");
}
inline int sizeOf(int comm)
{
	rankIn(comm);
	return (int)w()->comms[comm].size();
}
inline size_t width(int t)
{
	switch (t) {
	case MPI_CHAR:
	case MPI_BYTE:
		return 1;
	case MPI_INT:
	case MPI_UNSIGNED:
	case MPI_FLOAT:
		return 4;
	case MPI_LONG:
	case MPI_UNSIGNED_LONG:
	case MPI_LONG_LONG:
	case MPI_UNSIGNED_LONG_LONG:
	case MPI_DOUBLE:
		return 8;
	case MPI_DOUBLE_COMPLEX:
		return 16;
	}
	bad("invalid datatype " + std::to_string(t));
}
// unsigned and signed types of one width are taken as one: no value is altered
inline int cls(int t)
{
	switch (t) {
	case MPI_UNSIGNED:
		return MPI_INT;
	case MPI_UNSIGNED_LONG:
	case MPI_LONG_LONG:
	case MPI_UNSIGNED_LONG_LONG:
		return MPI_LONG;
	}
	return t;
}
inline std::vector<char> grab(const void* p, int count, int type)
{
	if (count < 0)
		bad("negative count");
	size_t n = width(type) * (size_t)count;
	std::vector<char> v(n);
	for (size_t i = 0; i < n; ++i)
		v[i] = ((const char*)p)[i]; // byte by byte: the sanitizer checks each
	return v;
}
inline void put(void* p, const std::vector<char>& v)
{
	for (size_t i = 0; i < v.size(); ++i)
		((char*)p)[i] = v[i];
}
inline int number(int comm) { return w()->seq[{ comm, me }]++; }
// enter a collective; wait as the kind demands; returns it
inline Coll& enter(int kind, int comm, int root, int count, int type, int op, const void* in, bool waitRoot, bool waitAll, const char* name)
{
	int r = rankIn(comm), P = sizeOf(comm);
	if (root < 0 || root >= P)
		bad(std::string(name) + ": invalid root");
	sched::point();
	int k = number(comm);
	Coll& c = w()->colls[{ comm, k }];
	if (c.arrived == 0) {
		c.kind = kind;
		c.root = root;
		c.count = count;
		c.type = cls(type);
		c.op = op;
		c.in.resize(P);
		c.here.assign(P, false);
	} else if (c.kind != kind || c.root != root || c.op != op)
		bad(std::string(name) + ": the ranks call different collectives, roots or operations");
	else if (c.count != count || c.type != cls(type))
		bad(std::string(name) + ": the ranks give different counts or types");
	if (in)
		c.in[r] = grab(in, count, type);
	c.here[r] = true;
	++c.arrived;
	sched::observe(kind * 1000 + k * 10 + me);
	Coll* cp = &c;
	if (waitAll || w()->synchronous)
		sched::block([cp, P]() { return cp->arrived == P; }, name);
	else if (waitRoot)
		sched::block([cp]() { return (bool)cp->here[cp->root]; }, name);
	return c;
}
template <typename T> void combine(std::vector<char>& a, const std::vector<char>& b, int op)
{
	for (size_t i = 0; i + sizeof(T) <= a.size(); i += sizeof(T)) {
		T x, y;
		memcpy(&x, &a[i], sizeof(T));
		memcpy(&y, &b[i], sizeof(T));
		x = op == MPI_SUM ? x + y : op == MPI_MAX ? std::max(x, y) : op == MPI_MIN ? std::min(x, y) : x * y;
		memcpy(&a[i], &x, sizeof(T));
	}
}
inline std::vector<char> combined(Coll& c, int type)
{
	std::vector<char> a = c.in[0];
	for (size_t r = 1; r < c.in.size(); ++r)
		switch (type) {
		case MPI_INT: combine<int>(a, c.in[r], c.op); break;
		case MPI_UNSIGNED: combine<unsigned>(a, c.in[r], c.op); break;
		case MPI_LONG:
		case MPI_LONG_LONG: combine<long>(a, c.in[r], c.op); break;
		case MPI_UNSIGNED_LONG:
		case MPI_UNSIGNED_LONG_LONG: combine<unsigned long>(a, c.in[r], c.op); break;
		case MPI_FLOAT: combine<float>(a, c.in[r], c.op); break;
		case MPI_DOUBLE: combine<double>(a, c.in[r], c.op); break;
		case MPI_DOUBLE_COMPLEX:
			if (c.op != MPI_SUM)
				bad("reduction of complex numbers");
			combine<double>(a, c.in[r], c.op);
			break;
		default: bad("reduction of a type that has none");
		}
	return a;
}
inline bool overlap(const void* a, const void* b, size_t n)
{
	return n && (const char*)a < (const char*)b + n && (const char*)b < (const char*)a + n;
}
// all ranks run f(rank); returns when they are done. To be called inside exploreAll.
struct RankArg {
	int r;
	std::function<void(int)>* f;
};
inline void* rankMain(void* p)
{
	RankArg a = *(RankArg*)p;
	me = a.r;
	(*a.f)(a.r);
	return nullptr;
}
inline void runRanks(World& world, std::function<void(int)> f)
{
	w() = &world;
	std::vector<int> all, rev;
	for (int i = 0; i < world.n; ++i)
		all.push_back(i);
	rev.assign(all.rbegin(), all.rend());
	world.comms[MPI_COMM_WORLD] = all;
	world.comms[92] = rev;
	if (world.n > 1)
		world.comms[93] = std::vector<int>(all.begin() + 1, all.end());
	std::vector<pthread_t> t(world.n);
	std::vector<RankArg> a(world.n);
	for (int r = 0; r < world.n; ++r) {
		a[r] = { r, &f };
		pthread_create(&t[r], 0, rankMain, &a[r]);
	}
	for (int r = 0; r < world.n; ++r)
		pthread_join(t[r], 0);
	for (Msg* m : world.msgs)
		mc::check(m->taken, "a message was sent and never received");
	for (auto& c : world.colls)
		mc::check(c.second.arrived == (int)c.second.in.size(), "a collective was not entered by all ranks");
	for (Msg* m : world.msgs)
		delete m;
	world.msgs.clear();
}
} // namespace mpifake
extern "C" {
using namespace mpifake;
int MPI_Init(int*, char***)
{
	++w()->inits;
	return 0;
}
int MPI_Finalize()
{
	++w()->finals;
	return 0;
}
int MPI_Abort(MPI_Comm, int) { bad("MPI_Abort called"); }
int MPI_Error_string(int e, char* s, int* n)
{
	*n = snprintf(s, MPI_MAX_ERROR_STRING, "error %d", e);
	return 0;
}
int MPI_Comm_size(MPI_Comm c, int* n)
{
	*n = sizeOf(c);
	return 0;
}
int MPI_Comm_rank(MPI_Comm c, int* n)
{
	*n = rankIn(c);
	return 0;
}
int MPI_Barrier(MPI_Comm c)
{
	enter(1, c, 0, 0, MPI_BYTE, 0, nullptr, false, true, "barrier");
	sched::point();
	return 0;
}
static int doSend(const void* p, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, bool sync)
{
	int r = rankIn(c);
	if (dst < 0 || dst >= sizeOf(c))
		bad("send to a rank that does not exist");
	if (tag < 0)
		bad("negative tag");
	sched::point();
	Msg* m = new Msg { c, r, dst, tag, cls(t), grab(p, count, t) };
	w()->msgs.push_back(m);
	sched::observe(5000 + me * 100 + dst);
	if (sync || w()->synchronous)
		sched::block([m]() { return m->taken; }, "send");
	return 0;
}
int MPI_Send(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return doSend(p, n, t, dst, tag, c, false); }
int MPI_Ssend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { return doSend(p, n, t, dst, tag, c, true); }
static Msg* match(int src, int tag, int c, int r)
{
	for (Msg* m : w()->msgs)
		if (!m->taken && m->comm == c && m->dst == r && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag))
			return m;
	return nullptr;
}
int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status* s)
{
	int r = rankIn(c);
	if (src != MPI_ANY_SOURCE && (src < 0 || src >= sizeOf(c)))
		bad("receive from a rank that does not exist");
	sched::point();
	if (!match(src, tag, c, r))
		sched::block([=]() { return match(src, tag, c, r) != nullptr; }, "recv");
	Msg* m = match(src, tag, c, r);
	if (n < 0 || m->data.size() > width(t) * (size_t)n)
		bad("a message of " + std::to_string(m->data.size()) + " bytes is received into a buffer of " + std::to_string(width(t) * (size_t)std::max(0, n)));
	if (m->type != cls(t))
		bad("a message is received as another type than it was sent");
	put(p, m->data);
	m->taken = true;
	if (s) {
		s->MPI_SOURCE = m->src;
		s->MPI_TAG = m->tag;
		s->MPI_ERROR = 0;
		s->bytes = (int)m->data.size();
	}
	sched::point();
	return 0;
}
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* s)
{
	int r = rankIn(c);
	sched::point();
	if (!match(src, tag, c, r))
		sched::block([=]() { return match(src, tag, c, r) != nullptr; }, "probe");
	Msg* m = match(src, tag, c, r);
	if (s) {
		s->MPI_SOURCE = m->src;
		s->MPI_TAG = m->tag;
		s->MPI_ERROR = 0;
		s->bytes = (int)m->data.size();
	}
	return 0;
}
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n)
{
	*n = s->bytes / (int)width(t);
	return 0;
}
int MPI_Bcast(void* p, int n, MPI_Datatype t, int root, MPI_Comm c)
{
	bool isRoot = rankIn(c) == root;
	Coll& k = enter(2, c, root, n, t, 0, isRoot ? p : nullptr, true, false, "bcast");
	if (!isRoot)
		put(p, k.in[root]);
	sched::point();
	return 0;
}
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{
	bool isRoot = rankIn(c) == root;
	if (in == MPI_IN_PLACE) {
		if (!isRoot)
			bad("MPI_IN_PLACE at a rank other than the root");
		in = out;
	} else if (isRoot && overlap(in, out, width(t) * n))
		bad("reduce: aliased buffers");
	Coll& k = enter(3, c, root, n, t, op, in, false, isRoot, "reduce");
	if (isRoot)
		put(out, combined(k, t));
	sched::point();
	return 0;
}
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
	if (in == MPI_IN_PLACE)
		in = out;
	else if (overlap(in, out, width(t) * n))
		bad("allreduce: aliased buffers");
	Coll& k = enter(4, c, 0, n, t, op, in, false, true, "allreduce");
	put(out, combined(k, t));
	sched::point();
	return 0;
}
int MPI_Gather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, int root, MPI_Comm c)
{
	bool isRoot = rankIn(c) == root;
	Coll& k = enter(5, c, root, n, t, 0, in, false, isRoot, "gather");
	if (isRoot)
		for (size_t r = 0; r < k.in.size(); ++r)
			put((char*)out + r * width(t) * n, k.in[r]);
	return 0;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm c)
{
	Coll& k = enter(6, c, 0, n, t, 0, in, false, true, "allgather");
	for (size_t r = 0; r < k.in.size(); ++r)
		put((char*)out + r * width(t) * n, k.in[r]);
	return 0;
}
int MPI_Get_version(int* a, int* b)
{
	*a = 3;
	*b = 1;
	return 0;
}
static void full(char* s, int cap, int* n, char ch)
{ // the longest string the standard allows: cap characters with the terminator
	memset(s, ch, cap - 1);
	s[cap - 1] = 0;
	*n = cap - 1;
}
int MPI_Get_library_version(char* s, int* n)
{
	full(s, MPI_MAX_LIBRARY_VERSION_STRING, n, 'V');
	return 0;
}
int MPI_Get_processor_name(char* s, int* n)
{
	full(s, MPI_MAX_PROCESSOR_NAME, n, 'P');
	return 0;
}
int MPI_Info_get_nkeys(MPI_Info, int* n)
{
	*n = (int)w()->infoKey.size();
	return 0;
}
int MPI_Info_get_nthkey(MPI_Info, int i, char* s)
{
	strcpy(s, w()->infoKey.at(i).c_str());
	return 0;
}
static int keyIndex(const char* k)
{
	for (size_t i = 0; i < w()->infoKey.size(); ++i)
		if (w()->infoKey[i] == k)
			return (int)i;
	return -1;
}
int MPI_Info_get_valuelen(MPI_Info, const char* k, int* n, int* flag)
{
	int i = keyIndex(k);
	*flag = i >= 0;
	if (i >= 0)
		*n = (int)w()->infoVal[i].size();
	return 0;
}
int MPI_Info_get(MPI_Info, const char* k, int len, char* v, int* flag)
{
	int i = keyIndex(k);
	*flag = i >= 0;
	if (i >= 0) {
		std::string s = w()->infoVal[i].substr(0, len);
		memcpy(v, s.c_str(), s.size() + 1);
	}
	return 0;
}
}
