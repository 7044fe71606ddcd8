// explorer.h: a controlled scheduler for real POSIX threads. The pthread entry points
// are interposed (definitions in this executable); one thread runs at a time, and at
// every synchronisation operation and every sched::point() the explorer decides who
// goes on. All schedules with at most a given number of preemptions are run
// (stateless depth-first search; the prefix of each run is replayed exactly).
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "mc.h"
#include <algorithm>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <set>

namespace sched
{
// The operating-system threads are kept and reused: creating them dominates otherwise
struct Thr;
struct Os {
	pthread_t tid {};
	sem_t sem;
	Thr* job = nullptr;
};
struct Exit { // pthread_exit on a kept thread
	void* v;
};
struct Thr {
	Os* os = nullptr;
	int id = 0;
	std::function<bool()> pred; // empty: runnable
	bool done = false, joined = false, detached = false;
	void* (*f)(void*) = nullptr;
	void* arg = nullptr;
	void* ret = nullptr;
	size_t stack = 0;
	std::vector<int> cpus; // those its attributes confine it to; empty: not confined
	const char* what = "";
};
struct Choice {
	int n, chosen;
	bool runnable; // the running thread could have gone on
};
struct Exec {
	std::vector<Thr*> thr;
	std::vector<int> prefix;
	std::vector<Choice> trace;
	std::map<const void*, int> owner; // mutex -> thread
	bool dead = false;
	std::string err;
	uint64_t gen = 0;
	uint64_t obs = 0;
	size_t horizon = 20000;
	uint64_t noCreate = 0; // bit k: the k-th creation of a thread fails
	int creations = 0, live = 0; // calls of pthread_create; threads not joined
	std::vector<int> cpus; // those of the process; empty: the real ones
};
inline Exec*& ex()
{
	static Exec* e = nullptr;
	return e;
}
inline thread_local Thr* self = nullptr;
inline bool on() { return ex() && self; }

template <typename F> F real(const char* name)
{
	void* p = dlsym(RTLD_NEXT, name);
	if (!p) {
		fprintf(stderr, "no symbol %s\n", name);
		abort();
	}
	return (F)p;
}
inline void semWait(sem_t* s)
{
	while (sem_wait(s) != 0) { }
}
// the execution is over with an error; thread 0 reports it
[[noreturn]] inline void abortExec(const std::string& msg)
{
	Exec& e = *ex();
	if (!e.dead) {
		e.dead = true;
		e.err = msg;
	}
	if (self->id == 0)
		throw mc::Violation { e.err };
	sem_post(&e.thr[0]->os->sem);
	for (;;)
		pause();
}
inline void observe(uint64_t x) { ex()->obs = mc::mix(ex()->obs * 31 + x + 1); }
// hand the processor to the thread the explorer chooses
inline void pick(bool leaving)
{
	Exec& e = *ex();
	std::vector<int> en;
	bool selfOk = !leaving && (!self->pred || self->pred());
	if (selfOk)
		en.push_back(self->id);
	for (Thr* t : e.thr)
		if (t != self && !t->done && (!t->pred || t->pred()))
			en.push_back(t->id);
	if (en.empty()) {
		bool all = true;
		std::string who;
		for (Thr* t : e.thr)
			if (!t->done && !(t == self && leaving)) {
				all = false;
				who += " thread" + std::to_string(t->id) + ":" + t->what;
			}
		if (all)
			return;
		e.dead = true;
		e.err = "deadlock:" + who;
		if (self->id == 0)
			throw mc::Violation { e.err };
		sem_post(&e.thr[0]->os->sem);
		if (leaving)
			return;
		for (;;)
			pause();
	}
	size_t i = e.trace.size();
	int c = 0;
	if (en.size() > 1) {
		if (i < e.prefix.size())
			c = e.prefix[i];
		if (c >= (int)en.size()) {
			fprintf(stderr, "sched: divergence while replaying a prefix\n");
			abort();
		}
		e.trace.push_back({ (int)en.size(), c, selfOk });
	}
	if (e.trace.size() > e.horizon)
		abortExec("the execution does not end (horizon reached)");
	Thr* n = e.thr[en[c]];
	if (n == self) {
		n->pred = nullptr;
		return;
	}
	n->pred = nullptr;
	sem_post(&n->os->sem);
	if (leaving)
		return;
	semWait(&self->os->sem);
	if (ex()->dead && self->id == 0)
		throw mc::Violation { ex()->err };
}
inline void point()
{
	if (!on())
		return;
	self->what = "running";
	pick(false);
}
inline void block(std::function<bool()> p, const char* what)
{
	self->pred = p;
	self->what = what;
	pick(false);
}
inline void check(bool b, const std::string& msg)
{
	++mc::g().transitions;
	if (!b) {
		if (on())
			abortExec(msg);
		mc::fail(msg);
	}
}

inline std::vector<Os*>& idle()
{
	static std::vector<Os*> v;
	return v;
}
inline void* osLoop(void* p)
{
	Os* os = (Os*)p;
	for (;;) {
		semWait(&os->sem);
		Thr* t = os->job;
		self = t;
		try {
			t->ret = t->f(t->arg);
		} catch (const Exit& x) {
			t->ret = x.v;
		} catch (const std::exception& e) {
			abortExec(std::string("exception escapes from a worker thread: ") + e.what());
		}
		t->done = true;
		t->what = "done";
		pick(true); // after this t may be gone
		self = nullptr;
	}
	return nullptr;
}
inline void release(Thr* t)
{
	if (t->os && t->id) {
		idle().push_back(t->os);
		t->os = nullptr;
	}
}

// One execution of body under the given prefix; returns the exec (trace, error)
template <typename F> Exec* runOne(const std::vector<int>& prefix, F& body, std::string& err)
{
	Exec* e = new Exec; // a dead execution is leaked, its threads stay parked
	e->prefix = prefix;
	static Os* mainOs = nullptr;
	if (!mainOs) {
		mainOs = new Os;
		sem_init(&mainOs->sem, 0, 0);
		mainOs->tid = pthread_self();
	}
	Thr* m = new Thr;
	m->os = mainOs;
	e->thr.push_back(m);
	ex() = e;
	self = m;
	try {
		body();
		if (err.empty()) {
			for (size_t i = 1; i < e->thr.size(); ++i)
				if (!e->thr[i]->done && !e->thr[i]->detached)
					mc::fail("a worker thread is still running after the end");
		}
	} catch (const mc::Violation& v) {
		err = v.msg;
		e->dead = true;
	} catch (const std::exception& x) {
		err = std::string("unexpected exception: ") + x.what();
		e->dead = true;
	} catch (const char* x) {
		err = std::string("unexpected exception: ") + x;
		e->dead = true;
	}
	ex() = nullptr;
	self = nullptr;
	if (prefix.size() > e->trace.size() && err.empty()) {
		fprintf(stderr, "sched: the prefix was not consumed\n");
		abort();
	}
	return e;
}
inline void dispose(Exec* e)
{
	if (e->dead)
		return;
	for (Thr* t : e->thr) {
		release(t);
		delete t;
	}
	delete e;
}
inline std::string show(const std::vector<int>& v)
{
	std::string s;
	for (int x : v)
		s += (char)(x < 10 ? '0' + x : 'a' + x - 10);
	return s;
}

// All executions of body with at most `bound` preemptions. body checks the property
// itself (mc::fail or sched::check). cap: largest number of executions.
template <typename F> uint64_t exploreAll(int bound, F body, uint64_t cap = 2000000)
{
	struct Item {
		std::vector<int> prefix;
		int cost;
	};
	std::vector<Item> st;
	st.push_back({ {}, 0 });
	uint64_t n = 0;
	std::set<uint64_t> outcomes;
	while (!st.empty()) {
		Item it = st.back();
		st.pop_back();
		std::string err;
		Exec* e = runOne(it.prefix, body, err);
		++n;
		++mc::g().schedules;
		mc::tick();
		std::vector<int> full;
		for (auto& c : e->trace)
			full.push_back(c.chosen);
		bool again = !err.empty() || n == 1 || st.empty();
		if (again) { // the same schedule gives the same observations
			std::string err2;
			Exec* f = runOne(full, body, err2);
			bool same = f->trace.size() == e->trace.size() && err == err2 && f->obs == e->obs;
			if (!same && (err.empty() != err2.empty() || err.empty())) {
				fprintf(stderr, "sched: one schedule, two outcomes: '%s' '%s'\n", err.c_str(), err2.c_str());
				abort();
			}
			dispose(f);
		}
		if (!err.empty())
			mc::fail(err + " [schedule " + show(full) + "]");
		outcomes.insert(e->obs);
		mc::g().states.insert(mc::mix(e->obs ^ mc::fnv(mc::g().curKey.data(), mc::g().curKey.size())));
		int cost = it.cost;
		// bound < 0: the undisturbed schedule only (sweeps over data, not over schedules)
		for (size_t i = it.prefix.size(); bound >= 0 && i < e->trace.size(); ++i) {
			// choices after the prefix are 0: staying on the running thread, or
			// the first one when it cannot go on: no preemption
			int c = cost + (e->trace[i].runnable ? 1 : 0);
			if (c > bound)
				continue;
			for (int a = e->trace[i].n - 1; a >= 1; --a) {
				Item k;
				k.prefix.assign(full.begin(), full.begin() + i);
				k.prefix.push_back(a);
				k.cost = c;
				st.push_back(k);
			}
		}
		dispose(e);
		if (n >= cap && !st.empty()) {
			mc::addExtra("capped configurations", 1);
			mc::g().capped = true;
			break;
		}
	}
	mc::addExtra("distinct outcomes", outcomes.size());
	if (getenv("MC_PROF"))
		fprintf(stderr, "%lu %s\n", (unsigned long)n, mc::g().curKey.c_str());
	return n;
}
} // namespace sched

extern "C" {
int sched_getaffinity(pid_t pid, size_t size, cpu_set_t* set) noexcept
{
	static auto r = sched::real<int (*)(pid_t, size_t, cpu_set_t*)>("sched_getaffinity");
	if (!sched::on() || sched::ex()->cpus.empty())
		return r(pid, size, set);
	CPU_ZERO_S(size, set);
	for (int i : sched::ex()->cpus)
		CPU_SET_S(i, size, set);
	return 0;
}
int sched_setaffinity(pid_t pid, size_t size, const cpu_set_t* set) noexcept
{
	static auto r = sched::real<int (*)(pid_t, size_t, const cpu_set_t*)>("sched_setaffinity");
	if (!sched::on() || sched::ex()->cpus.empty())
		return r(pid, size, set);
	for (int i = 0; i < (int)size * 8; ++i)
		if (CPU_ISSET_S(i, size, set) != (std::count(sched::ex()->cpus.begin(), sched::ex()->cpus.end(), i) > 0))
			mc::fail("the process was moved to other cpus");
	return 0;
}
int pthread_create(pthread_t* tid, const pthread_attr_t* attr, void* (*f)(void*), void* arg)
{
	static auto r = sched::real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
	if (!sched::on())
		return r(tid, attr, f, arg);
	sched::Exec& e = *sched::ex();
	if (e.creations < 64 && (e.noCreate >> e.creations++ & 1)) {
		*tid = pthread_t(); // undefined after a failure
		return EAGAIN;
	}
	++e.live;
	sched::Thr* t = new sched::Thr;
	t->id = (int)e.thr.size();
	t->f = f;
	t->arg = arg;
	if (attr) {
		pthread_attr_getstacksize(attr, &t->stack);
		int ds = 0;
		pthread_attr_getdetachstate(attr, &ds);
		t->detached = ds == PTHREAD_CREATE_DETACHED;
		cpu_set_t set;
		CPU_ZERO(&set);
		if (pthread_attr_getaffinity_np(attr, sizeof(set), &set) == 0 && CPU_COUNT(&set) < CPU_SETSIZE)
			for (int i = 0; i < CPU_SETSIZE; ++i)
				if (CPU_ISSET(i, &set))
					t->cpus.push_back(i);
	}
	e.thr.push_back(t);
	if (sched::idle().empty()) {
		sched::Os* os = new sched::Os;
		sem_init(&os->sem, 0, 0);
		int ret = r(&os->tid, nullptr, sched::osLoop, os);
		if (ret != 0) {
			fprintf(stderr, "explorer: pthread_create failed: %d\n", ret);
			abort();
		}
		t->os = os;
	} else {
		t->os = sched::idle().back();
		sched::idle().pop_back();
	}
	t->os->job = t;
	*tid = t->os->tid;
	sched::point();
	return 0;
}
int pthread_join(pthread_t tid, void** ret)
{
	static auto r = sched::real<int (*)(pthread_t, void**)>("pthread_join");
	if (!sched::on())
		return r(tid, ret);
	sched::Thr* t = nullptr;
	for (sched::Thr* x : sched::ex()->thr)
		if (x->id && !x->joined && x->os && pthread_equal(x->os->tid, tid))
			t = x;
	if (!t)
		sched::abortExec("join of a thread that does not exist (or was joined before)");
	t->joined = true;
	--sched::ex()->live;
	sched::block([t]() { return t->done; }, "join");
	if (ret)
		*ret = t->ret;
	sched::release(t);
	return 0;
}
int pthread_detach(pthread_t tid)
{
	static auto r = sched::real<int (*)(pthread_t)>("pthread_detach");
	if (sched::on())
		for (sched::Thr* x : sched::ex()->thr)
			if (x->id && !x->joined && x->os && pthread_equal(x->os->tid, tid))
				x->detached = true;
	if (sched::on())
		return 0;
	return r(tid);
}
void pthread_exit(void* v)
{
	static auto r = sched::real<void (*)(void*)>("pthread_exit");
	if (sched::on()) {
		sched::point();
		throw sched::Exit { v };
	}
	r(v);
	abort();
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
	static auto r = sched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
	if (!sched::on())
		return r(m);
	sched::Exec* e = sched::ex();
	sched::point();
	if (e->owner.count(m))
		sched::block([e, m]() { return !e->owner.count(m); }, "mutex");
	e->owner[m] = sched::self->id;
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	static auto r = sched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
	if (!sched::on())
		return r(m);
	sched::Exec* e = sched::ex();
	sched::point();
	if (e->owner.count(m))
		return EBUSY;
	e->owner[m] = sched::self->id;
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	static auto r = sched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
	if (!sched::on())
		return r(m);
	sched::Exec* e = sched::ex();
	auto it = e->owner.find(m);
	if (it == e->owner.end() || it->second != sched::self->id)
		sched::abortExec("unlock of a mutex the thread does not hold");
	e->owner.erase(it);
	sched::point();
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
	static auto r = sched::real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
	if (sched::on() && sched::ex()->owner.count(m))
		sched::abortExec("destruction of a locked mutex");
	return r(m);
}
}
