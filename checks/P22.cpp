// P22: events and error reports.
// LINK: -Wl,--wrap=pthread_mutex_lock -Wl,--wrap=pthread_mutex_unlock -Wl,--wrap=pthread_mutex_trylock -Wl,--wrap=pthread_rwlock_wrlock -Wl,--wrap=pthread_rwlock_rdlock -Wl,--wrap=pthread_rwlock_unlock
#include <algorithm>
#include <chrono>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <thread>
#include "FCollada.h"
#include "FUtils/FUError.h"
#include "FUtils/FUEvent.h"
#include "mc.h"
const char* mc::property = "P22"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of registrations, releases and raises up to a bounded length over a few handler objects, where each handler call itself may register, release (also itself) or raise again; every message for every code and level; and every interleaving up to a preemption bound of two or three threads that raise, register and release, with a scheduling point at each lock, unlock, allocation, handler call, and copy or destruction of a handler; a case is non-trivial when delivered calls were compared with the model";
std::vector<std::string> mc::assumptions = { "a release undoes one registration of its object, as the existing tests define, and the oldest one", "handlers are called the latest registered first, as the existing tests define", "handlers registered during a raise are not called for that raise", "threads switch only at locks, unlocks, allocations, handler calls, copies and destructions, with at most two (thorough: three) preemptions" };
using std::string; using std::vector;

// ---------------------------------------------------------------- controlled scheduler
extern "C" { int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_rwlock_wrlock(pthread_rwlock_t*); int __real_pthread_rwlock_rdlock(pthread_rwlock_t*); int __real_pthread_rwlock_unlock(pthread_rwlock_t*); int __real_pthread_mutex_lock(pthread_mutex_t*); }
namespace sched {
struct Sem { sem_t s; Sem() { sem_init(&s, 0, 0); } void release() { sem_post(&s); } void acquire() { while (sem_wait(&s)) {} } bool acquireFor(int seconds) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); t.tv_sec += seconds; int r; while ((r = sem_clockwait(&s, CLOCK_MONOTONIC, &t)) && errno == EINTR) {} return r == 0; } };
struct Thread { std::thread t; Sem go; bool done = false; void* wants = nullptr; bool shared = false; bool quiet = false; std::function<void()> body; };
struct Lock { int owner = -1, depth = 0; std::multiset<int> readers; };
static vector<std::unique_ptr<Thread>> threads; static Sem back; static thread_local int me = -1; static std::map<void*, Lock>* locks; static bool active = false;
static void yield() { if (me < 0 || threads[me]->quiet) return; back.release(); threads[me]->go.acquire(); }
static bool mine() { return active && me >= 0 && !threads[me]->quiet; }
static bool freeFor(int t) { Thread& x = *threads[t]; if (!x.wants) return true; auto it = locks->find(x.wants); if (it == locks->end()) return true; Lock& l = it->second; if (x.shared) return l.owner < 0; if (!l.readers.empty()) return false; if (l.owner < 0) return true; return l.owner == t && l.depth < 0; }
static void acquire(void* m, bool shared, bool recursive)
{
	Thread& x = *threads[me]; x.quiet = true; Lock* l = &(*locks)[m]; bool again = l->owner == me && recursive; x.quiet = false;
	if (!again) { x.wants = m; x.shared = shared; yield(); x.wants = nullptr; }
	x.quiet = true; l = &(*locks)[m]; if (shared) l->readers.insert(me); else { l->owner = me; ++l->depth; } x.quiet = false;
}
static void release(void* m) { Thread& x = *threads[me]; x.quiet = true; Lock& l = (*locks)[m]; auto r = l.readers.find(me); if (r != l.readers.end()) l.readers.erase(r); else if (--l.depth == 0) l.owner = -1; x.quiet = false; }
// Run the bodies under every schedule with at most `bound` preemptions.
static void run(mc::Ctx& c, vector<std::function<void()>> bodies, int bound)
{
	std::map<void*, Lock> table; locks = &table; threads.clear();
	for (auto& b : bodies) { threads.emplace_back(new Thread); threads.back()->body = b; }
	active = true;
	for (size_t i = 0; i < threads.size(); ++i) threads[i]->t = std::thread([i] { Thread& x = *threads[i]; me = (int) i; x.go.acquire(); x.body(); x.quiet = true; x.done = true; back.release(); });
	int cur = -1, left = bound; std::exception_ptr thrown; auto choose = [&](int n) { if (thrown) return 0; try { return c.choose(n); } catch (...) { thrown = std::current_exception(); return 0; } };
	for (;;)
	{
		vector<int> en; bool all = true; for (size_t i = 0; i < threads.size(); ++i) { if (!threads[i]->done) { all = false; if (freeFor((int) i)) en.push_back((int) i); } }
		if (all) break;
		if (en.empty()) { fprintf(stderr, "P22: deadlock of the threads\n"); abort(); }
		size_t at = std::find(en.begin(), en.end(), cur) - en.begin(); int next;
		if (at < en.size()) { std::swap(en[0], en[at]); next = left > 0 ? en[choose((int) en.size())] : en[0]; if (next != cur) --left; } else next = en[choose((int) en.size())];
		if (next != cur) c.note("thread %d runs", next);
		cur = next; threads[cur]->go.release();
		if (!back.acquireFor(8)) { fprintf(stderr, "P22: a thread blocks for ever\n"); abort(); }
	}
	for (auto& t : threads) t->t.join(); active = false; threads.clear(); if (thrown) std::rethrow_exception(thrown);
}
}
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (sched::mine()) sched::acquire(m, false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE); return __real_pthread_mutex_lock(m); }
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { int r = __real_pthread_mutex_trylock(m); if (r == 0 && sched::mine()) sched::acquire(m, false, true); return r; }
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); if (sched::mine()) { sched::release(m); sched::yield(); } return r; }
extern "C" int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (sched::mine()) sched::acquire(m, false, false); return __real_pthread_rwlock_wrlock(m); }
extern "C" int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (sched::mine()) sched::acquire(m, true, true); return __real_pthread_rwlock_rdlock(m); }
extern "C" int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_unlock(m); if (sched::mine()) { sched::release(m); sched::yield(); } return r; }
// An allocation inside of the library is a scheduling point, too.
static thread_local bool inLibrary = false;
void* operator new(size_t n) { if (inLibrary && sched::mine()) sched::yield(); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- one event, one thread
namespace {
struct World
{
	mc::Ctx& c; int depth = 0, budget; int nextId = 0, nextArg = 100; string failKey, failMsg; char objects[3];
	struct Entry { int object, id; bool live; }; vector<std::shared_ptr<Entry>> entries;
	struct Raise { int arg; vector<std::shared_ptr<Entry>> todo; }; vector<Raise> stack;
	std::shared_ptr<int> token = std::make_shared<int>(0);
	std::function<void(int object, std::function<void(int, const char*)>)> insert; std::function<void(int)> remove; std::function<void(int, const char*)> raise; std::function<size_t()> count;
	World(mc::Ctx& c_, int b) : c(c_), budget(b) {}
	void bad(const string& k, const string& m) { if (failKey.empty()) { failKey = k; failMsg = m; } }
	void doInsert(int o)
	{
		int id = nextId++; c.op("%*sregister handler %d of object %d", 2 * depth, "", id, o); entries.push_back(std::make_shared<Entry>(Entry{ o, id, true }));
		auto t = token; insert(o, [this, id, t](int a, const char* s) { called(id, a, s); });
	}
	// A release undoes one registration of the object, the oldest.
	void doRemove(int o) { c.op("%*srelease object %d", 2 * depth, "", o); for (size_t i = 0; i < entries.size(); ++i) if (entries[i]->object == o) { entries[i]->live = false; entries.erase(entries.begin() + i); break; } remove(o); }
	void skip() { auto& t = stack.back().todo; while (!t.empty() && !t.back()->live) t.pop_back(); }
	void doRaise()
	{
		int a = nextArg++; c.op("%*sraise %d", 2 * depth, "", a); stack.push_back({ a, entries }); ++depth; string s = mc::strf("s%d", a); raise(a, s.c_str()); --depth;
		if (!failKey.empty()) return; skip(); if (!stack.back().todo.empty()) bad("event:missed", mc::strf("handler %d was not called for %d", stack.back().todo.back()->id, a)); stack.pop_back();
	}
	void called(int id, int a, const char* s)
	{
		if (!failKey.empty()) return; c.note("%*shandler %d called with %d", 2 * depth, "", id, a); if (stack.empty()) return bad("event:spurious", "a handler is called without a raise");
		Raise& r = stack.back(); if (r.arg != a || s != mc::strf("s%d", a)) return bad("event:arguments", mc::strf("handler %d got %d '%s' for %d", id, a, s, r.arg)); skip();
		if (r.todo.empty()) return bad("event:extra", mc::strf("handler %d is called for %d", id, a)); if (r.todo.back()->id != id) return bad("event:order", mc::strf("handler %d is called for %d instead of %d", id, a, r.todo.back()->id)); r.todo.pop_back();
		if (budget > 0) act();
	}
	void act()
	{
		int k = c.choose(depth < 3 ? 8 : 7); if (k == 0) return; --budget; if (k <= 3) doRemove(k - 1); else if (k <= 6) doInsert(k - 4); else doRaise();
	}
	void finish()
	{
		if (!failKey.empty()) c.fail(failKey, "%s", failMsg.c_str()); if (count) CHECK(count() == entries.size(), "event:count", "%d handlers, should be %d", (int) count(), (int) entries.size());
		string s; for (auto& e : entries) s += mc::strf("%d,", e->object); c.state(s);
	}
	void history(int n) { for (int i = 0; i < n && failKey.empty(); ++i) { int k = c.choose(7); if (k < 3) doInsert(k); else if (k < 6) doRemove(k - 3); else doRaise(); finish(); } doRaise(); finish(); }
};
}
SPACE(events, 3)
{
	World w(c, c.deep ? 3 : 2); { FUEvent<int, const char*> e; w.insert = [&](int o, auto f) { e.InsertHandler(&w.objects[o], f); }; w.remove = [&](int o) { e.ReleaseHandler(&w.objects[o]); }; w.raise = [&](int a, const char* s) { e(a, s); }; w.count = [&] { return e.GetHandlerCount(); }; w.history(c.deep ? 5 : 4); }
	CHECK(w.token.use_count() == 1, "event:leak", "%d handlers are still alive", (int) w.token.use_count() - 1);
}
SPACE(many, 2)
{
	World w(c, 2); { FUEvent<int, const char*> e; w.insert = [&](int o, auto f) { e.InsertHandler(&w.objects[o], f); }; w.remove = [&](int o) { e.ReleaseHandler(&w.objects[o]); }; w.raise = [&](int a, const char* s) { e(a, s); }; w.count = [&] { return e.GetHandlerCount(); };
		int n = c.range(2, c.deep ? 6 : 4); for (int i = 0; i < n; ++i) w.doInsert(c.choose(3)); w.doRaise(); w.finish(); w.doRaise(); w.finish(); }
	CHECK(w.token.use_count() == 1, "event:leak", "%d handlers are still alive", (int) w.token.use_count() - 1);
}
// ---------------------------------------------------------------- error reports, one thread
static void clean(World& w) { for (int l = 0; l < FUError::LEVEL_COUNT; ++l) for (char& o : w.objects) for (int i = 0; i < 12; ++i) FUError::RemoveErrorCallback((FUError::Level) l, &o); FUError::SetFatalityLevel(FUError::ERROR_LEVEL); }
static bool failed = false; 
SPACE(errors, 3)
{
	World w(c, 2); FUError::Level level = (FUError::Level) c.choose(3), fatal = (FUError::Level) c.choose(4); FUError::SetFatalityLevel(fatal); char other; int others = 0; failed = false;
	struct Guard { World& w; char& o; ~Guard() { clean(w); for (int l = 0; l < 3; ++l) FUError::RemoveErrorCallback((FUError::Level) l, &o); } } guard{ w, other };
	for (int l = 0; l < 3; ++l) if (l != level) FUError::AddErrorCallback((FUError::Level) l, &other, [&](FUError::Level, uint32, uint32) { ++others; });
	w.insert = [&](int o, auto f) { FUError::AddErrorCallback(level, &w.objects[o], [&, f](FUError::Level l, uint32 code, uint32 line) { if (l != level || line != code * 3) failed = true; f((int) code, mc::strf("s%d", code).c_str()); }); };
	w.remove = [&](int o) { FUError::RemoveErrorCallback(level, &w.objects[o]); };
	w.raise = [&](int a, const char*) { if (FUError::Error(level, (uint32) a, (uint32) a * 3) != (level >= fatal)) failed = true; };
	w.history(c.deep ? 4 : 3); CHECK(!failed, "error:arguments", "the level, line or result of an error is wrong"); CHECK(others == 0, "error:level", "a handler of another level was called"); CHECK(FUError::GetFatalityLevel() == fatal, "error:fatal", "the fatality level changed");
}
static string line(int level, uint32 code, uint32 l) { return mc::strf("[%u] %s%s", l, level == 1 ? "Warning: " : level == 2 ? "ERROR: " : "", FUError::GetErrorString((FUError::Code) code)); }
SPACE(messages, 2)
{
	static const vector<int> extra = { -1, 4999, FUError::ERROR_CUSTOM_STRING, 5001, 100000 }; int k = c.choose(400 + (int) extra.size()); int code = k < 400 ? k : extra[k - 400]; int level = c.choose(3); FUError::SetCustomErrorString("custom text");
	const char* s = FUError::GetErrorString((FUError::Code) code); CHECK(s != NULL && *s != 0, "message:empty", "code %d", code); string text = s; if (code == FUError::ERROR_CUSTOM_STRING) CHECK(text == "custom text", "message:custom", "%s", s);
	bool known = (code >= 0 && code <= FUError::DEBUG_WRITE_SUCCESSFUL) || code == FUError::ERROR_CUSTOM_STRING; if (!known) CHECK(text == "Unknown error code.", "message:unknown", "code %d is '%s'", code, s);
	int local = c.choose(3); FUErrorSimpleHandler h((FUError::Level) local); CHECK(h.IsSuccessful() && string(h.GetErrorString()) == "", "simple:start", "'%s'", h.GetErrorString());
	uint32 ln = (uint32) c.pick(vector<int>{ 0, 7, 12345 }); FUError::Error((FUError::Level) level, (uint32) code, ln); string w = line(level, (uint32) code, ln);
	CHECK(w == h.GetErrorString(), "simple:text", "'%s', should be '%s'", h.GetErrorString(), w.c_str()); CHECK(h.IsSuccessful() == (level < local), "simple:success", "level %d, fatal from %d", level, local);
	c.op("code %d at level %d", code, level); c.state(w);
}
// Simple handlers that come and go.
SPACE(reports, 2)
{
	vector<std::unique_ptr<FUErrorSimpleHandler>> hs; vector<string> texts; vector<bool> ok; vector<int> lim; int n = c.range(1, c.deep ? 7 : 6);
	for (int i = 0; i < n; ++i)
	{
		int k = c.choose(7);
		if (k < 2) { if (hs.size() == 3) c.prune(); int l = k + 1; c.op("new handler, fatal from %d", l); hs.emplace_back(new FUErrorSimpleHandler((FUError::Level) l)); texts.push_back(""); ok.push_back(true); lim.push_back(l); }
		else if (k < 4) { size_t at = k == 2 ? 0 : hs.size() - 1; if (hs.empty() || (k == 3 && hs.size() < 2)) c.prune(); c.op("delete handler %d", (int) at); hs.erase(hs.begin() + at); texts.erase(texts.begin() + at); ok.erase(ok.begin() + at); lim.erase(lim.begin() + at); }
		else { int level = k - 4; c.op("report at level %d", level); FUError::Error((FUError::Level) level, (uint32) i, (uint32) i); for (size_t j = 0; j < hs.size(); ++j) { if (!texts[j].empty()) texts[j] += "\n"; texts[j] += line(level, (uint32) i, (uint32) i); if (level >= lim[j]) ok[j] = false; } }
		for (size_t j = 0; j < hs.size(); ++j) { CHECK(texts[j] == hs[j]->GetErrorString(), "simple:texts", "'%s', should be '%s'", hs[j]->GetErrorString(), texts[j].c_str()); CHECK(ok[j] == hs[j]->IsSuccessful(), "simple:success", "handler %d", (int) j); }
	}
	string s; for (auto& t : texts) s += t + "|"; c.state(s);
}
// ---------------------------------------------------------------- several threads
// The library keeps its handler lists between cases: grow them once, so that every case allocates alike.
static bool grown = (mc::workerInit = [] { static char objects[64]; for (int l = 0; l < 3; ++l) { for (char& o : objects) FUError::AddErrorCallback((FUError::Level) l, &o, [](FUError::Level, uint32, uint32) {}); for (char& o : objects) FUError::RemoveErrorCallback((FUError::Level) l, &o); } }, true);
namespace {
struct Threads
{
	// Handlers are numbered; 0 and 1 are there from the start.
	struct H { bool registered = false, removed = false; int inside = 0; char object; std::map<int, int> got; }; H h[6]; string key, msg; vector<int> raised; std::map<int, std::set<int>> must, may; std::set<int> mayNow; int nested = 0;
	void bad(const string& k, const string& m) { if (key.empty()) { key = k; msg = m; } }
	template <class F> void lib(F f) { inLibrary = true; f(); inLibrary = false; }
	void called(int i, FUError::Level l, uint32 code, uint32 arg, int mode)
	{
		bool was = inLibrary; inLibrary = false; if (l != FUError::ERROR_LEVEL || arg != code + 7) bad("thread:arguments", mc::strf("code %u, argument %u", code, arg)); if (h[i].removed) bad("thread:late", mc::strf("handler %d is called after it was released", i));
		if (h[i].inside++) bad("thread:overlap", mc::strf("handler %d is called twice at the same time", i)); ++h[i].got[(int) code]; sched::yield();
		--h[i].inside;
		if (mode == 1 && code < 50) { raise((int) code + 50); } if (mode == 2) remove(i); inLibrary = was;
	}
	// The callback: copying and destroying it are scheduling points, too.
	struct Fn { Threads* t; int i, mode; static void point() { if (inLibrary && sched::mine()) sched::yield(); } Fn(Threads* t_, int i_, int m) : t(t_), i(i_), mode(m) {} Fn(const Fn& o) : t(o.t), i(o.i), mode(o.mode) { point(); } ~Fn() { point(); } void operator()(FUError::Level l, uint32 c, uint32 a) const { t->called(i, l, c, a, mode); } };
	void add(int i, int mode) { lib([&] { FUError::AddErrorCallback(FUError::ERROR_LEVEL, &h[i].object, Fn(this, i, mode)); }); h[i].registered = true; }
	void remove(int i) { h[i].registered = false; for (auto& m : must) m.second.erase(i); bool self = h[i].inside != 0; lib([&] { FUError::RemoveErrorCallback(FUError::ERROR_LEVEL, &h[i].object); }); h[i].removed = true; if (h[i].inside && !self) bad("thread:running", mc::strf("handler %d is still running after it was released", i)); }
	void raise(int code) { raised.push_back(code); for (int i = 0; i < 6; ++i) if (h[i].registered) must[code].insert(i); bool r = false; lib([&] { r = FUError::Error(FUError::ERROR_LEVEL, (uint32) code, (uint32) code + 7); }); if (!r) bad("thread:result", "an error is not fatal"); for (int i : must[code]) if (h[i].got[code] != 1) bad("thread:missed", mc::strf("handler %d was called %d times for %d", i, h[i].got[code], code)); }
};
}
static const char* programNames[] = { "raise 1; raise 2", "release 0", "register 2", "register 2; raise 3; release 2", "release 1; raise 4", "register 3; release 3" };
static std::function<void()> program(Threads& t, int k, int slot)
{
	int b = 10 * slot, n = 2 + slot; // each thread raises its own codes and registers its own handlers
	switch (k)
	{
	case 0: return [&t, b] { t.raise(b + 1); t.raise(b + 2); };
	case 1: return [&t] { t.remove(0); };
	case 2: return [&t, n] { t.add(n, 0); };
	case 3: return [&t, b, n] { t.add(n, 0); t.raise(b + 3); t.remove(n); };
	case 4: return [&t, b] { t.remove(1); t.raise(b + 4); };
	default: return [&t, n] { t.add(n, 0); t.remove(n); };
	}
}
static void interleave(mc::Ctx& c, int count, int bound)
{
	Threads t; int mode = c.choose(3); vector<int> ps; for (int i = 0; i < count; ++i) { int k = c.choose(6); if (i && k < ps.back()) c.prune(); ps.push_back(k); } int ones = 0, fours = 0; for (int k : ps) { ones += k == 1; fours += k == 4; } if (ones > 1 || fours > 1) c.prune();
	c.op("handlers 0 (mode %d) and 1 are registered", mode); for (int i = 0; i < count; ++i) c.op("thread %d: %s", i, programNames[ps[i]]);
	{
		struct Guard { Threads& t; ~Guard() { for (auto& h : t.h) FUError::RemoveErrorCallback(FUError::ERROR_LEVEL, &h.object); } } guard{ t }; t.add(0, mode); t.add(1, 0);
		vector<std::function<void()>> bodies; for (int i = 0; i < count; ++i) bodies.push_back(program(t, ps[i], i)); sched::run(c, bodies, bound);
		if (!t.key.empty()) c.fail(t.key, "%s", t.msg.c_str());
		// Afterwards exactly the handlers that are left get an error.
		for (auto& h : t.h) h.got.clear(); FUError::Error(FUError::ERROR_LEVEL, 99, 106); if (!t.key.empty()) c.fail(t.key, "%s", t.msg.c_str());
		for (int i = 0; i < 6; ++i) CHECK(t.h[i].got[99] == (t.h[i].registered ? 1 : 0) || (mode == 2 && i == 0), "thread:registry", "handler %d gets %d calls afterwards", i, t.h[i].got[99]);
		string s; for (int i = 0; i < 6; ++i) s += t.h[i].registered ? 'r' : '-'; for (int r : t.raised) s += mc::strf(" %d", r); c.state(s); c.nontrivial();
	}
}
SPACE(pairs, 3) { interleave(c, 2, c.deep ? 3 : 2); }
SPACE(triples, 4) { interleave(c, 3, c.deep ? 2 : 1); }
// The simple handler, shared by threads: every message is there once, in the order of some schedule.
SPACE(shared, 2)
{
	int count = c.range(2, 3); std::unique_ptr<FUErrorSimpleHandler> h(new FUErrorSimpleHandler()); vector<std::function<void()>> bodies; for (int i = 0; i < count; ++i) bodies.push_back([i] { for (int k = 0; k < 2; ++k) { inLibrary = true; FUError::Error((FUError::Level) (k + 1), (uint32) (10 * i + k), (uint32) i); inLibrary = false; } });
	c.op("%d threads report two messages each", count); sched::run(c, bodies, count == 2 ? 3 : c.deep ? 3 : 2); string s = h->GetErrorString(); size_t lines = 1 + std::count(s.begin(), s.end(), '\n'); CHECK(lines == 2u * count, "shared:lines", "%d lines: %s", (int) lines, s.c_str());
	for (int i = 0; i < count; ++i) { size_t last = 0; for (int k = 0; k < 2; ++k) { string l = line(k + 1, (uint32) (10 * i + k), (uint32) i); size_t at = ("\n" + s + "\n").find("\n" + l + "\n"); CHECK(at != string::npos, "shared:text", "no '%s' in '%s'", l.c_str(), s.c_str()); CHECK(k == 0 || at > last, "shared:order", "%s", s.c_str()); last = at; } } CHECK(!h->IsSuccessful(), "shared:success", "an error was reported"); c.state(s);
}
