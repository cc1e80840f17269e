// Exhaustive bounded explorer for checks that run the real FCollada code.
//
// A *space* is a function of a choice oracle (mc::Ctx).  The explorer runs the function once per
// sequence of choices, in depth-first order, until every sequence has been executed: the executions
// are enumerated, never sampled.  Every execution runs in a forked worker, so that a crash, a
// sanitizer report, an assertion of the library or a hang of one execution is a verdict about that
// execution, and exploration carries on behind it.
#pragma once
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <cstring>

namespace mc {

struct Failure { std::string key, msg; };
struct Pruned {};      // this branch is outside of the space
struct OtherShard {};  // this branch belongs to another worker

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);

struct Ctx {
	bool deep = false;  // thorough tier
	// One nondeterministic choice among n alternatives; all of them get explored.
	int choose(int n);
	bool flag() { return choose(2) != 0; }
	template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t) choose((int) v.size())]; }
	int range(int lo, int hi) { return lo + choose(hi - lo + 1); }  // inclusive

	// One transition: recorded in the trace that a violation prints.
	void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// More detail in the trace, without counting a transition.
	void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	// One reached state, by its canonical text or hash.
	void state(const std::string& s) { state(hash_bytes(s.data(), s.size())); }
	void state(uint64_t h);
	// Count one evaluated oracle comparison, and mark the case as not trivial.
	void nontrivial() { nontriv = true; }

	// The oracle.
	[[noreturn]] void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	void check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
	[[noreturn]] void prune() { throw Pruned(); }

	// The library's own assertions (FUAssert): legal use should never trip one.
	// While tolerant, they are ignored.
	bool tolerateAsserts = false;
	void checkAsserts(const char* where);   // fails if an assertion fired since the case started

	// private
	std::vector<int> path, arity; size_t pos = 0; bool replaying = false;
	size_t shardDepth = 0; int shard = 0, shards = 1; bool shardOk = true;
	std::string trace; bool nontriv = false; bool traceOn = false;
	uint64_t ops = 0;
};

struct Space { std::string name; size_t shardDepth; std::function<void(Ctx&)> body; bool thoroughOnly; };
void addSpace(const char* name, size_t shardDepth, std::function<void(Ctx&)> body, bool thoroughOnly = false);
struct Reg { Reg(const char* n, size_t d, std::function<void(Ctx&)> b, bool t = false) { addSpace(n, d, b, t); } };
extern const char* property;      // set by the check
extern const char* level;         // evidence level
extern const char* rule;          // how cases are made, what makes one non-trivial
extern std::vector<std::string> assumptions;
void hush();                      // called once per worker: silence the library
extern void (*workerInit)();   // per-check initialisation in each worker
extern int caseTimeout;           // seconds
// scratch directory of the running worker (removed by the parent)
const std::string& scratch();
}

#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
// SPACE(name, shard depth) { body using Ctx& c }
#define SPACE(name, depth) \
	static void name(mc::Ctx& c); static mc::Reg MC_CAT(reg_,name)(#name, depth, name); static void name(mc::Ctx& c)
#define SPACE_T(name, depth) \
	static void name(mc::Ctx& c); static mc::Reg MC_CAT(reg_,name)(#name, depth, name, true); static void name(mc::Ctx& c)
// The oracle, with its message formatted only on failure.
#define CHECK(cond, key, ...) do { c.nontriv = true; if (!(cond)) c.fail(key, __VA_ARGS__); } while (0)
