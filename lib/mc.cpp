#include "mc.h"
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <dirent.h>
#include <time.h>
#include <stdlib.h>
#ifndef MC_NO_FCOLLADA
#include "FCollada.h"
#include "FUtils/FUAssert.h"
#endif

namespace mc {

const char* property __attribute__((weak)) = "P00";
void (*workerInit)() = NULL;
int caseTimeout = 20;
static std::vector<Space>& spaces() { static std::vector<Space> s; return s; }
void addSpace(const char* name, size_t d, std::function<void(Ctx&)> b, bool t) { spaces().push_back({name, d, b, t}); }

std::string strf(const char* fmt, ...)
{
	va_list a; va_start(a, fmt); char* p = NULL; int n = vasprintf(&p, fmt, a); va_end(a);
	std::string s(p, (size_t) (n < 0 ? 0 : n)); free(p); return s;
}
static std::string vstrf(const char* fmt, va_list a)
{
	char* p = NULL; int n = vasprintf(&p, fmt, a);
	std::string s(p, (size_t) (n < 0 ? 0 : n)); free(p); return s;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
	const unsigned char* c = (const unsigned char*) p;
	for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
	h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
	return h;
}

static const size_t MAXPATH = 512;
struct Shm
{
	volatile uint32_t len; volatile uint16_t path[MAXPATH], arity[MAXPATH];
	volatile uint64_t runs, ops, cases, pruned, nontriv;
	volatile uint32_t running;
};
static Shm* shm = NULL;
static std::unordered_set<uint64_t> states;
static const size_t MAXSTATES = 1500000;
static bool statesCapped = false;
static volatile int assertCount = 0;
static std::string lastAssert;
static std::string scratchDir;
const std::string& scratch() { return scratchDir; }

int Ctx::choose(int n)
{
	if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); abort(); }
	int v;
	if (pos < path.size())
	{
		v = path[pos];
		if (pos < arity.size()) { if (arity[pos] != n) { fprintf(stderr, "mc: arity changed at %zu: %d -> %d (not deterministic)\n", pos, arity[pos], n); _exit(77); } }
		else arity.push_back(n);
		if (v >= n) { if (replaying) v = n - 1; else { fprintf(stderr, "mc: choice out of range\n"); _exit(77); } }
	}
	else { v = 0; path.push_back(0); arity.push_back(n); }
	if (pos >= MAXPATH) { fprintf(stderr, "mc: path too long\n"); _exit(77); }
	shm->path[pos] = (uint16_t) v; shm->arity[pos] = (uint16_t) n; shm->len = (uint32_t) (pos + 1);
	++pos;
	if (pos == shardDepth && shards > 1 && !replaying)
	{
		uint64_t h = 77;
		for (size_t i = 0; i < pos; ++i) h = h * 1000003ull + (uint64_t) path[i] + 1;
		h ^= h >> 31; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 29;
		if ((int) (h % (uint64_t) shards) != shard) throw OtherShard();
	}
	return v;
}
void Ctx::op(const char* fmt, ...)
{
	++ops;
	if (!traceOn) return;
	va_list a; va_start(a, fmt); std::string l = "  " + vstrf(fmt, a) + "\n"; trace += l; fputs(l.c_str(), stderr); va_end(a);
}
void Ctx::note(const char* fmt, ...)
{
	if (!traceOn) return;
	va_list a; va_start(a, fmt); std::string l = "    # " + vstrf(fmt, a) + "\n"; trace += l; fputs(l.c_str(), stderr); va_end(a);
}
void Ctx::state(uint64_t h)
{
	if (h == 0) h = 1;
	if (states.size() < MAXSTATES) states.insert(h); else statesCapped = true;
}
void Ctx::fail(const std::string& key, const char* fmt, ...)
{
	va_list a; va_start(a, fmt); std::string m = vstrf(fmt, a); va_end(a);
	throw Failure{key, m};
}
void Ctx::check(bool ok, const char* key, const char* fmt, ...)
{
	nontriv = true;
	if (ok) return;
	va_list a; va_start(a, fmt); std::string m = vstrf(fmt, a); va_end(a);
	throw Failure{key, m};
}
void Ctx::checkAsserts(const char* where)
{
	if (assertCount != 0 && !tolerateAsserts) { std::string la = lastAssert; throw Failure{std::string("assert:") + la, std::string("library assertion ") + la + " in " + where}; }
}

#ifndef MC_NO_FCOLLADA
static const char* onAssert(bool) { return NULL; }
// The callback only receives a bool, so the location is taken by interposing FUAssertion::OnAssertionFailed (see fuassert.cpp).
#endif
void noteAssert(const char* file, unsigned line)
{
	++assertCount;
	const char* b = strrchr(file, '/'); lastAssert = strf("%s", b ? b + 1 : file); (void) line;
}

// run one case; returns 0 ok, 1 pruned, 2 other shard, 3 failure
static int runCase(Space& sp, Ctx& c, Failure& f)
{
	assertCount = 0;
	struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = caseTimeout;
	setitimer(ITIMER_REAL, &tv, NULL);
	shm->running = 1;
	int r = 0;
	try { sp.body(c); c.checkAsserts("the case"); }
	catch (const Pruned&) { r = 1; }
	catch (const OtherShard&) { r = 2; }
	catch (const Failure& x) { f = x; r = 3; }
	catch (const std::exception& x) { f = Failure{"exception", std::string("C++ exception: ") + x.what()}; r = 3; }
	catch (...) { f = Failure{"exception", "exception thrown"}; r = 3; }
	shm->running = 0;
	return r;
}
static void onAlarm(int) { static const char m[] = "mc: HANG\n"; (void) !write(2, m, sizeof m - 1); _exit(78); }

static bool advance(Ctx& c)
{
	// cut what the last run did not reach
	c.path.resize(c.pos); c.arity.resize(c.pos);
	while (!c.path.empty())
	{
		if (c.path.back() + 1 < c.arity.back()) { ++c.path.back(); c.arity.resize(c.path.size()); return true; }
		c.path.pop_back(); c.arity.pop_back();
	}
	return false;
}

struct Viol { std::string space, key, msg, trace; std::vector<int> path; bool reproduced = false; };

static std::string esc(const std::string& s)
{
	std::string o;
	for (unsigned char ch : s)
	{
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch >= 127) o += strf("\\u%04x", ch);
		else o += (char) ch;
	}
	return o;
}
static std::string slurp(const std::string& p)
{
	std::string s; FILE* f = fopen(p.c_str(), "rb"); if (!f) return s;
	char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
	fclose(f); return s;
}
static void rmrf(const std::string& d)
{
	DIR* D = opendir(d.c_str()); if (!D) return;
	while (struct dirent* e = readdir(D))
	{
		std::string n = e->d_name; if (n == "." || n == "..") continue;
		std::string p = d + "/" + n; struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmrf(p); else unlink(p.c_str());
	}
	closedir(D); rmdir(d.c_str());
}
// the sanitizer's summary as a stable key
static std::string crashKey(const std::string& err, int status, std::string& why)
{
	size_t p;
	auto line = [&](size_t a) { size_t e = err.find('\n', a); return err.substr(a, e == std::string::npos ? std::string::npos : e - a); };
	if (WIFEXITED(status) && WEXITSTATUS(status) == 78) { why = "the execution does not terminate"; return "hang"; }
	if ((p = err.find("SUMMARY: ")) != std::string::npos)
	{
		std::string l = line(p); why = l;
		std::string kind = "sanitizer", func;
		size_t k = l.find("Sanitizer: "); if (k != std::string::npos) { size_t e = l.find(' ', k + 11); kind = l.substr(k + 11, e - (k + 11)); }
		// first frame in the repository
		size_t q = 0; 
		while ((q = err.find("\n    #", q)) != std::string::npos)
		{
			std::string fl = line(q + 1);
			size_t in = fl.find(" in ");
			if (in != std::string::npos && fl.find("/FCollada") != std::string::npos)
			{
				func = fl.substr(in + 4); size_t e = func.find(" /"); if (e != std::string::npos) func = func.substr(0, e);
				size_t par = func.find('('); if (par != std::string::npos) func = func.substr(0, par);
				break;
			}
			++q;
		}
		if (kind == "undefined-behavior" && (q = err.find("runtime error: ")) != std::string::npos)
		{
			size_t b = err.rfind('\n', q); b = b == std::string::npos ? 0 : b + 1;
			std::string m = line(b); why = m;
			std::string where = m.substr(0, m.find(':')); size_t s = where.rfind('/'); if (s != std::string::npos) where = where.substr(s + 1);
			return "ubsan:" + where + ":" + func;
		}
		return "asan:" + kind + ":" + func;
	}
	if (WIFSIGNALED(status)) { why = strf("killed by signal %d", WTERMSIG(status)); return strf("signal:%d", WTERMSIG(status)); }
	why = strf("exit status %d", WEXITSTATUS(status)); return strf("exit:%d", WEXITSTATUS(status));
}

static std::string base;   // scratch base of this run
static bool deepTier = false;

static void workerSetup(const std::string& dir, const std::string& errFile)
{
	int fd = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); close(fd);
	int nul = open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 0); close(nul);
	mkdir(dir.c_str(), 0700); if (chdir(dir.c_str())) {}
	scratchDir = dir;
	struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
	signal(SIGALRM, onAlarm);
#ifndef MC_NO_FCOLLADA
	static FUAssertion::FUAssertCallback cb = onAssert; FUAssertion::SetAssertionFailedCallback(&cb);
#endif
	if (workerInit) workerInit();
}

// Replay one path in a fresh process. Returns true when it fails; fills v.
static bool replayFresh(Space& sp, const std::vector<int>& path, Viol& v)
{
	static int seq = 0; std::string tag = strf("%s/r%d", base.c_str(), seq++);
	memset((void*) shm, 0, sizeof *shm);
	pid_t pid = fork();
	if (pid == 0)
	{
		workerSetup(tag + ".d", tag + ".err");
		FILE* out = fopen((tag + ".out").c_str(), "w");
		Ctx c; c.deep = deepTier; c.path = path; c.replaying = true; c.traceOn = true;
		Failure f; int r;
		// stream the trace, so that it survives a crash
		r = runCase(sp, c, f);
		if (r == 3) fprintf(out, "F\n%s\n%s\n", f.key.c_str(), f.msg.c_str()); else fprintf(out, "K\n\n\n");
		fputs("T\n", out); fputs(c.trace.c_str(), out); fclose(out);
		_exit(0);
	}
	int st = 0; waitpid(pid, &st, 0);
	std::string out = slurp(tag + ".out"), err = slurp(tag + ".err");
	rmrf(tag + ".d"); unlink((tag + ".out").c_str()); unlink((tag + ".err").c_str());
	v.space = sp.name; v.path = path;
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
	{
		v.key = crashKey(err, st, v.msg); v.trace = err.substr(0, 6000); return true;
	}
	if (out.compare(0, 2, "F\n") == 0)
	{
		size_t a = 2, b = out.find('\n', a); v.key = out.substr(a, b - a);
		size_t t = out.find("\nT\n", b); v.msg = out.substr(b + 1, t - b - 1); v.trace = out.substr(t + 3); return true;
	}
	size_t t = out.find("T\n"); v.trace = t == std::string::npos ? "" : out.substr(t + 2);
	return false;
}
// Trace of a passing/failing path (for samples): re-executes it.
static std::string pathStr(const std::vector<int>& p) { std::string s; for (size_t i = 0; i < p.size(); ++i) s += strf(i ? ",%d" : "%d", p[i]); return s; }

struct Job { size_t space; int shard, shards; pid_t pid = -1; Shm* shm = NULL; int attempts = 0; std::vector<int> resumePath, resumeArity; bool resume = false; std::string tag;
	std::vector<std::string> tags; uint64_t runs = 0, ops = 0, pruned = 0, nontriv = 0; };

static void worker(Job& j)
{
	shm = j.shm;
	Space& sp = spaces()[j.space];
	workerSetup(j.tag + ".d", j.tag + ".err");
	FILE* out = fopen((j.tag + ".out").c_str(), "w");
	Ctx c; c.deep = deepTier; c.shardDepth = sp.shardDepth; c.shard = j.shard; c.shards = j.shards;
	int fails = 0;
	if (j.resume)
	{
		// go on behind the case that crashed
		c.path = j.resumePath; c.arity = j.resumeArity; c.pos = c.path.size();
		if (!advance(c)) goto done;
	}
	for (;;)
	{
		c.pos = 0; c.trace.clear(); c.nontriv = false; c.ops = 0;
		Failure f; int r = runCase(sp, c, f);
		if (r == 0 && c.pos < sp.shardDepth && j.shard != 0) r = 2;   // too short to be sharded: counted by worker 0
		if (r == 0) { shm->runs++; shm->ops += c.ops; if (c.nontriv) shm->nontriv++; }
		else if (r == 1) shm->pruned++;
		else if (r == 3)
		{
			shm->runs++; shm->ops += c.ops; shm->nontriv++;
			std::vector<int> p(c.path.begin(), c.path.begin() + (long) c.pos);
			fprintf(out, "V %s\n%s\n", f.key.c_str(), pathStr(p).c_str()); fflush(out);
			if (++fails > 3000) { fprintf(out, "X\n"); break; }
		}
		if (!advance(c)) break;
	}
done:
	{
		struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_REAL, &tv, NULL);
	}
	fprintf(out, "D\n"); fclose(out);
	FILE* sf = fopen((j.tag + ".st").c_str(), "wb");
	for (uint64_t h : states) fwrite(&h, 8, 1, sf);
	if (statesCapped) { uint64_t z = 0; fwrite(&z, 8, 1, sf); }
	fclose(sf);
	_exit(0);
}

static std::map<std::string, std::string> knownFindings(const char* file)
{
	// lines: KNOWN property=<id> key=<space>|<key> :: <what fails>
	std::map<std::string, std::string> m; std::string s = slurp(file); size_t a = 0;
	while (a < s.size())
	{
		size_t e = s.find('\n', a); if (e == std::string::npos) e = s.size();
		std::string l = s.substr(a, e - a); a = e + 1;
		std::string pre = std::string("KNOWN property=") + property + " key=";
		if (l.compare(0, pre.size(), pre) != 0) continue;
		size_t sep = l.find(" :: "); if (sep == std::string::npos) continue;
		m[l.substr(pre.size(), sep - pre.size())] = l.substr(sep + 4);
	}
	return m;
}

static int run(int argc, char** argv)
{
	const char* evidence = NULL; const char* known = NULL; const char* replayFile = NULL; const char* replayDir = "."; const char* only = NULL;
	const char* tier = "quick"; long seed = 1; int par = 8;
	for (int i = 1; i + 1 < argc; i += 2)
	{
		std::string o = argv[i]; const char* v = argv[i + 1];
		if (o == "--evidence") evidence = v; else if (o == "--known") known = v; else if (o == "--tier") tier = v; else if (o == "--seed") seed = atol(v);
		else if (o == "--replay") replayFile = v; else if (o == "--replay-dir") replayDir = v; else if (o == "--only") only = v; else if (o == "--par") par = atoi(v);
	}
	deepTier = strcmp(tier, "thorough") == 0;
	char tmpl[] = "/tmp/mcXXXXXX"; base = mkdtemp(tmpl);
	shm = (Shm*) mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);

	if (replayFile)
	{
		// format: property, tier, space, choices
		std::string s = slurp(replayFile); char sp[256] = ""; char tr[64] = ""; std::vector<int> path;
		size_t a = 0; 
		while (a < s.size())
		{
			size_t e = s.find('\n', a); if (e == std::string::npos) e = s.size(); std::string l = s.substr(a, e - a); a = e + 1;
			if (l.compare(0, 6, "space ") == 0) snprintf(sp, sizeof sp, "%s", l.c_str() + 6);
			if (l.compare(0, 5, "tier ") == 0) snprintf(tr, sizeof tr, "%s", l.c_str() + 5);
			if (l.compare(0, 8, "choices ") == 0) { const char* p = l.c_str() + 8; while (*p) { path.push_back((int) strtol(p, (char**) &p, 10)); if (*p == ',') ++p; else break; } }
		}
		if (tr[0]) deepTier = strcmp(tr, "thorough") == 0;
		for (Space& x : spaces()) if (x.name == sp)
		{
			Viol v; bool bad = replayFresh(x, path, v);
			printf("%s\n%s|%s: %s\n%s", bad ? "FAILS" : "passes", sp, v.key.c_str(), v.msg.c_str(), v.trace.c_str()); rmrf(base);
			return bad ? 1 : 0;
		}
		printf("no such space %s\n", sp); rmrf(base); return 2;
	}

	std::vector<Job> jobs; 
	for (size_t s = 0; s < spaces().size(); ++s)
	{
		if (spaces()[s].thoroughOnly && !deepTier) continue;
		if (only && spaces()[s].name != only) continue;
		int n = spaces()[s].shardDepth ? (deepTier ? 4 * par : 2 * par) : 1;
		for (int k = 0; k < n; ++k) { Job j; j.space = s; j.shard = k; j.shards = n; jobs.push_back(j); }
	}
	std::vector<Viol> found; std::map<std::string, int> keyCount; 
	std::map<std::string, std::pair<std::vector<int>, size_t>> firstOfKey;  // key -> path, space
	size_t next = 0; int running = 0; std::vector<size_t> retry; uint64_t crashes = 0; bool cut = false; std::map<size_t, int> spaceCrashes, spaceHangs;
	int tagSeq = 0;
	auto start = [&](size_t k)
	{
		Job& j = jobs[k];
		j.shm = (Shm*) mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		j.tag = strf("%s/w%d", base.c_str(), tagSeq++); j.tags.push_back(j.tag); ++j.attempts;
		fflush(NULL);
		j.pid = fork(); if (j.pid == 0) worker(j);
		++running;
	};
	auto record = [&](size_t space, const std::string& key, const std::vector<int>& path)
	{
		std::string full = spaces()[space].name + "|" + key; keyCount[full]++;
		auto it = firstOfKey.find(full);
		if (it == firstOfKey.end() || path.size() < it->second.first.size() || (path.size() == it->second.first.size() && path < it->second.first)) firstOfKey[full] = { path, space };
	};
	std::unordered_set<uint64_t> allStates; bool capped = false; uint64_t runs = 0, ops = 0, pruned = 0, nontriv = 0;
	std::map<std::string, uint64_t> perSpace;
	while (next < jobs.size() || running > 0 || !retry.empty())
	{
		while (next < jobs.size() && retry.empty() && spaceHangs[jobs[next].space] >= 4) { ++next; cut = true; } // executions of this space do not end: enough of them were seen
		while (running < par && (!retry.empty() || next < jobs.size())) { if (!retry.empty()) { size_t k = retry.back(); retry.pop_back(); start(k); } else start(next++); }
		int st = 0; pid_t pid = waitpid(-1, &st, 0); if (pid < 0) break;
		size_t k = 0; for (; k < jobs.size(); ++k) if (jobs[k].pid == pid) break;
		if (k == jobs.size()) continue;
		--running; Job& j = jobs[k]; j.pid = -1;
		runs += j.shm->runs; ops += j.shm->ops; pruned += j.shm->pruned; nontriv += j.shm->nontriv; perSpace[spaces()[j.space].name] += j.shm->runs;
		std::string out = slurp(j.tag + ".out"); size_t a = 0; 
		while (a < out.size())
		{
			size_t e = out.find('\n', a); if (e == std::string::npos) break; std::string l = out.substr(a, e - a); a = e + 1;
			if (l.compare(0, 2, "V ") == 0)
			{
				size_t e2 = out.find('\n', a); if (e2 == std::string::npos) break; std::string p = out.substr(a, e2 - a); a = e2 + 1; std::vector<int> path; const char* q = p.c_str();
				while (*q) { path.push_back((int) strtol(q, (char**) &q, 10)); if (*q == ',') ++q; else break; }
				record(j.space, l.substr(2), path);
			}
			if (l == "X") cut = true;
		}
		std::string sts = slurp(j.tag + ".st");
		for (size_t i = 0; i + 8 <= sts.size(); i += 8) { uint64_t h; memcpy(&h, sts.data() + i, 8); if (h == 0) capped = true; else allStates.insert(h); }
		if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
		{
			++crashes; std::string err = slurp(j.tag + ".err"), why;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { printf("HARNESS ERROR: %s\n", err.c_str()); }
			std::string key = crashKey(err, st, why);
			std::vector<int> p, ar; for (uint32_t i = 0; i < j.shm->len; ++i) { p.push_back(j.shm->path[i]); ar.push_back(j.shm->arity[i]); }
			if (j.shm->running) { record(j.space, key, p); runs++; nontriv++; }
			else { record(j.space, "outside-case:" + key, p); }
			j.resume = true; j.resumePath = p; j.resumeArity = ar;
			if (key == "hang") ++spaceHangs[j.space];
			if (++spaceCrashes[j.space] <= 400 && spaceHangs[j.space] < 4 && j.shm->running) retry.push_back(k); else cut = true;
		}
		rmrf(j.tag + ".d"); unlink((j.tag + ".out").c_str()); unlink((j.tag + ".err").c_str()); unlink((j.tag + ".st").c_str());
		munmap(j.shm, sizeof(Shm));
	}
	// Replay every kind of failure against a fresh process before it is reported.
	auto knownMap = knownFindings(known ? known : "/dev/null");
	int violations = 0, knownHits = 0; std::string firstTraces;
	mkdir(replayDir, 0755);
	for (auto& kv : firstOfKey)
	{
		Space& sp = spaces()[kv.second.second]; Viol v; 
		bool bad = replayFresh(sp, kv.second.first, v);
		if (bad) { Viol v2; bool again = replayFresh(sp, kv.second.first, v2); (void) again; }
		std::string full = kv.first;
		if (knownMap.count(full)) { printf("KNOWN-FINDING: property=%s %s (%s; %d executions)\n", property, knownMap[full].c_str(), full.c_str(), keyCount[full]); ++knownHits; continue; }
		if (!bad) { printf("note: %s did not fail again when replayed alone: %s\n", full.c_str(), pathStr(kv.second.first).c_str());
			// A worker that was ended from outside (memory of the machine, load) is not a failure of the case, which has now run to its end.
			if (full.find("|signal:9") != std::string::npos || full.find("|hang") != std::string::npos) continue;
		}
		++violations;
		std::string rf = strf("%s/%s-%d.replay", replayDir, property, violations);
		FILE* f = fopen(rf.c_str(), "w");
		if (f)
		{
			fprintf(f, "property %s\ntier %s\nspace %s\nchoices %s\nkey %s\nfails-alone %s\nmessage %s\n--- trace\n%s\n", property, tier, sp.name.c_str(), pathStr(kv.second.first).c_str(), full.c_str(), bad ? "yes" : "no", v.msg.c_str(), v.trace.c_str());
			fclose(f);
		}
		printf("VIOLATION property=%s replay=%s\n  %s (%d executions): %s\n", property, rf.c_str(), full.c_str(), keyCount[full], v.msg.substr(0, 600).c_str());
	}
	// Samples: the trace of the first full execution of every space.
	std::string samples; int ns = 0;
	for (size_t s = 0; s < spaces().size() && ns < 4; ++s)
	{
		if (perSpace[spaces()[s].name] == 0) continue;
		// the very first path, and one deep in the space: last alternatives of the first choices
		Viol v; replayFresh(spaces()[s], std::vector<int>(24, 1000000), v);
		std::string t = v.trace; if (t.size() > 1500) { t = t.substr(0, 1500); t += "..."; }
		samples += strf("%s\"%s: %s\"", ns ? ", " : "", esc(spaces()[s].name).c_str(), esc(t).c_str()); ++ns;
	}
	struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
	double wall = (double) (t1.tv_sec - t0.tv_sec) + 1e-9 * (double) (t1.tv_nsec - t0.tv_nsec);
	std::string sp; for (auto& x : perSpace) sp += strf("%s\"%s\": %llu", sp.empty() ? "" : ", ", x.first.c_str(), (unsigned long long) x.second);
	if (evidence)
	{
		FILE* f = fopen(evidence, "w");
		if (f)
		{
			bool model = strcmp(level, "model_checking") == 0;
			fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %ld, \"level\": \"%s\",\n \"coverage\": {", property, tier, seed, level);
			if (model) fprintf(f, "\"states\": %zu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, ", allStates.size(), (unsigned long long) ops, (unsigned long long) runs);
			else fprintf(f, "\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"distinct_states\": %zu, \"steps\": %llu, ", (unsigned long long) runs, (unsigned long long) nontriv, allStates.size(), (unsigned long long) ops);
			fprintf(f, "\"rule\": \"%s\", \"exhaustive\": %s, \"states_capped\": %s, \"pruned\": %llu, \"crashed_executions\": %llu, \"executions_per_space\": {%s},\n  \"samples\": [%s]},\n",
				esc(rule).c_str(), cut ? "false" : "true", capped ? "true" : "false", (unsigned long long) pruned, (unsigned long long) crashes, sp.c_str(), samples.c_str());
			fprintf(f, " \"assumptions\": [");
			for (size_t i = 0; i < assumptions.size(); ++i) fprintf(f, "%s\"%s\"", i ? ", " : "", esc(assumptions[i]).c_str());
			fprintf(f, "],\n \"known_findings_hit\": %d, \"violations\": %d, \"wall_s\": %.3f}\n", knownHits, violations, wall);
			fclose(f);
		}
	}
	printf("%s %s: %llu executions, %llu steps, %zu distinct states, %llu pruned, %.1f s; %d violation(s), %d known finding(s)\n", property, tier,
		(unsigned long long) runs, (unsigned long long) ops, allStates.size(), (unsigned long long) pruned, wall, violations, knownHits);
	for (auto& x : perSpace) printf("  %s: %llu\n", x.first.c_str(), (unsigned long long) x.second);
	rmrf(base);
	return violations ? 1 : 0;
}
}

#ifndef MC_NO_FCOLLADA
extern "C" const char* __asan_default_options() { return "detect_leaks=0:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:hard_rss_limit_mb=2500:detect_odr_violation=0:max_malloc_fill_size=65536:symbolize=1:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=98"; }
#endif
int main(int argc, char** argv) { return mc::run(argc, argv); }
