// P05: ownership, tracking and references.
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include "FCollada.h"
#include "FUtils/FUObject.h"
#include "FUtils/FUTracker.h"
#include "mc.h"
const char* mc::property = "P05"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of creations, ownership changes, tracking changes and releases up to a bounded length over a few objects, owning references, containers, tracking pointers, lists and trackers, from every populated start, with every reaction of the trackers to a release (also releasing, tracking, untracking and copying); a case is non-trivial when all owners, pointers, lists and destructions were compared with the model";
std::vector<std::string> mc::assumptions = { "an object is given to one owner at a time and put into a tracked list or tracker once, as the library asserts" };
using std::string; using std::vector;
namespace {
struct World;
struct Obj : FUTrackable { World& w; int id; Obj(World& w_, int i) : w(w_), id(i) {} ~Obj(); };
typedef FUObjectRef<Obj> Ref; typedef FUObjectContainer<Obj> Box; typedef FUTrackedPtr<Obj> Ptr; typedef FUTrackedList<Obj> List;
// A tracker that reacts.
struct Watch : FUTracker { World* w = nullptr; int n = 0; std::set<int> on; void OnObjectReleased(FUTrackable* o) override; void track(Obj* o) { TrackObject(o); } void untrack(Obj* o) { UntrackObject(o); } };
enum { NO = 5 };
struct World
{
	mc::Ctx& c; Obj* o[NO] = {}; std::set<int> live; int destroyed[NO] = {}, created[NO] = {}; string key, msg; bool shut = false; int budget = 0; vector<int> dying;
	Ref r[2]; Box b[2]; Ptr p[2]; List l[2]; std::unique_ptr<Watch> t[2];
	// The model.
	int mr[2] = { -1, -1 }; vector<int> mb[2]; int mp[2] = { -1, -1 }; vector<int> ml[2]; std::multiset<int> told[2], shouldTell[2]; std::set<int> gone;
	World(mc::Ctx& c_) : c(c_) { for (int i = 0; i < 2; ++i) { t[i].reset(new Watch); t[i]->w = this; t[i]->n = i; } }
	~World() { shut = true; for (auto& x : l) x.clear(); for (auto& x : p) x = NULL; for (auto& x : t) if (x) { for (int i : x->on) if (live.count(i)) x->untrack(o[i]); x.reset(); } for (auto& x : r) x = (Obj*) NULL; for (auto& x : b) x.clear(); while (!live.empty()) o[*live.begin()]->Release(); }
	void bad(const char* k, const string& m) { if (key.empty()) { key = k; msg = m; } }
	int idOf(const Obj* x) { if (!x) return -1; for (int i = 0; i < NO; ++i) if (o[i] == x && live.count(i)) return i; return -2; }
	bool owned(int i) { return mr[0] == i || mr[1] == i || std::count(mb[0].begin(), mb[0].end(), i) || std::count(mb[1].begin(), mb[1].end(), i); }
	void create(int i) { if (live.count(i)) c.prune(); o[i] = new Obj(*this, i); live.insert(i); ++created[i]; gone.erase(i); }
	// The object is destroyed: what the model says of it.
	void gonner(int i) { for (int k = 0; k < 2; ++k) { if (mr[k] == i) mr[k] = -1; if (mp[k] == i) mp[k] = -1; mb[k].erase(std::remove(mb[k].begin(), mb[k].end(), i), mb[k].end()); ml[k].erase(std::remove(ml[k].begin(), ml[k].end(), i), ml[k].end()); } gone.insert(i); }
	void drop(int i) { if (i >= 0) { gonner(i); for (int k = 0; k < 2; ++k) if (t[k] && t[k]->on.count(i)) { shouldTell[k].insert(i); t[k]->on.erase(i); } } }
	void verify(const char* when)
	{
		if (!key.empty()) c.fail(key, "%s (%s)", msg.c_str(), when); c.nontrivial();
		for (int i = 0; i < NO; ++i) { int d = created[i] - (live.count(i) ? 1 : 0); CHECK(destroyed[i] == d, "object:destroyed", "object %d destroyed %d times, %s", i, destroyed[i], when); CHECK((live.count(i) != 0) == (created[i] > 0 && !gone.count(i)), "object:lifetime", "object %d is %s after %s", i, live.count(i) ? "still there" : "gone", when); }
		for (int k = 0; k < 2; ++k)
		{
			CHECK(idOf(r[k]) == mr[k], "ref:value", "reference %d has %d, should have %d, after %s", k, idOf(r[k]), mr[k], when); CHECK(idOf(p[k]) == mp[k], "pointer:value", "tracking pointer %d has %d, should have %d, after %s", k, idOf(p[k]), mp[k], when);
			vector<int> g; for (size_t i = 0; i < b[k].size(); ++i) g.push_back(idOf(b[k][i])); CHECK(g == mb[k], "container:content", "container %d has %d objects, should have %d, or others, after %s", k, (int) g.size(), (int) mb[k].size(), when);
			g.clear(); for (size_t i = 0; i < l[k].size(); ++i) g.push_back(idOf(l[k][i])); CHECK(g == ml[k], "list:content", "list %d has %d objects, should have %d, or others, after %s", k, (int) g.size(), (int) ml[k].size(), when);
			CHECK(told[k] == shouldTell[k], "tracker:told", "tracker %d was told of %d releases, should be %d, after %s", k, (int) told[k].size(), (int) shouldTell[k].size(), when);
			for (int i : live) if (t[k]) CHECK(t[k]->TracksObject(o[i]) == (t[k]->on.count(i) != 0), "tracker:tracks", "tracker %d and object %d after %s", k, i, when);
		}
		for (int i : live) { size_t n = 0; for (int k = 0; k < 2; ++k) n += (mp[k] == i) + std::count(ml[k].begin(), ml[k].end(), i) + (t[k] && t[k]->on.count(i) ? 1 : 0); CHECK(o[i]->GetTrackerCount() == n, "object:trackers", "object %d has %d trackers, should have %d, after %s", i, (int) o[i]->GetTrackerCount(), (int) n, when);
			for (int k = 0; k < 2; ++k) { CHECK(p[k].TracksObject(o[i]) == (mp[k] == i), "pointer:tracks", "pointer %d object %d", k, i); CHECK(l[k].TracksObject(o[i]) == (std::count(ml[k].begin(), ml[k].end(), i) > 0) && l[k].contains(o[i]) == l[k].TracksObject(o[i]), "list:tracks", "list %d object %d", k, i); } }
		c.checkAsserts(when); string s; for (int k = 0; k < 2; ++k) { s += mc::strf("%d %d|", mr[k], mp[k]); for (int i : mb[k]) s += mc::strf("%d,", i); s += "|"; for (int i : ml[k]) s += mc::strf("%d,", i); s += "|"; if (t[k]) for (int i : t[k]->on) s += mc::strf("%d,", i); s += "/"; } for (int i : live) s += mc::strf("%d", i); c.state(s);
	}
	int freeObject() { int i = c.choose(3); if (!live.count(i) || owned(i)) c.prune(); return i; }
	int liveObject() { int i = c.choose(3); if (!live.count(i)) c.prune(); return i; }
	void ownership(); void tracking(); void react(int watch, int dead);
	template <class F> void act(const string& what, F f) { c.op("%s", what.c_str()); f(); verify(what.c_str()); }
};
Obj::~Obj() { ++w.destroyed[id]; w.live.erase(id); }
void Watch::OnObjectReleased(FUTrackable* x)
{
	if (!w || w->shut) return; int i = -1; for (int k = 0; k < NO; ++k) if ((FUTrackable*) w->o[k] == x && w->created[k]) i = k; if (i < 0) { w->bad("tracker:unknown", "an unknown object is announced"); return; }
	w->told[n].insert(i); if (!w->shouldTell[n].count(i)) w->bad("tracker:spurious", mc::strf("tracker %d is told of object %d", n, i)); if (w->budget > 0) w->react(n, i);
}
}
void World::ownership()
{
	using mc::strf; int k = c.choose(22);
	switch (k)
	{
	case 0: { int i = c.choose(3); if (live.count(i)) c.prune(); act(strf("create %d", i), [&] { create(i); }); break; }
	case 1: { int i = liveObject(); act(strf("release %d", i), [&] { drop(i); o[i]->Release(); }); break; }
	case 2: case 3: { int n = k - 2, i = c.choose(3); if (!live.count(i) || (owned(i) && mr[n] != i)) c.prune(); act(strf("reference %d = object %d", n, i), [&] { if (mr[n] != i) drop(mr[n]); mr[n] = i; r[n] = o[i]; }); break; }
	case 4: case 5: { int n = k - 4; act(strf("reference %d = NULL", n), [&] { drop(mr[n]); r[n] = (Obj*) NULL; }); break; }
	case 6: case 7: { int n = k - 6; act(strf("reference %d = reference %d", n, 1 - n), [&] { drop(mr[n]); mr[n] = mr[1 - n]; mr[1 - n] = -1; r[n] = r[1 - n]; }); break; }
	case 8: act("reference 0 = reference 0", [&] { Ref& x = r[0]; r[0] = x; }); break;
	case 9: { int i = freeObject(); act(strf("container add %d", i), [&] { mb[0].push_back(i); b[0].push_back(o[i]); }); break; }
	case 10: { int i = freeObject(); size_t at = (size_t) c.range(0, 1); if (at > mb[0].size()) c.prune(); act(strf("container insert %d at %d", i, (int) at), [&] { mb[0].insert(mb[0].begin() + at, i); if (at == 0) b[0].insert((size_t) 0, o[i]); else b[0].insert(b[0].begin() + at, o[i]); }); break; }
	case 11: { if (mb[0].empty()) c.prune(); size_t at = (size_t) c.choose((int) mb[0].size()); act(strf("container erase at %d", (int) at), [&] { drop(mb[0][at]); b[0].erase(at); }); break; }
	case 12: { int i = liveObject(); act(strf("container erase object %d", i), [&] { bool in = std::count(mb[0].begin(), mb[0].end(), i) != 0; if (in) drop(i); bool g = b[0].erase(o[i]); if (g != in) bad("container:erase", "the result is wrong"); }); break; }
	case 13: { size_t n = mb[0].size(), f = (size_t) c.choose((int) n + 1), e = f + (size_t) c.choose((int) (n - f) + 1); act(strf("container erase range %d-%d", (int) f, (int) e), [&] { vector<int> d(mb[0].begin() + f, mb[0].begin() + e); for (int i : d) drop(i); b[0].erase(f, e); }); break; }
	case 14: if (mb[0].empty()) c.prune(); act("container pop back", [&] { drop(mb[0].back()); b[0].pop_back(); }); break;
	case 15: if (mb[0].empty()) c.prune(); act("container pop front", [&] { drop(mb[0].front()); b[0].pop_front(); }); break;
	case 16: act("container clear", [&] { while (!mb[0].empty()) drop(mb[0].back()); b[0].clear(); }); break;
	case 17: { int i = liveObject(); act(strf("container detach object %d", i), [&] { bool in = std::count(mb[0].begin(), mb[0].end(), i) != 0; mb[0].erase(std::remove(mb[0].begin(), mb[0].end(), i), mb[0].end()); if (b[0].Detach(o[i]) != in) bad("container:detach", "the result is wrong"); }); break; }
	case 18: { size_t n = mb[0].size(), f = (size_t) c.choose((int) n + 1), e = f + (size_t) c.choose((int) (n - f) + 1); act(strf("container detach range %d-%d", (int) f, (int) e), [&] { mb[0].erase(mb[0].begin() + f, mb[0].begin() + e); b[0].Detach(f, e); }); break; }
	case 19: { vector<int> fr; for (int i = 0; i < 3; ++i) if (live.count(i) && !owned(i)) fr.push_back(i); if (fr.size() < 2) c.prune(); size_t at = (size_t) c.choose((int) mb[0].size() + 1); act(strf("container insert %d objects at %d", (int) fr.size(), (int) at), [&] { vector<Obj*> x; for (int i : fr) x.push_back(o[i]); mb[0].insert(mb[0].begin() + at, fr.begin(), fr.end()); b[0].insert(b[0].begin() + at, &x[0], &x[0] + x.size()); }); break; }
	case 20: { if (mb[0].empty()) c.prune(); act("move the first object to container 1", [&] { int i = mb[0][0]; mb[0].erase(mb[0].begin()); mb[1].push_back(i); b[0].Detach(b[0].begin()); b[1].push_back(o[i]); }); break; }
	default: { act("a reference to object 3 dies", [&] { create(3); { Ref x(o[3]); } drop(3); }); break; }
	}
}
void World::tracking()
{
	using mc::strf; int k = c.choose(22);
	switch (k)
	{
	case 0: { int i = c.choose(3); if (live.count(i)) c.prune(); act(strf("create %d", i), [&] { create(i); }); break; }
	case 1: { int i = liveObject(); act(strf("release %d", i), [&] { drop(i); o[i]->Release(); }); break; }
	case 2: case 3: { int n = k - 2, i = liveObject(); act(strf("pointer %d = object %d", n, i), [&] { mp[n] = i; p[n] = o[i]; }); break; }
	case 4: act("pointer 0 = NULL", [&] { mp[0] = -1; p[0] = NULL; }); break;
	case 5: case 6: { int n = k - 5; act(strf("pointer %d = pointer %d", n, 1 - n), [&] { mp[n] = mp[1 - n]; p[n] = p[1 - n]; }); break; }
	case 7: act("pointer 0 = pointer 0", [&] { Ptr& x = p[0]; p[0] = x; }); break;
	case 8: { bool rel = c.flag(); act(rel ? "a copy of pointer 0 outlives its object" : "a copy of pointer 0 lives and dies", [&] { Ptr copy(p[0]); if (idOf(copy) != mp[0]) bad("pointer:copy", "a copy differs"); int i = mp[0]; if (rel && i >= 0) { drop(i); o[i]->Release(); if (copy) bad("pointer:copy", "a copy of a tracking pointer keeps a released object"); } }); break; }
	case 9: case 10: { int n = k - 9, i = liveObject(); if (std::count(ml[n].begin(), ml[n].end(), i)) c.prune(); act(strf("list %d add %d", n, i), [&] { ml[n].push_back(i); l[n].push_back(o[i]); }); break; }
	case 11: { int i = liveObject(); if (std::count(ml[0].begin(), ml[0].end(), i)) c.prune(); act(strf("list insert %d", i), [&] { ml[0].insert(ml[0].begin(), i); l[0].insert((size_t) 0, o[i]); }); break; }
	case 12: { int i = liveObject(); act(strf("list erase object %d", i), [&] { bool in = std::count(ml[0].begin(), ml[0].end(), i) != 0; ml[0].erase(std::remove(ml[0].begin(), ml[0].end(), i), ml[0].end()); if (l[0].erase(o[i]) != in) bad("list:erase", "the result is wrong"); }); break; }
	case 13: { size_t n = ml[0].size(), f = (size_t) c.choose((int) n + 1), e = f + (size_t) c.choose((int) (n - f) + 1); act(strf("list erase range %d-%d", (int) f, (int) e), [&] { ml[0].erase(ml[0].begin() + f, ml[0].begin() + e); l[0].erase(f, e); }); break; }
	case 14: { if (ml[0].empty()) c.prune(); size_t at = (size_t) c.choose((int) ml[0].size()); act(strf("list erase at %d", (int) at), [&] { ml[0].erase(ml[0].begin() + at); l[0].erase(at); }); break; }
	case 15: act("list pop back and front", [&] { if (!ml[0].empty()) ml[0].pop_back(); l[0].pop_back(); if (!ml[0].empty()) ml[0].erase(ml[0].begin()); l[0].pop_front(); }); break;
	case 16: act("list clear", [&] { ml[0].clear(); l[0].clear(); }); break;
	case 17: { int n = c.choose(2); act(strf("list %d = list %d", n, 1 - n), [&] { ml[n] = ml[1 - n]; l[n] = l[1 - n]; }); break; }
	case 18: { bool rel = c.flag(); act(rel ? "a copy of list 0 outlives an object" : "a copy of list 0 lives and dies", [&] { List copy(l[0]); vector<int> was = ml[0]; if (copy.size() != was.size()) bad("list:copy", "a copy differs"); if (rel && !was.empty()) { int i = was[0]; drop(i); o[i]->Release(); was.erase(was.begin()); } if (copy.size() != was.size()) bad("list:copy", "a copy keeps a released object"); for (size_t j = 0; j < was.size() && j < copy.size(); ++j) if (idOf(copy[j]) != was[j]) bad("list:copy", "a copy has another object"); }); break; }
	case 19: { int i = liveObject(), n = c.choose(2); if (t[n]->on.count(i)) act(strf("tracker %d forgets %d", n, i), [&] { t[n]->on.erase(i); t[n]->untrack(o[i]); }); else act(strf("tracker %d tracks %d", n, i), [&] { t[n]->on.insert(i); t[n]->track(o[i]); }); break; }
	case 20: { vector<int> fr; for (int i = 0; i < 3; ++i) if (live.count(i) && !std::count(ml[0].begin(), ml[0].end(), i)) fr.push_back(i); if (fr.size() < 2) c.prune(); size_t at = (size_t) c.choose((int) ml[0].size() + 1); act(strf("list insert %d objects at %d", (int) fr.size(), (int) at), [&] { vector<Obj*> x; for (int i : fr) x.push_back(o[i]); ml[0].insert(ml[0].begin() + at, fr.begin(), fr.end()); l[0].insert(l[0].begin() + at, &x[0], &x[0] + x.size()); }); break; }
	default: { int i = liveObject(); act(strf("list releases object %d", i), [&] { bool in = std::count(ml[0].begin(), ml[0].end(), i) != 0; if (in) drop(i); if (l[0].release(o[i]) != in) bad("list:release", "the result is wrong"); }); break; }
	}
}
// What a tracker does when it is told of a release. The dead object's other trackers may or may not have been told already.
void World::react(int n, int dead)
{
	int k = c.choose(13); if (k) --budget; auto erase = [&](vector<int>& v, int i) { v.erase(std::remove(v.begin(), v.end(), i), v.end()); }; int other = dead == 0 ? 1 : 0; c.note("    tracker %d reacts with %d", n, k);
	switch (k)
	{
	case 1: p[0] = NULL; mp[0] = -1; break;
	case 2: if (live.count(other)) { p[1] = o[other]; mp[1] = other; } break;
	case 3: l[0].clear(); ml[0].clear(); break;
	case 4: if (live.count(other)) { drop(other); o[other]->Release(); } break;
	case 5: if (t[1 - n]) { Watch& x = *t[1 - n]; if (x.TracksObject(o[dead]) && !told[1 - n].count(dead)) { x.untrack(o[dead]); auto it = shouldTell[1 - n].find(dead); if (it != shouldTell[1 - n].end()) shouldTell[1 - n].erase(it); } } break;
	case 6: if (live.count(other) && t[1 - n] && !t[1 - n]->on.count(other)) { t[1 - n]->track(o[other]); t[1 - n]->on.insert(other); } break;
	case 7: { Ptr copy(p[0]); } break;
	case 8: l[1] = l[0]; ml[1] = ml[0]; break;
	case 9: if (!ml[0].empty() && live.count(ml[0][0])) { int i = ml[0][0]; drop(i); o[i]->Release(); } break;
	case 10: if (!live.count(3)) { create(3); } break;
	case 11: if (r[0]) { int i = mr[0]; drop(i); r[0] = (Obj*) NULL; } break;
	case 12: if (t[n] && t[n]->TracksObject(o[dead])) { t[n]->untrack(o[dead]); } break; // the announcement itself untracks, as a list that clears itself does
	default: break;
	}
	(void) erase;
}
SPACE(owning, 3) { World w(c); for (int i = 0; i < 3; ++i) w.create(i); int n = c.deep ? 5 : 4; for (int i = 0; i < n; ++i) w.ownership(); }
SPACE(tracking, 3) { World w(c); for (int i = 0; i < 3; ++i) w.create(i); int n = c.deep ? 5 : 4; for (int i = 0; i < n; ++i) w.tracking(); }
// Both kinds, from populated starts.
SPACE(mixed, 3)
{
	World w(c); for (int i = 0; i < 3; ++i) w.create(i); int s = c.choose(4);
	if (s & 1) w.act("container holds all", [&] { for (int i = 0; i < 3; ++i) { w.mb[0].push_back(i); w.b[0].push_back(w.o[i]); } }); else w.act("references hold 0 and 1", [&] { for (int i = 0; i < 2; ++i) { w.mr[i] = i; w.r[i] = w.o[i]; } });
	if (s & 2) w.act("lists hold all, the pointers 0 and 1", [&] { for (int k = 0; k < 2; ++k) { for (int i = 0; i < 3; ++i) { w.ml[k].push_back(i); w.l[k].push_back(w.o[i]); } w.mp[k] = k; w.p[k] = w.o[k]; } }); else w.act("the pointers and trackers follow 0", [&] { for (int k = 0; k < 2; ++k) { w.mp[k] = 0; w.p[k] = w.o[0]; w.t[k]->on.insert(0); w.t[k]->track(w.o[0]); } });
	int n = c.deep ? 4 : 3; for (int i = 0; i < n; ++i) { if (c.flag()) w.ownership(); else w.tracking(); }
}
// Releases with trackers that react, in every order of the trackers.
SPACE(announcing, 2)
{
	World w(c); w.budget = 0; for (int i = 0; i < 2; ++i) w.create(i); int owner = c.choose(3); for (int i = 0; i < 2; ++i) { if (owner == 1) { w.mr[i] = i; w.r[i] = w.o[i]; } if (owner == 2) { w.mb[0].push_back(i); w.b[0].push_back(w.o[i]); } }
	// The order in which the trackers attach to object 0; some also follow object 1.
	vector<int> left = { 0, 1, 2, 3, 4 }; int n = c.range(1, c.deep ? 5 : 4); 
	for (int i = 0; i < n; ++i)
	{
		int at = c.choose((int) left.size()), x = left[at]; left.erase(left.begin() + at); bool both = x >= 2 && c.flag(); c.op("attach %s%s", x == 0 ? "tracker 0" : x == 1 ? "tracker 1" : x == 2 ? "pointer 0" : x == 3 ? "list 0" : "list 1", both ? " (both)" : "");
		if (x < 2) { w.t[x]->on.insert(0); w.t[x]->track(w.o[0]); } else if (x == 2) { w.mp[0] = both ? 1 : 0; w.p[0] = w.o[both ? 1 : 0]; } else { for (int k = 0; k < (both ? 2 : 1); ++k) { w.ml[x - 3].push_back(k); w.l[x - 3].push_back(w.o[k]); } }
	}
	if (left.size() >= 2 && left[0] == 0 && left[1] == 1) c.prune();
	w.verify("start"); w.budget = 2; w.act("release 0", [&] { w.drop(0); if (owner == 1) w.r[0] = (Obj*) NULL; else if (owner == 2) w.b[0].erase(w.o[0]); else w.o[0]->Release(); }); w.budget = 1; if (w.live.count(1)) w.act("release 1", [&] { w.drop(1); w.o[1]->Release(); });
}
// An object that is destroyed drags others along.
namespace { struct Chain : FUTrackable { Ref* child; FUObjectContainer<Chain>* siblings; vector<Chain*> victims; int* count; Chain(int* n) : child(nullptr), siblings(nullptr), count(n) { ++*n; } ~Chain() { --*count; for (Chain* v : victims) if (siblings->contains(v)) v->Release(); } }; }
SPACE(cascades, 3)
{
	int alive = 0; { FUObjectContainer<Chain> box; vector<Chain*> all; int n = c.range(2, 4); for (int i = 0; i < n; ++i) { Chain* x = box.Add(&alive); x->siblings = &box; all.push_back(x); }
		vector<int> victim(n, -1); for (int i = 0; i < n; ++i) { int v = c.choose(n + 1) - 1; if (v == i) c.prune(); victim[i] = v; if (v >= 0) all[i]->victims.push_back(all[v]); }
		size_t f = (size_t) c.choose(n), e = f + 1 + (size_t) c.choose(n - (int) f); int how = c.choose(4); std::set<int> dead; std::function<void(int)> kill = [&](int i) { if (!dead.insert(i).second) return; if (victim[i] >= 0) kill(victim[i]); };
		string s; for (int v : victim) s += mc::strf("%d ", v);
		if (how == 0) { c.op("victims %s: erase %d-%d", s.c_str(), (int) f, (int) e); for (size_t i = f; i < e; ++i) kill((int) i); box.erase(f, e); }
		else if (how == 1) { c.op("victims %s: clear", s.c_str()); for (int i = 0; i < n; ++i) kill(i); box.clear(); }
		else if (how == 2) { c.op("victims %s: erase %d", s.c_str(), (int) f); kill((int) f); box.erase(f); }
		else { c.op("victims %s: pop both ends", s.c_str()); kill(n - 1); box.pop_back(); if (!box.empty()) { int i = 0; while (dead.count(i)) ++i; kill(i); box.pop_front(); } }
		vector<Chain*> rest; for (int i = 0; i < n; ++i) if (!dead.count(i)) rest.push_back(all[i]); CHECK(box.size() == rest.size(), "cascade:size", "%d left, should be %d", (int) box.size(), (int) rest.size()); for (size_t i = 0; i < rest.size(); ++i) CHECK(box[i] == rest[i], "cascade:content", "at %d", (int) i); CHECK(alive == (int) rest.size(), "cascade:alive", "%d alive, should be %d", alive, (int) rest.size()); c.checkAsserts("a cascade"); }
	CHECK(alive == 0, "cascade:alive", "%d alive after the end", alive);
}
