// P07: the scene graph.
#include <algorithm>
#include <functional>
#include <memory>
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSceneNodeIterator.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDEntityInstance.h"
#include "mc.h"
const char* mc::property = "P07"; const char* mc::level = "model_checking";
const char* mc::rule = "every acyclic graph of up to 4 nodes (5 in the thorough run) in two orders of creation, every sequence of edits on it, every assignment of the nodes to documents, every mix of child and instance links including links back, and chains of up to 24 nodes; a case is non-trivial when the links were compared with the model";
std::vector<std::string> mc::assumptions = { "a node that was removed from its last parent belongs to the caller", "instances are visited after the children" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept[2];
static bool init = (mc::caseTimeout = 5, mc::workerInit = [] { FCollada::Initialize(); for (auto& d : kept) d = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); }, true);
namespace {
struct Watch : FUTracker { int died = 0; FUTrackable* o = NULL; void watch(FUTrackable* x) { o = x; TrackObject(x); } ~Watch() { if (o && !died) UntrackObject(o); } virtual void OnObjectReleased(FUTrackable*) { ++died; } };
struct Model { bool live; int doc; vector<int> parents, children, instances; };
struct World
{
	mc::Ctx& c; vector<FCDSceneNode*> nodes; vector<std::unique_ptr<Watch>> watches; vector<Model> m; vector<vector<FCDEntityInstance*>> inst; bool scenes = false;
	World(mc::Ctx& c_) : c(c_) {}
	~World() { if (scenes) return; for (size_t i = 0; i < nodes.size(); ++i) if (!watches[i]->died && m[i].live && m[i].parents.empty()) nodes[i]->Release(); for (size_t i = 0; i < nodes.size(); ++i) if (!watches[i]->died) { nodes[i]->Release(); } }
	int adopt(FCDSceneNode* n, int doc) { nodes.push_back(n); watches.emplace_back(new Watch); watches.back()->watch(n); m.push_back({ true, doc, {}, {}, {} }); inst.emplace_back(); int i = (int) nodes.size() - 1; n->SetDaeId(fm::string(mc::strf("n%d", i).c_str())); return i; }
	int create(int doc = 0) { return adopt(new FCDSceneNode(*kept[doc]), doc); }
	int index(const FCDSceneNode* n) { for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i] == n) return (int) i; return -1; }
	static void drop(vector<int>& l, int x) { auto it = std::find(l.begin(), l.end(), x); if (it != l.end()) l.erase(it); }
	bool above(int a, int b) { if (a == b) return true; for (int p : m[b].parents) if (above(a, p)) return true; return false; }
	// What the edits do.
	void destroyed(int n)
	{
		m[n].live = false; for (int p : m[n].parents) drop(m[p].children, n); m[n].parents.clear();
		while (!m[n].children.empty()) { int k = m[n].children[0]; m[n].children.erase(m[n].children.begin()); drop(m[k].parents, n); bool stays = false; for (int p : m[k].parents) stays = stays || m[p].doc == m[k].doc; if (!stays) destroyed(k); }
		m[n].instances.clear();
	}
	void link(int a, int b)
	{
		bool want = b >= 0 && !above(b, a) && std::find(m[a].children.begin(), m[a].children.end(), b) == m[a].children.end(); bool got = nodes[a]->AddChildNode(b < 0 ? NULL : nodes[b]); c.op("add %d under %d: %d", b, a, (int) got);
		CHECK(got == want, "add:answer", "adding %d under %d gives %d", b, a, (int) got); if (want) { m[a].children.push_back(b); m[b].parents.push_back(a); }
	}
	void cut(int a, int b) { c.op("remove %d from %d", b, a); nodes[a]->RemoveChildNode(nodes[b]); drop(m[a].children, b); drop(m[b].parents, a); }
	void release(int n) { c.op("release %d", n); nodes[n]->Release(); destroyed(n); }
	void instance(int a, int b) { FCDEntityInstance* i = nodes[a]->AddInstance(nodes[b]); CHECK(i != NULL && i->GetEntity() == nodes[b] && i->GetParent() == nodes[a], "instance", "of %d at %d", b, a); m[a].instances.push_back(b); inst[a].push_back(i); c.op("instance of %d at %d", b, a); }
	vector<int> live() { vector<int> l; for (size_t i = 0; i < m.size(); ++i) if (m[i].live) l.push_back((int) i); return l; }
	int some() { vector<int> l = live(); if (l.empty()) c.prune(); return l[c.choose((int) l.size())]; }
	static string show(const vector<int>& l) { string s; for (int x : l) s += mc::strf("%d ", x); return s; }
	void verify()
	{
		string st;
		for (size_t i = 0; i < nodes.size(); ++i)
		{
			CHECK(watches[i]->died == (m[i].live ? 0 : 1), m[i].live ? "life:early" : "life:late", "node %d was destroyed %d times", (int) i, watches[i]->died); if (!m[i].live) { st += "-"; continue; } FCDSceneNode* n = nodes[i]; vector<int> p, k;
			for (size_t j = 0; j < n->GetParentCount(); ++j) { p.push_back(index(n->GetParent(j))); CHECK(n->GetParents()[j] == n->GetParent(j), "links:arrays", "."); } for (size_t j = 0; j < n->GetChildrenCount(); ++j) { k.push_back(index(n->GetChild(j))); CHECK(n->GetChildren()[j] == n->GetChild(j), "links:arrays", "."); }
			CHECK(p == m[i].parents, "links:parents", "node %d has %s, should have %s", (int) i, show(p).c_str(), show(m[i].parents).c_str()); CHECK(k == m[i].children, "links:children", "node %d has %s, should have %s", (int) i, show(k).c_str(), show(m[i].children).c_str()); if (p.empty()) CHECK(n->GetParent() == NULL, "links:root", "."); st += show(k) + "/" + show(p) + "|";
			vector<int> e; for (size_t j = 0; j < n->GetInstanceCount(); ++j) { FCDEntity* x = n->GetInstance(j)->GetEntity(); e.push_back(x ? index((FCDSceneNode*) x) : -1); CHECK(n->GetInstances()[j] == n->GetInstance(j), "links:arrays", "."); } vector<int> w; for (int x : m[i].instances) w.push_back(m[x].live ? x : -1); CHECK(e == w, "links:instances", "node %d has %s, should have %s", (int) i, show(e).c_str(), show(w).c_str());
		}
		c.state(st);
	}
	// The orders of visiting.
	void depth(int n, bool pure, bool post, vector<int>& path, vector<int>& out)
	{
		if (!post) out.push_back(n); path.push_back(n); auto go = [&](int k) { if (std::find(path.begin(), path.end(), k) == path.end()) depth(k, pure, post, path, out); };
		for (int k : m[n].children) if (!pure || m[k].parents[0] == n) go(k); if (!pure) for (int k : m[n].instances) if (m[k].live) go(k); path.pop_back(); if (post) out.push_back(n);
	}
	vector<int> breadth(int n, bool pure)
	{
		vector<int> out = { n }, from = { -1 }; for (size_t i = 0; i < out.size(); ++i) { int x = out[i]; auto go = [&](int k) { for (int j = (int) i; j >= 0; j = from[j]) if (out[j] == k) return; out.push_back(k); from.push_back((int) i); }; vector<int> ch = m[x].children, in = m[x].instances; for (int k : ch) if (!pure || m[k].parents[0] == x) go(k); if (!pure) for (int k : in) if (m[k].live) go(k); } return out;
	}
	void visits(int root)
	{
		static const char* names[] = { "breadth", "pre-order", "post-order" };
		for (int t = 0; t < 3; ++t) for (int pure = 0; pure < 2; ++pure)
		{
			vector<int> want, path, got, got2; if (t == 0) want = breadth(root, pure); else depth(root, pure, t == 2, path, want); FCDSceneNodeIterator::SearchType type = t == 0 ? FCDSceneNodeIterator::BREADTH_FIRST : t == 1 ? FCDSceneNodeIterator::DEPTH_FIRST_PREORDER : FCDSceneNodeIterator::DEPTH_FIRST_POSTORDER;
			FCDSceneNodeIterator it(nodes[root], type, pure); CHECK(!it.IsDone() && it.GetNode() == *it, "visit:first", "."); while (!it.IsDone() && got.size() < want.size() + 8) { got.push_back(index(it.GetNode())); FCDSceneNode* nx = it.Next(); CHECK(nx == it.GetNode() && (nx == NULL) == it.IsDone(), "visit:next", "."); } CHECK(got == want, mc::strf("visit:%s%s", names[t], pure ? ":pure" : "").c_str(), "from %d: %s, should be %s", root, show(got).c_str(), show(want).c_str());
			for (FCDSceneNodeConstIterator k(nodes[root], t == 0 ? FCDSceneNodeConstIterator::BREADTH_FIRST : t == 1 ? FCDSceneNodeConstIterator::DEPTH_FIRST_PREORDER : FCDSceneNodeConstIterator::DEPTH_FIRST_POSTORDER, pure); !k.IsDone() && got2.size() < want.size() + 8; ++k) got2.push_back(index(*k)); CHECK(got2 == want, "visit:const", "from %d: %s, should be %s", root, show(got2).c_str(), show(want).c_str());
		}
	}
	void lookups()
	{
		for (int r : live()) { vector<int> path, under; depth(r, false, false, path, under); visits(r); vector<int> kids; std::function<void(int)> w = [&](int n) { kids.push_back(n); for (int k : m[n].children) w(k); }; w(r); for (size_t i = 0; i < nodes.size(); ++i) { bool want = m[i].live && std::find(kids.begin(), kids.end(), (int) i) != kids.end(); FCDEntity* f = nodes[r]->FindDaeId(fm::string(mc::strf("n%d", (int) i).c_str())); CHECK(want ? f != NULL && f->GetDocument() == nodes[i]->GetDocument() : true, "find:id", "n%d from %d", (int) i, r); if (f) { string id = f->GetDaeId().c_str(); CHECK(want && id == mc::strf("n%d", (int) i), "find:id", "n%d from %d finds %s", (int) i, r, id.c_str()); } } CHECK(nodes[r]->FindDaeId(fm::string("none")) == NULL, "find:none", "."); }
	}
};
// Builds an acyclic graph: an edge i -> j for chosen pairs i < j, in one of two orders.
static vector<std::pair<int, int>> pairs(mc::Ctx& c, int n) { vector<std::pair<int, int>> l; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) l.push_back({ i, j }); if (c.flag()) std::reverse(l.begin(), l.end()); return l; }
static void graph(mc::Ctx& c, World& w, int n) { for (auto& p : pairs(c, n)) if (c.flag()) w.link(p.first, p.second); }
}
SPACE(edits, 5)
{
	int big = c.deep ? c.choose(2) : 0; int n = big ? 5 : 4, steps = big ? 2 : c.deep ? 3 : 2; World w(c); for (int i = 0; i < n; ++i) w.create(); graph(c, w, n); w.verify(); steps = c.range(1, steps);
	for (int s = 0; s < steps; ++s)
	{
		switch (c.choose(5)) { case 0: { int a = w.some(); vector<int> l = w.live(); l.push_back(-1); int b = c.pick(l); w.link(a, b); break; } case 1: { int a = w.some(), b = w.some(); w.cut(a, b); break; } case 2: w.release(w.some()); break; case 3: { int a = w.some(); FCDSceneNode* k = w.nodes[a]->AddChildNode(); int b = w.adopt(k, 0); w.m[a].children.push_back(b); w.m[b].parents.push_back(a); c.op("new node %d under %d", b, a); break; } default: { int a = w.some(), b = w.some(); w.instance(a, b); break; } }
		w.verify();
	}
	w.lookups(); c.checkAsserts("the edits"); c.nontrivial();
}
SPACE(documents, 5)
{
	// Nodes of two documents; the nodes stay when a parent of their own document stays.
	int n = c.deep ? 5 : 4; World w(c); for (int i = 0; i < n; ++i) w.create(c.flag()); graph(c, w, n); w.verify(); int steps = c.range(1, 2); for (int s = 0; s < steps; ++s) { int k = c.choose(2); if (k == 0) w.release(w.some()); else { int a = w.some(); if (w.m[a].children.empty()) c.prune(); w.cut(a, c.pick(w.m[a].children)); } w.verify(); } for (int r : w.live()) w.visits(r); c.checkAsserts("the edits"); c.nontrivial();
}
SPACE(scenes, 4)
{
	// Scenes of the libraries of two documents, then each released or destroyed with its document.
	int n = c.deep ? 6 : 5; World w(c); w.scenes = true; FUObjectRef<FCDocument> docs[2]; for (auto& d : docs) d = FCollada::NewTopDocument(); vector<int> where; for (int i = 0; i < n; ++i) { int d = i < 2 ? i : c.deep && i > 3 ? c.flag() : c.flag(); where.push_back(d); w.adopt(i < 2 ? docs[d]->AddVisualScene() : new FCDSceneNode(docs[d]), d); }
	bool rev = c.flag(); vector<std::pair<int, int>> l; for (int i = 0; i < n; ++i) for (int j = std::max(i + 1, 2); j < n; ++j) l.push_back({ i, j }); if (rev) std::reverse(l.begin(), l.end()); vector<bool> local(n, false); local[0] = local[1] = true; vector<std::pair<int, int>> chosen; for (auto& p : l) if (c.flag()) { chosen.push_back(p); if (where[p.first] == where[p.second]) local[p.second] = true; } bool ok = true; for (bool b : local) ok = ok && b; if (!ok) { for (int i = 2; i < n; ++i) w.nodes[i]->Release(); c.prune(); } for (auto& p : chosen) w.link(p.first, p.second);
	w.verify(); int order = c.choose(4); c.op("end %d", order); if (order == 2) w.release(0); if (order == 3) w.release(1); w.verify(); for (int i = 0; i < 2; ++i) { int d = order % 2 ? 1 - i : i; docs[d] = NULL; if (w.m[d].live) w.destroyed(d); w.verify(); } for (auto& x : w.watches) CHECK(x->died == 1, "life:document", "a node outlives the documents"); c.checkAsserts("the end"); c.nontrivial();
}
SPACE(visits, 4)
{
	// Every pair is not linked, a child or an instance; then at most one instance leads back.
	int n = c.deep ? 5 : 4; World w(c); for (int i = 0; i < n; ++i) w.create(); for (auto& p : pairs(c, n)) switch (c.choose(3)) { case 1: w.link(p.first, p.second); break; case 2: w.instance(p.first, p.second); break; }
	if (c.flag()) { int a = c.choose(n), b = c.range(0, a); w.instance(a, b); } w.verify(); for (int r = 0; r < n; ++r) w.visits(r);
	for (int i = 0; i < n; ++i) for (size_t k = 0; k < w.inst[i].size(); ++k) for (int a = 0; a < n; ++a) CHECK(w.inst[i][k]->HasForParent(w.nodes[a]) == w.above(a, i), "instance:parent", "instance at %d, node %d", i, a);
	int r = c.range(-1, n - 1); if (r >= 0) { w.release(r); w.verify(); for (int x : w.live()) w.visits(x); } c.checkAsserts("the visits"); c.nontrivial();
}
SPACE(chains, 3)
{
	int n = c.range(1, 24), kind = c.choose(4), side = c.choose(3); World w(c); for (int i = 0; i < n; ++i) w.create(); vector<int> leaf; for (int i = 0; i + 1 < n; ++i) { bool in = kind == 1 || (kind == 2 && i % 2) || (kind == 3 && i % 7 == 6); if (in) w.instance(i, i + 1); else w.link(i, i + 1); if (side) { int x = w.create(); if (side == 1) w.instance(i, x); else w.link(i, x); } }
	w.verify(); w.visits(0); w.visits(n / 2); if (c.flag() && n > 1) { w.instance(n - 1, c.choose(n)); w.visits(0); w.visits(n - 1); } c.state(n); c.checkAsserts("the visits"); c.nontrivial();
}
SPACE(queries, 4)
{
	// Sub-identifiers and assets on every graph.
	int n = 4; World w(c); for (int i = 0; i < n; ++i) w.create(); static const char* sids[] = { "", "s", "t" }; vector<string> sid(n); vector<bool> has(n, false); bool assets = c.flag(); for (int i = 0; i < n; ++i) if (assets) { has[i] = c.flag(); if (has[i]) w.nodes[i]->GetAsset(); } else { sid[i] = sids[c.choose(3)]; w.nodes[i]->SetSubId(sid[i].c_str()); } graph(c, w, n);
	for (int i = 0; i < n; ++i)
	{
		if (assets) { FCDAssetList l; w.nodes[i]->GetHierarchicalAssets(l); vector<const FCDAsset*> want; for (int x = i; x >= 0; x = w.m[x].parents.empty() ? -1 : w.m[x].parents[0]) if (has[x]) want.push_back(((const FCDSceneNode*) w.nodes[x])->GetAsset()); want.push_back((*kept[0])->GetAsset()); CHECK(l.size() == want.size() && std::equal(want.begin(), want.end(), l.begin()), "assets", "node %d has %d, should have %d", i, (int) l.size(), (int) want.size()); }
		else { std::function<int(int, const string&)> f = [&](int x, const string& s) { if (sid[x] == s) return x; for (int k : w.m[x].children) { int g = f(k, s); if (g >= 0) return g; } return -1; }; for (const char* s : { "s", "t", "u" }) { FCDEntity* e = w.nodes[i]->FindSubId(s); int g = e ? w.index((FCDSceneNode*) e) : -1; CHECK(g == f(i, s), "find:subid", "'%s' from %d gives %d, should give %d", s, i, g, f(i, s)); } }
	}
	c.state(n); c.checkAsserts("the queries"); c.nontrivial();
}
