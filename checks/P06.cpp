// P06: identifiers.
#include <map>
#include <set>
#include <algorithm>
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDObjectWithId.h"
#include "FCDocument/FCDEntity.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDPhysicsMaterial.h"
#include "FCDocument/FCDPhysicsModel.h"
#include "FCDocument/FCDPhysicsScene.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FUtils/FUUniqueStringMap.h"
#include "mc.h"
const char* mc::property = "P06"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of creating, asking, naming, cloning and releasing up to a bounded length over all kinds of objects with identifiers and names that collide in every way (numbers at the end, leading zeros, large numbers, invalid characters), every insert/erase sequence of the name map, every byte in a name, and every small graph of scene nodes with sub-identifiers; a case is non-trivial when identifiers were compared with the model";
std::vector<std::string> mc::assumptions = { "an identifier is generated when it is first asked for" };
static bool init = (mc::workerInit = [] { FCollada::Initialize(); }, true);
using std::string; using std::vector; using std::set;
static bool alpha(unsigned char x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || x == '_'; }
static bool digit(unsigned char x) { return x >= '0' && x <= '9'; }
static string cleaned(const string& s, const char* more) { string r = s.substr(0, 512); for (size_t i = 0; i < r.size(); ++i) { unsigned char x = (unsigned char) r[i]; bool ok = alpha(x) || (i && (digit(x) || strchr(more, x))); if (!ok) r[i] = '_'; } return r; }
static bool validName(const string& s) { return !s.empty() && s == cleaned(s, "-."); }
// `got` is what a request for `wanted` may give when it is not free: the wanted text with another number at its end.
static bool derived(const string& got, const string& wanted) { size_t a = wanted.size(); while (a > 0 && digit((unsigned char) wanted[a - 1])) --a; if (got.compare(0, a, wanted, 0, a) != 0 || got.size() == a) return false; for (size_t i = a; i < got.size(); ++i) if (!digit((unsigned char) got[i])) return false; return true; }

// ---------------------------------------------------------------- the map of unique names
static const vector<string> pool = { "a", "a0", "a1", "a2", "a01", "a00", "a9", "a10", "", "1", "b", "b4294967294", "b4294967295", "b4294967296", "b99999999999999999999", "b999999999", "b1000000000", "a-1", "b0999999999" };
SPACE(map, 2)
{
	FUSUniqueStringMap m; set<string> ref; int n = c.range(1, c.deep ? 5 : 4);
	for (int i = 0; i < n; ++i)
	{
		const string& s = c.pick(pool);
		if (c.flag() || i == 0)
		{
			fm::string w = s.c_str(); bool mutableForm = true; m.insert(w); (void) mutableForm; string g = w.c_str(); c.op("insert '%s' gives '%s'", s.c_str(), g.c_str());
			CHECK(g.size() == w.size() && !ref.count(g), "map:unique", "'%s' is given twice", g.c_str()); if (!ref.count(s)) CHECK(g == s, "map:free", "'%s' was free, got '%s'", s.c_str(), g.c_str()); else CHECK(derived(g, s), "map:derived", "'%s' for '%s'", g.c_str(), s.c_str()); ref.insert(g);
		}
		else { c.op("erase '%s'", s.c_str()); m.erase(s.c_str()); ref.erase(s); }
		for (auto& p : pool) CHECK(m.contains(p.c_str()) == (ref.count(p) != 0), "map:contains", "'%s'", p.c_str()); for (auto& p : ref) CHECK(m.contains(p.c_str()), "map:contains", "'%s'", p.c_str());
	}
	string s; for (auto& p : ref) s += p + "|"; c.state(s);
}
SPACE(repeats, 2)
{
	// Many equal requests, then a few removals, then more.
	FUSUniqueStringMap m; set<string> ref; const string& s = c.pick(pool); int n = c.range(1, c.deep ? 300 : 40), e = c.range(0, 6); vector<string> in; auto add = [&] { fm::string w = s.c_str(); m.insert(w); string g = w.c_str(); CHECK(ref.insert(g).second, "map:unique", "'%s' is given twice", g.c_str()); in.push_back(g); }; for (int i = 0; i < n; ++i) add();
	c.op("'%s' %d times, %d removed", s.c_str(), n, e); for (int i = 0; i < e && !in.empty(); ++i) { size_t at = (size_t) (i * 7) % in.size(); m.erase(in[at].c_str()); ref.erase(in[at]); CHECK(!m.contains(in[at].c_str()), "map:erase", "'%s'", in[at].c_str()); in.erase(in.begin() + at); } for (int i = 0; i < e + 2; ++i) add(); c.state((int) ref.size());
}
// ---------------------------------------------------------------- cleaning
SPACE(cleaning, 2)
{
	string s; int kind = c.choose(3); if (kind < 2) { int n = kind == 0 ? c.range(0, 1) : 2; for (int i = 0; i < n; ++i) s += (char) (1 + c.choose(255)); } else { int n = c.pick(vector<int>{ 3, 510, 511, 512, 513, 514, 600 }); s = string(n, 'x'); int p = c.pick(vector<int>{ 0, 1, n - 2, n - 1 }); s[p] = (char) (1 + c.choose(255)); }
	c.op("clean '%s'", s.size() < 20 ? s.c_str() : "..."); string g = FCDObjectWithId::CleanId(s.c_str()).c_str(), w = cleaned(s, "-."); CHECK(g == w, "clean:id", "'%s', should be '%s'", g.c_str(), w.c_str()); g = FCDObjectWithId::CleanSubId(s.c_str()).c_str(); w = cleaned(s, "-"); CHECK(g == w, "clean:subid", "'%s', should be '%s'", g.c_str(), w.c_str());
	fstring f; { FUStringBuilder b; for (char x : s) b.append((fchar) x); f = b.ToString(); } CHECK(f.size() == s.size(), "clean:harness", "."); fm::string n8 = FUStringConversion::ToString(FCDEntity::CleanName(f.c_str())); bool ascii = true; for (char x : s) ascii = ascii && (unsigned char) x < 128; if (ascii) { CHECK(w == n8.c_str(), "clean:name", "'%s', should be '%s'", n8.c_str(), w.c_str()); } c.state(g);
}
// ---------------------------------------------------------------- objects of documents
namespace {
enum { KINDS = 17 };
struct Slot { FCDObjectWithId* o; int doc, kind; bool known; string id; string asked; bool release; };
struct World
{
	mc::Ctx& c; vector<FUObjectRef<FCDocument>*> docs; vector<Slot> slots; FCDGeometryMesh* mesh[2] = {};
	World(mc::Ctx& c_) : c(c_) { for (int i = 0; i < 2; ++i) docs.push_back(new FUObjectRef<FCDocument>(FCollada::NewTopDocument())); }
	~World() { for (auto d : docs) delete d; }
	FCDocument* doc(int i) { return *docs[i]; }
	FCDObjectWithId* make(int kind, int d)
	{
		FCDocument* x = doc(d);
		switch (kind)
		{
		case 0: return x->GetCameraLibrary()->AddEntity(); case 1: return x->GetLightLibrary()->AddEntity(); case 2: return x->GetMaterialLibrary()->AddEntity(); case 3: return x->GetEffectLibrary()->AddEntity(); case 4: return x->GetImageLibrary()->AddEntity(); case 5: return x->GetGeometryLibrary()->AddEntity(); case 6: return x->GetControllerLibrary()->AddEntity(); case 7: return x->GetAnimationLibrary()->AddEntity(); case 8: return x->GetAnimationClipLibrary()->AddEntity(); case 9: return x->GetEmitterLibrary()->AddEntity(); case 10: return x->GetForceFieldLibrary()->AddEntity(); case 11: return x->GetPhysicsMaterialLibrary()->AddEntity(); case 12: return x->GetPhysicsModelLibrary()->AddEntity(); case 13: return x->GetPhysicsSceneLibrary()->AddEntity(); case 14: return x->AddVisualScene();
		case 15: { FCDSceneNode* r = x->GetVisualSceneLibrary()->GetEntityCount() ? x->GetVisualSceneLibrary()->GetEntity(0) : NULL; if (!r) c.prune(); return r->AddChildNode(); }
		default: { FCDAnimationLibrary* l = x->GetAnimationLibrary(); if (!l->GetEntityCount()) c.prune(); return l->GetEntity(0)->AddChild(); }
		}
	}
	bool taken(int d, const string& id, const FCDObjectWithId* but) { for (auto& s : slots) if (s.o && s.doc == d && s.known && s.id == id && s.o != but) return true; return false; }
	// The identifier of a slot, now that it is known.
	void learn(Slot& s)
	{
		string g = s.o->GetDaeId().c_str(); CHECK(validName(g), "id:valid", "'%s'", g.c_str()); if (s.known) { CHECK(g == s.id, "id:kept", "'%s' became '%s'", s.id.c_str(), g.c_str()); return; }
		CHECK(!taken(s.doc, g, s.o), "id:unique", "'%s' is given twice", g.c_str()); if (!s.asked.empty()) { if (!taken(s.doc, s.asked, s.o)) CHECK(g == s.asked, "id:free", "'%s' was free, got '%s'", s.asked.c_str(), g.c_str()); else CHECK(derived(g, s.asked), "id:derived", "'%s' for '%s'", g.c_str(), s.asked.c_str()); } s.known = true; s.id = g;
	}
	void verify()
	{
		for (auto& s : slots) if (s.o && s.known) learn(s);
		string t; for (auto& s : slots) t += s.o ? mc::strf("%d%d%s,", s.doc, s.kind, s.known ? s.id.c_str() : "?") : "-"; c.state(t);
	}
	void full()
	{
		for (auto& s : slots) if (s.o) learn(s);
		set<string> ids[2]; for (auto& s : slots) if (s.o) { CHECK(ids[s.doc].insert(s.id).second, "id:unique", "'%s' is there twice", s.id.c_str()); FCDEntity* e = doc(s.doc)->FindEntity(s.id.c_str()); CHECK((FCDObjectWithId*) e == s.o, "id:find", "'%s' finds %s", s.id.c_str(), e ? e->GetDaeId().c_str() : "nothing"); }
		for (int d = 0; d < 2; ++d) for (auto& p : ids[1 - d]) if (!ids[d].count(p)) CHECK(doc(d)->FindEntity(p.c_str()) == NULL, "id:ghost", "'%s' is found in the wrong document", p.c_str()); for (auto& s : slots) if (!s.o && !s.id.empty() && !ids[s.doc].count(s.id)) CHECK(doc(s.doc)->FindEntity(s.id.c_str()) == NULL, "id:ghost", "'%s' is found after its release", s.id.c_str());
		for (int d = 0; d < 2; ++d) for (const char* p : { "none", "", "geometry99" }) CHECK(doc(d)->FindEntity(p) == NULL || *p == 0, "id:ghost", "'%s' is found", p);
		c.checkAsserts("the history");
	}
	void create(int kind, int d) { FCDObjectWithId* o = make(kind, d); slots.push_back({ o, d, kind, false, "", "", true }); c.op("create kind %d in document %d", kind, d); }
	void release(Slot& s) { s.o->Release(); s.o = NULL; s.known = false; }
	int someSlot() { vector<int> l; for (size_t i = 0; i < slots.size(); ++i) if (slots[i].o) l.push_back((int) i); if (l.empty()) c.prune(); return l[c.choose((int) l.size())]; }
	void name(Slot& s, const string& w, bool ref) { fm::string t = w.c_str(); s.known = false; if (ref) s.o->SetDaeId(t); else s.o->SetDaeId((const fm::string&) t); s.asked = cleaned(w, "-."); c.op("name '%s' gives '%s'", w.c_str(), s.o->GetDaeId().c_str()); learn(s); if (ref) CHECK(s.id == t.c_str(), "id:returned", "'%s', the identifier is '%s'", t.c_str(), s.id.c_str()); }
	// Clones a slot: to a new object of the same or the other document, or over an existing object of the same kind.
	void clone(Slot from, int to)
	{
		FCDEntity* e = (FCDEntity*) from.o; Slot n = from; bool fresh = to < 0;
		if (fresh) { n.doc = to == -1 ? from.doc : 1 - from.doc; n.o = make(from.kind, n.doc); } else n = slots[to];
		c.op("clone '%s' to %s", from.known ? from.id.c_str() : "?", fresh ? to == -1 ? "a new object" : "the other document" : "an existing object"); e->Clone((FCDEntity*) n.o, false);
		n.known = false; n.asked = from.known ? from.id : from.asked; if (fresh) slots.push_back(n); else slots[to] = n;
	}
};
}
static const vector<string> names = { "a", "a1", "b:c", "a01", "7up", "" };
static void histories(mc::Ctx& c, int n, const vector<int>& kinds, int maxSlots)
{
	World w(c); bool ask = c.flag(); for (int i = 0; i < n; ++i)
	{
		int k = c.choose(6);
		switch (k)
		{
		case 0: if ((int) w.slots.size() >= maxSlots) c.prune(); w.create(c.pick(kinds), 0); break;
		case 1: { Slot& s = w.slots[w.someSlot()]; c.op("ask"); w.learn(s); break; }
		case 2: case 3: { Slot& s = w.slots[w.someSlot()]; const string& x = c.pick(names); if (x.empty()) { s.known = false; s.asked = "unknown_object"; fm::string e; s.o->SetDaeId(e); c.op("name ''"); w.learn(s); } else w.name(s, x, k == 2); break; }
		case 4: { Slot& s = w.slots[w.someSlot()]; c.op("release '%s'", s.known ? s.id.c_str() : "?"); w.release(s); break; }
		default: { int at = w.someSlot(); int to = c.choose(3) - 2; if (to == 0) { for (to = (int) w.slots.size() - 1; to >= 0; --to) if (to != at && w.slots[to].o && w.slots[to].kind == w.slots[at].kind) break; if (to < 0) c.prune(); } w.clone(w.slots[at], to); break; }
		}
		w.verify(); if (ask) w.full();
	}
	w.full();
}
SPACE(objects, 4) { histories(c, c.deep ? 5 : 4, { 0, 5 }, 3); }
SPACE(kinds, 2)
{
	// Every kind, with every other kind: same name, clone, release, and the name again.
	int k1 = c.choose(KINDS), k2 = c.choose(KINDS); World w(c); w.create(14, 0); w.create(7, 0); w.create(14, 1); w.create(7, 1); w.create(k1, 0); w.create(k2, 0); int a = 4, b = 5; int order = c.choose(4); const string& x = c.pick(names); if (x.empty()) c.prune(); bool rel = c.flag();
	if (order & 1) w.full(); w.name(w.slots[a], x, true); w.name(w.slots[b], x, order & 2); w.verify();
	if (k1 == 15 || k1 == 16 ? false : true) { w.clone(w.slots[a], order & 2 ? -1 : -2); w.verify(); w.full(); }
	if (rel) { int r = order & 1 ? a : b; string was = w.slots[r].id; w.release(w.slots[r]); w.verify(); w.create(k2, 0); w.name(w.slots.back(), was, false); CHECK(w.slots.back().id == was, "id:again", "'%s' is free again, but gave '%s'", was.c_str(), w.slots.back().id.c_str()); } w.full();
}
// The identifiers of geometry sources, which belong to no library.
SPACE(sources, 3)
{
	FUObjectRef<FCDocument> d(FCollada::NewTopDocument()); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* m = g->CreateMesh(); vector<FCDGeometrySource*> all; vector<string> ids; int n = c.range(1, c.deep ? 6 : 5);
	for (int i = 0; i < n; ++i)
	{
		int k = c.choose(4); if (k == 0) { all.push_back(m->AddSource()); ids.push_back(""); c.op("add a source"); } else { if (all.empty()) c.prune(); size_t at = (size_t) c.choose((int) all.size()); if (k == 1) { const string& x = c.pick(names); if (x.empty()) c.prune(); bool fr = true; string w = cleaned(x, "-."); for (size_t j = 0; j < ids.size(); ++j) fr = fr && (j == at || ids[j] != w); all[at]->SetDaeId(fm::string(x.c_str())); ids[at] = all[at]->GetDaeId().c_str(); c.op("name %d '%s' gives '%s'", (int) at, x.c_str(), ids[at].c_str()); if (fr) CHECK(ids[at] == w, "source:free", "'%s' for '%s'", ids[at].c_str(), x.c_str()); } else if (k == 2) { c.op("release %d", (int) at); all[at]->Release(); all.erase(all.begin() + at); ids.erase(ids.begin() + at); } else { FCDGeometrySource* s = m->AddSource(); all[at]->Clone(s); all.push_back(s); ids.push_back(""); c.op("clone %d", (int) at); } }
		set<string> seen; for (size_t j = 0; j < all.size(); ++j) if (!ids[j].empty()) CHECK(ids[j] == all[j]->GetDaeId().c_str(), "source:kept", "'%s' became '%s'", ids[j].c_str(), all[j]->GetDaeId().c_str());
	}
	set<string> seen; for (size_t j = 0; j < all.size(); ++j) { string x = all[j]->GetDaeId().c_str(); CHECK(validName(x) && seen.insert(x).second, "source:unique", "'%s'", x.c_str()); CHECK(m->FindSourceById(x.c_str()) == all[j], "source:find", "'%s'", x.c_str()); } c.checkAsserts("sources"); string t; for (auto& x : seen) t += x + ","; c.state(t);
}
// Sub-identifiers of scene nodes: unique among ancestors and descendants when they are set.
SPACE(subids, 3)
{
	FUObjectRef<FCDocument> d(FCollada::NewTopDocument()); FCDSceneNode* root = d->AddVisualScene(); vector<FCDSceneNode*> n = { root }; int count = c.range(2, c.deep ? 4 : 3 + (int) c.flag()); vector<int> parent = { -1 }; for (int i = 1; i < count; ++i) { parent.push_back(c.choose(i)); n.push_back(n[parent[i]]->AddChildNode()); } if (count == 4 && c.flag()) { if (parent[3] == 0) n[1]->AddChildNode(n[3]); }
	static const vector<string> subs = { "s", "s_0", "x:y", "1" }; int ops = c.range(1, c.deep ? 4 : 3); vector<string> ids(count);
	for (int i = 0; i < ops; ++i)
	{
		int at = c.choose(count); const string& x = c.pick(subs); set<string> near; vector<FCDSceneNode*> up = { n[at] }; for (size_t j = 0; j < up.size(); ++j) { if (j) near.insert(up[j]->GetSubId().c_str()); for (size_t k = 0; k < up[j]->GetParentCount(); ++k) up.push_back(up[j]->GetParent(k)); } vector<FCDSceneNode*> down = { n[at] }; for (size_t j = 0; j < down.size(); ++j) { if (j) near.insert(down[j]->GetSubId().c_str()); for (size_t k = 0; k < down[j]->GetChildrenCount(); ++k) down.push_back(down[j]->GetChild(k)); }
		n[at]->SetSubId(x.c_str()); ids[at] = n[at]->GetSubId().c_str(); c.op("node %d asks '%s', gets '%s'", at, x.c_str(), ids[at].c_str()); string w = cleaned(x, "-"); CHECK(ids[at] == cleaned(ids[at], "-"), "subid:valid", "'%s'", ids[at].c_str()); if (near.count(w)) CHECK(!near.count(ids[at]) && ids[at].compare(0, w.size(), w) == 0, "subid:unique", "'%s' is there twice", ids[at].c_str()); else CHECK(ids[at] == w, "subid:free", "'%s' for '%s'", ids[at].c_str(), x.c_str());
		for (int j = 0; j < count; ++j) CHECK(ids[j] == n[j]->GetSubId().c_str(), "subid:other", "node %d changed", j);
		for (int j = 0; j < count; ++j) if (!ids[j].empty()) { const FCDEntity* e = root->FindSubId(ids[j].c_str()); CHECK(e != NULL, "subid:find", "'%s' is not found", ids[j].c_str()); CHECK(((const FCDSceneNode*) e)->GetSubId() == ids[j].c_str(), "subid:find", "'%s' finds another", ids[j].c_str()); } CHECK(root->FindSubId("nothere") == NULL, "subid:ghost", "found");
	}
	n[0]->SetSubId(""); CHECK(n[0]->GetSubId().empty(), "subid:empty", "'%s'", n[0]->GetSubId().c_str()); string t; for (auto& x : ids) t += x + ","; c.state(t); c.checkAsserts("sub-identifiers");
}
SPACE(manySubids, 1)
{
	int count = c.pick(vector<int>{ 3, 511, 514, 700 }); FUObjectRef<FCDocument> d(FCollada::NewTopDocument()); FCDSceneNode* root = d->AddVisualScene(); set<string> seen; for (int i = 0; i < count; ++i) root->AddChildNode()->SetSubId("s"); c.op("%d children, then the parent", count); root->SetSubId("s"); string a = root->GetSubId().c_str(); for (int i = 0; i < count; ++i) CHECK(a != root->GetChild(i)->GetSubId().c_str(), "subid:unique", "'%s'", a.c_str());
	// A chain, where all of them must differ.
	FCDSceneNode* x = d->AddVisualScene(); int deepness = count > 600 ? 600 : count; for (int i = 0; i < deepness; ++i) { x->SetSubId("s"); CHECK(seen.insert(x->GetSubId().c_str()).second, "subid:unique", "'%s' is there twice", x->GetSubId().c_str()); x = x->AddChildNode(); } c.state(a);
}
// Sub-identifiers of instances within one node, after they were cleaned.
SPACE(instances, 2)
{
	FUObjectRef<FCDocument> d(FCollada::NewTopDocument()); FCDSceneNode* root = d->AddVisualScene(), * node = root->AddChildNode(); FCDLight* l = d->GetLightLibrary()->AddEntity(); FCDCamera* k = d->GetCameraLibrary()->AddEntity(); static const vector<string> subs = { "", "i", "i1", "i01" }; int n = c.range(1, 5); vector<FCDEntityInstance*> in; vector<string> w; bool nested = c.flag(); 
	for (int i = 0; i < n; ++i) { in.push_back(node->AddInstance(i & 1 ? (FCDEntity*) l : (FCDEntity*) k)); const string& x = c.pick(subs); in.back()->SetWantedSubId(x.c_str()); w.push_back(x); c.op("instance '%s'", x.c_str()); }
	(nested ? root : node)->CleanSubId(); set<string> seen; string t; for (int i = 0; i < n; ++i) { string g = in[i]->GetWantedSubId().c_str(); t += g + ","; if (w[i].empty()) { CHECK(g.empty(), "instance:empty", "'%s'", g.c_str()); continue; } CHECK(!seen.count(g), "instance:unique", "'%s' is there twice", g.c_str()); if (!seen.count(w[i])) CHECK(g == w[i], "instance:free", "'%s' for '%s'", g.c_str(), w[i].c_str()); else CHECK(derived(g, w[i]), "instance:derived", "'%s' for '%s'", g.c_str(), w[i].c_str()); seen.insert(g); } c.state(t);
}
