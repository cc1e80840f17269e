// P26: extra trees behave as the ordered tree that was built.
#include <map>
#include <memory>
#include <algorithm>
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDExtra.h"
#include "mc.h"
const char* mc::property = "P26"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of adding, renaming, filling, animating, cloning and releasing the types, techniques, nodes, parameters and attributes of an extra tree up to a bounded length, from an empty and from populated trees; a case is non-trivial when the whole tree and every query by name were compared with the model";
std::vector<std::string> mc::assumptions = { "a clone has the unnamed type that every extra tree starts with", "the animation of a node is not cloned, as its comment states", "setting the content of a node releases its children" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); }, true);
namespace {
struct MNode { string name, text, profile; bool technique = false; vector<std::pair<string, string>> attrs; vector<FCDEAttribute*> reals; vector<std::unique_ptr<MNode>> kids; FCDENode* real = NULL; MNode* parent = NULL; const FCDAnimatedCustom* animated = NULL; };
struct MType { string name; vector<std::unique_ptr<MNode>> techniques; FCDEType* real; };
static const char* TYPES[] = { "", "a", "b" }; static const char* PROFILES[] = { "X", "Y", "" }; static const char* NAMES[] = { "n", "m", "1 x", "" }; static const char* ATTRS[] = { "p", "q", "0-" };
static string cleaned(string s) { if (s.empty()) return s; for (size_t i = 0; i < s.size(); ++i) { char c = s[i]; bool alpha = c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'), digit = c >= '0' && c <= '9'; if (!alpha && (i == 0 || !digit)) s[i] = '_'; } return s; }
struct Tree
{
	mc::Ctx& c; FUObjectRef<FCDExtra> x; vector<std::unique_ptr<MType>> types;
	Tree(mc::Ctx& c) : c(c), x(new FCDExtra(*kept, NULL)) { auto t = std::make_unique<MType>(); t->real = x->GetType((size_t) 0); types.push_back(std::move(t)); }
	MType* type(const char* n) { for (auto& t : types) if (t->name == n) return t.get(); return NULL; }
	static MNode* technique(MType* t, const char* p) { for (auto& k : t->techniques) if (k->profile == p) return k.get(); return NULL; }
	static MNode* child(const MNode* n, const string& name) { for (auto& k : n->kids) if (k->name == name) return k.get(); return NULL; }
	void nodes(MNode* n, vector<MNode*>& out) { out.push_back(n); for (auto& k : n->kids) nodes(k.get(), out); }
	vector<MNode*> all() { vector<MNode*> r; for (auto& t : types) for (auto& k : t->techniques) nodes(k.get(), r); return r; }
	MType* addType(const char* n) { FCDEType* r = x->AddType(n); MType* t = type(n); if (!t) { types.push_back(std::make_unique<MType>()); t = types.back().get(); t->name = n; t->real = r; } CHECK(t->real == r, "add-type", "AddType('%s') returned another type", n); return t; }
	MNode* addTechnique(MType* t, const char* p) { FCDETechnique* r = t->real->AddTechnique(p); MNode* k = technique(t, p); if (!k) { t->techniques.push_back(std::make_unique<MNode>()); k = t->techniques.back().get(); k->technique = true; k->profile = p; k->real = r; k->animated = r->GetAnimated(); } CHECK(k->real == r, "add-technique", "AddTechnique('%s') returned another technique", p); return k; }
	MNode* add(MNode* n, FCDENode* r, const string& name, const string& text) { n->kids.push_back(std::make_unique<MNode>()); MNode* k = n->kids.back().get(); k->name = name; k->text = text; k->real = r; k->parent = n; k->animated = r->GetAnimated(); return k; }
	MNode* addNode(MNode* n, const char* name) { return add(n, n->real->AddChildNode(name), cleaned(name), ""); }
	MNode* addParameter(MNode* n, const char* name, const char* v) { return add(n, n->real->AddParameter(name, v), cleaned(name), v); }
	void setAttr(MNode* n, const char* name, const char* v) { FCDEAttribute* a = n->real->AddAttribute(name, v); string d = cleaned(name); for (size_t i = 0; i < n->attrs.size(); ++i) if (n->attrs[i].first == d) { n->attrs[i].second = v; CHECK(n->reals[i] == a, "add-attribute", "AddAttribute('%s') returned another attribute", name); return; } n->attrs.push_back({ d, v }); n->reals.push_back(a); }
	void compare(const MNode* m, const FCDENode* r, const FCDENode* parent, bool same)
	{
		CHECK(!same || m->real == r, "node:identity", "a node is at another place"); CHECK(m->technique || m->name == r->GetName(), "node:name", "the name is '%s' instead of '%s'", r->GetName(), m->name.c_str()); CHECK(m->text == r->GetContent(), "node:content", "the content of '%s' is '%s' instead of '%s'", m->name.c_str(), r->GetContent(), m->text.c_str()); CHECK(r->GetParent() == parent, "node:parent", "the parent of '%s' is another node", m->name.c_str());
		CHECK(!same || r->GetAnimated() == m->animated, "node:animated", "the animated value of '%s' is another one", m->name.c_str()); CHECK(r->GetAnimated() != NULL, "node:animated-missing", "'%s' has no animated value", m->name.c_str());
		if (m->technique) CHECK(m->profile == ((const FCDETechnique*) r)->GetProfile(), "technique:profile", "the profile is '%s' instead of '%s'", ((const FCDETechnique*) r)->GetProfile(), m->profile.c_str());
		CHECK(r->GetAttributeCount() == m->attrs.size(), "attributes:count", "'%s' has %zu attributes instead of %zu", m->name.c_str(), r->GetAttributeCount(), m->attrs.size());
		for (size_t i = 0; i < m->attrs.size(); ++i) { const FCDEAttribute* a = r->GetAttribute(i); CHECK(m->attrs[i].first == a->GetName().c_str() && m->attrs[i].second == a->GetValue().c_str(), "attributes:content", "attribute %zu is %s='%s' instead of %s='%s'", i, a->GetName().c_str(), a->GetValue().c_str(), m->attrs[i].first.c_str(), m->attrs[i].second.c_str()); CHECK(!same || m->reals[i] == a, "attributes:identity", "another attribute"); }
		for (const char* q : { "p", "q", "_-", "__", "z", "" }) { const FCDEAttribute* a = r->FindAttribute(q); size_t i = 0; while (i < m->attrs.size() && m->attrs[i].first != q) ++i; CHECK(a == (i < m->attrs.size() ? r->GetAttribute(i) : NULL), "find-attribute", "FindAttribute('%s') finds another attribute", q); CHECK((i < m->attrs.size() ? m->attrs[i].second : "") == r->ReadAttribute(q).c_str(), "read-attribute", "ReadAttribute('%s') reads '%s'", q, r->ReadAttribute(q).c_str()); }
		CHECK(r->GetChildNodeCount() == m->kids.size(), "children:count", "'%s' has %zu children instead of %zu", m->name.c_str(), r->GetChildNodeCount(), m->kids.size());
		for (size_t i = 0; i < m->kids.size(); ++i) compare(m->kids[i].get(), r->GetChildNode(i), r, same);
		FCDENode* w = const_cast<FCDENode*>(r);
		for (const char* q : { "n", "m", "_", "_x", "__x", "z", "" }) { const FCDENode* want = NULL; vector<const FCDENode*> every; for (size_t i = 0; i < m->kids.size(); ++i) if (m->kids[i]->name == q) { if (!want) want = r->GetChildNode(i); every.push_back(r->GetChildNode(i)); } CHECK(r->FindChildNode(q) == want, "find-child", "FindChildNode('%s') finds another node", q); CHECK(r->FindParameter(q) == want, "find-parameter", "FindParameter('%s') finds another node", q); FCDENodeList l; r->FindChildrenNodes(q, l); CHECK(l.size() == every.size() && std::equal(every.begin(), every.end(), l.begin()), "find-children", "FindChildrenNodes('%s') finds other nodes", q); }
		FCDENodeList l; StringList s; w->FindParameters(l, s); size_t k = 0; for (size_t i = 0; i < m->kids.size(); ++i) if (m->kids[i]->kids.empty()) { CHECK(k < l.size() && l[k] == r->GetChildNode(i) && m->kids[i]->name == s[k].c_str(), "find-parameters", "FindParameters finds other nodes"); ++k; } CHECK(k == l.size() && k == s.size(), "find-parameters:count", "FindParameters finds %zu nodes instead of %zu", l.size(), k);
	}
	void compare(const FCDExtra* e, bool same)
	{
		vector<MType*> want; for (auto& t : types) want.push_back(t.get()); vector<const FCDEType*> is; for (size_t i = 0; i < e->GetTypeCount(); ++i) is.push_back(e->GetType(i));
		if (!same && !type("")) { CHECK(!is.empty() && is[0]->GetName().empty() && is[0]->GetTechniqueCount() == 0, "clone:default", "the clone has no unnamed type"); is.erase(is.begin()); } else if (!same) { std::stable_partition(want.begin(), want.end(), [&](MType* t) { return t == type(""); }); }
		CHECK(is.size() == want.size(), "types:count", "%zu types instead of %zu", is.size(), want.size()); bool content = false;
		for (size_t i = 0; i < want.size(); ++i)
		{
			MType* t = want[i]; const FCDEType* r = is[i]; CHECK(!same || t->real == r, "type:identity", "a type is at another place"); CHECK(t->name == r->GetName().c_str(), "type:name", "type %zu is '%s' instead of '%s'", i, r->GetName().c_str(), t->name.c_str()); CHECK(r->GetParent() == e, "type:parent", "the type has another parent"); CHECK(r->GetTechniqueCount() == t->techniques.size(), "techniques:count", "type '%s' has %zu techniques instead of %zu", t->name.c_str(), r->GetTechniqueCount(), t->techniques.size());
			for (size_t k = 0; k < t->techniques.size(); ++k) { compare(t->techniques[k].get(), r->GetTechnique(k), NULL, same); if (!t->techniques[k]->kids.empty()) content = true; }
			for (const char* p : { "X", "Y", "", "Z" }) { MNode* k = technique(t, p); size_t n = 0; while (n < t->techniques.size() && t->techniques[n].get() != k) ++n; CHECK(r->FindTechnique(p) == (k ? r->GetTechnique(n) : NULL), "find-technique", "FindTechnique('%s') finds another one", p); }
			for (const char* q : { "n", "m", "__x", "z", "" }) { const FCDENode* root = NULL; for (size_t k = 0; k < t->techniques.size() && !root; ++k) for (size_t n = 0; n < t->techniques[k]->kids.size() && !root; ++n) if (t->techniques[k]->kids[n]->name == q) root = r->GetTechnique(k)->GetChildNode(n); CHECK(r->FindRootNode(q) == root, "find-root", "FindRootNode('%s') finds another node", q); }
		}
		for (const char* n : { "", "a", "b", "z" }) { MType* t = type(n); const FCDEType* r = e->FindType(n); CHECK(!t == !r || (!same && !*n), "find-type", "FindType('%s') finds %s", n, r ? "a type" : "nothing"); if (same) CHECK(!t || r == t->real, "find-type:other", "FindType('%s') finds another type", n); if (!*n) CHECK(e->GetDefaultType() == r, "default-type", "the default type is another one"); }
		CHECK(e->HasContent() == content, "has-content", "HasContent says %d", (int) e->HasContent());
	}
	void check() { compare(x, true); }
	string text() { string s; for (auto& t : types) { s += "|" + t->name + ":"; for (MNode* k : allOf(t.get())) { s += (k->technique ? "/" + k->profile : "." + k->name) + "=" + k->text; for (auto& a : k->attrs) s += "@" + a.first + a.second; s += mc::strf("%zu", k->kids.size()); } } return s; }
	vector<MNode*> allOf(MType* t) { vector<MNode*> r; for (auto& k : t->techniques) nodes(k.get(), r); return r; }
	void drop(MNode* n) { if (n->parent) { auto& v = n->parent->kids; v.erase(std::find_if(v.begin(), v.end(), [&](auto& p) { return p.get() == n; })); return; } for (auto& t : types) { auto& v = t->techniques; auto i = std::find_if(v.begin(), v.end(), [&](auto& p) { return p.get() == n; }); if (i != v.end()) { v.erase(i); return; } } }
	void populate(int how)
	{
		if (how >= 1) { MNode* k = addTechnique(types[0].get(), "X"); addNode(k, "n"); }
		if (how >= 2) { MNode* n = all()[1]; addNode(n, "m"); addParameter(n, "n", "v"); setAttr(n, "p", "1"); setAttr(n, "q", "2"); addNode(all()[0], "n"); addTechnique(types[0].get(), "Y"); addNode(addTechnique(addType("a"), "X"), "m"); }
	}
};
struct Gone : FUTracker { int n = 0; vector<FUTrackable*> on; void watch(FUTrackable* o) { TrackObject(o); on.push_back(o); } virtual void OnObjectReleased(FUTrackable* o) { ++n; on.erase(std::find(on.begin(), on.end(), o)); } ~Gone() { for (auto* o : on) UntrackObject(o); } };
static void count(MNode* n, size_t& k, Gone& g) { ++k; g.watch(n->real); for (auto& c : n->kids) count(c.get(), k, g); }
// One operation. Everything below a released object goes with it.
static void step(mc::Ctx& c, Tree& t, bool big)
{
	vector<MNode*> ns = t.all(); auto node = [&]() -> MNode* { if (ns.empty()) c.prune(); return ns[(size_t) c.choose((int) ns.size())]; };
	switch (c.choose(12))
	{
	case 0: { const char* n = TYPES[c.choose(3)]; c.op("AddType('%s')", n); t.addType(n); break; }
	case 1: { if (t.types.empty()) c.prune(); MType* y = t.types[(size_t) c.choose((int) t.types.size())].get(); const char* p = PROFILES[c.choose(3)]; c.op("AddTechnique('%s') to type '%s'", p, y->name.c_str()); t.addTechnique(y, p); break; }
	case 2: { MNode* n = node(); int k = c.choose(big ? 4 : 2); if (k < 3) { c.op("AddChildNode('%s')", NAMES[k]); t.addNode(n, NAMES[k]); } else { c.op("AddChildNode()"); t.add(n, n->real->AddChildNode(), "", ""); } break; }
	case 3: { MNode* n = node(); const char* v = c.flag() ? "" : "w"; const char* name = NAMES[c.choose(2)]; c.op("AddParameter('%s', '%s')", name, v); t.addParameter(n, name, v); break; }
	case 4: { MNode* n = node(); if (n->technique) c.prune(); const char* name = NAMES[c.choose(big ? 4 : 3)]; c.op("'%s'.SetName('%s')", n->name.c_str(), name); n->real->SetName(name); n->name = cleaned(name); break; }
	case 5: { MNode* n = node(); const char* v = c.flag() ? "" : "z"; c.op("'%s'.SetContent('%s')", n->name.c_str(), v); size_t k = 0; Gone g; for (auto& q : n->kids) count(q.get(), k, g); n->real->SetContent(v); CHECK(g.n == (int) k, "content:children", "%d of %zu nodes below were released", g.n, k); n->kids.clear(); n->text = v; break; }
	case 6: { MNode* n = node(); const char* a = ATTRS[c.choose(big ? 3 : 2)]; const char* v = c.flag() ? "5" : ""; c.op("'%s'.AddAttribute('%s', '%s')", n->name.c_str(), a, v); t.setAttr(n, a, v); break; }
	case 7: { MNode* n = node(); c.op("release '%s'", n->name.c_str()); size_t k = 0; Gone g; count(n, k, g); n->real->Release(); CHECK(g.n == (int) k, "release:below", "%d of %zu nodes were released", g.n, k); t.drop(n); break; }
	case 8: { if (t.types.empty()) c.prune(); size_t i = (size_t) c.choose((int) t.types.size()); if (c.flag()) { c.op("release type '%s'", t.types[i]->name.c_str()); size_t k = 0; Gone g; for (auto& q : t.types[i]->techniques) count(q.get(), k, g); t.types[i]->real->Release(); CHECK(g.n == (int) k, "release:type", "%d of %zu nodes were released", g.n, k); t.types.erase(t.types.begin() + (long) i); } else { const char* n = TYPES[c.choose(3)]; c.op("name type '%s' '%s'", t.types[i]->name.c_str(), n); t.types[i]->real->SetName(n); t.types[i]->name = n; } break; }
	case 9: { MNode* n = node(); if (!n->technique) c.prune(); const char* p = PROFILES[c.choose(3)]; c.op("SetProfile('%s')", p); ((FCDETechnique*) n->real)->SetProfile(p); n->profile = p; break; }
	case 10: { MNode* n = node(); if (n->attrs.empty()) c.prune(); size_t i = (size_t) c.choose((int) n->attrs.size()); switch (c.choose(3)) { case 0: c.op("attribute %zu: value", i); n->reals[i]->SetValue("8"); n->attrs[i].second = "8"; break; case 1: c.op("attribute %zu: name", i); n->reals[i]->SetName("q"); n->attrs[i].first = "q"; break; case 2: c.op("attribute %zu: release", i); n->reals[i]->Release(); n->attrs.erase(n->attrs.begin() + (long) i); n->reals.erase(n->reals.begin() + (long) i); break; } break; }
	case 11: { MNode* n = node(); int k = c.choose(2); if (k == 0) { c.op("SetContentDirect"); n->real->SetContentDirect("d"); n->text = "d"; } else { c.op("SetAnimated"); FCDAnimatedCustom* a = new FCDAnimatedCustom(n->real); Gone g; g.watch(const_cast<FCDAnimatedCustom*>(n->animated)); n->real->SetAnimated(a); n->animated = a; CHECK(g.n == 1, "animated:old", "the earlier animated value was not released"); } break; }
	}
}
// A clone is equal (names may collide in the original: then the clone merges them, and is not compared).
static bool unique(Tree& t) { for (auto& y : t.types) { if (t.type(y->name.c_str()) != y.get()) return false; for (auto& k : y->techniques) if (t.technique(y.get(), k->profile.c_str()) != k.get()) return false; } for (MNode* n : t.all()) for (size_t i = 0; i < n->attrs.size(); ++i) for (size_t j = 0; j < i; ++j) if (n->attrs[i].first == n->attrs[j].first) return false; return true; }
static void cloned(mc::Ctx& c, Tree& t)
{
	if (!unique(t)) return; FUObjectRef<FCDExtra> k; if (t.all().size() % 2) { k = t.x->Clone(NULL); } else { k = new FCDExtra(*kept, NULL); t.x->Clone(k); } t.compare(k, false); t.check();
}
}
SPACE(edits, 3)
{
	Tree t(c); int how = c.choose(3); t.populate(how); t.check(); int len = (how == 0 ? 4 : how == 1 ? 3 : 2) + (c.deep && how == 0 ? 1 : 0);
	for (int i = 0; i < len; ++i) { step(c, t, how == 2); t.check(); c.state(t.text()); }
	cloned(c, t); c.nontrivial();
}
// Afterwards the clone and the original are independent of each other.
SPACE(clones, 3)
{
	Tree t(c); int how = c.choose(3); bool more = c.deep && how == 0; t.populate(how); step(c, t, true); if (!unique(t)) c.prune();
	Tree u(c); u.types.clear(); int mode = c.choose(2); u.x = NULL; if (mode == 0) u.x = t.x->Clone(NULL); else { u.x = new FCDExtra(*kept, NULL); t.x->Clone(u.x); } t.compare(u.x, false);
	// The model of the clone is read from the clone, which is the original's.
	struct R { static void read(MNode* m, FCDENode* r) { m->real = r; m->name = r->GetName(); m->text = r->GetContent(); m->animated = r->GetAnimated(); for (size_t i = 0; i < r->GetAttributeCount(); ++i) { m->attrs.push_back({ r->GetAttribute(i)->GetName().c_str(), r->GetAttribute(i)->GetValue().c_str() }); m->reals.push_back(r->GetAttribute(i)); } for (size_t i = 0; i < r->GetChildNodeCount(); ++i) { m->kids.push_back(std::make_unique<MNode>()); m->kids.back()->parent = m; read(m->kids.back().get(), r->GetChildNode(i)); } } };
	for (size_t i = 0; i < u.x->GetTypeCount(); ++i) { auto y = std::make_unique<MType>(); y->real = u.x->GetType(i); y->name = y->real->GetName().c_str(); for (size_t k = 0; k < y->real->GetTechniqueCount(); ++k) { y->techniques.push_back(std::make_unique<MNode>()); MNode* m = y->techniques.back().get(); m->technique = true; m->profile = y->real->GetTechnique(k)->GetProfile(); R::read(m, y->real->GetTechnique(k)); } u.types.push_back(std::move(y)); }
	u.check(); int who = c.choose(4);
	if (who == 0) { c.op("the original is released"); t.x = NULL; u.check(); step(c, u, true); u.check(); }
	else if (who == 1) { c.op("the clone is released"); u.x = NULL; t.check(); step(c, t, true); t.check(); }
	else if (who == 2) { c.op("the original is edited"); step(c, t, true); t.check(); u.check(); if (more) { step(c, t, false); t.check(); u.check(); } }
	else { c.op("the clone is edited"); step(c, u, true); u.check(); t.check(); if (more) { step(c, u, false); u.check(); t.check(); } }
	c.nontrivial();
}
// Names with any byte are cleaned the same way everywhere.
SPACE(names, 2)
{
	int len = 1 + c.choose(c.deep ? 3 : 2); string s; for (int i = 0; i < len; ++i) { if (len == 1) s += (char) (1 + c.choose(255)); else s += "a_Z09 -.:\xc3\xa9\n"[c.choose(12)]; } c.op("name of %d bytes", len);
	Tree t(c); MNode* k = t.addTechnique(t.types[0].get(), "X"); MNode* n = t.addNode(k, s.c_str()); t.addParameter(n, s.c_str(), "v"); t.setAttr(n, s.c_str(), "1"); t.setAttr(n, s.c_str(), "2"); MNode* m = t.addNode(k, "n"); m->real->SetName(s.c_str()); m->name = cleaned(s); t.check(); CHECK(k->real->FindChildNode(cleaned(s).c_str()) == n->real, "find-cleaned", "the node is not found by its clean name"); cloned(c, t); c.nontrivial();
}
