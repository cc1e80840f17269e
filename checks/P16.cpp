// P16: external references resolve the same way in every load order.
#include "dump.h"
#include <unistd.h>
#include <sys/stat.h>
using std::string; using std::vector;
const char* mc::property = "P16"; const char* mc::level = "model_checking";
const char* mc::rule = "three files that refer to each other's lights and nodes, in every shape of references, are loaded, released, queried with and without automatic loading, made unavailable and available, unloaded, exported and edited in every order up to a bound; after every operation every reference of every live document is compared with the model: its file and identifier never change, and it resolves to the entity with the identifier in the live document of that file, or to nothing when there is none and none may be loaded; a case is non-trivial when a reference was resolved";
vector<string> mc::assumptions = { "a document that was loaded for a reference lives as long as a reference to it does; documents which were loaded for references and refer to each other in a circle keep each other alive after the last top document is gone", "when a file is loaded twice on request, a reference may resolve to either document, and to nothing until it may load once the one it resolved to is released" };
static bool init = (mc::workerInit = [] { FCollada::Initialize(); }, true);
static const char* NAME[] = { "a.dae", "sub/b.dae", "c d.dae" };
static const char* ID[] = { "la", "lb", "lc" }, *NODE[] = { "na", "nb", "nc" };
static string path(const string& dir, int f) { return dir + "/" + NAME[f]; }
// The library decodes %20 while it reads XML: programs name plain paths.
static string plain(string u) { size_t p = u.find("%20"); if (p != string::npos) u.replace(p, 3, " "); return u; }
// What a file writes for another one: relative to itself or absolute.
static string url(const string& dir, int from, int to, int form)
{
	static const char* REL[3][3] = { { "a.dae", "sub/b.dae", "c%20d.dae" }, { "../a.dae", "b.dae", "../c%20d.dae" }, { "a.dae", "./sub/b.dae", "c%20d.dae" } };
	static const char* ABS[] = { "/a.dae", "/sub/b.dae", "/c%20d.dae" }; return form ? "file://" + dir + ABS[to] : string(REL[from][to]);
}
static string content(const string& dir, int f, int targets, int form, int kind)
{
	string r = "<?xml version=\"1.0\"?><COLLADA xmlns=\"http://www.collada.org/2005/11/COLLADASchema\" version=\"1.4.1\"><asset><created>2008-01-01T00:00:00Z</created><modified>2008-01-01T00:00:00Z</modified></asset>";
	r += mc::strf("<library_lights><light id=\"%s\"><technique_common><ambient><color>1 1 1</color></ambient></technique_common></light></library_lights><library_visual_scenes><visual_scene id=\"vs\"><node id=\"%s\"><instance_light url=\"#%s\"/></node><node id=\"holder\">", ID[f], NODE[f], ID[f]);
	for (int t = 0; t < 3; ++t) if (targets >> t & 1) { string u = url(dir, f, t, form); if (kind != 1) r += "<instance_light url=\"" + u + "#" + ID[t] + "\"/>"; if (kind) r += "<instance_node url=\"" + u + "#" + NODE[t] + "\"/>"; }
	return r + "</node></visual_scene></library_visual_scenes><scene><instance_visual_scene url=\"#vs\"/></scene></COLLADA>";
}
static void write(const string& f, const string& s) { FILE* o = fopen(f.c_str(), "wb"); if (!o) abort(); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static vector<FCDocument*> live()
{
	vector<FCDocument*> r; for (size_t i = 0; i < FCollada::GetTopDocumentCount(); ++i) r.push_back(FCollada::GetTopDocument(i));
	for (size_t i = 0; i < r.size(); ++i) for (size_t p = 0; p < r[i]->GetExternalReferenceManager()->GetPlaceHolderCount(); ++p) { FCDocument* t = r[i]->GetExternalReferenceManager()->GetPlaceHolder(p)->GetTarget(false); if (!t) continue; bool seen = false; for (FCDocument* d : r) seen |= d == t; if (!seen) r.push_back(t); }
	return r;
}
struct Ref { FCDEntityInstance* i; int to; bool node; };
struct World
{
	mc::Ctx& c; string dir; bool there[3] = { true, true, true }, twice[3] = {}; int targets[3]; int kind, form; bool flag = FCollada::GetDereferenceFlag(); size_t resolved = 0;
	World(mc::Ctx& c) : c(c), dir(mc::scratch() + "/refs") { mkdir(dir.c_str(), 0700); mkdir((dir + "/sub").c_str(), 0700); mkdir((dir + "/out").c_str(), 0700); c.tolerateAsserts = true; }
	~World() { FCollada::SetDereferenceFlag(flag); while (FCollada::GetTopDocumentCount()) FCollada::GetTopDocument(0)->Release(); }
	void make() { for (int f = 0; f < 3; ++f) { unlink((path(dir, f) + ".away").c_str()); write(path(dir, f), content(dir, f, targets[f], form, kind)); } }
	int fileOf(const FCDocument* d) { string u = d->GetFileUrl().c_str(); for (int f = 0; f < 3; ++f) if (ends(u, f)) return f; return -1; }
	static bool ends(const string& u, int f) { static const char* A[] = { "/refs/a.dae", "/refs/sub/b.dae", "/refs/c d.dae" }, *B[] = { "/refs/a.dae", "/refs/sub/b.dae", "/refs/c%20d.dae" }; auto e = [&](const char* x) { size_t n = strlen(x); return u.size() >= n && !u.compare(u.size() - n, n, x); }; return e(A[f]) || e(B[f]); }
	vector<Ref> refs(FCDocument* d) { vector<Ref> r; FCDVisualSceneNodeLibrary* l = d->GetVisualSceneLibrary(); for (size_t i = 0; i < l->GetEntityCount(); ++i) for (size_t k = 0; k < l->GetEntity(i)->GetChildrenCount(); ++k) { FCDSceneNode* n = l->GetEntity(i)->GetChild(k); for (size_t j = 0; j < n->GetInstanceCount(); ++j) { FCDEntityInstance* x = n->GetInstance(j); string id = x->GetEntityReference()->GetUri().GetFragment().c_str(); int to = -1; bool node = false; for (int t = 0; t < 3; ++t) { if (id == ID[t]) to = t; if (id == NODE[t]) { to = t; node = true; } } r.push_back({ x, to, node }); } } return r; }
	// Every reference of one document.
	void check(const char* when, FCDocument* d, int f, bool load, const std::map<FCDEntityInstance*, int>* = NULL)
	{
		vector<Ref> rs = refs(d); size_t n = 0; for (const Ref& r : rs)
		{
			++n; FUUri u = r.i->GetEntityReference()->GetUri(); CHECK(r.to >= 0, string("target:") + when, "a reference lost its identifier: '%s'", u.GetAbsoluteUri().c_str()); bool local = r.i->GetEntityReference()->GetPlaceHolder() == NULL; if (!local) { string p = u.GetAbsolutePath().c_str(); CHECK(ends(p, r.to), string("file:") + when, "a reference to %s now names the file '%s'", NAME[r.to], p.c_str()); } else CHECK(r.to == f, string("local:") + when, "the reference to '%s' in %s lost its file", ID[r.to], NAME[r.to]);
			vector<FCDocument*> homes; if (local) homes.push_back(d); else for (FCDocument* x : live()) if (fileOf(x) == r.to) homes.push_back(x); FCDEntity* e = r.i->GetEntity(); const char* id = r.node ? NODE[r.to] : ID[r.to];
			if (homes.empty() && !(load && there[r.to])) { CHECK(!e, string("dangling:") + when, "'%s' resolves to something although %s is not there", id, NAME[r.to]); continue; }
			if (!e && twice[r.to] && !load) continue; CHECK(e, string(homes.empty() ? "unresolved-file:" : "unresolved:") + when, "'%s' of %s in %s does not resolve although %s", id, NAME[r.to], f < 0 ? "another file" : NAME[f], homes.empty() ? "its file is there" : "its document is loaded"); CHECK(e->GetDaeId() == id, string("wrong:") + when, "'%s' resolves to '%s'", id, e->GetDaeId().c_str()); ++resolved;
			if (!homes.empty()) { bool in = false; for (FCDocument* h : homes) in |= e->GetDocument() == h; CHECK(in, string("copy:") + when, "'%s' resolves to a copy in a document that was loaded again although %s is loaded", id, NAME[r.to]); } else CHECK(fileOf(e->GetDocument()) == r.to, string("home:") + when, "'%s' resolves to an entity of another file", id);
		}
		(void) n;
	}
	void all(const char* when, bool load) { FCollada::SetDereferenceFlag(load); vector<FCDocument*> ds = live(); for (FCDocument* d : ds) { bool still = false; for (FCDocument* x : live()) still |= x == d; if (still) check(when, d, fileOf(d), load); } FCollada::SetDereferenceFlag(false); string s; for (FCDocument* d : live()) { s += mc::strf("%d%d:", fileOf(d), FCollada::IsTopDocument(d)); for (const Ref& r : refs(d)) s += mc::strf("%d%d", r.to, r.i->GetEntity() != NULL); } c.state(s); }
	FCDocument* topOf(int f) { for (size_t i = 0; i < FCollada::GetTopDocumentCount(); ++i) if (fileOf(FCollada::GetTopDocument(i)) == f) return FCollada::GetTopDocument(i); return NULL; }
	int count(int f) { int n = 0; for (FCDocument* d : live()) n += fileOf(d) == f; return n; }
	void move(int f) { string p = path(dir, f), q = p + ".away"; if (there[f]) rename(p.c_str(), q.c_str()); else rename(q.c_str(), p.c_str()); there[f] = !there[f]; }
	// The top documents hold everything alive.
	void end()
	{
		FUTracker* none = NULL; (void) none; struct Mark { FUTrackedPtr<FCDEntity> e; int f; }; vector<Mark> marks; vector<FCDocument*> ds = live(); for (FCDocument* d : ds) { FCDLight* l = d->GetLightLibrary()->GetEntity(0); Mark m; m.e = l; m.f = fileOf(d); marks.push_back(m); }
		bool circle = false; for (FCDocument* d : ds) if (!FCollada::IsTopDocument(d)) { vector<FCDocument*> r = { d }; for (size_t i = 0; i < r.size(); ++i) for (size_t p = 0; p < r[i]->GetExternalReferenceManager()->GetPlaceHolderCount(); ++p) { FCDocument* t = r[i]->GetExternalReferenceManager()->GetPlaceHolder(p)->GetTarget(false); if (!t || FCollada::IsTopDocument(t)) continue; if (t == d) circle = true; bool seen = false; for (FCDocument* x : r) seen |= x == t; if (!seen) r.push_back(t); } }
		while (FCollada::GetTopDocumentCount()) { FCollada::GetTopDocument(FCollada::GetTopDocumentCount() - 1)->Release(); } if (!circle) for (const Mark& m : marks) CHECK(!m.e, "kept", "the document of %s outlives the last top document", NAME[m.f]);
	}
	bool load(int f)
	{
		int before = count(f); twice[f] |= before > 0; FCDocument* d = FCollada::NewTopDocument(); bool ok = FCollada::LoadDocumentFromFile(d, FC("") + fstring(path(dir, f).c_str())); CHECK(ok == there[f], "load", "loading %s %s", NAME[f], ok ? "succeeded without the file" : "failed"); if (!ok) { d->Release(); return false; }
		CHECK(fileOf(d) == f, "url", "the document has the address '%s'", d->GetFileUrl().c_str()); CHECK(count(f) == before + 1, "loaded-twice", "loading %s made %d documents of it", NAME[f], count(f) - before); size_t want = 1; for (int t = 0; t < 3; ++t) if (targets[f] >> t & 1) want += kind == 2 ? 2 : 1; CHECK(refs(d).size() == want, "references", "%zu references instead of %zu", refs(d).size(), want); return true;
	}
	// An export to another place must name the same files.
	void save(FCDocument* d, int where)
	{
		string f = where ? dir + "/out/moved.dae" : path(dir, fileOf(d)); int was = fileOf(d); vector<std::pair<int, bool>> want; for (const Ref& r : refs(d)) want.push_back({ r.to, r.node }); CHECK(FCollada::SaveDocument(d, f.c_str()), "save", "the export failed");
		if (!where) { there[was] = true; unlink((f + ".away").c_str()); return; }
		d->SetFileUrl(fstring(path(dir, was).c_str())); FCDocument* e = FCollada::NewDocument(); CHECK(FCollada::LoadDocumentFromFile(e, f.c_str()), "saved", "the exported document does not load"); vector<std::pair<int, bool>> got; for (const Ref& r : refs(e)) { got.push_back({ r.to, r.node }); if (r.i->GetEntityReference()->GetPlaceHolder() && r.to != was) { string p = r.i->GetEntityReference()->GetUri().GetAbsolutePath().c_str(); CHECK(r.to >= 0 && ends(p, r.to), "saved-file", "the exported reference to %s names '%s'", r.to < 0 ? "?" : NAME[r.to], p.c_str()); } else CHECK(r.to == was, "saved-local", "an exported reference lost its file"); } CHECK(got == want, "saved-references", "%zu references were exported, %zu read", want.size(), got.size()); e->Release();
	}
};
static string shape(const World& w) { string s; for (int f = 0; f < 3; ++f) { s += NAME[f]; s += " ->"; for (int t = 0; t < 3; ++t) if (w.targets[f] >> t & 1) { s += " "; s += NAME[t]; } s += "; "; } return s + (w.kind == 0 ? "lights" : w.kind == 1 ? "nodes" : "lights and nodes") + (w.form ? ", absolute" : ""); }
static void steps(World& w, mc::Ctx& c, int n)
{
	for (int i = 0; i < n; ++i)
	{
		vector<std::pair<int, int>> can = { { 2, 0 } }; for (int f = 0; f < 3; ++f) { can.push_back({ w.topOf(f) ? 1 : 0, f }); can.push_back({ 3, f }); if (i + 1 == n && w.topOf(f)) can.push_back({ 4, f }); } auto q = can[c.choose((int) can.size())]; int f = q.second; FCDocument* d = w.topOf(f);
		switch (q.first)
		{
		case 0: c.op("load %s", NAME[f]); w.load(f); break; case 1: c.op("release %s", NAME[f]); d->Release(); break; case 2: c.op("look at all references, loading what is missing"); w.all("loading", true); break;
		case 3: c.op("%s %s", w.there[f] ? "take away" : "bring back", NAME[f]); w.move(f); break; default: c.op("export %s elsewhere", NAME[f]); w.save(d, 1); break;
		}
		w.all("after", false);
	}
	c.op("release everything"); w.end(); if (w.resolved) c.nontrivial();
}
SPACE(orders, 3)
{
	World w(c); FCollada::SetDereferenceFlag(false); static const int G[][3] = { { 2, 0, 0 }, { 2, 4, 0 }, { 6, 0, 0 }, { 2, 1, 0 }, { 6, 4, 0 }, { 2, 4, 1 }, { 4, 4, 0 }, { 6, 5, 3 }, { 1, 0, 0 }, { 3, 0, 0 } }; int g = c.choose(10); for (int f = 0; f < 3; ++f) w.targets[f] = G[g][f]; w.kind = 0; w.form = 0; w.make(); c.op("%s", shape(w).c_str()); steps(w, c, c.deep ? 5 : 4);
}
// Every graph of references, with loads in every order, then everything is looked at.
SPACE(graphs, 3)
{
	World w(c); FCollada::SetDereferenceFlag(false); for (int f = 0; f < 3; ++f) w.targets[f] = c.choose(8); w.kind = c.deep ? c.choose(3) : 2 * c.choose(2); w.form = c.deep ? c.choose(2) : w.kind / 2; w.make(); c.op("%s", shape(w).c_str()); vector<int> left = { 0, 1, 2 }; int n = c.range(1, 3); for (int i = 0; i < n; ++i) { int k = c.choose((int) left.size()), f = left[k]; left.erase(left.begin() + k); c.op("load %s", NAME[f]); w.load(f); w.all("after", false); }
	bool load = c.flag(); c.op("look at all references%s", load ? ", loading what is missing" : ""); w.all(load ? "loading" : "looking", load); w.all("after", false); w.end(); if (w.resolved) c.nontrivial();
}
// References are given other targets and are released.
SPACE(edits, 3)
{
	World w(c); FCollada::SetDereferenceFlag(false); int g = c.choose(4); static const int G[][3] = { { 2, 4, 0 }, { 6, 0, 0 }, { 2, 1, 0 }, { 0, 0, 0 } }; for (int f = 0; f < 3; ++f) w.targets[f] = G[g][f]; w.kind = 0; w.form = 0; w.make(); c.op("%s", shape(w).c_str()); int tops = c.pick<int>({ 1, 3, 7 }); for (int f = 0; f < 3; ++f) if (tops >> f & 1) { c.op("load %s", NAME[f]); w.load(f); } if (c.flag()) { c.op("look at all references, loading what is missing"); w.all("loading", true); }
	int n = c.deep ? 4 : 3; for (int i = 0; i < n; ++i)
	{
		FCDocument* d = w.topOf(0); FCDSceneNode* holder = d ? d->GetVisualSceneLibrary()->GetEntity(0)->GetChild(1) : NULL; size_t k = holder ? holder->GetInstanceCount() : 0; struct Op { int o, t; }; vector<Op> can = { { 5, 0 } }; if (d) { can.push_back({ 4, 0 }); for (int t = 0; t < 3; ++t) { for (int o = 0; o < 3; ++o) if ((o != 1 || w.count(t)) && (k || o == 2)) can.push_back({ o, t }); } if (k) can.push_back({ 3, 0 }); if (i + 1 == n) can.push_back({ 6, 0 }); } for (int t = 1; t < 3; ++t) if (w.topOf(t)) can.push_back({ 7, t }); else can.push_back({ 8, t });
		Op op = can[c.choose((int) can.size())]; FCDEntityInstance* x = k ? holder->GetInstance(k - 1) : NULL; FCDocument* home = NULL; for (FCDocument* l : live()) if (w.fileOf(l) == op.t) home = home && FCollada::IsTopDocument(home) ? home : l;
		switch (op.o)
		{
		case 0: { bool abs = c.deep && c.flag(); c.op("the last reference names the light of %s%s", NAME[op.t], abs ? " absolutely" : ""); x->GetEntityReference()->SetUri(FUUri(fstring((plain(url(w.dir, 0, op.t, abs)) + "#" + ID[op.t]).c_str()))); break; }
		case 1: c.op("the last reference gets the light of %s", NAME[op.t]); x->SetEntity(home->GetLightLibrary()->GetEntity(0)); CHECK(x->GetEntity() == home->GetLightLibrary()->GetEntity(0), "set", "the reference gives another entity"); break;
		case 2: c.op("a new reference to the light of %s", NAME[op.t]); x = holder->AddInstance(FCDEntity::LIGHT); if (home) x->SetEntity(home->GetLightLibrary()->GetEntity(0)); else x->GetEntityReference()->SetUri(FUUri(fstring((plain(url(w.dir, 0, op.t, 0)) + "#" + ID[op.t]).c_str()))); break;
		case 3: c.op("release the last reference"); x->Release(); CHECK(holder->GetInstanceCount() == k - 1, "released", "%zu instances instead of %zu", holder->GetInstanceCount(), k - 1); break;
		case 4: c.op("release the first document"); d->Release(); break; case 5: c.op("look at all references, loading what is missing"); w.all("loading", true); break; case 6: c.op("export it elsewhere"); w.save(d, 1); break; case 7: c.op("release %s", NAME[op.t]); w.topOf(op.t)->Release(); break; default: c.op("load %s", NAME[op.t]); w.load(op.t); break;
		}
		if (op.o < 3) { FUUri u = x->GetEntityReference()->GetUri(); CHECK(u.GetFragment() == ID[op.t], "retarget", "the reference names '%s'", u.GetAbsoluteUri().c_str()); CHECK(x->IsExternalReference() == (op.t != 0), "external", "the reference to %s is %sexternal", NAME[op.t], op.t ? "not " : ""); }
		w.all("after", false);
		// No place holder without references.
		for (FCDocument* l : live()) for (size_t p = 0; p < l->GetExternalReferenceManager()->GetPlaceHolderCount(); ++p) { FCDPlaceHolder* h = l->GetExternalReferenceManager()->GetPlaceHolder(p); size_t uses = 0; for (const Ref& r : w.refs(l)) uses += r.i->GetEntityReference()->GetPlaceHolder() == h; CHECK(uses == h->GetExternalReferenceCount() && uses > 0, "place-holder", "a place holder counts %zu references instead of %zu", h->GetExternalReferenceCount(), uses); }
	}
	c.op("release everything"); w.end(); if (w.resolved) c.nontrivial();
}
// Documents that were made, not loaded: they get their names before or after they are referred to.
SPACE(made, 3)
{
	World w(c); FCollada::SetDereferenceFlag(false); static const int G[][3] = { { 2, 0, 0 }, { 2, 4, 0 }, { 6, 4, 0 }, { 2, 1, 0 }, { 3, 5, 0 } }; int g = c.choose(5); for (int f = 0; f < 3; ++f) w.targets[f] = G[g][f]; w.kind = c.choose(2) * 2; w.form = 0; w.make(); c.op("%s", shape(w).c_str());
	int named = c.choose(8); c.op("made; named before they are referred to: %d", named); FCDocument* d[3]; FCDSceneNode* n[3], *h[3]; auto name = [&](int f) { d[f]->SetFileUrl(fstring(path(w.dir, f).c_str())); };
	for (int f = 0; f < 3; ++f) { d[f] = FCollada::NewTopDocument(); FCDLight* l = d[f]->GetLightLibrary()->AddEntity(); l->SetDaeId(fm::string(ID[f])); FCDSceneNode* v = d[f]->AddVisualScene(); n[f] = v->AddChildNode(); n[f]->SetDaeId(fm::string(NODE[f])); n[f]->AddInstance(l); h[f] = v->AddChildNode(); h[f]->SetDaeId(fm::string("holder")); if (named >> f & 1) name(f); }
	for (int f = 0; f < 3; ++f) for (int t = 0; t < 3; ++t) if (w.targets[f] >> t & 1) { h[f]->AddInstance(d[t]->GetLightLibrary()->GetEntity(0)); if (w.kind == 2 && t != f) h[f]->AddInstance(n[t]); else if (w.kind == 2) c.prune(); }
	for (int f = 0; f < 3; ++f) if (!(named >> f & 1)) name(f); for (int f = 0; f < 3; ++f) { c.op("save %s", NAME[f]); CHECK(FCollada::SaveDocument(d[f], path(w.dir, f).c_str()), "save", "the export failed"); } w.all("made", false); steps(w, c, c.deep ? 4 : w.kind ? 2 : 3);
}
