// P12: polygon sets keep their counts, offsets, holes, inputs and index lists consistent.
#include <map>
#include <memory>
#include <algorithm>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDExtra.h"
#include "mc.h"
const char* mc::property = "P12"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of edits of the faces, holes, inputs, sources and polygon sets of small meshes up to a bound, and the clones of all the meshes reached; a case is non-trivial when counts, offsets, queries or index lists were compared with the model";
std::vector<std::string> mc::assumptions = { "the client fills in the indices of a new offset, as the documentation asks for", "low-level edits of the face-vertex counts and holes are followed by Recalculate", "offsets of inputs are not changed after their construction" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept; static FUObjectRef<FCDocument>* second;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); second = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); }, true);
namespace {
struct Rel { FUObject* o; ~Rel() { if (o) o->Release(); } };
typedef FUDaeGeometryInput::Semantic Sem;
static const Sem SEMS[] = { FUDaeGeometryInput::POSITION, FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::COLOR, FUDaeGeometryInput::UNKNOWN };
typedef vector<uint32> U;
struct MInput { int src; uint32 off; int set; FCDGeometryPolygonsInput* p; };
struct MSet { vector<U> faces; vector<MInput> in; std::map<uint32, U> lists; FCDGeometryPolygons* p; };
struct MSource { FCDGeometrySource* p; Sem sem; string id; bool alive, vertex; };
struct Mesh
{
	FCDGeometry* g; FCDGeometryMesh* m; vector<MSource> src; vector<int> vsrc; vector<MSet> sets; uint32 next = 1;
	Mesh() { g = (*kept)->GetGeometryLibrary()->AddEntity(); m = g->CreateMesh(); }
	static size_t total(const MSet& s) { size_t n = 0; for (auto& f : s.faces) for (auto d : f) n += d; return n; }
	static size_t begin(const MSet& s, size_t face) { size_t n = 0; for (size_t i = 0; i < face; ++i) for (auto d : s.faces[i]) n += d; return n; }
	static size_t degree(const U& f) { size_t n = 0; for (auto d : f) n += d; return n; }
	static size_t holes(const MSet& s) { size_t n = 0; for (auto& f : s.faces) n += f.size() - 1; return n; }
	// the client
	int addSource(Sem sem, bool vertex) { MSource s; s.p = vertex ? m->AddVertexSource(sem) : m->AddSource(sem); s.sem = sem; s.id = mc::strf("src%d", (int) src.size()); { fm::string x(s.id.c_str()); s.p->SetDaeId(x); s.id = s.p->GetDaeId().c_str(); } s.p->SetName(mc::strf("name%d", (int) src.size()).c_str()); s.alive = true; s.vertex = vertex; int k = (int) src.size(); src.push_back(s); if (vertex) { vsrc.push_back(k); for (auto& t : sets) { t.in.push_back({ k, 0, -1, t.p->GetInput(t.p->GetInputCount() - 1) }); fill(t, t.in.back()); } } return k; }
	int addSet() { MSet t; t.p = m->AddPolygons(); for (size_t i = 0; i < vsrc.size(); ++i) { t.in.push_back({ vsrc[i], 0, -1, t.p->GetInput(i) }); t.lists[0]; } sets.push_back(t); return (int) sets.size() - 1; }
	void fill(MSet& t, MInput& i, int how = 0) { bool fresh = t.lists.find(i.off) == t.lists.end(); U& l = t.lists[i.off]; if (!fresh) return; for (size_t n = total(t); n > 0; --n) l.push_back(next++); if (how == 0) i.p->SetIndices(l.data(), l.size()); else if (how == 1) for (auto x : l) i.p->AddIndex(x); else { UInt32List y; for (auto x : l) y.push_back(x); i.p->ReserveIndexCount(5); i.p->AddIndices(y); } }
	void addInput(MSet& t, int s, uint32 off, int how) { FCDGeometryPolygonsInput* p = t.p->AddInput(src[s].p, off); int set = (int) t.in.size(); p->SetSet(set); t.in.push_back({ s, off, set, p }); fill(t, t.in.back(), how); }
	void addFace(mc::Ctx& c, MSet& t, uint32 d) { size_t before = total(t); t.p->AddFace(d); t.faces.push_back(U{ d }); for (auto& l : t.lists) { uint32* x = NULL; for (auto& i : t.in) if (i.off == l.first) { CHECK(i.p->GetIndexCount() == before + d, "face:indices", "the list at offset %d has %d indices, should have %d", (int) l.first, (int) i.p->GetIndexCount(), (int) (before + d)); x = i.p->GetIndices(); } for (uint32 k = 0; k < d && x; ++k) { CHECK(x[before + k] == 0, "face:zero", "a new index is %u", x[before + k]); l.second.push_back(x[before + k] = next++); } } }
	// a face with holes, through the low-level functions
	void addLow(MSet& t, const U& f, bool holeFirst) { for (size_t k = 0; k < f.size(); ++k) { if (k && holeFirst) t.p->AddHole((uint32) t.p->GetFaceVertexCountCount()); t.p->AddFaceVertexCount(f[k]); if (k && !holeFirst) t.p->AddHole((uint32) t.p->GetFaceVertexCountCount() - 1); } size_t n = degree(f); t.faces.push_back(f); for (auto& l : t.lists) { MInput* last = NULL; for (auto& i : t.in) if (i.off == l.first) last = &i; for (size_t k = 0; k < n; ++k) { l.second.push_back(next); last->p->AddIndex(next++); } } m->Recalculate(); }
	void removeFace(MSet& t, size_t f) { size_t b = begin(t, f), n = degree(t.faces[f]); t.p->RemoveFace(f); for (auto& l : t.lists) l.second.erase(l.second.begin() + b, l.second.begin() + b + n); t.faces.erase(t.faces.begin() + f); }
	void tidy(MSet& t) { for (auto l = t.lists.begin(); l != t.lists.end();) { bool used = false; for (auto& i : t.in) used = used || i.off == l->first; if (used) ++l; else l = t.lists.erase(l); } }
	void releaseInput(MSet& t, size_t i) { t.in[i].p->Release(); t.in.erase(t.in.begin() + i); tidy(t); }
	void releaseSource(int s) { src[s].p->Release(); src[s].alive = false; for (auto& t : sets) for (auto& i : t.in) if (i.src == s) i.src = -1; for (size_t i = 0; i < vsrc.size(); ++i) if (vsrc[i] == s) { vsrc.erase(vsrc.begin() + i); break; } }
};
static void compareSet(mc::Ctx& c, const Mesh& M, const MSet& t, const char* who, const FCDGeometryPolygons* p, const vector<const FCDGeometrySource*>& src, bool identity, size_t fo, size_t fvo, size_t ho)
{
	auto key = [&](const char* k) { return mc::strf("%s:%s", who, k); }; FCDGeometryPolygons* q = const_cast<FCDGeometryPolygons*>(p);
	size_t nh = Mesh::holes(t), n = Mesh::total(t); CHECK(p->GetFaceCount() == t.faces.size(), key("face-count"), "%d faces, should be %d", (int) p->GetFaceCount(), (int) t.faces.size()); CHECK(p->GetHoleCount() == nh && p->GetHoleFaceCount() == nh, key("hole-count"), "%d holes, should be %d", (int) p->GetHoleCount(), (int) nh); CHECK(p->GetFaceVertexCount() == n, key("face-vertex-count"), "%d face-vertices, should be %d", (int) p->GetFaceVertexCount(), (int) n);
	CHECK(p->GetFaceOffset() == fo && p->GetFaceVertexOffset() == fvo && p->GetHoleOffset() == ho, key("set-offsets"), "faces %d, face-vertices %d, holes %d before the set; should be %d, %d, %d", (int) p->GetFaceOffset(), (int) p->GetFaceVertexOffset(), (int) p->GetHoleOffset(), (int) fo, (int) fvo, (int) ho);
	U all, hf; for (auto& f : t.faces) for (size_t k = 0; k < f.size(); ++k) { if (k) hf.push_back((uint32) all.size()); all.push_back(f[k]); } CHECK(p->GetFaceVertexCountCount() == all.size(), key("degrees"), "%d degrees", (int) p->GetFaceVertexCountCount()); for (size_t i = 0; i < all.size(); ++i) CHECK(p->GetFaceVertexCounts()[i] == all[i], key("degrees"), "degree %d is %u, should be %u", (int) i, p->GetFaceVertexCounts()[i], all[i]);
	for (size_t i = 0; i < hf.size(); ++i) CHECK(p->GetHoleFaces()[i] == hf[i], key("hole-faces"), "hole %d is %u, should be %u", (int) i, p->GetHoleFaces()[i], hf[i]); for (size_t i = 0; i <= all.size(); ++i) { bool h = false; for (auto x : hf) h = h || x == i; CHECK(q->IsHoleFaceHole(i) == h, key("is-hole"), "entry %d", (int) i); }
	size_t off = 0, hb = 0; for (size_t f = 0; f < t.faces.size(); ++f) { size_t d = Mesh::degree(t.faces[f]); CHECK(p->GetHoleCountBefore(f) == hb, key("holes-before"), "face %d: %d, should be %d", (int) f, (int) p->GetHoleCountBefore(f), (int) hb); CHECK(p->GetHoleCount(f) == t.faces[f].size() - 1, key("holes-of-face"), "face %d: %d, should be %d", (int) f, (int) p->GetHoleCount(f), (int) t.faces[f].size() - 1); CHECK(p->GetFaceVertexCount(f) == d, key("face-degree"), "face %d: %d, should be %d", (int) f, (int) p->GetFaceVertexCount(f), (int) d); CHECK(p->GetFaceVertexOffset(f) == off, key("face-offset"), "face %d: %d, should be %d", (int) f, (int) p->GetFaceVertexOffset(f), (int) off); off += d; hb += t.faces[f].size() - 1; }
	CHECK(p->GetFaceVertexCount(t.faces.size()) == 0, key("face-degree"), "beyond the faces"); bool uniform = !all.empty(); for (auto d : all) uniform = uniform && d == all[0]; CHECK(p->TestPolyType() == (uniform ? (int32) all[0] : -1), key("poly-type"), "%d", (int) p->TestPolyType());
	CHECK(p->GetInputCount() == t.in.size(), key("inputs"), "%d inputs, should be %d", (int) p->GetInputCount(), (int) t.in.size());
	for (size_t i = 0; i < t.in.size(); ++i)
	{
		const MInput& e = t.in[i]; const FCDGeometryPolygonsInput* x = p->GetInput(i); if (identity) CHECK(x == e.p, key("inputs"), "input %d", (int) i); CHECK(x->GetOffset() == e.off && x->GetSet() == e.set, key("input"), "input %d has offset %d and set %d, should be %d and %d", (int) i, (int) x->GetOffset(), (int) x->GetSet(), (int) e.off, e.set);
		CHECK(x->GetSource() == (e.src < 0 ? NULL : src[e.src]), key("input-source"), "input %d", (int) i); if (e.src >= 0) CHECK(x->GetSemantic() == M.src[e.src].sem, key("input-semantic"), "input %d", (int) i);
		const U& l = t.lists.at(e.off); CHECK(x->GetIndexCount() == l.size() && l.size() == n, key("index-count"), "input %d sees %d indices, should see %d", (int) i, (int) x->GetIndexCount(), (int) l.size()); for (size_t k = 0; k < l.size(); ++k) CHECK(x->GetIndices()[k] == l[k], key("indices"), "index %d of input %d is %u, should be %u", (int) k, (int) i, x->GetIndices()[k], l[k]);
		int owners = 0; for (size_t j = 0; j < t.in.size(); ++j) if (t.in[j].off == e.off) { owners += p->GetInput(j)->OwnsIndices(); CHECK(n == 0 || p->GetInput(j)->GetIndices() == x->GetIndices(), key("sharing"), "inputs %d and %d", (int) i, (int) j); } CHECK(owners == (n > 0), key("owners"), "%d owners at offset %d", owners, (int) e.off);
	}
	for (Sem s : SEMS) { FCDGeometryPolygonsInputConstList l; p->FindInputs(s, l); size_t k = 0; for (size_t i = 0; i < t.in.size(); ++i) if (t.in[i].src >= 0 && M.src[t.in[i].src].sem == s) { if (k == 0) CHECK(p->FindInput(s) == p->GetInput(i), key("find-semantic"), "%d", (int) s); CHECK(k < l.size() && l[k] == p->GetInput(i), key("find-all"), "%d", (int) s); ++k; } CHECK(l.size() == k, key("find-all"), "%d inputs of semantic %d, should be %d", (int) l.size(), (int) s, (int) k); if (k == 0) CHECK(p->FindInput(s) == NULL, key("find-semantic"), "%d", (int) s); }
	for (size_t s = 0; s < M.src.size(); ++s) { int want = -1; for (size_t i = 0; i < t.in.size() && want < 0; ++i) if (t.in[i].src == (int) s) want = (int) i; if (src[s]) CHECK(p->FindInput(src[s]) == (want < 0 ? NULL : p->GetInput(want)), key("find-source"), "source %d", (int) s); string id = src[s] ? src[s]->GetDaeId().c_str() : M.src[s].id; for (int h = 0; h < 2; ++h) CHECK(q->FindInput(string(h ? "#" : "") .append(id).c_str()) == (want < 0 ? NULL : p->GetInput(want)), key("find-id"), "source %d", (int) s); } CHECK(q->FindInput(fm::string("absent")) == NULL, key("find-id"), ".");
}
static void compareMesh(mc::Ctx& c, const Mesh& M, const char* who = "mesh", const FCDGeometryMesh* m = NULL, bool identity = true)
{
	if (!m) m = M.m; size_t fo = 0, fvo = 0, ho = 0; auto key = [&](const char* k) { return mc::strf("%s:%s", who, k); }; CHECK(m->GetPolygonsCount() == M.sets.size(), key("sets"), "%d polygon sets, should be %d", (int) m->GetPolygonsCount(), (int) M.sets.size()); bool tri = true;
	vector<const FCDGeometrySource*> src(M.src.size(), (const FCDGeometrySource*) NULL); vector<int> live; for (size_t s = 0; s < M.src.size(); ++s) if (M.src[s].alive) live.push_back((int) s); CHECK(m->GetSourceCount() == live.size(), key("sources"), "%d sources, should be %d", (int) m->GetSourceCount(), (int) live.size()); for (size_t i = 0; i < live.size(); ++i) { const FCDGeometrySource* p = m->GetSource(i); const MSource& e = M.src[live[i]]; src[live[i]] = p; if (identity) CHECK(p == e.p, key("sources"), "source %d", (int) i); else CHECK(p != e.p && (m->GetDocument() == M.m->GetDocument()) == (e.id != p->GetDaeId().c_str()) && p->GetType() == e.sem && p->GetName() == e.p->GetName() && p->GetStride() == e.p->GetStride() && p->GetDataCount() == e.p->GetDataCount(), key("sources"), "source %d", (int) i); bool v = false; for (int x : M.vsrc) v = v || x == live[i]; CHECK(m->IsVertexSource(p) == v, key("vertex-source"), "source %d", (int) i); }
	for (size_t i = 0; i < M.sets.size(); ++i) { const MSet& t = M.sets[i]; if (identity) CHECK(m->GetPolygons(i) == t.p, key("sets"), "set %d", (int) i); CHECK(m->GetPolygons(i)->GetParent() == m, key("parent"), "set %d", (int) i); compareSet(c, M, t, who, m->GetPolygons(i), src, identity, fo, fvo, ho); fo += t.faces.size(); fvo += Mesh::total(t); ho += Mesh::holes(t); tri = tri && !t.faces.empty(); for (auto& f : t.faces) for (auto d : f) tri = tri && d == 3; }
	CHECK(m->GetFaceCount() == fo && m->GetFaceVertexCount() == fvo && m->GetHoleCount() == ho, key("totals"), "%d faces, %d face-vertices and %d holes, should be %d, %d and %d", (int) m->GetFaceCount(), (int) m->GetFaceVertexCount(), (int) m->GetHoleCount(), (int) fo, (int) fvo, (int) ho); CHECK(m->IsTriangles() == tri, key("is-triangles"), ".");
	CHECK(m->GetVertexSourceCount() == M.vsrc.size(), key("vertex-sources"), "%d, should be %d", (int) m->GetVertexSourceCount(), (int) M.vsrc.size()); for (size_t i = 0; i < M.vsrc.size(); ++i) CHECK(m->GetVertexSource(i) == src[M.vsrc[i]], key("vertex-sources"), "vertex source %d", (int) i);
	for (size_t s = 0; s < M.src.size(); ++s) { const FCDGeometrySource* want = NULL; for (size_t i = 0; i < live.size(); ++i) if (live[i] == (int) s) want = m->GetSource(i); string id = want ? want->GetDaeId().c_str() : M.src[s].id; CHECK(m->FindSourceById(id.c_str()) == want && m->FindSourceById(("#" + id).c_str()) == want && m->FindSourceByName(mc::strf("name%d", (int) s).c_str()) == want, key("find-source"), "source %d", (int) s); } for (Sem s : SEMS) { vector<size_t> want; for (size_t i = 0; i < live.size(); ++i) if (M.src[live[i]].sem == s) want.push_back(i); FCDGeometrySourceConstList l; m->FindSourcesByType(s, l); CHECK(l.size() == want.size() && m->FindSourceByType(s) == (want.empty() ? NULL : m->GetSource(want[0])), key("find-type"), "semantic %d", (int) s); for (size_t i = 0; i < want.size(); ++i) CHECK(l[i] == m->GetSource(want[i]), key("find-type"), "semantic %d", (int) s); }
	CHECK(m->GetPositionSource() == m->FindSourceByType(FUDaeGeometryInput::POSITION), key("find-type"), "positions");
}
static string sig(const Mesh& M) { string s; for (auto& t : M.sets) { s += '/'; for (auto& f : t.faces) { for (auto d : f) s += (char) ('0' + d); s += ','; } for (auto& i : t.in) s += mc::strf("i%d.%d", i.src, (int) i.off); } for (int v : M.vsrc) s += mc::strf("v%d", v); for (auto& x : M.src) s += x.alive ? 'a' : 'd'; return s; }
static const vector<U> SHAPES = { { 3 }, { 4 }, { 4, 3 }, { 3, 3, 4 }, { 1 } };
}
// ---------------------------------------------------------------- faces and holes of one set
SPACE(faces, 4)
{
	Mesh M; Rel rel{ M.g }; M.addSource(SEMS[0], true); M.addSource(SEMS[1], false); M.addSource(SEMS[2], false); M.addSet(); MSet& t = M.sets[0]; int layout = c.choose(4); if (layout > 0) M.addInput(t, 1, layout == 3 ? 0 : 1, 0); if (layout > 1) M.addInput(t, 2, layout == 2 ? 2 : 1, 0);
	int steps = c.range(1, c.deep ? 6 : 5); c.op("layout %d", layout); compareMesh(c, M);
	for (int s = 0; s < steps; ++s) { int k = c.choose(3 + 2 * (int) (t.faces.size() > 0) + (int) (t.faces.size() > 1)); switch (k) { case 0: c.op("add a face"); M.addFace(c, t, 3 + (uint32) (s & 1)); break; case 1: c.op("add a face with a hole"); M.addLow(t, SHAPES[2], (s & 1) != 0); break; case 2: c.op("add a face with two holes"); M.addLow(t, SHAPES[3], (s & 1) == 0); break; case 3: c.op("remove the first face"); M.removeFace(t, 0); break; case 4: c.op("remove the last face"); M.removeFace(t, t.faces.size() - 1); break; default: { size_t f = t.faces.size() / 2; c.op("remove face %d", (int) f); M.removeFace(t, f); break; } } compareMesh(c, M); }
	c.state(sig(M)); c.checkAsserts("the edits"); c.nontrivial();
}
// ---------------------------------------------------------------- hole lists given in any order
SPACE(holes, 2)
{
	Mesh M; Rel rel{ M.g }; M.addSource(SEMS[0], true); M.addSet(); MSet& t = M.sets[0]; int n = c.range(1, c.deep ? 6 : 5); U deg; vector<int> hole; for (int i = 0; i < n; ++i) { deg.push_back((uint32) (1 + i)); hole.push_back(i ? c.choose(2) : 0); if (hole[i]) t.faces.back().push_back(deg[i]); else t.faces.push_back(U{ deg[i] }); t.p->AddFaceVertexCount(deg[i]); }
	vector<uint32> order; for (int i = 0; i < n; ++i) if (hole[i]) order.push_back((uint32) i); while (!order.empty()) { int k = c.choose((int) order.size()); c.op("hole %u", order[k]); t.p->AddHole(order[k]); order.erase(order.begin() + k); } for (size_t i = 0; i < Mesh::total(t); ++i) { t.lists[0].push_back(M.next); t.in[0].p->AddIndex(M.next++); } M.m->Recalculate(); compareMesh(c, M, "holes");
	while (!t.faces.empty() && !c.flag()) { int f = c.choose((int) t.faces.size()); c.op("remove face %d", f); M.removeFace(t, (size_t) f); compareMesh(c, M, "holes"); }
	c.state(sig(M)); c.checkAsserts("the holes"); c.nontrivial();
}
// ---------------------------------------------------------------- inputs and sources
SPACE(inputs, 4)
{
	Mesh M; Rel rel{ M.g }; M.addSource(SEMS[0], c.flag()); M.addSource(SEMS[1], false); M.addSource(SEMS[2], false); M.addSet(); M.addFace(c, M.sets[0], 3); M.addLow(M.sets[0], SHAPES[2], false); int how = 0; int steps = c.range(1, c.deep ? 6 : 5);
	for (int s = 0; s < steps; ++s)
	{
		MSet& t = M.sets[0]; switch (c.choose(6))
		{
		case 0: { int x = c.choose(3); uint32 off = (uint32) c.choose(2); if (!M.src[x].alive) c.prune(); c.op("input of source %d at %u", x, off); M.addInput(t, x, off, how++ % 3); break; }
		case 1: { if (t.in.empty()) c.prune(); int i = c.choose((int) (t.in.size() < 3 ? t.in.size() : 3)); c.op("release input %d", i); M.releaseInput(t, (size_t) i); break; }
		case 2: { int x = c.choose(3); if (!M.src[x].alive) c.prune(); c.op("release source %d", x); M.releaseSource(x); break; }
		case 3: { if (M.src.size() > 4) c.prune(); c.op("new vertex source"); M.addSource(M.src.size() == 3 ? SEMS[1] : SEMS[3], true); break; }
		case 4: c.op("add a face"); M.addFace(c, t, 4); break;
		default: if (t.faces.empty()) c.prune(); c.op("remove the first face"); M.removeFace(t, 0); break;
		}
		compareMesh(c, M);
	}
	c.state(sig(M)); c.checkAsserts("the edits"); c.nontrivial();
}
// ---------------------------------------------------------------- sources that become per-vertex, or stop to be
SPACE(vertexsources, 4)
{
	Mesh M; Rel rel{ M.g }; M.addSource(SEMS[0], true); M.addSource(SEMS[1], false); M.addSource(SEMS[2], false); int ns = c.range(1, 2); for (int k = 0; k < ns; ++k) { M.addSet(); if (c.flag()) M.addFace(c, M.sets[k], 3); else M.addLow(M.sets[k], SHAPES[2], false); int n = c.choose(4); for (int i = 0; i < n; ++i) M.addInput(M.sets[k], 1 + (i + k) % 2, i == 2 ? 0 : (uint32) (1 + i), i % 3); if (n == 3) M.addInput(M.sets[k], 1, 2, 0); }
	int steps = c.range(1, 3); for (int s = 0; s < steps; ++s)
	{
		int x = c.choose(3); bool v = false; for (int y : M.vsrc) v = v || x == y; if (v) { c.op("source %d: per face-vertex", x); M.m->RemoveVertexSource(M.src[x].p); for (size_t i = 0; i < M.vsrc.size(); ++i) if (M.vsrc[i] == x) { M.vsrc.erase(M.vsrc.begin() + i); break; } }
		else { c.op("source %d: per vertex", x); M.m->AddVertexSource(M.src[x].p); M.vsrc.push_back(x);
			for (auto& t : M.sets) // every set has the source, at offset 0 only, with the same sets of texture coordinates; what is left of the others is unchanged
			{
				vector<int> sets, now; vector<MInput> rest, seen; for (auto& i : t.in) if (i.src == x) sets.push_back(i.set); else rest.push_back(i); if (sets.empty()) sets.push_back(-1); for (size_t i = 0; i < t.p->GetInputCount(); ++i) { FCDGeometryPolygonsInput* p = t.p->GetInput(i); if (p->GetSource() == M.src[x].p) { CHECK(p->GetOffset() == 0, "vertex-source:offset", "an input of the source is at offset %d", (int) p->GetOffset()); now.push_back(p->GetSet()); seen.push_back({ x, 0, p->GetSet(), p }); } else { CHECK(!rest.empty() && rest[0].p == p, "vertex-source:others", "input %d", (int) i); seen.push_back(rest[0]); rest.erase(rest.begin()); } } CHECK(rest.empty(), "vertex-source:others", "inputs are missing"); std::sort(sets.begin(), sets.end()); std::sort(now.begin(), now.end()); CHECK(sets == now, "vertex-source:sets", "%d inputs, should be %d", (int) now.size(), (int) sets.size()); t.in = seen; M.tidy(t); if (t.lists.find(0) == t.lists.end()) { MInput* z = NULL; for (auto& i : t.in) if (i.off == 0) z = &i; M.fill(t, *z); }
			} }
		compareMesh(c, M);
	}
	c.state(sig(M)); c.checkAsserts("the edits"); c.nontrivial();
}
// ---------------------------------------------------------------- several sets
SPACE(sets, 4)
{
	Mesh M; Rel rel{ M.g }; M.addSource(SEMS[0], true); int steps = c.range(1, c.deep ? 7 : 6); for (int s = 0; s < steps; ++s)
	{
		int k = c.choose(6); if (k > 0 && M.sets.empty()) c.prune(); switch (k)
		{
		case 0: if (M.sets.size() > 2) c.prune(); c.op("new set"); M.addSet(); break;
		case 1: { int i = c.choose((int) M.sets.size()); c.op("face of set %d", i); M.addFace(c, M.sets[i], 3); break; }
		case 2: { int i = c.choose((int) M.sets.size()); c.op("face with a hole of set %d", i); M.addLow(M.sets[i], SHAPES[2], false); break; }
		case 3: { int i = c.choose((int) M.sets.size()); if (M.sets[i].faces.empty()) c.prune(); c.op("remove a face of set %d", i); M.removeFace(M.sets[i], 0); break; }
		case 4: { int i = c.choose((int) M.sets.size()); c.op("release set %d", i); M.sets[i].p->Release(); M.sets.erase(M.sets.begin() + i); break; }
		default: if (M.src.size() > 1) c.prune(); c.op("new vertex source"); M.addSource(SEMS[1], true); break;
		}
		M.m->Recalculate(); compareMesh(c, M);
	}
	FCDGeometryPolygonsList l; M.m->FindPolygonsByMaterial(FS(""), l); CHECK(l.size() == M.sets.size(), "sets:material", "."); if (!M.sets.empty()) { M.sets.back().p->SetMaterialSemantic(FS("m")); l.clear(); M.m->FindPolygonsByMaterial(FS("m"), l); CHECK(l.size() == 1 && l[0] == M.sets.back().p, "sets:material", "."); }
	c.state(sig(M)); c.checkAsserts("the edits"); c.nontrivial();
}
// ---------------------------------------------------------------- clones
SPACE(clones, 4)
{
	Mesh M; Rel rel{ M.g }; bool vfirst = c.flag(); if (!vfirst) M.addSource(SEMS[1], false); M.addSource(SEMS[0], true); if (vfirst) M.addSource(SEMS[1], false); int other = vfirst ? 1 : 0; M.addSource(SEMS[2], false); M.addSource(SEMS[3], c.flag()); for (auto& s : M.src) { FloatList l; for (int i = 0; i < 6; ++i) l.push_back((float) (i + 7 * (&s - &M.src[0]))); s.p->SetData(l, 1 + (uint32) (&s - &M.src[0])); }
	int ns = c.range(0, 2); for (int k = 0; k < ns; ++k)
	{
		M.addSet(); MSet& t = M.sets[k]; int nf = k ? 1 : c.choose(4); for (int f = 0; f < nf; ++f) if (f == 1) M.addLow(t, SHAPES[3], false); else M.addFace(c, t, 3 + (uint32) (f & 1));
		switch (k ? 1 : c.choose(8)) { case 0: break; case 1: if (M.src[other].alive) M.addInput(t, other, 1, 0); M.addInput(t, 2, 2, 1); break; case 2: M.addInput(t, 2, 1, 0); M.addInput(t, 2, 2, 0); break; case 3: M.addInput(t, 2, 1, 0); M.addInput(t, 2, 1, 0); M.addInput(t, other, 0, 0); break; case 4: M.addInput(t, other, 3, 0); M.releaseInput(t, 0); M.addInput(t, 2, 3, 0); break; case 5: M.addInput(t, other, 1, 0); M.addInput(t, 2, 1, 0); M.addInput(t, 3, 2, 0); M.releaseSource(other); break; case 6: { FCDGeometryPolygonsInput* p = t.in[0].p; p->SetSet(5); t.in[0].set = 5; M.addInput(t, 2, 1, 2); break; } default: M.addInput(t, 3, 1, 0); M.addInput(t, other, 1, 0); M.releaseInput(t, t.in.size() - 2); }
		t.p->SetMaterialSemantic(mc::strf("mat%d", k).c_str()); t.p->SetPrimitiveType(k ? FCDGeometryPolygons::POLYGONS : (FCDGeometryPolygons::PrimitiveType) c.pick(vector<int>{ FCDGeometryPolygons::POLYGONS, FCDGeometryPolygons::LINES, FCDGeometryPolygons::TRIANGLE_FANS })); if (k == 0 && nf & 1) t.p->GetExtra()->GetDefaultType()->AddTechnique("T")->AddParameter("P", (int32) 4);
	}
	bool convex = c.flag(); M.m->SetConvex(convex); M.m->SetConvexify(!convex); M.m->SetConvexHullOf(fm::string("hull")); int into = c.choose(3); c.op("clone %s", into == 0 ? "in the document" : into == 1 ? "into another document" : "as a mesh alone");
	FCDGeometryMesh* q; std::unique_ptr<Rel> own; if (into == 2) { q = M.m->Clone(); own.reset(new Rel{ q }); } else { FCDGeometry* g; if (into == 1) { g = (*second)->GetGeometryLibrary()->AddEntity(); M.g->Clone(g); } else g = (FCDGeometry*) M.g->Clone(); own.reset(new Rel{ g }); q = g->GetMesh(); CHECK(q != NULL && q->GetParent() == g, "clone:mesh", "into %d", into); }
	compareMesh(c, M, "clone", q, false); compareMesh(c, M, "original"); CHECK(q->IsConvex() == convex && q->GetConvexify() == !convex && q->GetConvexHullOf() == "hull", "clone:convex", "."); for (int k = 0; k < ns; ++k) { const FCDGeometryPolygons* p = q->GetPolygons(k); MSet& t = M.sets[k]; CHECK(p->GetMaterialSemantic() == t.p->GetMaterialSemantic(), "clone:material", "."); CHECK(p->GetPrimitiveType() == t.p->GetPrimitiveType(), "clone:primitive", "set %d: %d", k, (int) p->GetPrimitiveType()); bool x = k == 0 && t.faces.size() & 1; FCDETechnique* te = const_cast<FCDGeometryPolygons*>(p)->GetExtra()->GetDefaultType()->FindTechnique("T"); CHECK((te != NULL && te->FindParameter("P") != NULL) == x, "clone:extra", "set %d", k); for (size_t i = 0; i < p->GetInputCount(); ++i) { const FCDGeometrySource* s = p->GetInput(i)->GetSource(); bool inside = s == NULL; for (size_t j = 0; j < q->GetSourceCount(); ++j) inside = inside || q->GetSource(j) == s; CHECK(inside, "clone:source", "input %d", (int) i); } }
	for (size_t i = 0, j = 0; i < M.src.size(); ++i) if (M.src[i].alive) { FCDGeometrySource* a = M.src[i].p; FCDGeometrySource* b = q->GetSource(j++); for (size_t k = 0; k < a->GetDataCount(); ++k) CHECK(a->GetData()[k] == b->GetData()[k], "clone:data", "."); }
	switch (c.choose(3)) { case 0: c.op("change the clone"); for (size_t k = 0; k < q->GetPolygonsCount(); ++k) { q->GetPolygons(k)->AddFace(5); q->GetPolygons(k)->RemoveFace(0); } if (q->GetSourceCount()) q->GetSource(0)->Release(); compareMesh(c, M, "original"); break; case 1: c.op("release the clone"); own.reset(); compareMesh(c, M, "original"); break; default: { c.op("change the original"); Mesh N = M; for (auto& t : M.sets) { M.addFace(c, t, 4); if (t.faces.size() > 1) M.removeFace(t, 0); } compareMesh(c, N, "clone", q, false); compareMesh(c, M, "original"); break; } }
	c.state(sig(M)); c.checkAsserts("the clone"); c.nontrivial();
}
// ---------------------------------------------------------------- the data of a source
SPACE(sources, 3)
{
	FCDGeometrySource* s = new FCDGeometrySource(*kept); Rel rel{ s }; vector<float> m; uint32 stride = 0; float next = 1; int steps = c.range(1, c.deep ? 4 : 3); for (int k = 0; k < steps; ++k)
	{
		switch (c.choose(5))
		{
		case 0: stride = (uint32) c.range(1, 3); c.op("stride %u", stride); s->SetStride(stride); break;
		case 1: { size_t n = (size_t) c.choose(6); c.op("%d data", (int) n); s->SetDataCount(n); size_t old = m.size(); m.resize(n); for (size_t i = old; i < n; ++i) s->GetData()[i] = m[i] = next += 1; break; }
		case 2: { if (!stride) c.prune(); size_t n = (size_t) c.choose(3); c.op("%d values", (int) n); s->SetValueCount(n); size_t old = m.size(); m.resize(n * stride); for (size_t i = old; i < m.size(); ++i) s->GetData()[i] = m[i] = next += 1; break; }
		case 3: { if (!stride || m.size() < stride) c.prune(); size_t i = (size_t) c.choose((int) (m.size() / stride)); c.op("value %d", (int) i); float v[3]; for (uint32 j = 0; j < stride; ++j) m[i * stride + j] = v[j] = next += 1; s->SetValue(i, v); break; }
		default: { FloatList l; int n = c.choose(4); for (int i = 0; i < n; ++i) l.push_back(next += 1); size_t off = (size_t) c.choose(3), cnt = (size_t) c.choose(3); stride = 1 + (uint32) (n & 1); c.op("data %d from %d, %d", n, (int) off, (int) cnt); s->SetData(l, stride, off, cnt); m.clear(); for (size_t i = off; i < l.size() && (cnt == 0 || i < off + cnt); ++i) m.push_back(l[i]); break; }
		}
		CHECK(s->GetDataCount() == m.size() && s->GetStride() == stride, "source:count", "%d data of stride %u, should be %d of %u", (int) s->GetDataCount(), s->GetStride(), (int) m.size(), stride); CHECK((s->GetData() == NULL) == m.empty() && (m.empty() || *s->GetDataPtr() == s->GetData()), "source:data", "."); size_t values = stride ? m.size() / stride : 0; CHECK(s->GetValueCount() == values && s->GetValueReserved() >= values, "source:values", "%d, should be %d", (int) s->GetValueCount(), (int) values); for (size_t i = 0; i < m.size(); ++i) CHECK(s->GetData()[i] == m[i], "source:data", "%d is %g, should be %g", (int) i, s->GetData()[i], m[i]); for (size_t i = 0; i < values; ++i) CHECK(s->GetValue(i) == s->GetData() + i * stride, "source:value", ".");
		FCDGeometrySource* q = s->Clone(NULL); Rel r2{ q }; CHECK(q->GetDataCount() == m.size() && q->GetStride() == stride && q->GetData() != (m.empty() ? (float*) 1 : s->GetData()), "source:clone", "."); for (size_t i = 0; i < m.size(); ++i) CHECK(q->GetData()[i] == m[i], "source:clone", ".");
	}
	c.state((int) m.size() * 4 + (int) stride); c.checkAsserts("the edits"); c.nontrivial();
}
