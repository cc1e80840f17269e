// P13: the mesh tools preserve the geometry they process.
#include <map>
#include <set>
#include <cmath>
#include <memory>
#include <algorithm>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FMath/FMColor.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
#include "FCDocument/FCDGeometrySource.h"
#include "mc.h"
const char* mc::property = "P13"; const char* mc::level = "model_checking";
const char* mc::rule = "every small mesh of the bounded shapes, with every pattern of shared indices, processed by every tool; a case is non-trivial when face-corners, triangles or maps were compared";
std::vector<std::string> mc::assumptions = { "indices are within their sources, and all index lists of a polygon set have one index per face-vertex", "triangulation drops holes, points and lines, as its comments state", "the direction of the texture tangents is taken as the library has it", "polygon sets of points are left alone by the tools for indices" };
using std::string; using std::vector; namespace T = FCDGeometryPolygonsTools;
static FUObjectRef<FCDocument>* kept; static FCDAnimation* anim;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); anim = (*kept)->GetAnimationLibrary()->AddEntity(); }, true);
namespace {
struct Rel { FUObject* o; ~Rel() { if (o) o->Release(); } };
namespace I = FUDaeGeometryInput; typedef I::Semantic Sem; typedef FCDGeometryPolygons Poly; typedef vector<uint32> U; typedef vector<float> F;
static const Sem SEMS[] = { I::POSITION, I::NORMAL, I::TEXCOORD, I::TEXCOORD, I::COLOR, I::TEXTANGENT, I::TEXBINORMAL, I::GEOTANGENT };
static const uint32 STRIDES[] = { 3, 3, 2, 3, 4, 3, 3, 3 };
struct In { int src; uint32 off; };
// what the inputs of a set are; the first layouts are the common ones
static const vector<vector<In>> LAYOUTS = { { { 0, 0 } }, { { 0, 0 }, { 1, 1 } }, { { 0, 0 }, { 1, 0 }, { 2, 1 } }, { { 1, 0 }, { 0, 1 } }, { { 0, 0 }, { 1, 1 }, { 2, 2 }, { 3, 2 } }, { { 0, 0 }, { 2, 1 }, { 3, 3 } }, { { 1, 0 }, { 2, 0 }, { 0, 0 } }, { { 0, 0 }, { 2, 1 }, { 2, 2 } } };
struct Mesh
{
	FCDGeometry* g; FCDGeometryMesh* m; vector<FCDGeometrySource*> s; uint32 values;
	Mesh(uint32 _values, int sources, bool vertex) : values(_values) { g = (*kept)->GetGeometryLibrary()->AddEntity(); m = g->CreateMesh(); for (int k = 0; k < sources; ++k) { FCDGeometrySource* x = k == 0 && vertex ? m->AddVertexSource(SEMS[k]) : m->AddSource(SEMS[k]); FloatList l; for (uint32 i = 0; i < values * STRIDES[k]; ++i) l.push_back((float) (k * 1000) + (float) i * 0.5f); x->SetData(l, STRIDES[k]); s.push_back(x); } }
	Poly* set(const vector<In>& layout, const U& degrees, const U& holes, int type = Poly::POLYGONS)
	{
		Poly* p = m->AddPolygons(); while (p->GetInputCount()) p->GetInput(0)->Release(); int n = 0; for (auto& i : layout) { FCDGeometryPolygonsInput* x = p->AddInput(s[i.src], i.off); x->SetSet(n++); } for (auto d : degrees) p->AddFaceVertexCount(d); for (auto h : holes) p->AddHole(h); p->SetPrimitiveType((Poly::PrimitiveType) type); p->SetMaterialSemantic(mc::strf("mat%d", (int) m->GetPolygonsCount()).c_str()); return p;
	}
	static vector<uint32> offsets(Poly* p) { std::set<uint32> o; for (size_t i = 0; i < p->GetInputCount(); ++i) o.insert(p->GetInput(i)->GetOffset()); return vector<uint32>(o.begin(), o.end()); }
	static FCDGeometryPolygonsInput* at(Poly* p, uint32 off) { for (size_t i = 0; i < p->GetInputCount(); ++i) if (p->GetInput(i)->GetOffset() == off) return p->GetInput(i); return NULL; }
	// running indices: every corner has its own values, as long as the sources have them
	void fill(Poly* p, uint32 start = 0) { size_t n = 0; for (size_t i = 0; i < p->GetFaceVertexCountCount(); ++i) n += p->GetFaceVertexCounts()[i]; for (auto o : offsets(p)) { U l; for (uint32 i = 0; i < n; ++i) l.push_back((start + i * (o + 1) + o) % values); at(p, o)->SetIndices(l.data(), l.size()); } m->Recalculate(); }
};
// one corner: for each input, in the order of its set number, the data that its index reaches
struct Corner { std::map<std::pair<int, int>, F> v; bool operator==(const Corner& o) const { return v == o.v; } };
typedef vector<vector<Corner>> Face; // the loops of a face
struct Set { int type; string mat; vector<Face> faces; };
static void corners(mc::Ctx& c, const char* who, const FCDGeometryPolygons* p, vector<Corner>& r) { size_t n = 0; for (size_t i = 0; i < p->GetFaceVertexCountCount(); ++i) n += p->GetFaceVertexCounts()[i]; CHECK(p->GetFaceVertexCount() == n, mc::strf("%s:count", who), "%d face-vertices, should be %d", (int) p->GetFaceVertexCount(), (int) n); r.resize(n); for (size_t i = 0; i < p->GetInputCount(); ++i) { const FCDGeometryPolygonsInput* x = p->GetInput(i); const FCDGeometrySource* s = x->GetSource(); if (x->GetSet() < 0) continue; CHECK(x->GetIndexCount() == n, mc::strf("%s:indices", who), "input %d has %d indices for %d face-vertices", (int) i, (int) x->GetIndexCount(), (int) n); for (size_t k = 0; k < n; ++k) { uint32 j = x->GetIndices()[k]; CHECK(j < s->GetValueCount(), mc::strf("%s:index", who), "index %u of input %d is beyond the %d values", j, (int) i, (int) s->GetValueCount()); r[k].v[{ (int) s->GetType(), x->GetSet() }] = F(s->GetData() + j * s->GetStride(), s->GetData() + (j + 1) * s->GetStride()); } } }
static Set snap(mc::Ctx& c, const char* who, const FCDGeometryPolygons* cp) { FCDGeometryPolygons* p = const_cast<FCDGeometryPolygons*>(cp); Set s; s.type = (int) p->GetPrimitiveType(); s.mat = mc::strf("%s", p->GetMaterialSemantic().c_str()); vector<Corner> l; corners(c, who, p, l); size_t at = 0; for (size_t i = 0; i < p->GetFaceVertexCountCount(); ++i) { size_t d = p->GetFaceVertexCounts()[i]; if (!p->IsHoleFaceHole(i)) s.faces.push_back(Face()); CHECK(!s.faces.empty(), mc::strf("%s:hole", who), "a hole without a face"); s.faces.back().push_back(vector<Corner>(l.begin() + at, l.begin() + at + d)); at += d; } CHECK(p->GetFaceCount() == s.faces.size(), mc::strf("%s:faces", who), "%d faces, should be %d", (int) p->GetFaceCount(), (int) s.faces.size()); return s; }
static void totals(mc::Ctx& c, const char* who, const FCDGeometryMesh* m) { size_t f = 0, v = 0, h = 0; for (size_t i = 0; i < m->GetPolygonsCount(); ++i) { const Poly* p = m->GetPolygons(i); CHECK(p->GetFaceOffset() == f && p->GetFaceVertexOffset() == v && p->GetHoleOffset() == h, mc::strf("%s:offsets", who), "set %d", (int) i); f += p->GetFaceCount(); v += p->GetFaceVertexCount(); h += p->GetHoleCount(); } CHECK(m->GetFaceCount() == f && m->GetFaceVertexCount() == v && m->GetHoleCount() == h, mc::strf("%s:totals", who), "%d faces, %d face-vertices, %d holes; should be %d, %d, %d", (int) m->GetFaceCount(), (int) m->GetFaceVertexCount(), (int) m->GetHoleCount(), (int) f, (int) v, (int) h); }
static vector<Set> snap(mc::Ctx& c, const char* who, const FCDGeometryMesh* m) { vector<Set> r; for (size_t i = 0; i < m->GetPolygonsCount(); ++i) r.push_back(snap(c, who, m->GetPolygons(i))); return r; }
static void same(mc::Ctx& c, const char* who, const Set& a, const Set& b) { CHECK(a.type == b.type, mc::strf("%s:type", who), "%d, was %d", b.type, a.type); CHECK(a.mat == b.mat, mc::strf("%s:material", who), "%s, was %s", b.mat.c_str(), a.mat.c_str()); CHECK(a.faces.size() == b.faces.size(), mc::strf("%s:face-count", who), "%d faces, were %d", (int) b.faces.size(), (int) a.faces.size()); for (size_t i = 0; i < a.faces.size(); ++i) { CHECK(a.faces[i].size() == b.faces[i].size(), mc::strf("%s:holes", who), "face %d", (int) i); for (size_t k = 0; k < a.faces[i].size(); ++k) { CHECK(a.faces[i][k].size() == b.faces[i][k].size(), mc::strf("%s:degree", who), "face %d", (int) i); for (size_t j = 0; j < a.faces[i][k].size(); ++j) for (auto& e : a.faces[i][k][j].v) { auto f = b.faces[i][k][j].v.find(e.first); CHECK(f != b.faces[i][k][j].v.end(), mc::strf("%s:input", who), "input %d of semantic %d is missing", e.first.second, e.first.first); CHECK(f->second == e.second, mc::strf("%s:data", who), "face %d, corner %d, input %d: begins with %g, should begin with %g", (int) i, (int) j, e.first.second, f->second.empty() ? -1 : f->second[0], e.second[0]); } } } }
// degrees and holes: a hole is a negative degree
static const vector<vector<int>> SHAPES = { { 3 }, { 4, 3 }, { 3, 4, 5 }, { 6 }, { 5, -3 }, { 4, -3, 3 }, { 4, -3, -4, 3, 5, -3 }, { 2, 3 }, { 1 }, { 3, 2, 4 }, { 2 }, {}, { 3, 3, 3, 3 }, { 7, 3 } };
static void split(const vector<int>& v, U& d, U& h) { for (size_t i = 0; i < v.size(); ++i) { d.push_back((uint32) std::abs(v[i])); if (v[i] < 0) h.push_back((uint32) i); } }
}
// ---------------------------------------------------------------- triangulation
SPACE(triangulate, 3)
{
	const auto& layout = c.pick(LAYOUTS); Mesh M(40, 8, c.flag()); Rel rel{ M.g }; int ns = c.range(1, 2); vector<int> kinds; for (int k = 0; k < ns; ++k) { U d, h; split(c.pick(SHAPES), d, h); static const vector<int> TYPES = { Poly::POLYGONS, Poly::TRIANGLE_FANS, Poly::TRIANGLE_STRIPS, Poly::LINES, Poly::LINE_STRIPS, Poly::POINTS }; int type = k ? c.pick(vector<int>{ Poly::POLYGONS, Poly::LINES }) : c.pick(TYPES); if (type != Poly::POLYGONS && !h.empty()) c.prune(); M.fill(M.set(layout, d, h, type), (uint32) k); kinds.push_back(type); }
	if (c.deep || M.m->GetPolygonsCount() == 1 || !c.flag()) { } bool whole = ns == 2 || c.flag(); vector<Set> before = snap(c, "before", M.m); c.op("triangulate"); if (whole) T::Triangulate(M.m); else T::Triangulate(M.m->GetPolygons(0)); totals(c, "triangulate", M.m);
	for (int k = 0; k < ns; ++k)
	{
		Poly* p = M.m->GetPolygons(k); Set a = snap(c, "triangulate", p); const Set& b = before[k]; if (kinds[k] == Poly::LINES || kinds[k] == Poly::LINE_STRIPS || kinds[k] == Poly::POINTS) { same(c, "untouched", b, a); continue; }
		CHECK(a.type == Poly::POLYGONS && p->GetHoleCount() == 0 && a.mat == b.mat, "triangulate:type", "."); size_t t = 0; for (size_t f = 0; f < b.faces.size(); ++f)
		{
			const vector<Corner>& o = b.faces[f][0]; size_t n = o.size(); if (n < 3) continue; CHECK(a.faces.size() >= t + n - 2, "triangulate:count", "%d triangles, should be at least %d", (int) a.faces.size(), (int) (t + n - 2)); std::map<std::pair<int, int>, int> edges; for (size_t x = 0; x < n - 2; ++x)
			{
				CHECK(a.faces[t + x].size() == 1 && a.faces[t + x][0].size() == 3, "triangulate:degree", "triangle %d", (int) (t + x)); int id[3]; for (int q = 0; q < 3; ++q) { id[q] = -1; for (size_t z = 0; z < n; ++z) if (a.faces[t + x][0][q] == o[z]) id[q] = (int) z; CHECK(id[q] >= 0, "triangulate:corner", "corner %d of triangle %d is not one of face %d", q, (int) (t + x), (int) f); }
				if (kinds[k] == Poly::POLYGONS) { CHECK((id[0] < id[1]) + (id[1] < id[2]) + (id[2] < id[0]) == 2, "triangulate:winding", "%d %d %d of face %d", id[0], id[1], id[2], (int) f); for (int q = 0; q < 3; ++q) ++edges[{ id[q], id[(q + 1) % 3] }]; }
				else { int w[3] = { (int) x, (int) x + 1, (int) x + 2 }; if (kinds[k] == Poly::TRIANGLE_FANS) w[0] = 0; else if (x & 1) std::swap(w[1], w[2]); int rot = -1; for (int q = 0; q < 3; ++q) if (id[q] == w[0] && id[(q + 1) % 3] == w[1] && id[(q + 2) % 3] == w[2]) rot = q; CHECK(rot >= 0, "triangulate:strip", "triangle %d is %d %d %d, should be %d %d %d", (int) x, id[0], id[1], id[2], w[0], w[1], w[2]); }
			}
			if (kinds[k] == Poly::POLYGONS) for (auto& e : edges) { bool side = (e.first.first + 1) % (int) n == e.first.second; CHECK(e.second == 1, "triangulate:cover", "edge %d-%d of face %d is used %d times", e.first.first, e.first.second, (int) f, e.second); if (!side) CHECK(edges.count({ e.first.second, e.first.first }) == 1, "triangulate:cover", "diagonal %d-%d of face %d has one side", e.first.first, e.first.second, (int) f); }
			t += n - 2;
		}
		CHECK(a.faces.size() == t, "triangulate:count", "%d triangles, should be %d", (int) a.faces.size(), (int) t);
	}
	c.state((int) M.m->GetFaceCount()); c.checkAsserts("the triangulation"); c.nontrivial();
}
// ---------------------------------------------------------------- unique indices
namespace {
// the indices of every corner are chosen: all the patterns of sharing
static void choose(mc::Ctx& c, Mesh& M, Poly* p, int n, const U& values) { string t; for (auto o : Mesh::offsets(p)) { U l; for (int i = 0; i < n; ++i) l.push_back(values[(size_t) c.choose((int) values.size())]); t += " ("; for (auto x : l) t += mc::strf("%u ", x); t += ")"; Mesh::at(p, o)->SetIndices(l.data(), l.size()); } c.op("set with indices%s", t.c_str()); M.m->Recalculate(); }
// what the index lists say about every corner of a set
static vector<U> tuples(Poly* p) { vector<U> r(p->GetFaceVertexCount()); for (auto o : Mesh::offsets(p)) for (size_t i = 0; i < r.size(); ++i) r[i].push_back(Mesh::at(p, o)->GetIndices()[i]); return r; }
typedef std::map<uint32, std::set<uint32>> Map;
static void compareMap(mc::Ctx& c, const char* who, const FCDGeometryIndexTranslationMap& m, const Map& want) { size_t n = 0; for (FCDGeometryIndexTranslationMap::const_iterator it = m.begin(); it != m.end(); ++it) { ++n; auto w = want.find(it->first); CHECK(w != want.end(), mc::strf("%s:map", who), "index %u should not be in the map", it->first); std::set<uint32> got; for (auto x = it->second.begin(); x != it->second.end(); ++x) got.insert(*x); CHECK(got == w->second && got.size() == it->second.size(), mc::strf("%s:map", who), "index %u has %d new indices, should have %d", it->first, (int) it->second.size(), (int) w->second.size()); } CHECK(n == want.size(), mc::strf("%s:map", who), "%d entries, should have %d", (int) n, (int) want.size()); }
static void uniqueSpace(mc::Ctx& c, Mesh& M, Poly* only)
{
	vector<Set> before = snap(c, "before", M.m); size_t ns = M.m->GetPolygonsCount(); vector<vector<U>> tup; Map unused; vector<U> pos; for (size_t k = 0; k < ns; ++k) { Poly* p = M.m->GetPolygons(k); tup.push_back(tuples(p)); FCDGeometryPolygonsInput* x = p->FindInput(I::POSITION); pos.push_back(U(x->GetIndices(), x->GetIndices() + x->GetIndexCount())); }
	FCDGeometryIndexTranslationMap map; bool withMap = c.flag(); c.op("unique indices%s", only ? " of one set" : ""); T::GenerateUniqueIndices(M.m, only, withMap ? &map : NULL); totals(c, "unique", M.m); Map want; std::map<std::pair<size_t, U>, uint32> idx; std::set<uint32> used;
	for (size_t k = 0; k < ns; ++k)
	{
		Poly* p = M.m->GetPolygons(k); Set a = snap(c, "unique", p); same(c, "unique", before[k], a); if (only && p != only) { CHECK(tuples(p) == tup[k], "unique:others", "the indices of set %d changed", (int) k); continue; } const uint32* ix = p->GetInput(0)->GetIndices(); for (size_t i = 0; i < p->GetInputCount(); ++i) CHECK(p->GetInput(i)->GetIndexCount() == tup[k].size() && (tup[k].empty() || !memcmp(p->GetInput(i)->GetIndices(), ix, tup[k].size() * sizeof(uint32))), "unique:indices", "input %d of set %d has other indices", (int) i, (int) k);
		for (size_t i = 0; i < tup[k].size(); ++i) { auto key = std::make_pair(k, tup[k][i]); auto it = idx.find(key); if (it == idx.end()) { CHECK(used.insert(ix[i]).second, "unique:merged", "corner %d of set %d shares index %u with another one", (int) i, (int) k, ix[i]); idx[key] = ix[i]; } else CHECK(it->second == ix[i], "unique:split", "corner %d of set %d has index %u, should share %u", (int) i, (int) k, ix[i], it->second); want[pos[k][i]].insert(ix[i]); }
	}
	if (!used.empty()) CHECK(*used.rbegin() == used.size() - 1, "unique:dense", "the largest index is %u for %d vertices", *used.rbegin(), (int) used.size()); if (withMap) { compareMap(c, "unique", map, want); CHECK(T::FindLargestUniqueIndex(map) == (used.empty() ? 0 : *used.rbegin()), "unique:largest", "."); }
	c.state((int) used.size()); c.checkAsserts("the unique indices"); c.nontrivial();
}
}
SPACE(unique, 6)
{
	const auto& layout = c.pick(LAYOUTS); bool vertex = c.flag(); Mesh M(2, 4, vertex); Rel rel{ M.g }; if (c.flag()) { M.set(layout, { 3 }, {}); choose(c, M, M.m->GetPolygons(0), 3, { 0, 1 }); if (c.flag()) { M.set(LAYOUTS[2], { 3 }, {}); M.fill(M.m->GetPolygons(1)); } } else { size_t no = 0; for (auto& i : layout) no = std::max(no, (size_t) i.off + 1); int n = no > 2 && !c.deep ? 3 : 4; M.set(layout, { (uint32) n }, {}); choose(c, M, M.m->GetPolygons(0), n, { 0, 1 }); } uniqueSpace(c, M, NULL);
}
SPACE(uniqueset, 6)
{
	const auto& layout = c.pick(LAYOUTS); Mesh M(3, 4, c.flag()); Rel rel{ M.g }; int which = c.choose(2); for (int k = 0; k < 2; ++k) { Poly* p = M.set(k == which ? layout : LAYOUTS[2], { 3 }, {}); if (k == which) choose(c, M, p, 3, { 0, 2 }); else M.fill(p, 1); } uniqueSpace(c, M, M.m->GetPolygons(which));
}
SPACE(collisions, 5)
{
	// many lists: the indices of the lists hash to the same values
	vector<In> layout; int lists = c.pick(vector<int>{ 3, 5, 8 }); for (int i = 0; i < lists; ++i) layout.push_back({ i, (uint32) i }); uint32 shift = 1u << (32 / lists); Mesh M(shift * 2 + 2, 8, true); Rel rel{ M.g }; Poly* p = M.set(layout, { 3 }, {}); vector<U> t = { { 0, 0 }, { shift, 0 }, { 0, 1 }, { shift, 1 }, { 2 * shift, 0 }, { 0, 2 } }; int at = c.choose(lists - 1); U pick; for (int i = 0; i < 3; ++i) pick.push_back((uint32) c.choose((int) t.size())); for (int o = 0; o < lists; ++o) { U l; for (auto x : pick) l.push_back(o == at ? t[x][0] : o == at + 1 ? t[x][1] : 0); Mesh::at(p, (uint32) o)->SetIndices(l.data(), l.size()); } M.m->Recalculate(); c.op("corners %u %u %u of %d lists", pick[0], pick[1], pick[2], lists); uniqueSpace(c, M, NULL);
}
SPACE(incomplete, 2)
{
	// sets without indices, unused sources, points
	Mesh M(4, 4, c.flag()); Rel rel{ M.g }; int k = c.choose(4); if (k == 0) M.set(LAYOUTS[1], {}, {}); if (k == 1) M.fill(M.set(LAYOUTS[1], { 4 }, {}, Poly::POINTS)); M.fill(M.set(LAYOUTS[1], { 3 }, {})); if (k == 2) M.set(LAYOUTS[2], {}, {}); if (k == 3) { Poly* p = M.set(LAYOUTS[1], { 3 }, {}); M.fill(p); FCDGeometrySource* x = M.m->AddSource(I::COLOR); p->AddInput(x, 1)->SetSet(-1); FCDGeometrySource* y = M.m->AddSource(I::COLOR); p->AddInput(y, 1)->SetSet(-1); y->Release(); } M.m->Recalculate(); vector<Set> before = snap(c, "before", M.m); vector<F> data; for (auto s : M.s) data.push_back(F(s->GetData(), s->GetData() + s->GetDataCount()));
	FCDGeometryIndexTranslationMap map; c.op("unique indices"); T::GenerateUniqueIndices(M.m, NULL, &map); vector<Set> after = snap(c, "incomplete", M.m); for (size_t i = 0; i < before.size(); ++i) if (!before[i].faces.empty()) same(c, "incomplete", before[i], after[i]); if (k == 1) { CHECK(map.empty(), "incomplete:points", "."); for (size_t i = 0; i < M.s.size(); ++i) CHECK(data[i] == F(M.s[i]->GetData(), M.s[i]->GetData() + M.s[i]->GetDataCount()), "incomplete:points", "."); } c.state(k); c.checkAsserts("the unique indices"); c.nontrivial();
}
// ---------------------------------------------------------------- the indices and the maps apart from the mesh
SPACE(translate, 6)
{
	const auto& layout = LAYOUTS[(size_t) c.choose((int) LAYOUTS.size() - 1)]; int used = 0; for (auto& i : layout) used = std::max(used, i.src + 1); Mesh M(3, used, c.flag()); Rel rel{ M.g }; int ns = c.range(1, 2), n = layout.size() > 2 && ns == 2 ? 2 : 3; for (int k = 0; k < ns; ++k) { Poly* p = M.set(layout, { (uint32) n }, {}); if (k == 0) choose(c, M, p, n, c.flag() ? U{ 0, 1 } : U{ 2, 1 }); else M.fill(p, 1); } int which = c.choose(ns + 1) - 1; Poly* only = which < 0 ? NULL : M.m->GetPolygons(which);
	vector<Set> before = snap(c, "before", M.m); FCDNewIndicesList ind; FCDGeometryIndexTranslationMapList maps; vector<vector<U>> tup; for (int k = 0; k < ns; ++k) tup.push_back(tuples(M.m->GetPolygons(k))); c.op("translation of %d", which); T::GenerateUniqueIndices(M.m, only, ind, maps); struct Del { FCDGeometryIndexTranslationMapList& l; ~Del() { for (size_t i = 0; i < l.size(); ++i) delete l[i]; } } del{ maps }; vector<Set> after = snap(c, "translate", M.m); for (int k = 0; k < ns; ++k) { same(c, "translate", before[k], after[k]); CHECK(tuples(M.m->GetPolygons(k)) == tup[k], "translate:untouched", "set %d", k); }
	CHECK(maps.size() == M.s.size() && ind.size() == (only ? 1 : (size_t) ns), "translate:size", "%d maps and %d lists", (int) maps.size(), (int) ind.size()); std::map<std::pair<int, U>, uint32> idx; std::set<uint32> all; vector<Map> want(M.s.size()); for (int k = 0; k < ns; ++k) { if (only && k != which) continue; const UInt32List& l = only ? ind[0] : ind[k]; CHECK(l.size() == tup[k].size(), "translate:count", "%d indices, should be %d", (int) l.size(), (int) tup[k].size()); for (size_t i = 0; i < l.size(); ++i) { auto key = std::make_pair(k, tup[k][i]); auto it = idx.find(key); if (it == idx.end()) { CHECK(all.insert(l[i]).second, "translate:merged", "corner %d", (int) i); idx[key] = l[i]; } else CHECK(it->second == l[i], "translate:split", "corner %d", (int) i); for (auto& e : layout) want[e.src][Mesh::at(M.m->GetPolygons(k), e.off)->GetIndices()[i]].insert(l[i]); } } uint32 largest = all.empty() ? 0 : *all.rbegin(); CHECK(all.size() == largest + 1, "translate:dense", "%u", largest);
	for (size_t s = 0; s < M.s.size(); ++s) { compareMap(c, "translate", *maps[s], want[s]); if (!want[s].empty()) CHECK(T::FindLargestUniqueIndex(*maps[s]) == largest, "translate:largest", "."); uint32 st = M.s[s]->GetStride(); F d((largest + 1) * st, -1.0f); T::ApplyUniqueIndices(d.data(), M.s[s]->GetData(), st, maps[s]); for (auto& e : want[s]) for (auto x : e.second) for (uint32 j = 0; j < st; ++j) CHECK(d[x * st + j] == M.s[s]->GetData()[e.first * st + j], "translate:data", "source %d", (int) s); }
	if (!only) { FCDGeometry* g = (FCDGeometry*) M.g->Clone(); Rel r2{ g }; UInt32List flat; for (int k = 0; k < ns; ++k) flat.insert(flat.size(), ind[k].begin(), ind[k].size()); c.op("apply"); T::ApplyUniqueIndices(g->GetMesh(), M.m, flat, maps); vector<Set> ap = snap(c, "apply", g->GetMesh()); for (int k = 0; k < ns; ++k) { same(c, "apply", before[k], ap[k]); Poly* p = g->GetMesh()->GetPolygons(k); for (size_t i = 0; i < p->GetInputCount(); ++i) { CHECK(p->GetInput(i)->GetIndexCount() == ind[k].size(), "apply:indices", "."); for (size_t x = 0; x < ind[k].size(); ++x) CHECK(p->GetInput(i)->GetIndices()[x] == ind[k][x], "apply:indices", "."); } } vector<Set> again = snap(c, "translate", M.m); for (int k = 0; k < ns; ++k) same(c, "translate", before[k], again[k]); }
	c.state((int) all.size()); c.checkAsserts("the translation"); c.nontrivial();
}
// ---------------------------------------------------------------- animated data
SPACE(animated, 4)
{
	int src = c.choose(2); const auto& layout = LAYOUTS[1]; Mesh M(2, 2, true); Rel rel{ M.g }; Poly* p = M.set(layout, { 3 }, {}); choose(c, M, p, 3, { 0, 1 }); uint32 which = (uint32) c.choose(2), comp = (uint32) c.choose(3); FCDGeometrySource* s = M.s[src]; FCDAnimated* a = s->GetSourceData().GetAnimated(which * 3 + comp); FCDAnimationChannel* ch = anim->AddChannel(); Rel r2{ ch }; FCDAnimationCurve* k = ch->AddCurve(); k->AddKey(FUDaeInterpolation::STEP)->output = 77; (void) a; a->AddCurve(0, k); vector<U> tup = tuples(p); U pos(Mesh::at(p, (uint32) src)->GetIndices(), Mesh::at(p, (uint32) src)->GetIndices() + 3); vector<Set> before = snap(c, "before", M.m);
	c.op("unique indices"); T::GenerateUniqueIndices(M.m); vector<Set> after = snap(c, "animated", M.m); same(c, "animated", before[0], after[0]); FUObjectContainer<FCDAnimated>& l = s->GetAnimatedValues(); std::set<uint32> want, got; for (int i = 0; i < 3; ++i) if (pos[i] == which) want.insert(p->GetInput(0)->GetIndices()[i]);
	for (size_t i = 0; i < l.size(); ++i) { const float* v = l[i]->GetValue(0); size_t at = (size_t) (v - s->GetData()); CHECK(v >= s->GetData() && at < s->GetDataCount(), "animated:pointer", "an animated value points outside of the source"); CHECK((size_t) l[i]->GetArrayElement() == at, "animated:element", "element %d is value %d", (int) l[i]->GetArrayElement(), (int) at); if (l[i]->HasCurve()) { CHECK(at % 3 == comp && l[i]->GetCurve(0)->GetKey(0)->output == 77, "animated:curve", "."); CHECK(got.insert((uint32) at / 3).second, "animated:twice", "vertex %d", (int) at / 3); } } CHECK(got == want, "animated:vertices", "%d vertices are animated, should be %d", (int) got.size(), (int) want.size());
	for (auto x : got) { float* v = s->GetData() + x * 3 + comp; float o = *v; for (size_t i = 0; i < l.size(); ++i) if (l[i]->HasCurve() && l[i]->GetValue(0) == v) { l[i]->Evaluate(0); CHECK(*v == 77, "animated:evaluate", "%g", *v); *v = o; } }
	c.state((int) want.size()); c.checkAsserts("the unique indices"); c.nontrivial();
}
// ---------------------------------------------------------------- splitting
SPACE(fit, 4)
{
	const auto& layout = c.pick(LAYOUTS); Mesh M(40, 4, c.flag()); Rel rel{ M.g }; int ns = c.range(1, 2); for (int k = 0; k < ns; ++k) { U d, h; split(c.pick(SHAPES), d, h); static const vector<int> TYPES = { Poly::POLYGONS, Poly::TRIANGLE_STRIPS, Poly::LINES, Poly::POINTS }; int type = k ? (int) Poly::POLYGONS : c.pick(TYPES); if (type != Poly::POLYGONS && !h.empty()) c.prune(); if (type == Poly::POINTS && d.size() > 1) c.prune(); M.fill(M.set(layout, d, h, type), (uint32) k); } size_t max = (size_t) c.range(2, 13); vector<Set> before = snap(c, "before", M.m); c.op("fit %d", (int) max); T::FitIndexBuffers(M.m, max); totals(c, "fit", M.m); vector<Set> after = snap(c, "fit", M.m);
	// the sets of a material follow each other: together they are the original set
	std::map<string, Set> joined; for (size_t i = 0; i < after.size(); ++i) { size_t n = M.m->GetPolygons(i)->GetFaceVertexCount(); CHECK(n <= max || after[i].faces.size() == 1 || after[i].type == Poly::POINTS, "fit:size", "set %d has %d indices in %d faces", (int) i, (int) n, (int) after[i].faces.size()); if (i >= before.size()) CHECK(!after[i].faces.empty(), "fit:empty", "set %d", (int) i); auto j = joined.find(after[i].mat); if (j == joined.end()) joined[after[i].mat] = after[i]; else { CHECK(j->second.type == after[i].type, "fit:type", "set %d", (int) i); j->second.faces.insert(j->second.faces.end(), after[i].faces.begin(), after[i].faces.end()); } } CHECK(joined.size() == before.size(), "fit:material", "%d materials", (int) joined.size()); for (size_t k = 0; k < before.size(); ++k) { CHECK(after[k].mat == before[k].mat, "fit:order", "."); same(c, "fit", before[k], joined[before[k].mat]); }
	c.state((int) after.size()); c.checkAsserts("the split"); c.nontrivial();
}
// ---------------------------------------------------------------- reversing
SPACE(reverse, 3)
{
	Mesh M(4, 8, c.flag()); Rel rel{ M.g }; int skip = c.choose(9); if (skip < 8) { M.s[skip]->Release(); M.s[skip] = NULL; } vector<F> data; for (auto s : M.s) data.push_back(s ? F(s->GetData(), s->GetData() + s->GetDataCount()) : F()); int times = c.range(1, 2); for (int i = 0; i < times; ++i) T::ReverseNormals(M.m); c.op("reverse %d times", times); for (size_t i = 0; i < M.s.size(); ++i) if (M.s[i]) { Sem t = M.s[i]->GetType(); bool neg = times == 1 && t != I::POSITION && t != I::TEXCOORD && t != I::COLOR; for (size_t k = 0; k < data[i].size(); ++k) CHECK(M.s[i]->GetData()[k] == (neg ? -data[i][k] : data[i][k]), "reverse:data", "source %d", (int) i); } c.state(skip); c.checkAsserts("the reversal"); c.nontrivial();
}
// ---------------------------------------------------------------- packing
SPACE(packingmap, 3)
{
	int n = c.range(1, c.deep ? 7 : 6); U in; for (int i = 0; i < n; ++i) in.push_back((uint32) c.choose(4)); size_t maxI = (size_t) c.range(1, n), maxV = (size_t) c.range(1, 5); bool outs = c.flag(), cnt = c.flag(); c.op("pack at most %d indices and %d vertices of %d", (int) maxI, (int) maxV, n); vector<uint16> o(n, 999); UInt16List map; uint16 nv = 999; uint16 r = T::GenerateVertexPackingMap(3, maxI, maxV, in.data(), outs ? o.data() : NULL, &map, cnt ? &nv : NULL);
	std::map<uint32, uint16> want; size_t k = 0; vector<uint16> wo; for (; k < maxI; ++k) { if (!want.count(in[k])) { uint16 v = (uint16) want.size(); want[in[k]] = v; } wo.push_back(want[in[k]]); if (want.size() >= maxV) { ++k; break; } } CHECK(r == k, "pack:count", "%d indices, should be %d", (int) r, (int) k); if (cnt) CHECK(nv == want.size(), "pack:vertices", "%d, should be %d", (int) nv, (int) want.size()); for (size_t i = 0; outs && i < o.size(); ++i) CHECK(o[i] == (i < k ? wo[i] : 999), "pack:index", "%d is %d", (int) i, (int) o[i]); CHECK(map.size() == 4, "pack:map", "."); for (uint32 i = 0; i < 4; ++i) CHECK(map[i] == (want.count(i) ? want[i] : 0xFFFF), "pack:map", "%u", i);
	c.state((int) want.size()); c.checkAsserts("the packing"); c.nontrivial();
}
SPACE(packinglimit, 1)
{
	// the documented default: as many indices as 16 bits hold
	uint32 values = c.pick(vector<uint32>{ 10, 65534, 65535, 65536, 70000 }); size_t maxI = c.pick(vector<size_t>{ 65534, 65535 }), maxV = c.pick(vector<size_t>{ 65534, 65535 }); U in; for (uint32 i = 0; i < 70000; ++i) in.push_back((i * 7) % values); vector<uint16> o(maxI); UInt16List map; uint16 nv = 0; uint16 r = T::GenerateVertexPackingMap(values - 1, maxI, maxV, in.data(), o.data(), &map, &nv); c.op("pack %d of %u values", (int) maxI, values); size_t k = 0; std::map<uint32, uint16> want; for (; k < maxI; ++k) { if (!want.count(in[k])) { uint16 v = (uint16) want.size(); want[in[k]] = v; } CHECK(o[k] == want[in[k]], "packinglimit:index", "%d", (int) k); if (want.size() >= maxV) { ++k; break; } } CHECK(r == k && nv == want.size(), "packinglimit:count", "%d indices and %d vertices, should be %d and %d", (int) r, (int) nv, (int) k, (int) want.size()); c.state((int) want.size()); c.checkAsserts("the packing"); c.nontrivial();
}
SPACE(packing, 4)
{
	// a mesh that is packed for the graphics card, in all the batches it takes
	Mesh M(2, 5, true); Rel rel{ M.g }; const vector<In> layout = { { 0, 0 }, { 2, 1 }, { 4, 1 } }; Poly* p = M.set(layout, { 3 }, {}); choose(c, M, p, 3, { 0, 1 }); uint32 cs = (uint32) c.range(3, 4); FloatList col; for (uint32 i = 0; i < 2 * cs; ++i) col.push_back((float) i / 7.0f); M.s[4]->SetData(col, cs); size_t maxI = (size_t) c.range(1, 3); FCDNewIndicesList ind; FCDGeometryIndexTranslationMapList maps; T::GenerateUniqueIndices(M.m, p, ind, maps); struct Del { FCDGeometryIndexTranslationMapList& l; ~Del() { for (size_t i = 0; i < l.size(); ++i) delete l[i]; } } del{ maps }; uint32 largest = T::FindLargestUniqueIndex(*maps[0]); vector<U> tup = tuples(p); const uint32 stride = 32; size_t at = 0;
	while (at < 3) { UInt16List pm; uint16 nv = 0; vector<uint16> o(3); c.op("batch at %d", (int) at); uint16 r = T::GenerateVertexPackingMap(largest, std::min(maxI, 3 - at), 100, ind[0].begin() + at, o.data(), &pm, &nv); CHECK(r > 0, "packing:progress", "."); vector<uint8> buf(nv * stride + 1, 0xEE); T::PackVertexBufferV3(buf.data(), stride, M.s[0], 3, pm.begin(), *maps[0]); T::PackVertexBufferV2(buf.data() + 12, stride, M.s[2], 2, pm.begin(), *maps[2]); T::PackVertexBufferColor(buf.data() + 20, stride, M.s[4], 4, pm.begin(), *maps[4]);
		for (size_t i = 0; i < r; ++i) { CHECK(o[i] < nv, "packing:index", "."); const uint8* v = buf.data() + o[i] * stride; float x[5]; memcpy(x, v, sizeof(x)); const float* a = M.s[0]->GetData() + tup[at + i][0] * 3; const float* b = M.s[2]->GetData() + tup[at + i][1] * 2; const float* d = M.s[4]->GetData() + tup[at + i][1] * cs; CHECK(x[0] == a[0] && x[1] == a[1] && x[2] == a[2], "packing:position", "."); CHECK(x[3] == b[0] && x[4] == b[1], "packing:texcoord", "."); for (uint32 j = 0; j < 4; ++j) { int w = j < cs ? (int) (d[j] * 255) : 255; CHECK(std::abs((int) v[20 + j] - w) <= 1, "packing:color", "component %u is %d, should be %d", j, (int) v[20 + j], w); } for (uint32 j = 24; j < stride; ++j) CHECK(v[j] == 0xEE, "packing:outside", "."); } CHECK(buf.back() == 0xEE, "packing:outside", "."); at += r; }
	c.state((int) largest); c.checkAsserts("the packing"); c.nontrivial();
}
// ---------------------------------------------------------------- texture tangents
SPACE(tangents, 5)
{
	// a grid of 2 by 3 vertices on a plane, and an affine texture: the tangents and binormals are known
	static const vector<vector<double>> FRAMES = { { 1, 0, 0, 0, 1, 0 }, { 0, 1, 0, 0, 0, 1 }, { 0, 0, 2, 1, 0, 0 }, { 1, 1, 0, -1, 1, 0 } }; static const vector<vector<double>> TEX = { { 1, 0, 0, 1 }, { 0, 1, -1, 0 }, { 2, 0, 0, 3 }, { 1, 1, 0, 1 }, { -1, 0, 0, 1 }, { 0.5, 0, 0.25, 1 } };
	const auto& fr = c.pick(FRAMES); const auto& tx = c.pick(TEX); bool bin = c.flag(), flip = c.flag(), sets2 = c.flag(); int faces = c.choose(4); uint32 ts = (uint32) c.range(2, 3); FCDGeometry* g = (*kept)->GetGeometryLibrary()->AddEntity(); Rel rel{ g }; FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* P = m->AddVertexSource(I::POSITION); FCDGeometrySource* N = m->AddSource(I::NORMAL); FCDGeometrySource* X = m->AddSource(I::TEXCOORD); fm::string xid("tex"); X->SetDaeId(xid);
	FloatList p, n, x; double nn[3] = { fr[1] * fr[5] - fr[2] * fr[4], fr[2] * fr[3] - fr[0] * fr[5], fr[0] * fr[4] - fr[1] * fr[3] }; double nl = std::sqrt(nn[0] * nn[0] + nn[1] * nn[1] + nn[2] * nn[2]) * (flip ? -1 : 1); for (int j = 0; j < 3; ++j) { nn[j] /= nl; n.push_back((float) nn[j]); } for (int v = 0; v < 6; ++v) { double a = v % 3, b = v / 3; for (int j = 0; j < 3; ++j) p.push_back((float) (fr[j] * a + fr[3 + j] * b)); x.push_back((float) (tx[0] * a + tx[1] * b)); x.push_back((float) (tx[2] * a + tx[3] * b)); if (ts == 3) x.push_back(9); } P->SetData(p, 3); N->SetData(n, 3); X->SetData(x, ts);
	static const vector<vector<U>> GRIDS = { { { 0, 1, 4, 3 }, { 1, 2, 5, 4 } }, { { 0, 1, 4 }, { 0, 4, 3 }, { 1, 2, 5 }, { 1, 5, 4 } }, { { 0, 1, 5, 3 }, { 1, 2, 5 } }, { { 3, 0, 1, 4 }, { 5, 4, 1 } } }; const vector<U>& grid = GRIDS[faces]; vector<Poly*> ps; for (int k = 0; k < (sets2 ? 2 : 1); ++k) ps.push_back(m->AddPolygons()); vector<vector<uint32>> ix(ps.size()); for (size_t f = 0; f < grid.size(); ++f) { size_t k = f % ps.size(); ps[k]->AddFaceVertexCount((uint32) grid[f].size()); for (auto v : grid[f]) ix[k].push_back(v); } for (size_t k = 0; k < ps.size(); ++k) { ps[k]->GetInput(0)->SetIndices(ix[k].data(), ix[k].size()); U z(ix[k].size(), 0); ps[k]->AddInput(N, 2)->SetIndices(z.data(), z.size()); FCDGeometryPolygonsInput* t = ps[k]->AddInput(X, 1); t->SetSet(3); t->SetIndices(ix[k].data(), ix[k].size()); } if (sets2 && grid.size() == 1) c.prune(); m->Recalculate(); c.op("grid %d, %d sets", faces, (int) ps.size()); T::GenerateTextureTangentBasis(m, X, bin);
	// dP/ds and dP/dt
	double det = tx[0] * tx[3] - tx[1] * tx[2]; double da = tx[3] / det, db = -tx[2] / det; double ds[3]; double l = 0; for (int j = 0; j < 3; ++j) { ds[j] = fr[j] * da + fr[3 + j] * db; l += ds[j] * ds[j]; } for (int j = 0; j < 3; ++j) ds[j] /= std::sqrt(l);
	// the texture direction, in the plane; its sign is a convention of the library (the same for all the corners)
	FCDGeometrySource* TS = m->FindSourceByType(I::TEXTANGENT); FCDGeometrySource* BS = m->FindSourceByType(I::TEXBINORMAL); CHECK(TS != NULL && (BS != NULL) == bin, "tangents:sources", "."); CHECK(TS->GetStride() == 3 && TS->GetDaeId() == "tex-tangents" && (!bin || (BS->GetStride() == 3 && BS->GetDaeId() == "tex-binormals")), "tangents:sources", "."); int sign = 0; for (size_t k = 0; k < ps.size(); ++k) { FCDGeometryPolygonsInput* t = ps[k]->FindInput(TS); FCDGeometryPolygonsInput* b = bin ? ps[k]->FindInput(BS) : NULL; CHECK(t != NULL && (!bin || b != NULL) && ps[k]->GetInputCount() == (bin ? 5u : 4u), "tangents:inputs", "set %d", (int) k); CHECK(t->GetSet() == 3 && (!b || b->GetSet() == 3) && t->GetOffset() > 2 && (!b || (b->GetOffset() > 2 && b->GetOffset() != t->GetOffset())), "tangents:inputs", "set %d", (int) k); CHECK(t->GetIndexCount() == ix[k].size() && (!b || b->GetIndexCount() == ix[k].size()), "tangents:indices", "%d, should be %d", (int) t->GetIndexCount(), (int) ix[k].size());
		for (size_t i = 0; i < ix[k].size(); ++i) { CHECK(t->GetIndices()[i] < TS->GetValueCount(), "tangents:index", "."); const float* v = TS->GetValue(t->GetIndices()[i]); double dot = v[0] * ds[0] + v[1] * ds[1] + v[2] * ds[2], len = std::sqrt((double) v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); CHECK(std::fabs(len - 1) < 1e-3, "tangents:length", "the tangent of corner %d has length %g", (int) i, len); double px[3]; double pn = 0; for (int j = 0; j < 3; ++j) pn += ds[j] * nn[j]; double pl = 0; for (int j = 0; j < 3; ++j) { px[j] = ds[j] - nn[j] * pn; pl += px[j] * px[j]; } dot = (v[0] * px[0] + v[1] * px[1] + v[2] * px[2]) / std::sqrt(pl); CHECK(std::fabs(std::fabs(dot) - 1) < 2e-3, "tangents:direction", "corner %d has %g %g %g, should be along %g %g %g", (int) i, v[0], v[1], v[2], px[0], px[1], px[2]); int sg = dot > 0 ? 1 : -1; CHECK(sign == 0 || sign == sg, "tangents:sign", "corner %d is opposite to the others", (int) i); sign = sg; if (b) { CHECK(b->GetIndices()[i] < BS->GetValueCount(), "tangents:index", "."); const float* w = BS->GetValue(b->GetIndices()[i]); double cr[3] = { nn[1] * v[2] - nn[2] * v[1], nn[2] * v[0] - nn[0] * v[2], nn[0] * v[1] - nn[1] * v[0] }; for (int j = 0; j < 3; ++j) CHECK(std::fabs(cr[j] - w[j]) < 2e-3, "tangents:binormal", "corner %d", (int) i); } } for (size_t i = 0; i < ix[k].size(); ++i) CHECK(ps[k]->GetInput(0)->GetIndices()[i] == ix[k][i], "tangents:others", "."); }
	c.state((int) TS->GetValueCount()); c.checkAsserts("the tangents"); c.nontrivial();
}
// the tangents of a vertex are averaged over its faces, per normal and texture coordinate
SPACE(smooth, 3)
{
	// two quads that meet at a fold: the corners at the fold have either one normal, or one of each side
	bool shared = c.flag(), bin = c.flag(), seam = c.flag(); double angle = c.pick(vector<double>{ 0.5, 1.0, -0.7 }); FCDGeometry* g = (*kept)->GetGeometryLibrary()->AddEntity(); Rel rel{ g }; FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* P = m->AddVertexSource(I::POSITION); FCDGeometrySource* N = m->AddSource(I::NORMAL); FCDGeometrySource* X = m->AddSource(I::TEXCOORD); double ca = std::cos(angle), sa = std::sin(angle); double pos[6][3] = { { -1, 0, 0 }, { 0, 0, 0 }, { ca, 0, sa }, { -1, 1, 0 }, { 0, 1, 0 }, { ca, 1, sa } }; double na[3] = { 0, 0, 1 }, nb[3] = { -sa, 0, ca }, nm[3] = { -sa, 0, 1 + ca }; double l = std::sqrt(nm[0] * nm[0] + nm[2] * nm[2]); for (auto& v : nm) v /= l; FloatList p, n, x; for (auto& v : pos) for (double d : v) p.push_back((float) d); for (auto v : { na, nb, nm }) for (int j = 0; j < 3; ++j) n.push_back((float) v[j]); for (int k = 0; k < 2; ++k) for (int v = 0; v < 6; ++v) { x.push_back((float) (v % 3) + 10.0f * (float) k); x.push_back((float) (v / 3)); } P->SetData(p, 3); N->SetData(n, 3); X->SetData(x, 2); Poly* s = m->AddPolygons(); uint32 vi[] = { 0, 1, 4, 3, 1, 2, 5, 4 }, ni[8], xi[8]; for (int i = 0; i < 8; ++i) { bool fold = vi[i] % 3 == 1; ni[i] = fold && shared ? 2 : i < 4 ? 0 : 1; xi[i] = vi[i] + (seam && i > 3 ? 6 : 0); } s->AddFaceVertexCount(4); s->AddFaceVertexCount(4); s->GetInput(0)->SetIndices(vi, 8); s->AddInput(N, 1)->SetIndices(ni, 8); s->AddInput(X, 2)->SetIndices(xi, 8); m->Recalculate(); c.op("fold of %g", angle); T::GenerateTextureTangentBasis(m, X, bin);
	FCDGeometrySource* TS = m->FindSourceByType(I::TEXTANGENT); FCDGeometryPolygonsInput* t = TS ? s->FindInput(TS) : NULL; CHECK(t != NULL && t->GetIndexCount() == 8, "smooth:input", "."); double sign = 0; for (int i = 0; i < 8; ++i)
	{
		// the tangent of the corner of each face, with the normal taken out
		auto face = [&](int f, const double* nrm, double* r) { double d[3] = { f ? ca : 1, 0, f ? sa : 0 }; double k = d[0] * nrm[0] + d[2] * nrm[2]; double q = 0; for (int j = 0; j < 3; ++j) { r[j] = d[j] - nrm[j] * k; q += r[j] * r[j]; } for (int j = 0; j < 3; ++j) r[j] /= std::sqrt(q); }; const double* nrm = ni[i] == 2 ? nm : ni[i] ? nb : na; double w[3], w2[3]; face(i > 3, nrm, w); bool fold = vi[i] % 3 == 1; if (fold && shared && !seam) { face(i <= 3, nrm, w2); double q = 0; for (int j = 0; j < 3; ++j) { w[j] += w2[j]; q += w[j] * w[j]; } for (auto& v : w) v /= std::sqrt(q); } CHECK(t->GetIndices()[i] < TS->GetValueCount(), "smooth:index", "."); const float* v = TS->GetValue(t->GetIndices()[i]); double dot = v[0] * w[0] + v[1] * w[1] + v[2] * w[2], len = std::sqrt((double) v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); CHECK(std::fabs(len - 1) < 1e-3, "smooth:length", "corner %d has a tangent of length %g", i, len); CHECK(std::fabs(std::fabs(dot) - 1) < 1e-3, "smooth:direction", "corner %d has %g %g %g, should be along %g %g %g", i, v[0], v[1], v[2], w[0], w[1], w[2]); CHECK(sign == 0 || sign * dot > 0, "smooth:sign", "."); sign = dot;
	}
	c.state((int) TS->GetValueCount()); c.checkAsserts("the tangents"); c.nontrivial();
}
// a fan: every corner at its centre may be on its own side of a texture seam or of a fold
SPACE(fan, 5)
{
	static const double ROT[] = { 0, 1.2, 0.5 }; static const double NORMALS[2][3] = { { 0, 0, 1 }, { 0.6, 0, 0.8 } }; int faces = c.range(1, c.deep ? 5 : 4); FCDGeometry* g = (*kept)->GetGeometryLibrary()->AddEntity(); Rel rel{ g }; FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* P = m->AddVertexSource(I::POSITION); FCDGeometrySource* N = m->AddSource(I::NORMAL); FCDGeometrySource* X = m->AddSource(I::TEXCOORD); FloatList p, n, x; for (int j = 0; j < 3; ++j) p.push_back(0); for (int i = 0; i <= faces; ++i) { double a = 1.1 * i; p.push_back((float) std::cos(a)); p.push_back((float) std::sin(a)); p.push_back(0); } for (auto& v : NORMALS) for (double d : v) n.push_back((float) d); for (int k = 0; k < 3; ++k) { x.push_back(10.0f * (float) k); x.push_back(0); }
	Poly* s = m->AddPolygons(); U vi, ni, xi; vector<int> rot, side, nrm; string t; for (int f = 0; f < faces; ++f) { rot.push_back(f < 2 ? c.choose(3) : f % 3); side.push_back(c.choose(f < 3 ? f + 1 : 3)); nrm.push_back(c.choose(2)); t += mc::strf(" %d/%d/%d", rot[f], side[f], nrm[f]); s->AddFaceVertexCount(3); vi.push_back(0); xi.push_back((uint32) side[f]); ni.push_back((uint32) nrm[f]); for (int k = 0; k < 2; ++k) { vi.push_back((uint32) (1 + f + k)); ni.push_back((uint32) nrm[f]); xi.push_back((uint32) (3 + 2 * f + k)); double a = 1.1 * (f + k) - ROT[rot[f]]; x.push_back((float) (10 * side[f] + std::cos(a))); x.push_back((float) std::sin(a)); } }
	P->SetData(p, 3); N->SetData(n, 3); X->SetData(x, 2); s->GetInput(0)->SetIndices(vi.data(), vi.size()); s->AddInput(N, 1)->SetIndices(ni.data(), ni.size()); s->AddInput(X, 2)->SetIndices(xi.data(), xi.size()); m->Recalculate(); c.op("fan%s", t.c_str()); T::GenerateTextureTangentBasis(m, X, c.flag()); FCDGeometrySource* TS = m->FindSourceByType(I::TEXTANGENT); FCDGeometryPolygonsInput* in = TS ? s->FindInput(TS) : NULL; CHECK(in != NULL && in->GetIndexCount() == vi.size(), "fan:input", "%d indices, should be %d", in ? (int) in->GetIndexCount() : -1, (int) vi.size());
	// the texture direction of a face is turned by its rotation
	auto tangent = [&](int f, double* r) { double d[3] = { std::cos(ROT[rot[f]]), std::sin(ROT[rot[f]]), 0 }; const double* nn = NORMALS[nrm[f]]; double k = d[0] * nn[0] + d[1] * nn[1], q = 0; for (int j = 0; j < 3; ++j) { r[j] = d[j] - nn[j] * k; q += r[j] * r[j]; } for (int j = 0; j < 3; ++j) r[j] /= std::sqrt(q); }; double sign = 0;
	for (size_t i = 0; i < vi.size(); ++i) { int f = (int) i / 3; double w[3] = { 0, 0, 0 }; for (int o = 0; o < faces; ++o) if (o == f || (i % 3 == 0 && side[o] == side[f] && nrm[o] == nrm[f])) { double r[3]; tangent(o, r); for (int j = 0; j < 3; ++j) w[j] += r[j]; } double q = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]); CHECK(in->GetIndices()[i] < TS->GetValueCount(), "fan:index", "."); const float* v = TS->GetValue(in->GetIndices()[i]); double dot = (v[0] * w[0] + v[1] * w[1] + v[2] * w[2]) / q, len = std::sqrt((double) v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); CHECK(std::fabs(len - 1) < 1e-3, "fan:length", "%g", len); CHECK(std::fabs(std::fabs(dot) - 1) < 1e-3, "fan:direction", "corner %d has %g %g %g, should be along %g %g %g", (int) i, v[0], v[1], v[2], w[0] / q, w[1] / q, w[2] / q); CHECK(sign == 0 || sign * dot > 0, "fan:sign", "."); sign = dot; }
	c.state((int) TS->GetValueCount()); c.checkAsserts("the tangents"); c.nontrivial();
}
