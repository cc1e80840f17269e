// P17: standardising the up-axis and the unit keeps the scene geometrically the same.
#include "dump.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDLibrary.h"
#include <cmath>
#include <functional>
using std::string; using std::vector;
const char* mc::property = "P17"; const char* mc::level = "model_checking";
const char* mc::rule = "documents of a bounded grammar (nodes with every kind of transform, meshes, splines, skins, cameras, lights, animation, assets at every level, referenced documents) are taken through sequences of standardisations to every up-axis and unit; before and after each the positions, directions, matrices and instance frames at several times are read through getters and related by the rotation and the scale which the declared assets imply; a case is non-trivial when a conversion took place";
vector<string> mc::assumptions = { "an entity without any declared up-axis or unit is not converted (the library's convention)", "the rotation between up-axes is the one that the COLLADA specification implies: X_UP has its right on -Y and its inside on +Z, Y_UP has +X and +Z, Z_UP has +X and -Y", "targeted cameras with handleTargets, force fields, attenuation distances, physics and NURBS surfaces are left out", "tolerance 1e-4 relative" };
static bool init = (mc::workerInit = [] { FCollada::Initialize(); }, true);
typedef FUObjectRef<FCDocument> Doc; namespace GI = FUDaeGeometryInput;
static Doc top() { return FCollada::NewTopDocument(); }
struct V { double x, y, z; };
static V V3(const float* p) { return { p[0], p[1], p[2] }; }
struct M { double a[4][4]; }; // [row][column]
static M ident() { M m = {}; for (int i = 0; i < 4; ++i) m.a[i][i] = 1; return m; }
static M mul(const M& x, const M& y) { M r = {}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; return r; }
static M of(const FMMatrix44& m) { M r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[i][j] = m.m[j][i]; return r; }
// The change from one up-axis into Y_UP, by rows.
static M toY(int axis) { M m = ident(); if (axis == 0) { m.a[0][0] = 0; m.a[0][1] = -1; m.a[1][0] = 1; m.a[1][1] = 0; } if (axis == 2) { m.a[1][1] = 0; m.a[1][2] = 1; m.a[2][1] = -1; m.a[2][2] = 0; } return m; }
static M transposed(const M& m) { M r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[i][j] = m.a[j][i]; return r; }
struct Conv { M R; double s; bool turned, any; };
static V rot(const Conv& k, V v) { const M& m = k.R; return { m.a[0][0] * v.x + m.a[0][1] * v.y + m.a[0][2] * v.z, m.a[1][0] * v.x + m.a[1][1] * v.y + m.a[1][2] * v.z, m.a[2][0] * v.x + m.a[2][1] * v.y + m.a[2][2] * v.z }; }
static M conj(const Conv& k, const M& m) { M r = mul(mul(k.R, m), transposed(k.R)); for (int i = 0; i < 3; ++i) r.a[i][3] *= k.s; return r; }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(a) + std::fabs(b)); }
static bool near(V a, V b) { return near(a.x, b.x) && near(a.y, b.y) && near(a.z, b.z); }
static bool near(const M& a, const M& b) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (!near(a.a[i][j], b.a[i][j])) return false; return true; }
static string show(const M& m) { string r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r += mc::strf("%g%s", m.a[i][j], j == 3 ? "; " : " "); return r; }
static string show(V v) { return mc::strf("(%g %g %g)", v.x, v.y, v.z); }
// Which up-axis and unit hold for an entity.
struct Says { int axis = -1; double unit = -1; };
static int axisOf(const FMVector3& v) { return v.x > 0.5f ? 0 : v.y > 0.5f ? 1 : v.z > 0.5f ? 2 : -1; }
static void add(Says& s, const FCDAsset* a) { if (!a) return; if (s.axis < 0 && a->GetHasUpAxisFlag()) s.axis = axisOf(a->GetUpAxis()); if (s.unit < 0 && a->GetHasUnitsFlag()) s.unit = a->GetUnitConversionFactor(); }
template <class L> static Says says(const FCDEntity* e, L* l) { Says s; if (e->HasType(FCDSceneNode::GetClassType())) for (const FCDSceneNode* n = (const FCDSceneNode*) e; n; n = n->GetParent(0)) add(s, n->GetAsset()); else add(s, e->GetAsset()); add(s, ((const L*) l)->GetAsset()); add(s, e->GetDocument()->GetAsset()); return s; }
static Conv conv(Says s, int axis, double unit) { Conv k; k.turned = s.axis >= 0 && s.axis != axis; k.R = k.turned ? mul(transposed(toY(axis)), toY(s.axis)) : ident(); k.s = s.unit > 0 ? s.unit / unit : 1; k.any = k.turned || k.s != 1; return k; }
// What is seen of a document.
struct Inst { FCDEntity* e; bool pivots; M frame; };
struct Node { FCDSceneNode* n; M local; vector<Inst> inst; size_t kids; };
struct Seen { vector<Node> nodes; std::map<const void*, vector<V>> points, dirs; std::map<const void*, vector<double>> same, lengths; std::map<const void*, vector<M>> mats; };
static bool pivots(FCDEntityInstance* i) { FCDEntity::Type t = i->GetEntityType(); return t == FCDEntity::CAMERA || t == FCDEntity::LIGHT || t == FCDEntity::EMITTER || t == FCDEntity::FORCE_FIELD; }
static void allNodes(FCDSceneNode* n, vector<FCDSceneNode*>& r) { for (FCDSceneNode* o : r) if (o == n) return; r.push_back(n); for (size_t i = 0; i < n->GetChildrenCount(); ++i) allNodes(n->GetChild(i), r); }
static vector<FCDSceneNode*> nodes(FCDocument* d) { vector<FCDSceneNode*> r; for (size_t i = 0; i < d->GetVisualSceneLibrary()->GetEntityCount(); ++i) allNodes(d->GetVisualSceneLibrary()->GetEntity(i), r); return r; }
static void eval(FCDAnimated* a, float t) { if (a) a->Evaluate(t); }
static Seen see(FCDocument* d, const float* at)
{
	Seen s; vector<FCDSceneNode*> ns = nodes(d);
	if (at)
	{
		for (FCDSceneNode* n : ns) for (size_t i = 0; i < n->GetTransformCount(); ++i) eval(n->GetTransform(i)->GetAnimated(), *at);
		for (size_t i = 0; i < d->GetGeometryLibrary()->GetEntityCount(); ++i) { FCDGeometry* g = d->GetGeometryLibrary()->GetEntity(i); if (g->IsMesh()) for (size_t k = 0; k < g->GetMesh()->GetSourceCount(); ++k) for (size_t j = 0; j < g->GetMesh()->GetSource(k)->GetAnimatedValues().size(); ++j) eval(g->GetMesh()->GetSource(k)->GetAnimatedValues().at(j), *at); }
		for (size_t i = 0; i < d->GetCameraLibrary()->GetEntityCount(); ++i) { FCDCamera* k = d->GetCameraLibrary()->GetEntity(i); for (FCDParameterAnimatableFloat* p : { &k->GetNearZ(), &k->GetFarZ(), &k->GetFovX(), &k->GetFovY() }) if (p->IsAnimated()) eval(p->GetAnimated(), *at); }
	}
	for (FCDSceneNode* n : ns) { Node x = { n, of(n->ToMatrix()), {}, n->GetChildrenCount() }; for (size_t i = 0; i < n->GetInstanceCount(); ++i) x.inst.push_back({ n->GetInstance(i)->GetEntity(), pivots(n->GetInstance(i)), x.local }); s.nodes.push_back(x); }
	for (size_t i = 0; i < d->GetGeometryLibrary()->GetEntityCount(); ++i)
	{
		FCDGeometry* g = d->GetGeometryLibrary()->GetEntity(i);
		if (g->IsMesh()) for (size_t k = 0; k < g->GetMesh()->GetSourceCount(); ++k)
		{
			FCDGeometrySource* q = g->GetMesh()->GetSource(k); GI::Semantic t = q->GetType(); bool dir = t == GI::NORMAL || t == GI::GEOTANGENT || t == GI::GEOBINORMAL || t == GI::TEXTANGENT || t == GI::TEXBINORMAL; bool spatial = (dir || t == GI::POSITION) && q->GetStride() >= 3;
			if (spatial) for (size_t j = 0; j < q->GetValueCount(); ++j) (dir ? s.dirs : s.points)[g].push_back(V3(q->GetData() + j * q->GetStride())); else for (size_t j = 0; j < q->GetDataCount(); ++j) s.same[g].push_back(q->GetData()[j]);
		}
		if (g->IsSpline()) for (size_t k = 0; k < g->GetSpline()->GetSplineCount(); ++k) { FCDSpline* p = g->GetSpline()->GetSpline(k); for (size_t j = 0; j < p->GetCVCount(); ++j) s.points[g].push_back(V3(&p->GetCV(j)->x)); }
	}
	for (size_t i = 0; i < d->GetControllerLibrary()->GetEntityCount(); ++i) { FCDController* k = d->GetControllerLibrary()->GetEntity(i); if (!k->IsSkin()) continue; FCDSkinController* q = k->GetSkinController(); s.mats[k].push_back(of(q->GetBindShapeTransform())); for (size_t j = 0; j < q->GetJointCount(); ++j) s.mats[k].push_back(of(q->GetJoint(j)->GetBindPoseInverse())); }
	for (size_t i = 0; i < d->GetCameraLibrary()->GetEntityCount(); ++i) { FCDCamera* k = d->GetCameraLibrary()->GetEntity(i); s.lengths[k] = { k->GetNearZ(), k->GetFarZ() }; bool ortho = k->GetProjectionType() == FCDCamera::ORTHOGRAPHIC; auto& v = ortho ? s.lengths[k] : s.same[k]; v.push_back(k->GetFovX()); v.push_back(k->GetFovY()); s.same[k].push_back(k->GetAspectRatio()); }
	return s;
}
static void compare(mc::Ctx& c, const char* when, const Seen& was, const Seen& is, const std::map<const void*, Conv>& how)
{
	auto k = [&](const char* w) { return string(w) + when; };
	for (const Node& n : was.nodes)
	{
		const Conv& v = how.at(n.n); const Node* o = NULL; for (const Node& x : is.nodes) if (x.n == n.n) o = &x; CHECK(o, k("node-lost"), "a node is gone"); M want = conj(v, n.local); bool free = n.kids == 0 && !n.inst.empty(); for (const Inst& i : n.inst) if (!i.pivots) free = false;
		if (!free) CHECK(near(o->local, want), k("node"), "the local transform is %s instead of %s; it was %s", show(o->local).c_str(), show(want).c_str(), show(n.local).c_str());
		for (const Inst& i : n.inst)
		{
			int found = 0; M at = ident(); for (const Inst& j : o->inst) if (j.e == i.e) { ++found; at = o->local; }
			for (size_t q = 0; q < n.n->GetChildrenCount(); ++q) { FCDSceneNode* kid = n.n->GetChild(q); bool old = false; for (const Node& x : was.nodes) if (x.n == kid) old = true; if (old) continue; for (const Node& x : is.nodes) if (x.n == kid) for (const Inst& j : x.inst) if (j.e == i.e) { ++found; at = mul(o->local, x.local); } }
			CHECK(found == 1, k("instances"), "%d instances of an entity that had one", found); M w = i.pivots ? mul(want, v.R) : want; CHECK(near(at, w), k(i.pivots ? "view" : "instance"), "the frame of an instance is %s instead of %s", show(at).c_str(), show(w).c_str());
		}
	}
	for (auto& p : was.points) { auto f = is.points.find(p.first); CHECK(f != is.points.end() && f->second.size() == p.second.size(), k("points"), "points are gone"); const Conv& v = how.at(p.first); for (size_t i = 0; i < p.second.size(); ++i) { V w = rot(v, p.second[i]); w.x *= v.s; w.y *= v.s; w.z *= v.s; CHECK(near(f->second[i], w), k("point"), "point %zu is %s instead of %s", i, show(f->second[i]).c_str(), show(w).c_str()); } }
	for (auto& p : was.dirs) { auto f = is.dirs.find(p.first); CHECK(f != is.dirs.end() && f->second.size() == p.second.size(), k("directions"), "directions are gone"); for (size_t i = 0; i < p.second.size(); ++i) { V w = rot(how.at(p.first), p.second[i]); CHECK(near(f->second[i], w), k("direction"), "direction %zu is %s instead of %s", i, show(f->second[i]).c_str(), show(w).c_str()); } }
	for (auto& p : was.mats) { auto f = is.mats.find(p.first); CHECK(f != is.mats.end() && f->second.size() == p.second.size(), k("matrices"), "matrices are gone"); for (size_t i = 0; i < p.second.size(); ++i) { M w = conj(how.at(p.first), p.second[i]); CHECK(near(f->second[i], w), k(i ? "joint" : "bind-shape"), "the matrix is %s instead of %s", show(f->second[i]).c_str(), show(w).c_str()); } }
	for (auto& p : was.lengths) { auto f = is.lengths.find(p.first); CHECK(f != is.lengths.end() && f->second.size() == p.second.size(), k("lengths"), "lengths are gone"); for (size_t i = 0; i < p.second.size(); ++i) CHECK(near(f->second[i], p.second[i] * how.at(p.first).s), k("length"), "length %zu is %g instead of %g", i, f->second[i], p.second[i] * how.at(p.first).s); }
	for (auto& p : was.same) { auto f = is.same.find(p.first); CHECK(f != is.same.end() && f->second == p.second, k("value"), "a value without a length or a direction changed"); }
}
static const float TIMES[] = { -1, 0, 0.25f, 0.75f, 1.5f };
static FMVector3 axisVector(int a) { return a == 0 ? FMVector3::XAxis : a == 1 ? FMVector3::YAxis : a == 2 ? FMVector3::ZAxis : FMVector3::Origin; }
template <class L> static void how(FCDocument*, L* l, int axis, double unit, std::map<const void*, Conv>& r, bool& any) { for (size_t i = 0; i < l->GetEntityCount(); ++i) { r[l->GetEntity(i)] = conv(says(l->GetEntity(i), l), axis, unit); any |= r[l->GetEntity(i)].any; } }
template <class L> static void told(mc::Ctx& c, L* l, const char* what, int axis, double unit) { for (size_t i = 0; i < l->GetEntityCount(); ++i) { Says s = says(l->GetEntity(i), l); CHECK(s.axis == axis && near(s.unit, unit), string("asset:") + what, "afterwards the up-axis is %d and the unit %g instead of %d and %g", s.axis, s.unit, axis, unit); } }
// One standardisation; the axis -1 and the unit 0 ask for those of the document.
static void standardise(mc::Ctx& c, vector<FCDocument*> ds, int axis, double unit, bool moving)
{
	Says base; add(base, ((const FCDocument*) ds[0])->GetAsset()); int a = axis >= 0 ? axis : base.axis >= 0 ? base.axis : 1; double u = unit > 0 ? unit : base.unit > 0 ? base.unit : 1; c.op("standardise: axis %d, unit %g", axis, unit); vector<vector<Seen>> was(ds.size()); vector<std::map<const void*, Conv>> h(ds.size()); bool any = false;
	for (size_t q = 0; q < ds.size(); ++q)
	{
		FCDocument* d = ds[q]; if (moving) for (float t : TIMES) was[q].push_back(see(d, &t)); else was[q].push_back(see(d, NULL)); for (FCDSceneNode* n : nodes(d)) { h[q][n] = conv(says(n, d->GetVisualSceneLibrary()), a, u); any |= h[q][n].any; }
		how(d, d->GetGeometryLibrary(), a, u, h[q], any); how(d, d->GetControllerLibrary(), a, u, h[q], any); how(d, d->GetCameraLibrary(), a, u, h[q], any);
	}
	FCDocumentTools::StandardizeUpAxisAndLength(ds[0], axisVector(axis), (float) unit);
	for (size_t q = 0; q < ds.size(); ++q)
	{
		FCDocument* d = ds[q]; compare(c, q ? ":elsewhere" : "", was[q].back(), see(d, NULL), h[q]); if (moving) for (size_t i = 0; i < was[q].size(); ++i) compare(c, ":moving", was[q][i], see(d, &TIMES[i]), h[q]);
		Says s; add(s, ((const FCDocument*) d)->GetAsset()); CHECK(s.axis == a && near(s.unit, u), "asset:document", "the document says axis %d, unit %g instead of %d, %g", s.axis, s.unit, a, u);
		for (FCDSceneNode* n : nodes(d)) { Says x = says(n, d->GetVisualSceneLibrary()); CHECK(x.axis == a && near(x.unit, u), "asset:node", "afterwards a node has the up-axis %d and the unit %g instead of %d and %g", x.axis, x.unit, a, u); } told(c, d->GetGeometryLibrary(), "geometry", a, u); for (size_t i = 0; i < d->GetControllerLibrary()->GetEntityCount(); ++i) if (d->GetControllerLibrary()->GetEntity(i)->IsSkin()) { Says x = says(d->GetControllerLibrary()->GetEntity(i), d->GetControllerLibrary()); CHECK(x.axis == a && near(x.unit, u), "asset:controller", "axis %d, unit %g", x.axis, x.unit); } told(c, d->GetCameraLibrary(), "camera", a, u);
	}
	// Once more changes nothing.
	string key, what, first = Dump::of(ds[0]); first = Dump::of(ds[0]); FCDocumentTools::StandardizeUpAxisAndLength(ds[0], axisVector(axis), (float) unit); if (textDiff(first, Dump::of(ds[0]), key, what)) c.fail("twice:" + key, "%s", what.c_str());
	c.state(first); if (any) c.nontrivial();
}
static void sequence(mc::Ctx& c, vector<FCDocument*> ds, int steps, bool moving, bool units = true) { for (int i = 0; i < steps; ++i) { int axis = i == 0 ? c.choose(4) - 1 : c.choose(3); double unit = units ? i == 0 ? c.pick<double>({ 0, 1, 4 }) : 0.5 : 0; standardise(c, ds, axis, unit, moving); } }
static void declare(FCDAsset* a, int axis, double unit) { if (axis >= 0) a->SetUpAxis(axisVector(axis)); if (unit > 0) a->SetUnitConversionFactor((float) unit); }
enum { TRANS, ROT, SCALE, SKEW, MATRIX, LOOK, KINDS };
static const FCDTransform::Type KIND[] = { FCDTransform::TRANSLATION, FCDTransform::ROTATION, FCDTransform::SCALE, FCDTransform::SKEW, FCDTransform::MATRIX, FCDTransform::LOOKAT };
static FCDTransform* put(FCDSceneNode* n, int kind, int v = 0)
{
	FCDTransform* t = n->AddTransform(KIND[kind]);
	switch (kind)
	{
	case TRANS: ((FCDTTranslation*) t)->SetTranslation(1, v ? -2.0f : 3, 5); break; case ROT: if (v == 0) ((FCDTRotation*) t)->SetRotation(FMVector3(0.6f, -0.8f, 0), 40); else ((FCDTRotation*) t)->SetRotation(v == 1 ? FMVector3::XAxis : FMVector3::ZAxis, v == 1 ? -90.0f : 90.0f); break; case SCALE: ((FCDTScale*) t)->SetScale(2, v ? 1.0f : 0.5f, 3); break;
	case SKEW: { FMSkew k; k.rotateAxis = FMVector3(1, 0, 0); k.aroundAxis = v ? FMVector3(0, 0, 1) : FMVector3(0, 1, 0); k.angle = 30; ((FCDTSkew*) t)->SetSkew(k); break; }
	case MATRIX: { FMMatrix44 m = FMMatrix44::TranslationMatrix(FMVector3(1, 2, 3)) * FMMatrix44::AxisRotationMatrix(FMVector3(0.8f, 0, 0.6f), 0.7f) * FMMatrix44::ScaleMatrix(FMVector3(1, 2, 4)); ((FCDTMatrix*) t)->SetTransform(m); break; }
	default: ((FCDTLookAt*) t)->SetPosition(1, 2, 3); ((FCDTLookAt*) t)->SetTarget(4, v ? 1.0f : -1, 2); ((FCDTLookAt*) t)->SetUp(0, 0.6f, 0.8f); break;
	}
	return t;
}
static FCDGeometry* mesh(FCDocument* d, GI::Semantic extra = GI::NORMAL, uint32 stride = 3)
{
	FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* s = m->AddVertexSource(GI::POSITION); FloatList l, e; for (int i = 0; i < 9; ++i) l.push_back((float) (i * i % 7) - 2); for (uint32 i = 0; i < 3 * stride; ++i) e.push_back((float) (i % 4) * 0.25f); s->SetData(l, 3); FCDGeometrySource* x = m->AddSource(extra); x->SetData(e, stride);
	FCDGeometryPolygons* p = m->AddPolygons(); FCDGeometryPolygonsInput* in = p->FindInput(s); if (!in) in = p->AddInput(s, 0); FCDGeometryPolygonsInput* jn = p->AddInput(x, 1); p->AddFaceVertexCount(3); for (int i = 0; i < 3; ++i) { in->AddIndex(i); jn->AddIndex(i); } m->Recalculate(); return g;
}
static const char* KINDNAME[] = { "translation", "rotation", "scale", "skew", "matrix", "look-at" };
SPACE(transforms, 3)
{
	Doc d = top(); int axis = c.choose(3); double unit = c.pick<double>({ 1, 0.5 }); declare(d->GetAsset(), axis, unit); FCDSceneNode* a = d->AddVisualScene()->AddChildNode(), *b = a->AddChildNode(); int n = c.range(1, c.deep ? 3 : 2); string s; for (int i = 0; i < n; ++i) { int k = c.choose(KINDS), v = i == 0 || c.deep ? c.choose(k == ROT ? 3 : k == MATRIX ? 1 : 2) : 0; put(i == 1 ? b : a, k, v); s += mc::strf(" %s/%d", KINDNAME[k], v); } b->AddInstance(mesh(d)); c.op("axis %d, unit %g,%s", axis, unit, s.c_str()); sequence(c, { d }, 2, false);
}
// Assets at every level.
static void level(mc::Ctx& c, FCDAsset* a, int what, int axis, double unit) { if (what & 1) declare(a, axis, 0); if (what & 2) declare(a, -1, unit); if (what == 0) a->SetTitle(FC("says nothing")); (void) c; }
SPACE(assets, 3)
{
	Doc d = top(); int doc = c.choose(4), lib = c.choose(5), root = c.choose(5), mid = c.choose(5), own = c.choose(c.deep ? 5 : 3); if (own == 2 && !c.deep) own = 3; c.op("document %d, libraries %d, scene %d, node %d, the others %d (0 nothing, 1 axis, 2 unit, 3 both, 4 no asset)", doc, lib, root, mid, own);
	if (doc) level(c, d->GetAsset(), doc, 0, 0.25); FCDSceneNode* r = d->AddVisualScene(), *a = r->AddChildNode(), *b = a->AddChildNode(), *o = r->AddChildNode(); for (FCDSceneNode* n : { r, a, b, o }) { put(n, TRANS); put(n, ROT); } FCDGeometry* g = mesh(d); b->AddInstance(g); FCDCamera* k = d->GetCameraLibrary()->AddEntity(); k->SetNearZ(1); k->SetFarZ(10); o->AddInstance(k); FCDController* q = d->GetControllerLibrary()->AddEntity(); FCDSkinController* sk = q->CreateSkinController(); sk->SetTarget(g); sk->SetBindShapeTransform(FMMatrix44::TranslationMatrix(FMVector3(1, 2, 3)));
	if (lib < 4) { level(c, d->GetVisualSceneLibrary()->GetAsset(), lib, 2, 0.5); level(c, d->GetGeometryLibrary()->GetAsset(), lib, 2, 0.5); level(c, d->GetCameraLibrary()->GetAsset(), lib, 2, 0.5); level(c, d->GetControllerLibrary()->GetAsset(), lib, 2, 0.5); } if (root < 4) level(c, r->GetAsset(), root, 1, 2); if (mid < 4) level(c, a->GetAsset(), mid, 2, 8); if (own < 4) { level(c, g->GetAsset(), own, 1, 16); level(c, k->GetAsset(), own, 0, 16); level(c, q->GetAsset(), own, 2, 16); }
	standardise(c, { d }, c.choose(3), c.pick<double>({ 1, 0.125 }), false);
}
// Views: cameras, lights and others that look along an axis of their own.
SPACE(views, 4)
{
	Doc d = top(); int axis = c.choose(3); declare(d->GetAsset(), axis, 1); FCDSceneNode* r = d->AddVisualScene(), *n = r->AddChildNode(); int t = c.choose(KINDS + 3), v = 0; if (t >= KINDS + 2) t = -1; else if (t >= KINDS) { v = t - KINDS + 1; t = ROT; } put(n, TRANS); if (t >= 0) put(n, t, v); int set = c.range(1, c.deep ? 31 : 15); bool kid = c.flag();
	if (kid) put(n->AddChildNode(), TRANS, 1); if (set & 1) n->AddInstance(d->GetCameraLibrary()->AddEntity()); if (set & 2) n->AddInstance(d->GetLightLibrary()->AddEntity()); if (set & 4) n->AddInstance(mesh(d)); if (set & 8) n->AddInstance(d->GetEmitterLibrary()->AddEntity()); if (set & 16) n->AddInstance(d->GetForceFieldLibrary()->AddEntity()); c.op("axis %d, %s/%d, instances %d%s", axis, t < 0 ? "nothing" : KINDNAME[t], v, set, kid ? ", a child" : ""); sequence(c, { d }, c.deep ? 4 : 3, false, false);
}
static void keys(FCDAnimationCurve* k, int kind, float base)
{
	for (int i = 0; i < 2; ++i) { FCDAnimationKey* y = k->AddKey(kind == 1 ? FUDaeInterpolation::BEZIER : kind == 2 ? FUDaeInterpolation::STEP : FUDaeInterpolation::LINEAR); y->input = (float) i; y->output = base + 2 * i; if (kind == 1) { FCDAnimationKeyBezier* b = (FCDAnimationKeyBezier*) y; b->inTangent = FMVector2(i - 0.3f, base - 1); b->outTangent = FMVector2(i + 0.3f, base + 3); } }
}
static void animate(mc::Ctx& c, FCDocument* d, FCDAnimated* a, uint32 which, int kind, bool own) { CHECK(a, "no-animated", "the value cannot be animated"); FCDAnimation* q = d->GetAnimationLibrary()->AddEntity(); FCDAnimationChannel* ch = q->AddChannel(); for (size_t i = 0; i < a->GetValueCount(); ++i) if (which >> i & 1) { if (own) ch = q->AddChannel(); FCDAnimationCurve* k = ch->AddCurve(); keys(k, kind, (float) (i + 1) * (i % 2 ? -1 : 1)); a->AddCurve(i, k); } }
SPACE(moving, 3)
{
	Doc d = top(); int axis = c.choose(3); declare(d->GetAsset(), axis, 0.5); FCDSceneNode* n = d->AddVisualScene()->AddChildNode(); n->AddInstance(mesh(d)); int kind = c.choose(KINDS), curve = c.choose(3); bool own = c.flag(); uint32 which; FCDAnimated* a; FCDTransform* t = put(n, kind);
	switch (kind)
	{
	case TRANS: a = ((FCDTTranslation*) t)->GetTranslation().GetAnimated(); which = 1 + c.choose(7); break; case ROT: a = ((FCDTRotation*) t)->GetAngleAxis().GetAnimated(); which = 8; break; case SCALE: a = ((FCDTScale*) t)->GetScale().GetAnimated(); which = 1 + c.choose(7); break;
	case SKEW: a = ((FCDTSkew*) t)->GetSkew().GetAnimated(); which = 64; break; case LOOK: a = ((FCDTLookAt*) t)->GetLookAt().GetAnimated(); which = c.deep ? 1 + c.choose(511) : c.pick<uint32>({ 1, 2, 4, 7, 8, 16, 32, 56, 64, 128, 256, 0x1ff, 0x111 }); break;
	default: a = ((FCDTMatrix*) t)->GetTransform().GetAnimated(); { int i = c.choose(18); which = i < 12 ? 1u << i : i == 12 ? 0x0fff : i == 13 ? 0x0888 : i == 14 ? 0x0007 : i == 15 ? 0x0111 : i == 16 ? 0x0421 : 0x0252; } break;
	}
	c.op("axis %d, a moving %s: components %x, keys %d%s", axis, KINDNAME[kind], which, curve, own ? ", a channel each" : ""); animate(c, d, a, which, curve, own); sequence(c, { d }, 2, true);
}
// A rotation that moves may not be taken for the one which a pivot undoes.
SPACE(movingViews, 3)
{
	Doc d = top(); int axis = c.choose(3), turn = c.choose(6), curve = c.choose(3), set = c.pick<int>({ 1, 2, 3, 5 }); declare(d->GetAsset(), axis, 1); FCDSceneNode* n = d->AddVisualScene()->AddChildNode(); bool two = c.flag(); if (two) put(n, TRANS);
	if (set & 1) n->AddInstance(d->GetCameraLibrary()->AddEntity()); if (set & 2) n->AddInstance(d->GetLightLibrary()->AddEntity()); if (set & 4) n->AddInstance(mesh(d));
	FCDTRotation* t = (FCDTRotation*) n->AddTransform(FCDTransform::ROTATION); t->SetRotation(turn / 2 == 0 ? FMVector3::XAxis : turn / 2 == 1 ? FMVector3::YAxis : FMVector3::ZAxis, turn & 1 ? -90.0f : 90.0f); c.op("axis %d, instances %d after a moving rotation %d, keys %d%s", axis, set, turn, curve, two ? ", a translation" : ""); FCDAnimationCurve* q = d->GetAnimationLibrary()->AddEntity()->AddChannel()->AddCurve(); float last = turn & 1 ? -90.0f : 90.0f; if (curve == 2) q->AddKey(FUDaeInterpolation::LINEAR)->output = last; else for (int i = 0; i < 2; ++i) { FCDAnimationKey* k = q->AddKey(FUDaeInterpolation::LINEAR); k->input = (float) i; k->output = i ? last : curve ? 30.0f : -last; } t->GetAngleAxis().GetAnimated()->AddCurve(3, q); sequence(c, { d }, 2, true, false);
}
SPACE(movingMeshes, 3)
{
	Doc d = top(); int axis = c.choose(3); declare(d->GetAsset(), axis, 0.5); FCDGeometry* g = mesh(d); d->AddVisualScene()->AddInstance(g); int src = c.choose(2), curve = c.choose(2); uint32 which = c.deep ? 1 + c.choose(511) : c.pick<uint32>({ 1, 2, 4, 7, 8, 16, 32, 56, 64, 128, 256, 448, 511, 273, 84, 3 }); FCDGeometrySource* s = g->GetMesh()->GetSource(src); FCDAnimation* q = d->GetAnimationLibrary()->AddEntity();
	for (int i = 0; i < 9; ++i) if (which >> i & 1) { FCDAnimationCurve* k = q->AddChannel()->AddCurve(); keys(k, curve, (float) i - 3); FCDAnimated* a = s->GetSourceData().GetAnimated(i); CHECK(a && a->GetValueCount() == 1, "no-animated", "the value cannot be animated"); a->AddCurve(0, k); }
	c.op("axis %d, moving %s: %x, keys %d", axis, src ? "normals" : "positions", which, curve); sequence(c, { d }, 2, true);
}
SPACE(cameras, 2)
{
	Doc d = top(); int axis = c.choose(4) - 1; double unit = c.pick<double>({ 0, 1, 0.5 }); declare(d->GetAsset(), axis, unit); FCDCamera* k = d->GetCameraLibrary()->AddEntity(); bool ortho = c.flag(); k->SetProjectionType(ortho ? FCDCamera::ORTHOGRAPHIC : FCDCamera::PERSPECTIVE); int look = c.choose(3); if (look != 1) k->SetFovX(40); if (look != 0) k->SetFovY(30); k->SetNearZ(1); k->SetFarZ(100); d->AddVisualScene()->AddInstance(k); int which = c.choose(16), curve = c.choose(2); FCDParameterAnimatableFloat* all[] = { &k->GetNearZ(), &k->GetFarZ(), &k->GetFovX(), &k->GetFovY() }; for (int i = 0; i < 4; ++i) if (which >> i & 1) animate(c, d, all[i]->GetAnimated(), 1, curve, false);
	c.op("axis %d, unit %g, %s, %d, moving %x, keys %d", axis, unit, ortho ? "orthographic" : "perspective", look, which, curve); sequence(c, { d }, 2, which != 0);
}
SPACE(geometries, 2)
{
	Doc d = top(); int axis = c.choose(4) - 1; double unit = c.pick<double>({ 0, 0.5 }); declare(d->GetAsset(), axis, unit); int kind = c.choose(3); FCDSceneNode* r = d->AddVisualScene(); string s;
	if (kind == 0) { GI::Semantic t = c.pick<GI::Semantic>({ GI::NORMAL, GI::GEOTANGENT, GI::GEOBINORMAL, GI::TEXTANGENT, GI::TEXBINORMAL, GI::TEXCOORD, GI::COLOR, GI::EXTRA, GI::POINT_SIZE, GI::UV }); uint32 stride = (uint32) c.range(2, 4); r->AddInstance(mesh(d, t, stride)); s = mc::strf("mesh with %d by %u", (int) t, stride); }
	else if (kind == 1) { FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometrySpline* p = g->CreateSpline(); int n = c.range(1, 2), type = c.choose(3); p->SetType((FUDaeSplineType::Type) (FUDaeSplineType::LINEAR + type)); for (int i = 0; i < n; ++i) { FCDSpline* x = p->AddSpline((FUDaeSplineType::Type) (FUDaeSplineType::LINEAR + type)); if (!x) c.prune(); for (int j = 0; j < 4; ++j) { FMVector3 v((float) j, 2.0f * i - 1, 3.0f - j * j); if (type == 2) ((FCDNURBSSpline*) x)->AddCV(v, 1.5f); else if (type == 1) ((FCDBezierSpline*) x)->AddCV(v); else ((FCDLinearSpline*) x)->AddCV(v); } } r->AddInstance(g); s = mc::strf("%d splines of type %d", n, type); }
	else { FCDController* q = d->GetControllerLibrary()->AddEntity(); FCDSkinController* k = q->CreateSkinController(); k->SetTarget(mesh(d)); int shape = c.choose(3), n = c.choose(3); FMMatrix44 m = FMMatrix44::TranslationMatrix(FMVector3(1, -2, 3)) * FMMatrix44::AxisRotationMatrix(FMVector3(0.8f, 0, 0.6f), 0.7f); if (shape == 2) m = m * FMMatrix44::ScaleMatrix(FMVector3(2, 1, 0.5f)); if (shape) k->SetBindShapeTransform(m); for (int i = 0; i < n; ++i) k->AddJoint(i ? "b" : "a", i ? m : FMMatrix44::TranslationMatrix(FMVector3(0, 1, 2))); r->AddInstance(q); s = mc::strf("skin %d with %d joints", shape, n); }
	c.op("axis %d, unit %g, %s", axis, unit, s.c_str()); sequence(c, { d }, c.deep ? 3 : 2, false);
}
SPACE(documents, 2)
{
	Doc d = top(), e = top(), f = top(); int a[3]; for (int i = 0; i < 3; ++i) a[i] = c.choose(3); int chain = c.choose(3); d->SetFileUrl(FC("file:///a/one.dae")); e->SetFileUrl(FC("file:///a/two.dae")); f->SetFileUrl(FC("file:///a/three.dae")); declare(d->GetAsset(), a[0], 1); declare(e->GetAsset(), a[1], 0.5); declare(f->GetAsset(), a[2], 2); FCDSceneNode* r = d->AddVisualScene(); put(r, TRANS); FCDGeometry* g = mesh(e), *h = mesh(f); r->AddInstance(g); FCDSceneNode* q = e->AddVisualScene(); put(q, TRANS, 1); if (chain == 0) r->AddInstance(h); else q->AddInstance(h); if (chain == 2) f->AddVisualScene()->AddInstance(mesh(d)); c.op("axes %d %d %d, %s", a[0], a[1], a[2], chain == 0 ? "both referenced" : chain == 1 ? "one after the other" : "in a circle");
	vector<FCDocument*> all = { d, e, f }; standardise(c, all, c.choose(4) - 1, c.pick<double>({ 0, 1, 4 }), false);
}
SPACE(shared, 2)
{
	// A node under two parents and one that is instantiated are converted once.
	Doc d = top(); int axis = c.choose(3); declare(d->GetAsset(), axis, 0.5); FCDSceneNode* r = d->AddVisualScene(), *p = r->AddChildNode(), *q = r->AddChildNode(), *n = p->AddChildNode(); for (FCDSceneNode* x : { p, q, n }) { put(x, TRANS); put(x, ROT); } int how = c.choose(4); if (how & 1) q->AddChildNode(n); if (how & 2) q->AddInstance(n); n->AddInstance(mesh(d)); int two = c.choose(3); if (two) { FCDSceneNode* r2 = d->AddVisualScene(); put(r2, TRANS, 1); if (two == 1) r2->AddChildNode(n); else r2->AddInstance(n); } c.op("axis %d, shared %d, scenes %d", axis, how, two); sequence(c, { d }, 3, false);
}
