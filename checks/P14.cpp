// P14: skins, morphs and skeletons keep their weights, joints and targets.
#include <map>
#include <set>
#include <cmath>
#include <algorithm>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FMath/FMMatrix44.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDControllerTools.h"
#include "FCDocument/FCDSkinController.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDSceneNode.h"
#include "mc.h"
const char* mc::property = "P14"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of edits of skins, morphs and joint lists up to a bound, every list of weights over a small set of values, every small mesh with its unique indices; a case is non-trivial when influences, joints or targets were compared";
std::vector<std::string> mc::assumptions = { "weights are not negative", "of equal weights, any may be kept", "a skin that changes to a base with another number of vertices may report it with an assertion", "a joint is listed once" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); (*kept)->AddVisualScene(); }, true);
namespace {
// what a base or a target may be
struct World
{
	FCDocument* d; vector<FCDEntity*> e; vector<bool> live; vector<FCDController*> own; vector<FUTrackedPtr<FCDEntity>> watch; // a geometry that nothing but one morph target refers to goes with it
	enum { MESH2, MESH2B, MESH3, SPLINE3, SPLINE2, EMPTY, SKIN_ON_2, MORPH_ON_3, NOTHING_ON, CAMERA, ENTITIES };
	static const char* name(int k) { static const char* N[] = { "mesh of 2", "other mesh of 2", "mesh of 3", "spline of 3", "spline of 2", "geometry without data", "skin on the mesh of 2", "morph on the mesh of 3", "controller without type", "camera", "nothing" }; return N[k]; }
	FCDGeometry* mesh(size_t n) { FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometrySource* s = g->CreateMesh()->AddVertexSource(FUDaeGeometryInput::POSITION); s->SetData(FloatList(n * 3, 1.0f), 3); return g; }
	FCDGeometry* spline(size_t n) { FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometrySpline* gs = g->CreateSpline(); gs->SetType(FUDaeSplineType::LINEAR); FCDSpline* s = gs->AddSpline(FUDaeSplineType::LINEAR); for (size_t i = 0; i < n; ++i) { if (i == 2) s = gs->AddSpline(FUDaeSplineType::LINEAR); s->GetCVs().push_back(FMVector3((float) i, 0, 0)); } return g; }
	World(bool watched = true) { d = *kept; e = { mesh(2), mesh(2), mesh(3), spline(3), spline(2), d->GetGeometryLibrary()->AddEntity() }; FCDController* c = d->GetControllerLibrary()->AddEntity(); c->CreateSkinController()->SetTarget(e[MESH2]); e.push_back(c); c = d->GetControllerLibrary()->AddEntity(); c->CreateMorphController()->SetBaseTarget(e[MESH3]); e.push_back(c); e.push_back(d->GetControllerLibrary()->AddEntity()); e.push_back(d->GetCameraLibrary()->AddEntity()); live.assign(e.size(), true); if (watched) { watch.resize(e.size()); for (size_t i = 0; i < e.size(); ++i) watch[i] = e[i]; } }
	~World() { for (auto c : own) c->Release(); for (size_t i = e.size(); i > 0; --i) if (live[i - 1]) e[i - 1]->Release(); }
	FCDController* controller() { FCDController* c = d->GetControllerLibrary()->AddEntity(); own.push_back(c); return c; }
	void release(int k) { live[k] = false; e[k]->Release(); }
	FCDEntity* at(int k) { return k == ENTITIES ? NULL : e[k]; }
	// the geometry under an entity
	int base(int k) const { if (k < 0 || k >= ENTITIES || !live[k]) return -1; if (k == SKIN_ON_2) return live[MESH2] ? (int) MESH2 : -1; if (k == MORPH_ON_3) return live[MESH3] ? (int) MESH3 : -1; return k <= EMPTY ? k : -1; }
	int kind(int k) const { int b = base(k); return b < 0 ? -1 : b <= MESH3 ? 1 : b <= SPLINE2 ? 2 : 0; }
	size_t count(int k) const { int b = base(k); return b == MESH2 || b == MESH2B || b == SPLINE2 ? 2 : b == MESH3 || b == SPLINE3 ? 3 : 0; }
	bool similar(int a, int b) const { return kind(a) > 0 && kind(a) == kind(b) && count(a) == count(b); }
};
typedef vector<std::pair<int, float>> Pairs;
}
// ---------------------------------------------------------------- the skin
SPACE(skin, 4)
{
	World w; FCDController* c0 = w.controller(); FCDSkinController* s = c0->CreateSkinController(); CHECK(c0->IsSkin() && !c0->IsMorph() && c0->GetSkinController() == s && s->GetParent() == c0, "skin:create", "."); int target = -1; vector<Pairs> inf; vector<std::pair<string, float>> joints; size_t bound = c.deep ? 5 : 4; float next = 0.125f;
	for (size_t step = 0; step < bound; ++step)
	{
		int o = c.choose(9); if (o == 0) break; size_t v = inf.empty() ? 0 : step % inf.size();
		if (o == 1) { int k = c.choose(World::ENTITIES + 1); if (k < World::ENTITIES && !w.live[k]) c.prune(); c.op("set the target to the %s", World::name(k)); int nb = w.base(k); if (nb >= 0 && !inf.empty() && inf.size() != w.count(k)) c.tolerateAsserts = true; s->SetTarget(w.at(k)); target = w.kind(k) >= 0 ? k : -1; if (target >= 0) inf.resize(w.count(k)); }
		if (o == 2) { size_t n = (size_t) c.choose(4); c.op("%d influences", (int) n); s->SetInfluenceCount(n); inf.resize(n); }
		if (o == 3) { if (inf.empty()) c.prune(); int j = c.choose(3) - 1; next += 0.125f; c.op("add joint %d to vertex %d", j, (int) v); s->GetVertexInfluence(v)->AddPair(j, next); inf[v].push_back({ j, next }); }
		if (o == 4) { if (inf.empty()) c.prune(); size_t n = (size_t) c.choose(3); c.op("%d pairs at vertex %d", (int) n, (int) v); s->GetVertexInfluence(v)->SetPairCount(n); inf[v].resize(n, { -1, 0.0f }); }
		if (o == 5) { next += 0.125f; string id = c.flag() ? mc::strf("bone%d", (int) step) : "bone"; c.op("add joint %s", id.c_str()); FMMatrix44 m = FMMatrix44::Identity; m[3][0] = next; FCDSkinControllerJoint* j = s->AddJoint(id.c_str(), m); CHECK(j == s->GetJoint(s->GetJointCount() - 1), "skin:add-joint", "."); joints.push_back({ id, next }); }
		if (o == 6) { size_t n = (size_t) c.choose(3); c.op("%d joints", (int) n); s->SetJointCount(n); for (size_t i = joints.size(); i < n; ++i) { next += 0.125f; FMMatrix44 m = FMMatrix44::Identity; m[3][0] = next; CHECK(s->GetJoint(i)->GetId().empty(), "skin:new-joint", "."); s->GetJoint(i)->SetId("late"); s->GetJoint(i)->SetBindPoseInverse(m); } size_t old = joints.size(); joints.resize(n, { "late", 0.0f }); for (size_t i = old; i < n; ++i) joints[i].second = s->GetJoint(i)->GetBindPoseInverse()[3][0]; }
		if (o == 7) { int k = c.choose(World::ENTITIES); if (!w.live[k]) c.prune(); c.op("release the %s", World::name(k)); w.release(k); if (target == k) target = -1; }
		if (o == 8) { next += 0.125f; FMMatrix44 m = FMMatrix44::Identity; m[3][1] = next; c.op("bind shape"); s->SetBindShapeTransform(m); CHECK(s->GetBindShapeTransform()[3][1] == next, "skin:bind", "."); if (!inf.empty() && !inf[v].empty()) { s->GetVertexInfluence(v)->GetPair(0)->weight = next; inf[v][0].second = next; } }
		FCDEntity* want = target < 0 ? NULL : w.e[target]; CHECK(s->GetTarget() == want, "skin:target", "the target is %s, should be %s", s->GetTarget() ? s->GetTarget()->GetDaeId().c_str() : "nothing", target < 0 ? "nothing" : World::name(target)); CHECK(c0->GetBaseTarget() == want, "skin:base", "."); int b = w.base(target); CHECK(c0->GetBaseGeometry() == (b < 0 ? NULL : w.e[b]), "skin:geometry", "."); if (b >= 0) CHECK(c0->GetBaseGeometryController() == (target == b ? c0 : w.e[target]), "skin:geometry-controller", "."); if (want) CHECK(strcmp(fm::string(TO_STRING(s->GetTargetUri().GetFragment())).c_str(), want->GetDaeId().c_str()) == 0, "skin:uri", "%s", s->GetTargetUri().GetFragment().c_str());
		CHECK(s->GetInfluenceCount() == inf.size(), "skin:count", "%d influences, should be %d", (int) s->GetInfluenceCount(), (int) inf.size()); CHECK((s->GetVertexInfluences() == NULL) == inf.empty(), "skin:list", "."); for (size_t i = 0; i < inf.size(); ++i) { FCDSkinControllerVertex* x = s->GetVertexInfluence(i); CHECK(x == s->GetVertexInfluences() + i && x->GetPairCount() == inf[i].size(), "skin:pairs", "vertex %d has %d pairs, should have %d", (int) i, (int) x->GetPairCount(), (int) inf[i].size()); for (size_t k = 0; k < inf[i].size(); ++k) CHECK(x->GetPair(k)->jointIndex == inf[i][k].first && x->GetPair(k)->weight == inf[i][k].second, "skin:pair", "vertex %d", (int) i); }
		CHECK(s->GetJointCount() == joints.size(), "skin:joints", "%d joints, should be %d", (int) s->GetJointCount(), (int) joints.size()); for (size_t i = 0; i < joints.size(); ++i) { CHECK(s->GetJoint(i) == s->GetJoints() + i && joints[i].first == s->GetJoint(i)->GetId().c_str(), "skin:joint-id", "joint %d is %s", (int) i, s->GetJoint(i)->GetId().c_str()); CHECK(s->GetJoint(i)->GetBindPoseInverse()[3][0] == joints[i].second, "skin:joint-pose", "joint %d", (int) i); }
		c.state(mc::strf("%d %d %d", target, (int) inf.size(), (int) joints.size()));
	}
	c.checkAsserts("the edits of a skin"); c.nontrivial();
}
// ---------------------------------------------------------------- reducing influences
SPACE(reduce, 5)
{
	// the weights of one vertex; its neighbours have one influence and none
	static const vector<float> W = { 0.5f, 0.25f, 0.125f, 1.0f, 0.0f, 0.3f }; int n = c.range(0, c.deep ? 6 : 5); size_t values = n > 4 && !c.deep ? 4 : W.size(); FCDController* e = (*kept)->GetControllerLibrary()->AddEntity(); struct Rel { FUObject* o; ~Rel() { o->Release(); } } rel{ e }; FCDSkinController* s = e->CreateSkinController(); s->SetInfluenceCount(3); Pairs in; string t; s->GetVertexInfluence(0)->AddPair(7, 0.75f); for (int i = 0; i < n; ++i) { float x = W[(size_t) c.choose((int) values)]; in.push_back({ i, x }); s->GetVertexInfluence(1)->AddPair(i, x); t += mc::strf(" %g", x); } uint32 max = (uint32) c.pick(vector<int>{ 0, 1, 2, 3, 4, 100 }); float min = c.pick(vector<float>{ 0.0f, 0.2f, 0.25f, 2.0f }); c.op("reduce%s to %u and %g", t.c_str(), max, min); s->ReduceInfluences(max, min);
	CHECK(s->GetInfluenceCount() == 3 && s->GetVertexInfluence(2)->GetPairCount() == 0, "reduce:others", "."); bool k0 = max > 0 && 0.75f >= min; CHECK(s->GetVertexInfluence(0)->GetPairCount() == (k0 ? 1 : 0) && (!k0 || (s->GetVertexInfluence(0)->GetPair(0)->weight == 0.75f && s->GetVertexInfluence(0)->GetPair(0)->jointIndex == 7)), "reduce:others", ".");
	vector<float> keep; double total = 0; for (auto& p : in) { total += p.second; if (p.second >= min) keep.push_back(p.second); } std::sort(keep.rbegin(), keep.rend()); if (keep.size() > max) keep.resize(max); FCDSkinControllerVertex* v = s->GetVertexInfluence(1); CHECK(v->GetPairCount() == keep.size(), "reduce:count", "%d influences, should be %d", (int) v->GetPairCount(), (int) keep.size()); double sum = 0, kept = 0; for (auto x : keep) kept += x; bool same = keep.size() == in.size(); double f = same || kept == 0 ? 1 : total / kept; std::set<int> seen; vector<float> got;
	for (size_t i = 0; i < keep.size(); ++i) { FCDJointWeightPair* p = v->GetPair(i); CHECK(p->jointIndex >= 0 && p->jointIndex < n && seen.insert(p->jointIndex).second, "reduce:joint", "joint %d", p->jointIndex); float was = in[(size_t) p->jointIndex].second; got.push_back(was); CHECK(std::isfinite(p->weight) && std::fabs(p->weight - was * f) <= 1e-5, "reduce:weight", "joint %d has weight %g, should have %g", p->jointIndex, p->weight, was * f); sum += p->weight; if (same) CHECK(p->jointIndex == (int) i && p->weight == was, "reduce:unchanged", "."); } std::sort(got.rbegin(), got.rend()); CHECK(got == keep, "reduce:largest", "others than the largest weights were kept"); if (kept > 0) CHECK(std::fabs(sum - total) < 1e-5, "reduce:sum", "the sum is %g, should be %g", sum, total);
	c.state((int) keep.size()); c.checkAsserts("the reduction"); c.nontrivial();
}
// ---------------------------------------------------------------- the morph
SPACE(morph, 5)
{
	bool watched = c.flag(); World w(watched); FCDController* c0 = w.controller(); FCDMorphController* m = c0->CreateMorphController(); CHECK(!c0->IsSkin() && c0->IsMorph() && c0->GetMorphController() == m && m->GetParent() == c0, "morph:create", "."); struct T { int g; float weight; FCDMorphTarget* p; }; vector<T> ts; int base = -1; float next = 0; size_t bound = c.deep ? 5 : 4;
	auto acceptable = [&](int k) { return base < 0 || w.similar(base, k); };
	for (size_t step = 0; step < bound; ++step)
	{
		int o = c.choose(7); if (o == 0) break; if (o == 1) { int k = c.choose(World::ENTITIES + 1); if (k < World::ENTITIES && !w.live[k]) c.prune(); c.op("set the base to the %s", World::name(k)); m->SetBaseTarget(w.at(k)); base = w.kind(k) >= 0 ? k : -1; vector<T> r; for (auto& t : ts) if (base >= 0 && t.g >= 0 && w.similar(base, t.g)) r.push_back(t); ts = r; }
		if (o == 2) { int k = c.choose(World::EMPTY + 1); if (!w.live[k]) c.prune(); next += 0.25f; c.op("add the %s", World::name(k)); FCDMorphTarget* t = m->AddTarget((FCDGeometry*) w.e[k], next); CHECK((t != NULL) == acceptable(k), "morph:accept", "the %s is %s on the %s", World::name(k), t ? "accepted" : "refused", base < 0 ? "nothing" : World::name(base)); if (t) ts.push_back({ k, next, t }); }
		if (o == 3) { if (ts.empty()) c.prune(); size_t i = (size_t) c.choose((int) ts.size()); int k = c.choose(World::EMPTY + 1); if (!w.live[k]) c.prune(); c.op("target %d becomes the %s", (int) i, World::name(k)); int old = ts[i].g; int others = watched || old < 0 ? 1 : (base == old) + (old == World::MESH2 && w.live[World::SKIN_ON_2]) + (old == World::MESH3 && w.live[World::MORPH_ON_3]); for (size_t x = 0; x < ts.size(); ++x) others += x != i && ts[x].g == old; ts[i].p->SetGeometry((FCDGeometry*) w.e[k]); if (!others && old != k) { w.live[old] = false; ts[i].g = -1; } if (acceptable(k)) ts[i].g = k; }
		if (o == 4) { if (ts.empty()) c.prune(); size_t i = (size_t) c.choose((int) ts.size()); c.op("release target %d", (int) i); ts[i].p->Release(); ts.erase(ts.begin() + i); }
		if (o == 5) { int k = c.choose(World::ENTITIES); if (!w.live[k]) c.prune(); c.op("release the %s", World::name(k)); w.release(k); if (base == k) base = -1; for (auto& t : ts) if (t.g == k) t.g = -1; }
		if (o == 6) { if (ts.empty()) c.prune(); next += 0.25f; ts[0].p->SetWeight(next); ts[0].weight = next; m->SetMethod(FUDaeMorphMethod::RELATIVE); CHECK(m->GetMethod() == FUDaeMorphMethod::RELATIVE, "morph:method", "."); c.op("weight"); }
		CHECK(m->GetBaseTarget() == (base < 0 ? NULL : w.e[base]) && c0->GetBaseTarget() == m->GetBaseTarget(), "morph:base", "the base is %s, should be %s", m->GetBaseTarget() ? m->GetBaseTarget()->GetDaeId().c_str() : "nothing", base < 0 ? "nothing" : World::name(base)); int b = w.base(base); CHECK(c0->GetBaseGeometry() == (b < 0 ? NULL : w.e[b]), "morph:geometry", "."); CHECK(m->GetTargetCount() == ts.size(), "morph:count", "%d targets, should be %d", (int) m->GetTargetCount(), (int) ts.size()); for (size_t i = 0; i < ts.size(); ++i) { FCDMorphTarget* t = m->GetTarget(i); CHECK(t == ts[i].p && t->GetParent() == m, "morph:order", "target %d", (int) i); CHECK(t->GetGeometry() == (ts[i].g < 0 ? NULL : w.e[ts[i].g]), "morph:target", "target %d is %s, should be %s", (int) i, t->GetGeometry() ? t->GetGeometry()->GetDaeId().c_str() : "nothing", ts[i].g < 0 ? "nothing" : World::name(ts[i].g)); CHECK(*t->GetWeight() == ts[i].weight, "morph:weight", "target %d", (int) i); }
		for (int k = 0; k < World::ENTITIES; ++k) if (w.live[k]) CHECK(m->IsSimilar(w.e[k]) == (base >= 0 && w.similar(base, k)), "morph:similar", "the %s and the %s", World::name(k), base < 0 ? "nothing" : World::name(base)); c.state(mc::strf("%d %d", base, (int) ts.size()));
	}
	c.checkAsserts("the edits of a morph"); c.nontrivial();
}
// the kind of a controller changes
SPACE(kinds, 2)
{
	World w; FCDController* a = w.controller(); FCDController* over = w.controller(); over->CreateSkinController()->SetTarget(w.e[World::MESH2]); int kind = 0, target = -1; for (int step = 0; step < 5; ++step) { int o = c.choose(5); if (o == 0) break; c.op("operation %d", o); if (o == 1) { a->CreateSkinController(); kind = 1; target = -1; } if (o == 2) { a->CreateMorphController(); kind = 2; target = -1; } if (o == 3) { if (!kind) c.prune(); target = c.pick(vector<int>{ World::MESH2, World::SKIN_ON_2 }); if (kind == 1) a->GetSkinController()->SetTarget(w.e[target]); else a->GetMorphController()->SetBaseTarget(w.e[target]); } if (o == 4) { FCDSkinController* s = over->GetSkinController(); s->SetTarget(a); CHECK(s->GetTarget() == (target >= 0 ? a : NULL), "kinds:chain", "."); CHECK(over->GetBaseGeometry() == (target >= 0 ? w.e[World::MESH2] : NULL), "kinds:chain", "."); s->SetTarget(over); CHECK(s->GetTarget() == NULL, "kinds:self", "a controller is its own target"); } CHECK(a->IsSkin() == (kind == 1) && a->IsMorph() == (kind == 2), "kinds:kind", "."); CHECK(a->GetBaseTarget() == (target < 0 ? NULL : w.e[target]), "kinds:target", "."); CHECK(a->GetBaseGeometry() == (target < 0 ? NULL : w.e[World::MESH2]), "kinds:geometry", "."); }
	c.state(kind); c.checkAsserts("the changes of kind"); c.nontrivial();
}
// ---------------------------------------------------------------- the joints of an instance
SPACE(joints, 4)
{
	// n0 has n1 and n3, n1 has n2; n4 is another root
	FCDocument* d = *kept; FCDSceneNode* scene = (FCDSceneNode*) d->GetVisualSceneInstance(); struct N { vector<FCDSceneNode*> n; ~N() { for (size_t i = n.size(); i > 0; --i) if (n[i - 1]) n[i - 1]->Release(); } } w; w.n.push_back(scene->AddChildNode()); w.n.push_back(w.n[0]->AddChildNode()); w.n.push_back(w.n[1]->AddChildNode()); w.n.push_back(w.n[0]->AddChildNode()); w.n.push_back(scene->AddChildNode()); static const int PARENT[] = { -1, 0, 1, 0, -1 }; FCDSceneNode* owner = scene->AddChildNode(); w.n.push_back(owner); vector<string> ids; for (int i = 0; i < 5; ++i) { fm::string x(mc::strf("joint%d", i).c_str()); w.n[i]->SetDaeId(x); ids.push_back(w.n[i]->GetDaeId().c_str()); } bool shared = c.flag(); if (shared) w.n[4]->AddChildNode(w.n[2]);
	FCDControllerInstance* in = (FCDControllerInstance*) owner->AddInstance(FCDEntity::CONTROLLER); vector<int> js; vector<string> roots; size_t bound = c.deep ? 6 : 5; for (size_t step = 0; step < bound; ++step)
	{
		int o = c.choose(6); if (o == 0) break; if (o == 1) { int k = c.choose(5); if (!w.n[k] || std::count(js.begin(), js.end(), k)) c.prune(); c.op("add %d", k); CHECK(in->AddJoint(w.n[k]), "joints:add", "."); CHECK(w.n[k]->GetJointFlag(), "joints:flag", "."); js.push_back(k); } if (o == 2) { if (js.empty()) c.prune(); size_t i = (size_t) c.choose((int) js.size()); c.op("remove %d", js[i]); if (step & 1) in->RemoveJoint(i); else in->RemoveJoint(w.n[js[i]]); js.erase(js.begin() + i); } if (o == 3) { c.op("roots"); in->CalculateRootIds(); roots.clear(); for (auto k : js) { bool root = true; if (PARENT[k] >= 0 && std::count(js.begin(), js.end(), PARENT[k])) root = false; if (k == 2 && shared && std::count(js.begin(), js.end(), 4)) root = false; if (root) roots.push_back(ids[k]); } }
		if (o == 4) { c.op("reset"); in->ResetJoints(); js.clear(); roots.clear(); } if (o == 5) { int k = c.pick(vector<int>{ 2, 3, 4 }); if (!w.n[k]) c.prune(); if (k == 4 && shared && w.n[2]) w.n[4]->RemoveChildNode(w.n[2]); c.op("release %d", k); w.n[k]->Release(); w.n[k] = NULL; js.erase(std::remove(js.begin(), js.end(), k), js.end()); if (k == 4) shared = false; }
		CHECK(in->GetJointCount() == js.size(), "joints:count", "%d joints, should be %d", (int) in->GetJointCount(), (int) js.size()); for (size_t i = 0; i < js.size(); ++i) CHECK(in->GetJoint(i) == w.n[js[i]], "joints:order", "joint %d", (int) i); for (int k = 0; k < 5; ++k) if (w.n[k]) { size_t at = (size_t) (std::find(js.begin(), js.end(), k) - js.begin()); CHECK(in->FindJoint(w.n[k]) == (at < js.size()), "joints:find", "%d", k); CHECK(in->FindJointIndex(w.n[k]) == (at < js.size() ? at : (size_t) ~0), "joints:index", "%d", k); }
		CHECK(in->GetSkeletonRoots().size() == roots.size(), "joints:roots", "%d roots, should be %d", (int) in->GetSkeletonRoots().size(), (int) roots.size()); for (size_t i = 0; i < roots.size(); ++i) CHECK(roots[i] == fm::string(TO_STRING(in->GetSkeletonRoots()[i].GetFragment())).c_str(), "joints:root", "%s", roots[i].c_str()); FCDSceneNodeList l; in->FindSkeletonNodes(l); vector<FCDSceneNode*> want; for (auto& r : roots) for (int k = 0; k < 5; ++k) if (ids[k] == r && w.n[k]) want.push_back(w.n[k]); if (want.empty()) want.push_back(scene); CHECK(l.size() == want.size() && std::equal(want.begin(), want.end(), l.begin()), "joints:skeleton", "%d nodes, should be %d", (int) l.size(), (int) want.size());
		c.state(mc::strf("%d %d", (int) js.size(), (int) roots.size()));
	}
	c.checkAsserts("the edits of the joints"); c.nontrivial();
}
// ---------------------------------------------------------------- influences after the indices were made unique
SPACE(translate, 5)
{
	uint32 n = (uint32) c.range(2, 3); World w; FCDGeometry* g = (FCDGeometry*) w.e[n == 2 ? World::MESH2 : World::MESH3]; FCDGeometryMesh* m = g->GetMesh(); FCDGeometrySource* nrm = m->AddSource(FUDaeGeometryInput::NORMAL); nrm->SetData(FloatList(6, 0.5f), 3); int faces = c.range(1, 2), corners = 3 * faces; FCDGeometryPolygons* p = m->AddPolygons(); for (int i = 0; i < faces; ++i) p->AddFaceVertexCount(3); vector<uint32> pos, nr; string t; for (int i = 0; i < corners; ++i) { pos.push_back((uint32) c.choose((int) n)); nr.push_back(i < 4 ? (uint32) c.choose(2) : (uint32) (i & 1)); t += mc::strf(" %u/%u", pos[i], nr[i]); } p->GetInput(0)->SetIndices(pos.data(), pos.size()); p->AddInput(nrm, 1)->SetIndices(nr.data(), nr.size()); m->Recalculate();
	FCDController* c0 = w.controller(); FCDSkinController* s = c0->CreateSkinController(); s->SetTarget(g); CHECK(s->GetInfluenceCount() == n, "translate:count", "."); for (uint32 i = 0; i < n; ++i) s->GetVertexInfluence(i)->AddPair((int32) i, 1.0f); FCDGeometryIndexTranslationMap map; c.op("corners%s", t.c_str()); FCDGeometryPolygonsTools::GenerateUniqueIndices(m, NULL, &map); uint32 largest = FCDGeometryPolygonsTools::FindLargestUniqueIndex(map); const uint32* ix = p->GetInput(0)->GetIndices(); size_t limit = (size_t) c.pick(vector<int>{ 3, 65535 }), at = 0;
	while (at < (size_t) corners) { UInt16List pm; uint16 nv = 0; vector<uint16> o((size_t) corners); uint16 r = FCDGeometryPolygonsTools::GenerateVertexPackingMap(largest, std::min(limit, corners - at), 65535, ix + at, o.data(), &pm, &nv); CHECK(r > 0, "translate:progress", "."); fm::pvector<const FCDSkinControllerVertex> out; c.op("batch at %d", (int) at); FCDControllerTools::ApplyTranslationMap(s, map, pm, out); CHECK(out.size() == nv, "translate:size", "%d influences, should be %d", (int) out.size(), (int) nv); for (size_t i = 0; i < r; ++i) CHECK(out[o[i]] == s->GetVertexInfluence(pos[at + i]), "translate:vertex", "corner %d does not have the influences of vertex %u", (int) (at + i), pos[at + i]); at += r; }
	c.state((int) largest); c.checkAsserts("the translation"); c.nontrivial();
}
