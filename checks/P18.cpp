// P18: a clone equals its original and is independent of it.
#include "dump.h"
const char* mc::property = "P18"; const char* mc::level = "model_checking";
const char* mc::rule = "every document of the grammars of P01 and P02 is built; every entity whose kind has a Clone of its own is cloned into nothing, into a new entity of its library and into another document, with and without children; what every getter reports of the clone is compared with the original, the original with what it was before, then one of the two is edited and released and the other is compared again; a case is non-trivial when at least one clone was compared";
std::vector<std::string> mc::assumptions = { "animation is not cloned with the values (comments in FCDExtra.h and FCDGeometrySource.cpp)", "references to other entities keep their target; the target node of a rigid body instance is left out, as its Clone states", "controllers, cameras and lights have no Clone of their own", "a clone gets an identifier of its own when its identifier is first asked for" };
static bool init = (mc::workerInit = [] { FCollada::Initialize(); }, true);
namespace {
enum Kind { IMAGE, EFFECT, MATERIAL, GEOMETRY, FIELD, EMITTER, PMATERIAL, PMODEL, PSCENE, NODE, ANIMATION, CLIP, KINDS };
const char* KIND[] = { "image", "effect", "material", "geometry", "field", "emitter", "physicsMaterial", "physicsModel", "physicsScene", "node", "animation", "clip" };
struct One { FCDEntity* e; Kind k; };
std::string text(const FCDEntity* e, Kind k, bool kids, bool joints = true)
{
	Dump x; x.rel = true; x.kids = kids; x.joints = joints; x.doc = e->GetDocument();
	for (int pass = 0; pass < 2; ++pass)
	{
		x.o.clear(); x.done.clear(); x.depth = 0; x.at.clear(); if (k != NODE) x.entity(e);
		switch (k)
		{
		case IMAGE: x.image((const FCDImage*) e); x.line("video", x.V(((const FCDImage*) e)->GetVideoFlag())); break; case EFFECT: x.effect((const FCDEffect*) e); break; case MATERIAL: x.material((const FCDMaterial*) e); break;
		case GEOMETRY: x.geometry((const FCDGeometry*) e); break; case FIELD: x.forceField((const FCDForceField*) e); break; case EMITTER: x.emitter((const FCDEmitter*) e); break; case PMATERIAL: x.physicsMaterial((const FCDPhysicsMaterial*) e); break;
		case PMODEL: x.physicsModel((const FCDPhysicsModel*) e); break; case PSCENE: x.physicsScene((const FCDPhysicsScene*) e); break; case NODE: x.node((const FCDSceneNode*) e); break; case ANIMATION: x.animation((const FCDAnimation*) e); break; case CLIP: { const FCDAnimationClip* q = (const FCDAnimationClip*) e; x.line("range", x.F(q->GetStart()) + " " + x.F(q->GetEnd())); for (size_t i = 0; i < q->GetAnimationCount(); ++i) x.line("animation", x.idOf(q->GetAnimation(i))); if (kids) x.line("curves", x.N(q->GetClipCurves().size())); break; } default: break;
		}
	}
	return x.o;
}
void below(FCDSceneNode* n, std::vector<One>& r) { for (size_t i = 0; i < n->GetChildrenCount(); ++i) { FCDSceneNode* k = n->GetChild(i); bool seen = false; for (One& o : r) if (o.e == k) seen = true; if (seen) continue; r.push_back({ k, NODE }); below(k, r); } }
template <class T> void all(FCDLibrary<T>* l, Kind k, std::vector<One>& r) { for (size_t i = 0; i < l->GetEntityCount(); ++i) r.push_back({ l->GetEntity(i), k }); }
std::vector<One> every(FCDocument* d)
{
	std::vector<One> r; all(d->GetImageLibrary(), IMAGE, r); all(d->GetMaterialLibrary(), MATERIAL, r); all(d->GetEffectLibrary(), EFFECT, r); all(d->GetForceFieldLibrary(), FIELD, r); all(d->GetEmitterLibrary(), EMITTER, r); all(d->GetPhysicsSceneLibrary(), PSCENE, r); all(d->GetPhysicsModelLibrary(), PMODEL, r); all(d->GetPhysicsMaterialLibrary(), PMATERIAL, r); all(d->GetAnimationClipLibrary(), CLIP, r); all(d->GetAnimationLibrary(), ANIMATION, r); all(d->GetGeometryLibrary(), GEOMETRY, r);
	for (size_t i = 0; i < d->GetVisualSceneLibrary()->GetEntityCount(); ++i) { r.push_back({ d->GetVisualSceneLibrary()->GetEntity(i), NODE }); below(d->GetVisualSceneLibrary()->GetEntity(i), r); } return r;
}
FCDEntity* fresh(FCDocument* d, Kind k)
{
	switch (k) { case IMAGE: return d->GetImageLibrary()->AddEntity(); case EFFECT: return d->GetEffectLibrary()->AddEntity(); case MATERIAL: return d->GetMaterialLibrary()->AddEntity(); case GEOMETRY: return d->GetGeometryLibrary()->AddEntity(); case FIELD: return d->GetForceFieldLibrary()->AddEntity(); case EMITTER: return d->GetEmitterLibrary()->AddEntity(); case PMATERIAL: return d->GetPhysicsMaterialLibrary()->AddEntity(); case PMODEL: return d->GetPhysicsModelLibrary()->AddEntity(); case PSCENE: return d->GetPhysicsSceneLibrary()->AddEntity(); case NODE: return d->GetVisualSceneLibrary()->AddEntity(); case ANIMATION: return d->GetAnimationLibrary()->AddEntity(); default: return d->GetAnimationClipLibrary()->AddEntity(); }
}
struct Held { FCDEntity* e; FUTrackedPtr<FCDEntity> still; Held(FCDEntity* e) : e(e) { still = e; } ~Held() { if (still) still->Release(); } Held(const Held&) = delete; };
void edit(FCDEntity* e, Kind k)
{
	e->SetName(FC("edited")); e->SetNote(FC("edited")); e->GetExtra()->AddType("edited")->AddTechnique("edited")->AddParameter("edited", "1"); for (size_t i = 0; i < e->GetExtra()->GetTypeCount(); ++i) while (e->GetExtra()->GetType(i)->GetTechniqueCount() > 0) e->GetExtra()->GetType(i)->GetTechnique((size_t) 0)->Release();
	switch (k)
	{
	case IMAGE: ((FCDImage*) e)->SetFilename(FC("edited.png")); ((FCDImage*) e)->SetWidth(999); break;
	case EFFECT: { FCDEffect* f = (FCDEffect*) e; while (f->GetEffectParameterCount()) f->GetEffectParameter(0)->Release(); while (f->GetProfileCount()) f->GetProfile(0)->Release(); break; }
	case MATERIAL: { FCDMaterial* m = (FCDMaterial*) e; while (m->GetEffectParameterCount()) m->GetEffectParameter(0)->Release(); break; }
	case GEOMETRY: { FCDGeometry* g = (FCDGeometry*) e; if (g->IsMesh()) { FCDGeometryMesh* m = g->GetMesh(); for (size_t i = 0; i < m->GetSourceCount(); ++i) { FCDGeometrySource* s = m->GetSource(i); s->SetName(FC("edited")); if (s->GetDataCount()) s->GetData()[0] += 7; } for (size_t i = 0; i < m->GetPolygonsCount(); ++i) { m->GetPolygons(i)->SetMaterialSemantic(FC("edited")); for (size_t j = 0; j < m->GetPolygons(i)->GetInputCount(); ++j) { FCDGeometryPolygonsInput* n = m->GetPolygons(i)->GetInput(j); if (n->OwnsIndices() && n->GetIndexCount()) { UInt32List l(n->GetIndices(), n->GetIndexCount()); l[0] += 1; n->SetIndices(&l[0], l.size()); } } } } if (g->IsSpline()) for (size_t i = 0; i < g->GetSpline()->GetSplineCount(); ++i) g->GetSpline()->GetSpline(i)->ClearCVs(); break; }
	case PMATERIAL: ((FCDPhysicsMaterial*) e)->SetRestitution(77); break;
	case PMODEL: { FCDPhysicsModel* m = (FCDPhysicsModel*) e; for (size_t i = 0; i < m->GetRigidBodyCount(); ++i) { FCDPhysicsRigidBodyParameters* p = m->GetRigidBody(i)->GetParameters(); *p->GetMass() = 99.0f; while (p->GetPhysicsShapeCount()) p->GetPhysicsShape(0)->Release(); if (p->GetPhysicsMaterial() && p->OwnsPhysicsMaterial()) p->GetPhysicsMaterial()->SetRestitution(77); } while (m->GetInstanceCount()) m->GetInstance(0)->Release(); break; }
	case PSCENE: { FCDPhysicsScene* s = (FCDPhysicsScene*) e; s->SetTimestep(9); while (s->GetPhysicsModelInstancesCount()) s->GetPhysicsModelInstance(0)->Release(); break; }
	case NODE: { FCDSceneNode* n = (FCDSceneNode*) e; n->SetVisibility(false); while (n->GetTransformCount()) n->GetTransform(0)->Release(); while (n->GetInstanceCount()) n->GetInstance(0)->Release(); break; }
	case ANIMATION: { FCDAnimation* a = (FCDAnimation*) e; for (size_t i = 0; i < a->GetChannelCount(); ++i) for (size_t j = 0; j < a->GetChannel(i)->GetCurveCount(); ++j) { FCDAnimationCurve* q = a->GetChannel(i)->GetCurve(j); if (q->GetKeyCount()) q->GetKey(0)->output += 5; q->SetPreInfinity(FUDaeInfinity::CYCLE_RELATIVE); } break; }
	case CLIP: ((FCDAnimationClip*) e)->SetStart(-99); break;
	default: break;
	}
}
const char* MODE[] = { "alone", "library", "elsewhere" };
}
namespace trip {
inline void check(mc::Ctx& c, FCDocument* d, bool = true)
{
	std::string base = Dump::of(d), key, what; base = Dump::of(d); FUObjectRef<FCDocument> other = FCollada::NewTopDocument(); std::vector<One> es = every(d); if (es.empty()) c.prune();
	auto same = [&](const char* when, const One& o, const std::string& was, const std::string& is) { if (textDiff(was, is, key, what)) c.fail(std::string(when) + ":" + KIND[o.k] + ":" + key, "%s", what.c_str()); };
	for (const One& o : es) for (int mode = 0; mode < 3; ++mode) for (int kids = 0; kids < 2; ++kids)
	{
		std::string want = text(o.e, o.k, kids), id = o.e->GetDaeId().c_str(); Held h(mode == 0 ? o.e->Clone(NULL, kids) : fresh(mode == 1 ? d : &*other, o.k)); if (mode) { FCDEntity* r = o.e->Clone(h.e, kids); CHECK(r == h.e, std::string("returned:") + KIND[o.k], "Clone returned another object"); }
		CHECK(h.e && h.e != o.e && h.e->HasType(o.e->GetObjectType()), std::string("class:") + KIND[o.k], "the clone is of another class"); CHECK(h.e->GetDocument() == (mode == 2 ? &*other : d), std::string("document:") + KIND[o.k], "the clone is in another document"); same(MODE[mode], o, want, text(h.e, o.k, kids)); same("original", o, want, text(o.e, o.k, kids));
		if (mode < 2) CHECK(id != h.e->GetDaeId().c_str(), std::string("id:") + KIND[o.k], "the clone has the identifier '%s' of the original", id.c_str()); CHECK(id == o.e->GetDaeId().c_str(), std::string("id-changed:") + KIND[o.k], "the identifier of the original changed"); edit(h.e, o.k); same("edited-clone", o, want, text(o.e, o.k, kids));
		// A cloned effect belongs to its material.
		FUTrackedPtr<FCDEntity> effect; if (o.k == MATERIAL && kids) { FCDEffect* f = ((FCDMaterial*) h.e)->GetEffect(), *g = ((FCDMaterial*) o.e)->GetEffect(); if (g) CHECK(f && f != g, "effect", "the clone of a material has no effect of its own"); effect = f; }
		h.e->Release(); CHECK(!h.still, std::string("release:") + KIND[o.k], "the clone was not released"); CHECK(!effect, "effect-release", "the effect of a clone was not released"); same("released-clone", o, want, text(o.e, o.k, kids));
	}
	if (textDiff(base, Dump::of(d), key, what)) c.fail("document:" + key, "%s", what.c_str());
	for (const One& o : es) { bool root = o.k != NODE; if (!root) continue; Held h(o.e->Clone(NULL, true)); std::string want = text(h.e, o.k, true); edit(o.e, o.k); same("edited-original", o, want, text(h.e, o.k, true)); std::string now = text(h.e, o.k, true); o.e->Release(); same("released-original", o, now, text(h.e, o.k, true)); }
	for (size_t i = d->GetVisualSceneLibrary()->GetEntityCount(); i-- > 0; ) { One o = { d->GetVisualSceneLibrary()->GetEntity(i), NODE }; Held h(o.e->Clone(NULL, true)); std::string want = text(h.e, NODE, true); edit(o.e, NODE); same("edited-original", o, want, text(h.e, NODE, true)); std::string now = text(h.e, NODE, true, false); o.e->Release(); same("released-original", o, now, text(h.e, NODE, true, false)); }
	c.state(base); c.nontrivial();
}
}
#define GRAMMAR_ONLY
#undef SPACE
// Which parts of the grammars say more about clones than the others do.
namespace { const char* LEFT_OUT[] = { "still", "chains", "drivers", "targets", "cameras", "lights", "skins", "morphs", "skeletons", "libraries", "documents", "assets", "texts" }; const char* DEEP_ONLY[] = { "meshes" }; bool in(const char* n, const char* const* l, size_t k) { for (size_t i = 0; i < k; ++i) if (!strcmp(n, l[i])) return true; return false; } bool reg(const char* n, size_t d, void (*f)(mc::Ctx&)) { if (!in(n, LEFT_OUT, 13)) mc::addSpace(n, d, f, in(n, DEEP_ONLY, 1)); return true; } }
#define SPACE(name, depth) static void name(mc::Ctx& c); static bool MC_CAT(reg_,name) = reg(#name, depth, name); static void name(mc::Ctx& c)
namespace scene {
#include "P01.cpp"
// Meshes of several polygon sets.
SPACE(sets, 4)
{
	Doc d = top(); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* m = g->CreateMesh(); int vs = c.choose(2), other = c.choose(3), n = c.range(1, c.deep ? 3 : 2); FCDGeometrySource* pos = addSource(m, FUDaeGeometryInput::POSITION, 3, 5, true, 1); if (vs) addSource(m, FUDaeGeometryInput::COLOR, 4, 5, true, 3); FCDGeometrySource* x = other ? addSource(m, FUDaeGeometryInput::TEXCOORD, 2, 4, false, 5) : NULL; if (x && c.flag()) x->SetDaeId(fm::string("uv")); string s;
	for (int k = 0; k < n; ++k)
	{
		FCDGeometryPolygons* p = m->AddPolygons(); p->SetMaterialSemantic(k ? FC("b") : FC("a")); int shape = c.choose(6); FCDGeometryPolygonsInput* in = p->FindInput(pos); if (!in) in = p->AddInput(pos, 0); FCDGeometryPolygonsInput* y = NULL; if (x && c.flag()) { y = p->AddInput(x, other == 2 ? 0 : 1); y->SetSet(k); if (other == 2) y = NULL; }
		static const vector<vector<uint32>> F = { { 3 }, { 4, 3 }, { 4, 3 }, { 3, 3, 3, 4 }, { 4 }, { 3, 3 } }; uint32 total = 0; for (uint32 f : F[shape]) { p->AddFaceVertexCount(f); total += f; } if (shape == 2 || shape == 3) p->AddHole(1); if (shape == 3) p->AddHole(2); if (shape >= 4) p->SetPrimitiveType(shape == 4 ? FCDGeometryPolygons::TRIANGLE_STRIPS : FCDGeometryPolygons::TRIANGLE_FANS);
		for (uint32 i = 0; i < total; ++i) { in->AddIndex((i * 2 + k) % 4); if (y) y->AddIndex((i * 3 + 1) % 4); } s += mc::strf("%d%s ", shape, y ? "+" : "");
	}
	m->Recalculate(); c.op("vertex sources %d, other %d, sets %s", 1 + vs, other, s.c_str()); trip::check(c, d);
}
// Values that move keep their current value in the clone.
SPACE(moving, 2)
{
	Doc d = top(); FCDSceneNode* v = d->AddVisualScene(), *n = v->AddChildNode(), *k = c.flag() ? n->AddChildNode() : n; auto move = [&](FCDAnimated* a, size_t i) { FCDAnimationCurve* q = d->GetAnimationLibrary()->AddEntity()->AddChannel()->AddCurve(); q->AddKey(FUDaeInterpolation::LINEAR)->output = 0.5f; a->AddCurve(i, q); };
	bool seen = c.flag(), shows = c.flag(); k->SetVisibility(seen); if (shows) move(k->GetVisibility().GetAnimated(), 0); int t = c.choose(7), with = 0; if (t < 6) { FCDTransform* x = addTransform(c, k, t, 1); with = c.choose(3); if (with) move(x->GetAnimated(), with == 1 ? 0 : x->GetAnimated()->GetValueCount() - 1); } c.op("below %d, visible %d moving %d, transform %d moving %d", (int) (k != n), (int) seen, (int) shows, t, with); trip::check(c, d);
}
}
namespace look {
#include "P02.cpp"
}
