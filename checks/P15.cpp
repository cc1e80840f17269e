// P15: libraries, entity references and instances stay consistent in any edit order.
#include <map>
#include <set>
#include <algorithm>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectParameterSurface.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDExtra.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryInstance.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include <functional>
#include <cstring>
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDMaterialInstance.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDPhysicsMaterial.h"
#include "FCDocument/FCDPhysicsModel.h"
#include "FCDocument/FCDPhysicsModelInstance.h"
#include "FCDocument/FCDPhysicsForceFieldInstance.h"
#include "FCDocument/FCDPhysicsRigidBody.h"
#include "FCDocument/FCDPhysicsRigidBodyInstance.h"
#include "FCDocument/FCDPhysicsRigidBodyParameters.h"
#include "FCDocument/FCDPhysicsRigidConstraint.h"
#include "FCDocument/FCDPhysicsRigidConstraintInstance.h"
#include "FCDocument/FCDPhysicsScene.h"
#include "FCDocument/FCDPhysicsShape.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSkinController.h"
#include "FCDocument/FCDTexture.h"
#include "mc.h"
const char* mc::property = "P15"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence up to a bound of adding, instancing, referencing, retargeting, renaming and releasing, for each kind of entity; and every order of releasing three objects of a full document and then the document; a case is non-trivial when references were compared with the model";
std::vector<std::string> mc::assumptions = { "an identifier that is not found may be reported with an error or an assertion", "an entity is added to one library only", "one document (several documents: P16)" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); }, true);
namespace {
// counts the announcements of a release
struct Watch : public FUTracker
{
	FUTrackable* o; int told = 0; Watch(FUTrackable* _o) : o(_o) { TrackObject(o); } virtual ~Watch() { if (o && !told) UntrackObject(o); }
protected:
	virtual void OnObjectReleased(FUTrackable* x) { if (x == o) ++told; }
};
template <class E> struct KindOf { FCDLibrary<E>* (*lib)(FCDocument*); E* (*find)(FCDocument*, const fm::string&); };
template <class E> void libraryCase(mc::Ctx& c, FCDLibrary<E>* (*lib)(FCDocument*), E* (*find)(FCDocument*, const fm::string&))
{
	FUObjectRef<FCDocument> fresh; FCDocument* d = *kept; if (c.flag()) { fresh = FCollada::NewTopDocument(); d = fresh; } FCDLibrary<E>* l = lib(d); struct Item { E* e; string id; Watch* w; }; struct Items : vector<Item> { ~Items() { for (auto& i : *this) { if (!i.w->told) i.e->Release(); delete i.w; } } } items; static const vector<string> IDS = { "alpha", "beta" }; CHECK(l->IsEmpty() && l->GetEntityCount() == 0, "library:start", "."); size_t bound = c.deep ? 6 : 5; string other;
	// an entity of another kind may have the identifier
	FCDEntity* foreign = NULL; struct Rel { FCDEntity*& o; ~Rel() { if (o) o->Release(); } } rel{ foreign }; if (c.flag()) { if ((void*) l != (void*) d->GetImageLibrary()) foreign = d->GetImageLibrary()->AddEntity(); else foreign = d->GetLightLibrary()->AddEntity(); fm::string x("alpha"); foreign->SetDaeId(x); other = "alpha"; }
	for (size_t step = 0; step < bound; ++step)
	{
		int o = c.choose(6); if (o == 0) break; if (o == 1 || o == 2) { if (items.size() >= 3) c.prune(); E* e; if (o == 1) e = l->AddEntity(); else { e = new E(d); l->AddEntity(e); } c.op(o == 1 ? "add" : "add one that exists"); items.push_back({ e, e->GetDaeId().c_str(), new Watch(e) }); }
		if (o == 3) { if (items.empty()) c.prune(); size_t i = (size_t) c.choose((int) items.size()); c.op("release %d", (int) i); items[i].e->Release(); CHECK(items[i].w->told == 1, "library:told", "%d times", items[i].w->told); delete items[i].w; items.erase(items.begin() + i); }
		if (o == 4) { if (items.empty()) c.prune(); size_t i = (size_t) c.choose((int) items.size()); string id = c.pick(IDS); bool taken = id == other; for (size_t k = 0; k < items.size(); ++k) taken |= k != i && items[k].id == id; fm::string x(id.c_str()); c.op("name %d %s", (int) i, id.c_str()); items[i].e->SetDaeId(x); items[i].id = items[i].e->GetDaeId().c_str(); CHECK(taken == (items[i].id != id), "library:name", "%s became %s", id.c_str(), items[i].id.c_str()); }
		if (o == 5) { CHECK(l->GetAsset() != NULL && l->GetAsset() == l->GetAsset() && l->GetExtra() != NULL, "library:asset", "."); c.op("asset"); }
		CHECK(l->GetEntityCount() == items.size() && l->IsEmpty() == items.empty(), "library:count", "%d entities, should be %d", (int) l->GetEntityCount(), (int) items.size()); std::set<string> ids(IDS.begin(), IDS.end()); ids.insert("none"); for (size_t i = 0; i < items.size(); ++i) { CHECK(l->GetEntity(i) == items[i].e && items[i].e->GetDocument() == d && items[i].w->told == 0, "library:order", "entity %d", (int) i); ids.insert(items[i].id); }
		for (auto& id : ids) { fm::string x(id.c_str()); E* want = NULL; for (auto& i : items) if (i.id == id) want = i.e; CHECK(l->FindDaeId(x) == want && find(d, x) == want, "library:find", "%s", id.c_str()); CHECK(d->FindEntity(x) == (want ? (FCDEntity*) want : id == other ? foreign : NULL), "library:find-entity", "%s", id.c_str()); }
		c.state((int) items.size());
	}
	if (fresh != NULL) { foreign = NULL; fresh = NULL; for (auto& i : items) CHECK(i.w->told == 1, "library:document", "an entity was announced %d times", i.w->told); }
	c.checkAsserts("the library"); c.nontrivial();
}
}
SPACE(libraries, 3)
{
	static const vector<std::pair<string, void (*)(mc::Ctx&)>> KINDS = {
#define LIB(T, L) { #T, [](mc::Ctx& c) { libraryCase<FCD##T>(c, [](FCDocument* d) { return (FCDLibrary<FCD##T>*) d->Get##L##Library(); }, [](FCDocument* d, const fm::string& s) { return d->Find##T(s); }); } },
		LIB(Animation, Animation) LIB(AnimationClip, AnimationClip) LIB(Camera, Camera) LIB(Controller, Controller) LIB(Effect, Effect) LIB(Emitter, Emitter) LIB(ForceField, ForceField) LIB(Geometry, Geometry) LIB(Image, Image) LIB(Light, Light) LIB(Material, Material) LIB(PhysicsScene, PhysicsScene) LIB(PhysicsMaterial, PhysicsMaterial) LIB(PhysicsModel, PhysicsModel)
		{ "VisualScene", [](mc::Ctx& c) { libraryCase<FCDSceneNode>(c, [](FCDocument* d) { return (FCDLibrary<FCDSceneNode>*) d->GetVisualSceneLibrary(); }, [](FCDocument* d, const fm::string& s) { return d->FindVisualScene(s); }); } } };
	const auto& k = c.pick(KINDS); c.op("library of %s", k.first.c_str()); k.second(c);
}
// ---------------------------------------------------------------- references
namespace {
// what a reference names
struct Target { int e = -1; string id; };
struct Refs
{
	FCDocument* d; vector<FCDEntity*> e; vector<string> ids; std::function<FCDEntity*()> make;
	Refs(FCDocument* _d, std::function<FCDEntity*()> m) : d(_d), e(2, (FCDEntity*) NULL), ids(2), make(m) {}
	~Refs() { for (auto x : e) if (x) x->Release(); }
	void name(int k, const string& id) { fm::string x(id.c_str()); e[k]->SetDaeId(x); ids[k] = e[k]->GetDaeId().c_str(); }
	int find(const string& id) const { if (id.empty()) return -1; for (int k = 0; k < (int) e.size(); ++k) if (e[k] && ids[k] == id) return k; return -1; }
	void resolve(Target& t) const { if (t.e < 0) t.e = find(t.id); if (t.e >= 0) t.id = ids[t.e]; }
	void released(Target& t, int k) const { if (t.e == k) { t.e = -1; t.id.clear(); } }
	void renamed(Target&) const {}
};
const vector<string> NAMES = { "one", "two" };
void releaseNull(FCDEntityInstance* i) { if (i) i->Release(); }
}
SPACE(instances, 4)
{
	static const vector<std::pair<string, FCDEntity* (*)(FCDocument*)>> KINDS = { { "geometry", [](FCDocument* d) { return (FCDEntity*) d->GetGeometryLibrary()->AddEntity(); } }, { "controller", [](FCDocument* d) { return (FCDEntity*) d->GetControllerLibrary()->AddEntity(); } }, { "camera", [](FCDocument* d) { return (FCDEntity*) d->GetCameraLibrary()->AddEntity(); } }, { "light", [](FCDocument* d) { return (FCDEntity*) d->GetLightLibrary()->AddEntity(); } }, { "node", [](FCDocument* d) { return (FCDEntity*) d->GetVisualSceneLibrary()->AddEntity(); } }, { "emitter", [](FCDocument* d) { return (FCDEntity*) d->GetEmitterLibrary()->AddEntity(); } }, { "force field", [](FCDocument* d) { return (FCDEntity*) d->GetForceFieldLibrary()->AddEntity(); } } };
	static const FCDEntity::Type TYPES[] = { FCDEntity::GEOMETRY, FCDEntity::CONTROLLER, FCDEntity::CAMERA, FCDEntity::LIGHT, FCDEntity::SCENE_NODE, FCDEntity::EMITTER, FCDEntity::FORCE_FIELD };
	int kind = c.choose((int) KINDS.size()); FCDocument* d = *kept; c.tolerateAsserts = true; Refs w(d, [&] { return KINDS[kind].second(d); }); struct Node { FCDSceneNode* n; ~Node() { if (n) n->Release(); } } node{ d->GetVisualSceneLibrary()->AddEntity() }; struct I { FCDEntityInstance* i; Target t; }; vector<I> is; size_t bound = c.deep ? 5 : 4; bool eager = c.flag(); c.op("%ss", KINDS[kind].first.c_str());
	// the entities exist, the second one or none
	int start = c.choose(3); for (int k = 0; k < start; ++k) { w.e[k] = w.make(); w.name(k, NAMES[k]); }
	auto look = [&] { for (size_t i = 0; i < is.size(); ++i) { w.resolve(is[i].t); FCDEntity* want = is[i].t.e < 0 ? NULL : w.e[is[i].t.e]; FCDEntity* got = is[i].i->GetEntity(); CHECK(got == want, "instances:entity", "instance %d is of %s, should be of %s", (int) i, got ? "an entity" : "nothing", want ? want->GetDaeId().c_str() : "nothing"); } };
	for (size_t step = 0; step < bound; ++step)
	{
		int o = c.choose(eager ? 9 : 10); if (o == 0) break; if (o == 1) { if (is.size() >= 2) c.prune(); int k = c.choose(3) - 1; if (k >= 0 && !w.e[k]) c.prune(); c.op("instance of %d", k); FCDEntityInstance* i = k < 0 ? node.n->AddInstance(TYPES[kind]) : node.n->AddInstance(w.e[k]); CHECK(i != NULL && i->GetParent() == node.n && i->GetEntityType() == TYPES[kind], "instances:add", "."); Target t; if (k >= 0) { t.e = k; t.id = w.ids[k]; } is.push_back({ i, t }); }
		if (o == 2) { int k = w.e[0] ? 1 : 0; if (w.e[k]) c.prune(); w.e[k] = w.make(); w.name(k, c.pick(NAMES)); c.op("create %d as %s", k, w.ids[k].c_str()); }
		if (o == 3) { int k = c.choose(2); if (!w.e[k]) c.prune(); c.op("release %d", k); w.e[k]->Release(); w.e[k] = NULL; w.ids[k].clear(); for (auto& i : is) w.released(i.t, k); }
		if (o == 4 || o == 5 || o == 6) { if (is.empty()) c.prune(); size_t i = (size_t) c.choose((int) is.size()); if (o == 4) { int k = c.choose(3) - 1; if (k >= 0 && !w.e[k]) c.prune(); c.op("instance %d: %d", (int) i, k); is[i].i->SetEntity(k < 0 ? NULL : w.e[k]); is[i].t = Target(); if (k >= 0) { is[i].t.e = k; is[i].t.id = w.ids[k]; } } if (o == 5) { string id = c.pick(NAMES); c.op("instance %d: #%s", (int) i, id.c_str()); is[i].i->SetEntityUri(FUUri(fm::string(("#" + id).c_str()))); is[i].t = Target(); is[i].t.id = id; } if (o == 6) { c.op("release instance %d", (int) i); is[i].i->Release(); is.erase(is.begin() + i); } }
		if (o == 7) { int k = c.choose(2); if (!w.e[k]) c.prune(); string id = c.pick(NAMES); c.op("name %d %s", k, id.c_str()); w.name(k, id); for (auto& i : is) if (i.t.e == k) i.t.id = w.ids[k]; }
		if (o == 8) { c.op("release the node"); node.n->Release(); is.clear(); node.n = d->GetVisualSceneLibrary()->AddEntity(); }
		if (o == 9) { c.op("look"); look(); }
		if (eager) look(); CHECK(node.n->GetInstanceCount() == is.size(), "instances:count", "%d instances, should be %d", (int) node.n->GetInstanceCount(), (int) is.size()); for (size_t i = 0; i < is.size(); ++i) { CHECK(node.n->GetInstance(i) == is[i].i, "instances:order", "."); CHECK(!is[i].i->IsExternalReference() && is[i].i->GetEntityReference()->IsLocal(), "instances:external", "."); string want = is[i].t.e >= 0 ? w.ids[is[i].t.e] : is[i].t.id; CHECK(want == TO_STRING(is[i].i->GetEntityUri().GetFragment()).c_str(), "instances:uri", "instance %d is of %s, should be of %s", (int) i, TO_STRING(is[i].i->GetEntityUri().GetFragment()).c_str(), want.c_str()); }
		c.state(mc::strf("%d %d", kind, (int) is.size()));
	}
	look(); c.nontrivial();
}
// materials of an instance, the effect of a material
SPACE(materials, 4)
{
	FCDocument* d = *kept; c.tolerateAsserts = true; Refs mats(d, [&] { return (FCDEntity*) d->GetMaterialLibrary()->AddEntity(); }), fx(d, [&] { return (FCDEntity*) d->GetEffectLibrary()->AddEntity(); }); struct Own { vector<FUObject*> o; ~Own() { for (size_t i = o.size(); i > 0; --i) if (o[i - 1]) o[i - 1]->Release(); } } own; FCDSceneNode* node = d->GetVisualSceneLibrary()->AddEntity(); own.o.push_back(node); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); own.o.push_back(g); FCDGeometryPolygons* ps[2]; FCDGeometryMesh* m = g->CreateMesh(); for (auto& p : ps) p = m->AddPolygons(); ps[0]->SetMaterialSemantic(FC("skin")); int via = c.choose(4); FCDController* ctl = NULL; FCDGeometryInstance* gi; if (via < 2) gi = (FCDGeometryInstance*) node->AddInstance(g); else { ctl = d->GetControllerLibrary()->AddEntity(); own.o.push_back(ctl); if (via == 2) ctl->CreateSkinController()->SetTarget(g); gi = (FCDGeometryInstance*) node->AddInstance(ctl); } c.op("%s", via < 2 ? "geometry" : via == 2 ? "skin" : "controller without base"); for (int k = 0; k < 2; ++k) { mats.e[k] = mats.make(); mats.name(k, "mat" + NAMES[k]); fx.e[k] = fx.make(); fx.name(k, "fx" + NAMES[k]); }
	struct MI { FCDMaterialInstance* i; Target t; string sem; }; vector<MI> is; Target eff[2]; bool geo = true; size_t bound = c.deep ? 5 : 4; string sem1;
	for (size_t step = 0; step < bound; ++step)
	{
		int o = c.choose(9); if (o == 0) break; if (o == 1) { if (is.size() >= 2) c.prune(); int how = c.choose(4), k = (int) (step & 1); if (!mats.e[k]) k = 1 - k; if (!mats.e[k]) c.prune(); FCDMaterial* x = (FCDMaterial*) mats.e[k]; Target t; t.e = k; t.id = mats.ids[k]; string sem; FCDMaterialInstance* i; if (how == 0) { i = gi->AddMaterialInstance(); t = Target(); } else if (how == 1) { i = gi->AddMaterialInstance(x, FC("skin")); sem = "skin"; } else { if (!geo) c.prune(); i = gi->AddMaterialInstance(x, ps[how - 2]); sem = ps[how - 2]->GetMaterialSemantic().c_str(); CHECK(!sem.empty() && (how == 3 || sem == "skin"), "materials:semantic", "."); if (how == 3) sem1 = sem; } c.op("bind %d, %d", k, how); CHECK(i->GetParent() == gi, "materials:add", "."); is.push_back({ i, t, sem }); }
		if (o == 2) { if (is.empty()) c.prune(); size_t i = (size_t) c.choose((int) is.size()); int k = c.choose(3) - 1; if (k >= 0 && !mats.e[k]) c.prune(); c.op("instance %d: material %d", (int) i, k); is[i].i->SetMaterial(k < 0 ? NULL : (FCDMaterial*) mats.e[k]); is[i].t = Target(); if (k >= 0) { is[i].t.e = k; is[i].t.id = mats.ids[k]; } }
		if (o == 3) { int k = c.choose(2); if (!mats.e[k]) c.prune(); c.op("release material %d", k); mats.e[k]->Release(); mats.e[k] = NULL; mats.ids[k].clear(); eff[k] = Target(); for (auto& i : is) mats.released(i.t, k); }
		if (o == 4) { int k = c.choose(2); int f = c.choose(3) - 1; if (!mats.e[k] || (f >= 0 && !fx.e[f])) c.prune(); c.op("material %d: effect %d", k, f); ((FCDMaterial*) mats.e[k])->SetEffect(f < 0 ? NULL : (FCDEffect*) fx.e[f]); eff[k] = Target(); if (f >= 0) { eff[k].e = f; eff[k].id = fx.ids[f]; } }
		if (o == 5) { int f = c.choose(2); if (!fx.e[f]) c.prune(); c.op("release effect %d", f); fx.e[f]->Release(); fx.e[f] = NULL; fx.ids[f].clear(); for (auto& x : eff) fx.released(x, f); }
		if (o == 6) { int k = c.choose(2); if (!mats.e[k]) c.prune(); int f = c.choose(2); c.op("material %d: #%s", k, fx.ids[f].c_str()); ((FCDMaterial*) mats.e[k])->GetEffectReference()->SetUri(FUUri(fm::string(("#fx" + NAMES[f]).c_str()))); eff[k] = Target(); eff[k].id = "fx" + NAMES[f]; }
		if (o == 7) { if (is.empty()) c.prune(); c.op("release an instance"); is[0].i->Release(); is.erase(is.begin()); }
		if (o == 8) { if (!geo) c.prune(); c.op("release the geometry"); g->Release(); own.o[1] = NULL; geo = false; }
		CHECK(gi->GetMaterialInstanceCount() == is.size(), "materials:count", "."); for (size_t i = 0; i < is.size(); ++i) { mats.resolve(is[i].t); FCDMaterialInstance* x = is[i].i; CHECK(gi->GetMaterialInstance(i) == x && x->GetMaterial() == (is[i].t.e < 0 ? NULL : (FCDMaterial*) mats.e[is[i].t.e]), "materials:material", "instance %d", (int) i); CHECK(is[i].sem == x->GetSemantic().c_str(), "materials:semantic", "%s", x->GetSemantic().c_str()); FCDObject* want = NULL; if (geo && via < 3) for (int k = 1; k >= 0; --k) if (is[i].sem == ps[k]->GetMaterialSemantic().c_str()) want = ps[k]; CHECK(x->GetGeometryTarget() == want, "materials:target", "instance %d is bound to %s", (int) i, want ? "its polygons" : "nothing"); }
		for (auto& s : vector<string>{ "skin", "none", sem1 }) { FCDMaterialInstance* want = NULL; for (size_t i = is.size(); i > 0; --i) if (is[i - 1].sem == s) want = is[i - 1].i; CHECK(gi->FindMaterialInstance(fm::string(s.c_str())) == want, "materials:find", "%s", s.c_str()); }
		for (int k = 0; k < 2; ++k) if (mats.e[k]) { fx.resolve(eff[k]); CHECK(((FCDMaterial*) mats.e[k])->GetEffect() == (eff[k].e < 0 ? NULL : (FCDEffect*) fx.e[eff[k].e]), "materials:effect", "material %d", k); }
		c.state(mc::strf("%d %d", via, (int) is.size()));
	}
	c.nontrivial();
}
// the images of the textures of a profile, and of a surface
SPACE(textures, 4)
{
	FCDocument* d = *kept; struct Own { vector<FUObject*> o; ~Own() { for (auto x : o) if (x) x->Release(); } } own; FCDEffect* e = d->GetEffectLibrary()->AddEntity(); own.o.push_back(e); vector<FCDImage*> im; for (int k = 0; k < 2; ++k) { im.push_back(d->GetImageLibrary()->AddEntity()); own.o.push_back(im[k]); } FCDEffectStandard* p = (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON); struct T { FCDTexture* t; int image; }; vector<T> ts; for (int k = 0; k < 2; ++k) ts.push_back({ p->AddTexture(k ? FUDaeTextureChannel::DIFFUSE : FUDaeTextureChannel::AMBIENT), -1 }); size_t bound = c.deep ? 6 : 5;
	for (size_t step = 0; step < bound; ++step) { int o = c.choose(4); if (o == 0) break; if (o == 1) { size_t t = (size_t) c.choose(2); int k = c.choose(3) - 1; if (!ts[t].t || (k >= 0 && !im[k])) c.prune(); c.op("texture %d: image %d", (int) t, k); ts[t].t->SetImage(k < 0 ? NULL : im[k]); ts[t].image = k; } if (o == 2) { int k = c.choose(2); if (!im[k]) c.prune(); c.op("release image %d", k); im[k]->Release(); im[k] = NULL; own.o[1 + k] = NULL; for (auto& t : ts) if (t.image == k) t.image = -1; } if (o == 3) { if (!ts[1].t) c.prune(); c.op("release a texture"); ts[1].t->Release(); ts[1].t = NULL; }
		for (auto& t : ts) if (t.t) CHECK(t.t->GetImage() == (t.image < 0 ? NULL : im[t.image]), "textures:image", "a texture has %s, should have %s", t.t->GetImage() ? t.t->GetImage()->GetDaeId().c_str() : "no image", t.image < 0 ? "none" : im[t.image]->GetDaeId().c_str()); c.state(mc::strf("%d %d", ts[0].image, ts[1].image)); }
	c.checkAsserts("the textures"); c.nontrivial();
}
SPACE(surfaces, 3)
{
	FCDocument* d = *kept; struct Own { vector<FUObject*> o; ~Own() { for (auto x : o) if (x) x->Release(); } } own; FCDEffect* e = d->GetEffectLibrary()->AddEntity(); own.o.push_back(e); vector<FCDImage*> im; for (int k = 0; k < 3; ++k) { im.push_back(d->GetImageLibrary()->AddEntity()); own.o.push_back(im[k]); } FCDEffectParameterSurface* s = (FCDEffectParameterSurface*) e->AddEffectParameter(FCDEffectParameter::SURFACE); vector<int> l; size_t bound = c.deep ? 6 : 5;
	for (size_t step = 0; step < bound; ++step) { int o = c.choose(5); if (o == 0) break; int k = c.choose(3); if (!im[k]) c.prune(); size_t at = (size_t) (std::find(l.begin(), l.end(), k) - l.begin()); if (o == 1) { c.op("add %d", k); size_t r = s->AddImage(im[k]); CHECK(r == at, "surfaces:add", "at %d, should be %d", (int) r, (int) at); if (at == l.size()) l.push_back(k); } if (o == 2) { size_t i = (size_t) c.choose((int) l.size() + 1); c.op("add %d at %d", k, (int) i); size_t r = s->AddImage(im[k], i); CHECK(r == (at == l.size() ? i : at), "surfaces:insert", "at %d", (int) r); if (at == l.size()) l.insert(l.begin() + i, k); } if (o == 3) { c.op("remove %d", k); s->RemoveImage(im[k]); if (at < l.size()) l.erase(l.begin() + at); } if (o == 4) { c.op("release %d", k); im[k]->Release(); im[k] = NULL; own.o[1 + k] = NULL; if (at < l.size()) l.erase(l.begin() + at); }
		CHECK(s->GetImageCount() == l.size(), "surfaces:count", "%d images, should be %d", (int) s->GetImageCount(), (int) l.size()); for (size_t i = 0; i < l.size(); ++i) CHECK(s->GetImage(i) == im[l[i]], "surfaces:order", "."); for (int x = 0; x < 3; ++x) if (im[x]) { size_t i = (size_t) (std::find(l.begin(), l.end(), x) - l.begin()); CHECK(s->FindImage(im[x]) == (i < l.size() ? i : (size_t) ~0), "surfaces:find", "."); } c.state((int) l.size()); }
	c.checkAsserts("the surface"); c.nontrivial();
}
// the scenes that the document shows
SPACE(roots, 3)
{
	FUObjectRef<FCDocument> doc; doc = FCollada::NewTopDocument(); FCDocument* d = doc; c.tolerateAsserts = true; Refs vs(d, [&] { return (FCDEntity*) d->AddVisualScene(); }), ph(d, [&] { return (FCDEntity*) d->AddPhysicsScene(); }); struct Last { Refs &a, &b; FUObjectRef<FCDocument>& d; ~Last() { d = NULL; a.e.assign(2, (FCDEntity*) NULL); b.e = a.e; } } last{ vs, ph, doc }; Target v; vector<Target> p; size_t bound = c.deep ? 6 : 5;
	for (size_t step = 0; step < bound; ++step)
	{
		int o = c.choose(7); if (o == 0) break; int k = c.choose(2); Refs& r = o < 4 ? vs : ph;
		if (o == 1 || o == 4) { if (r.e[k] || (k == 1 && !r.e[0])) c.prune(); vs.resolve(v); r.e[k] = r.make(); r.ids[k] = r.e[k]->GetDaeId().c_str(); r.name(k, (o == 1 ? "v" : "p") + NAMES[k]); c.op("add %s scene %d", o == 1 ? "visual" : "physics", k); Target t; t.e = k; t.id = r.ids[k]; if (o == 1) { if (v.e < 0) v = t; } else p.push_back(t); }
		if (o == 2 || o == 5) { if (!r.e[k]) c.prune(); c.op("release %s scene %d", o == 2 ? "visual" : "physics", k); r.e[k]->Release(); r.e[k] = NULL; r.ids[k].clear(); if (o == 2) r.released(v, k); else for (auto& t : p) r.released(t, k); }
		if (o == 3) { int how = c.choose(3); if (how == 0 && !vs.e[k]) c.prune(); FCDEntityReference* ref = d->GetVisualSceneInstanceReference(); v = Target(); if (how == 0) { ref->SetEntity(vs.e[k]); v.e = k; v.id = vs.ids[k]; } else if (how == 1) ref->SetEntity(NULL); else { ref->SetUri(FUUri(fm::string(("#v" + NAMES[k]).c_str()))); v.id = "v" + NAMES[k]; } c.op("show visual scene %d, %d", k, how); }
		if (o == 6) { if (!ph.e[k]) c.prune(); c.op("show physics scene %d", k); d->AddPhysicsSceneInstance((FCDPhysicsScene*) ph.e[k]); Target t; t.e = k; t.id = ph.ids[k]; p.push_back(t); }
		vs.resolve(v); CHECK(d->GetVisualSceneInstance() == (v.e < 0 ? NULL : vs.e[v.e]), "roots:visual", "."); CHECK(d->GetPhysicsSceneInstanceCount() == p.size(), "roots:count", "%d physics scenes, should be %d", (int) d->GetPhysicsSceneInstanceCount(), (int) p.size()); for (size_t i = 0; i < p.size(); ++i) CHECK(d->GetPhysicsSceneInstance(i) == (p[i].e < 0 ? NULL : ph.e[p[i].e]), "roots:physics", "scene %d", (int) i); c.state(mc::strf("%d %d", v.e, (int) p.size()));
	}
	c.nontrivial();
}
// the nodes at which cameras and lights look
SPACE(targets, 3)
{
	FCDocument* d = *kept; struct Own { vector<FUObject*> o; ~Own() { for (auto x : o) if (x) x->Release(); } } own; vector<FCDTargetedEntity*> e = { d->GetCameraLibrary()->AddEntity(), d->GetLightLibrary()->AddEntity() }; vector<FCDSceneNode*> n = { d->GetVisualSceneLibrary()->AddEntity(), d->GetVisualSceneLibrary()->AddEntity() }; for (auto x : e) own.o.push_back(x); for (auto x : n) own.o.push_back(x); vector<int> t(2, -1); size_t bound = c.deep ? 7 : 6;
	for (size_t step = 0; step < bound; ++step) { int o = c.choose(4); if (o == 0) break; int k = c.choose(2); if (o == 1) { if (!e[k]) c.prune(); int x = c.choose(3) - 1; if (x >= 0 && !n[x]) c.prune(); c.op("%d looks at %d", k, x); e[k]->SetTargetNode(x < 0 ? NULL : n[x]); t[k] = x; } if (o == 2) { if (!e[k]) c.prune(); c.op("release %d", k); e[k]->Release(); e[k] = NULL; own.o[k] = NULL; t[k] = -1; } if (o == 3) { if (!n[k]) c.prune(); c.op("release node %d", k); n[k]->Release(); n[k] = NULL; own.o[2 + k] = NULL; for (auto& x : t) if (x == k) x = -1; }
		for (int i = 0; i < 2; ++i) if (e[i]) CHECK(e[i]->GetTargetNode() == (t[i] < 0 ? NULL : n[t[i]]), "targets:node", "%d", i); for (int i = 0; i < 2; ++i) if (n[i]) CHECK(n[i]->IsTarget() == (t[0] == i || t[1] == i), "targets:flag", "node %d is %sa target", i, n[i]->IsTarget() ? "" : "not "); c.state(mc::strf("%d %d", t[0], t[1])); }
	c.checkAsserts("the targets"); c.nontrivial();
}
SPACE(layers, 2)
{
	FCDocument* d = *kept; struct Own { FCDocument* d; ~Own() { while (d->GetLayerCount() > 0) d->ReleaseLayer(d->GetLayer(0)); } } own{ d }; vector<std::pair<FCDLayer*, string>> l; for (int step = 0; step < 6; ++step) { int o = c.choose(4); if (o == 0) break; if (o == 1) { if (l.size() >= 3) c.prune(); FCDLayer* x = d->AddLayer(); l.push_back({ x, "" }); c.op("add"); } if (o == 2) { if (l.empty()) c.prune(); size_t i = (size_t) c.choose((int) l.size()); c.op("release %d", (int) i); d->ReleaseLayer(l[i].first); l.erase(l.begin() + i); } if (o == 3) { if (l.empty()) c.prune(); size_t i = (size_t) c.choose((int) l.size()); l[i].second = c.pick(NAMES); l[i].first->name = l[i].second.c_str(); c.op("name %d %s", (int) i, l[i].second.c_str()); } CHECK(d->GetLayerCount() == l.size(), "layers:count", "."); for (size_t i = 0; i < l.size(); ++i) CHECK(d->GetLayer(i) == l[i].first && l[i].second == d->GetLayer(i)->name.c_str(), "layers:order", "."); for (auto& s : NAMES) { FCDLayer* want = NULL; for (size_t i = l.size(); i > 0; --i) if (l[i - 1].second == s) want = l[i - 1].first; CHECK(d->FindLayer(fm::string(s.c_str())) == want, "layers:find", "%s", s.c_str()); } c.state((int) l.size()); } c.checkAsserts("the layers"); c.nontrivial();
}
// ---------------------------------------------------------------- a document with one of everything
namespace {
struct Full
{
	FCDocument* d; vector<std::pair<string, FUTrackable*>> o; vector<Watch*> w; vector<std::function<FUTrackable*()>> refs; bool gone = false;
	template <class X> X* add(const char* n, X* x) { o.push_back({ n, x }); w.push_back(new Watch(x)); return x; }
	size_t of(FUTrackable* x) { for (size_t i = 0; i < o.size(); ++i) if (o[i].second == x) return i; return o.size(); }
	bool live(const char* n) { for (size_t i = 0; i < o.size(); ++i) if (o[i].first == n) return !w[i]->told; return false; }
	template <class F> void ref(const char* holder, F f) { string h = holder; refs.push_back([this, h, f]() -> FUTrackable* { return live(h.c_str()) ? (FUTrackable*) f() : NULL; }); }
	Full()
	{
		d = FCollada::NewTopDocument(); FCDGeometry* g = add("geometry", d->GetGeometryLibrary()->AddEntity()); FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* src = add("source", m->AddVertexSource(FUDaeGeometryInput::POSITION)); src->SetData(FloatList(9, 1.0f), 3); FCDGeometryPolygons* p = add("polygons", m->AddPolygons()); p->SetMaterialSemantic(FC("mat")); uint32 ix[] = { 0, 1, 2 }; p->AddFaceVertexCount(3); p->FindInput(src)->SetIndices(ix, 3);
		FCDGeometry* g2 = add("geometry 2", d->GetGeometryLibrary()->AddEntity()); g2->CreateMesh()->AddVertexSource(FUDaeGeometryInput::POSITION)->SetData(FloatList(9, 2.0f), 3); FCDController* skin = add("skin", d->GetControllerLibrary()->AddEntity()); skin->CreateSkinController()->SetTarget(g); FCDController* morph = add("morph", d->GetControllerLibrary()->AddEntity()); morph->CreateMorphController()->SetBaseTarget(g); FCDMorphTarget* mt = add("morph target", morph->GetMorphController()->AddTarget(g2, 1.0f));
		FCDImage* im = add("image", d->GetImageLibrary()->AddEntity()); FCDEffect* e = add("effect", d->GetEffectLibrary()->AddEntity()); FCDEffectStandard* es = (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON); FCDTexture* tx = add("texture", es->AddTexture(FUDaeTextureChannel::DIFFUSE)); tx->SetImage(im); FCDEffectParameterSampler* sm = add("sampler", tx->GetSampler()); FCDEffectParameterSurface* sf = add("surface", sm->GetSurface()); FCDMaterial* mat = add("material", d->GetMaterialLibrary()->AddEntity()); mat->SetEffect(e);
		FCDSceneNode* s = add("scene", d->AddVisualScene()); FCDSceneNode* n = add("node", s->AddChildNode()); FCDSceneNode* bone = add("bone", n->AddChildNode()); FCDCamera* cam = add("camera", d->GetCameraLibrary()->AddEntity()); FCDLight* li = add("light", d->GetLightLibrary()->AddEntity()); cam->SetTargetNode(n); li->SetTargetNode(bone); FCDEmitter* em = add("emitter", d->GetEmitterLibrary()->AddEntity()); FCDForceField* ff = add("force field", d->GetForceFieldLibrary()->AddEntity());
		FCDGeometryInstance* gi = (FCDGeometryInstance*) add("geometry instance", n->AddInstance(g)); FCDMaterialInstance* mi = add("material instance", gi->AddMaterialInstance(mat, p)); FCDControllerInstance* ci = (FCDControllerInstance*) add("controller instance", n->AddInstance(skin)); ci->AddJoint(bone); FCDEntityInstance* ca = add("camera instance", bone->AddInstance(cam)); FCDEntityInstance* l2 = add("light instance", bone->AddInstance(li)); FCDEntityInstance* ei = add("emitter instance", n->AddInstance(em)); FCDEntityInstance* fi = add("field instance", n->AddInstance(ff)); FCDSceneNode* other = add("library node", d->GetVisualSceneLibrary()->AddEntity()); FCDEntityInstance* ni = add("node instance", n->AddInstance(other));
		FCDAnimation* an = add("animation", d->GetAnimationLibrary()->AddEntity()); FCDAnimationChannel* ch = add("channel", an->AddChannel()); FCDAnimationCurve* cu = add("curve", ch->AddCurve()); cu->AddKey(FUDaeInterpolation::LINEAR); FCDAnimated* ad = add("animated", li->GetIntensity().GetAnimated()); ad->AddCurve(0, cu); FCDAnimationClip* cl = add("clip", d->GetAnimationClipLibrary()->AddEntity()); cl->AddClipCurve(cu);
		FCDPhysicsMaterial* pm = add("physics material", d->GetPhysicsMaterialLibrary()->AddEntity()); FCDPhysicsModel* mo = add("model", d->GetPhysicsModelLibrary()->AddEntity()); FCDPhysicsRigidBody* rb = add("body", mo->AddRigidBody()); rb->GetParameters()->SetPhysicsMaterial(pm); FCDPhysicsShape* sh = add("shape", rb->GetParameters()->AddPhysicsShape()); sh->CreateGeometryInstance(g); sh->SetPhysicsMaterial(pm); FCDPhysicsShape* sh2 = add("shape 2", rb->GetParameters()->AddPhysicsShape()); FCDPhysicsMaterial* own = add("own material", sh2->AddOwnPhysicsMaterial()); FCDPhysicsRigidConstraint* rc = add("constraint", mo->AddRigidConstraint()); rc->SetReferenceRigidBody(rb); rc->SetTargetNode(n); FCDPhysicsScene* ps = add("physics scene", d->AddPhysicsScene()); FCDPhysicsModelInstance* pi = add("model instance", ps->AddPhysicsModelInstance(mo)); FCDPhysicsRigidBodyInstance* bi = add("body instance", pi->AddRigidBodyInstance(rb)); bi->SetTargetNode(n); FCDPhysicsRigidConstraintInstance* coi = add("constraint instance", pi->AddRigidConstraintInstance(rc)); FCDPhysicsForceFieldInstance* pfi = add("physics field instance", ps->AddForceFieldInstance(ff));
		FCDENode* en = add("extra node", n->GetExtra()->AddType("t")->AddTechnique("p")->AddChildNode("x"));
		(void) own; (void) en; (void) other;
		ref("skin", [=] { return skin->GetSkinController()->GetTarget(); }); ref("skin", [=] { return skin->GetBaseGeometry(); }); ref("morph", [=] { return morph->GetMorphController()->GetBaseTarget(); }); ref("morph target", [=] { return mt->GetGeometry(); }); ref("texture", [=] { return (const FCDEffectParameterSampler*) const_cast<const FCDTexture*>(tx)->GetSampler(); }); ref("sampler", [=] { return sm->GetSurface(); }); ref("surface", [=] { return sf->GetImageCount() ? sf->GetImage(0) : NULL; }); ref("material", [=] { return mat->GetEffect(); }); ref("camera", [=] { return cam->GetTargetNode(); }); ref("light", [=] { return li->GetTargetNode(); });
		for (auto x : vector<std::pair<const char*, FCDEntityInstance*>>{ { "geometry instance", gi }, { "material instance", mi }, { "controller instance", ci }, { "camera instance", ca }, { "light instance", l2 }, { "emitter instance", ei }, { "field instance", fi }, { "node instance", ni }, { "model instance", pi }, { "body instance", bi }, { "constraint instance", coi }, { "physics field instance", pfi } }) { FCDEntityInstance* i = x.second; ref(x.first, [=] { return i->GetEntity(); }); }
		ref("controller instance", [=] { return ci->GetJointCount() ? ci->GetJoint(0) : NULL; }); ref("animated", [=] { return ad->GetCurve(0); }); ref("clip", [=] { return cl->GetClipCurves().empty() ? NULL : (FCDAnimationCurve*) cl->GetClipCurves()[0]; }); ref("shape", [=] { return sh->GetPhysicsMaterial(); }); ref("shape", [=] { return sh->GetGeometryInstance()->GetEntity(); }); ref("shape 2", [=] { return sh2->GetPhysicsMaterial(); }); ref("body", [=] { return rb->GetParameters()->GetPhysicsMaterial(); }); ref("constraint", [=] { return rc->GetReferenceRigidBody(); }); ref("constraint", [=] { return rc->GetTargetNode(); }); ref("body instance", [=] { return bi->GetTargetNode(); }); Full* f = this; refs.push_back([f, this]() -> FUTrackable* { return (FUTrackable*) d->GetVisualSceneInstance(); }); refs.push_back([this]() -> FUTrackable* { return (FUTrackable*) d->GetPhysicsSceneInstance(); });
	}
	~Full() { if (!gone) d->Release(); for (auto x : w) delete x; }
};
}
SPACE(destroy, 2)
{
	c.tolerateAsserts = true; Full f; size_t releases = c.deep ? 3 : 2; size_t n = f.o.size(); vector<FUTrackable*> before; for (auto& r : f.refs) { FUTrackable* x = r(); CHECK(x != NULL, "destroy:reference", "."); before.push_back(x); }
	for (size_t i = 0; i < releases; ++i)
	{
		int k = c.choose((int) n + 1); if (k == (int) n) break; if (f.w[k]->told) c.prune(); c.op("release the %s", f.o[k].first.c_str()); ((FUObject*) f.o[k].second)->Release(); CHECK(f.w[k]->told == 1, "destroy:told", "the release of the %s was announced %d times", f.o[k].first.c_str(), f.w[k]->told);
		for (size_t r = 0; r < f.refs.size(); ++r) { FUTrackable* x = f.refs[r](); size_t b = f.of(before[r]); if (x != NULL) { CHECK(x == before[r] && b < n && !f.w[b]->told, "destroy:dangling", "reference %d names a released %s", (int) r, b < n ? f.o[b].first.c_str() : "object"); } }
		for (size_t r = 0; r < f.refs.size(); ++r) if (f.refs[r]() == NULL) before[r] = NULL;
		c.state(mc::strf("%d", (int) std::count_if(f.w.begin(), f.w.end(), [](Watch* w) { return w->told > 0; })));
	}
	c.op("release the document"); f.gone = true; f.d->Release(); for (size_t i = 0; i < n; ++i) CHECK(f.w[i]->told == 1, "destroy:once", "the release of the %s was announced %d times", f.o[i].first.c_str(), f.w[i]->told); c.nontrivial();
}
// An instance of a node is below every node above that node, along all of its parents.
SPACE(ancestors, 4)
{
	FUObjectRef<FCDocument> doc = new FCDocument(); const int n = c.deep ? 6 : 5; vector<FCDSceneNode*> nodes; nodes.push_back(doc->AddVisualScene()); bool below[6][6] = {}; string built;
	for (int i = 1; i < n; ++i)
	{
		FCDSceneNode* node = NULL; int count = 0; bool order = c.flag();
		for (int k = 0; k < i; ++k) { int j = order ? i - 1 - k : k; if (!c.flag()) continue; if (!node) node = nodes[j]->AddChildNode(); else nodes[j]->AddChildNode(node); ++count; below[i][j] = true; built += mc::strf("%d under %d; ", i, j); for (int a = 0; a < j; ++a) below[i][a] |= below[j][a]; }
		if (count < 2 && order) c.prune(); if (!node) c.prune(); nodes.push_back(node);
	}
	c.op("%s", built.c_str()); FCDCamera* cam = doc->GetCameraLibrary()->AddEntity(); FCDEntityInstance* inst = nodes[n - 1]->AddInstance(cam); c.nontrivial();
	for (int i = 0; i < n; ++i) CHECK(inst->HasForParent(nodes[i]) == (i == n - 1 || below[n - 1][i]), "instances:ancestor", "the instance in node %d is %sbelow node %d", n - 1, inst->HasForParent(nodes[i]) ? "" : "not ", i); CHECK(!inst->HasForParent(NULL), "instances:ancestor", "nothing is a parent"); c.state(built.size());
}
