// P01: export followed by import gives back scenes, geometry, controllers, cameras, lights and animation.
#ifndef GRAMMAR_ONLY // P18 uses the grammar alone
#include "trip.h"
const char* mc::property = "P01"; const char* mc::level = "model_checking";
const char* mc::rule = "every document of a bounded grammar per feature area (scene graphs, transforms, meshes, splines, controllers, cameras, lights, instances, animations, clips, documents, strings) is exported, imported and exported again with the real library; a case is non-trivial when both texts and both documents were compared";
std::vector<std::string> mc::assumptions = { "values are exactly representable with the digits that are exported", "everything is reached from a library, a scene or the document itself; curves are attached to an animated value", "file times are not compared" };
static bool init = (mc::workerInit = [] { FCollada::Initialize(); }, true);
#endif
using std::string; using std::vector;
typedef FUObjectRef<FCDocument> Doc; static Doc top() { return FCollada::NewTopDocument(); }
static const vector<string> TEXT = { "plain", "two words", "a&b <c> \"d\" 'e'", "100% of %", "caf\xc3\xa9", "x;y#z/w(1)", "  edges  ", "1st" };
static const vector<float> VAL = { 0, 1, -2.5f, 0.0625f, 1024, -0.125f };
static fstring fs(const string& s) { return fstring(s.c_str()); }
static void fill(FCDExtra* e, int k) { if (!k) return; FCDETechnique* t = e->GetDefaultType()->AddTechnique("TEST"); FCDENode* n = t->AddChildNode("thing"); n->AddAttribute("kind", FC("some kind")); n->AddChildNode("leaf")->SetContent(FC("12 inches & more")); if (k > 1) { FCDEType* y = e->AddType("special"); y->AddTechnique("OTHER")->AddParameter("size", 2.5f); y->AddTechnique("TEST")->AddParameter("word", FC("value")); } }
// Scene graphs.
SPACE(graphs, 4)
{
	Doc d = top(); FCDSceneNode* root = d->AddVisualScene(); vector<FCDSceneNode*> ns = { root }; int n = c.deep ? 5 : 4; string shape;
	for (int i = 1; i < n; ++i) { int first = c.choose(i + 1); if (first == i) break; FCDSceneNode* k = ns[first]->AddChildNode(); k->SetName(fs(mc::strf("node %d", i))); shape += mc::strf("%d<%d ", i, first); int second = c.choose(i - first); if (second > 0) { ns[first + second]->AddChildNode(k); shape += mc::strf("%d<%d ", i, first + second); } k->SetJointFlag(c.flag()); ns.push_back(k); }
	bool more = c.flag(); if (more) { FCDSceneNode* s = d->GetVisualSceneLibrary()->AddEntity(); s->SetName(FC("unused scene")); s->AddChildNode()->SetName(FC("lone")); } c.op("%s%s", shape.c_str(), more ? "and another scene" : ""); trip::check(c, d);
}
SPACE(nodes, 4)
{
	Doc d = top(); FCDSceneNode* root = d->AddVisualScene(); root->SetName(FC("scene")); FCDSceneNode* n = root->AddChildNode(); int id = c.choose(4); if (id) n->SetDaeId(fm::string(id == 1 ? "chosen" : id == 2 ? "chosen-id.2" : "_under")); int name = c.choose(3); if (name) n->SetName(name == 1 ? FC("named") : FC("two words")); bool joint = c.flag(); n->SetJointFlag(joint); int sid = c.choose(3); if (sid) n->SetSubId(sid == 1 ? "sub" : "sub_2"); float vis = c.pick<float>({ 1, 0 }); n->GetVisibility() = vis; int ex = c.choose(3); if (ex) fill(n->GetExtra(), ex); bool note = c.flag(); if (note) n->SetNote(FC("a note")); bool asset = c.flag(); if (asset) n->GetAsset()->SetTitle(FC("a title")); bool rootEx = c.flag(); if (rootEx) { fill(root->GetExtra(), 1); root->SetNote(FC("root note")); }
	c.op("id %d name %d joint %d sid %d visible %g extra %d note %d asset %d root %d", id, name, (int) joint, sid, vis, ex, (int) note, (int) asset, (int) rootEx); trip::check(c, d);
}
static FCDTransform* addTransform(mc::Ctx& c, FCDSceneNode* n, int t, int v, size_t at = (size_t) -1)
{
	static const FMVector3 P[] = { { 0, 0, 0 }, { 1, -2.5f, 0.0625f }, { -1024, 3, 0.5f } }; static const FMVector3 A[] = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0.6f, -0.8f } };
	FCDTransform* r = n->AddTransform((FCDTransform::Type) t, at); switch (t) { case FCDTransform::TRANSLATION: ((FCDTTranslation*) r)->SetTranslation(P[v]); break; case FCDTransform::SCALE: ((FCDTScale*) r)->SetScale(v ? P[v] : FMVector3(1, 1, 1)); break; case FCDTransform::ROTATION: ((FCDTRotation*) r)->SetRotation(A[v], v == 0 ? 0 : v == 1 ? 90 : -450.5f); break; case FCDTransform::MATRIX: { FMMatrix44 m = FMMatrix44::Identity; if (v) for (int i = 0; i < 16; ++i) m.m[i / 4][i % 4] = v == 1 ? i * 0.25f - 2 : (float) (i * i - 10); ((FCDTMatrix*) r)->SetTransform(m); break; } case FCDTransform::LOOKAT: ((FCDTLookAt*) r)->SetLookAt(FMLookAt(P[v], P[(v + 1) % 3], A[v])); break; default: ((FCDTSkew*) r)->SetSkew(FMSkew(A[v], A[(v + 1) % 3], v == 0 ? 0 : v == 1 ? 45 : -30.25f)); } return r;
}
SPACE(transforms, 3)
{
	Doc d = top(); FCDSceneNode* n = d->AddVisualScene()->AddChildNode(); int count = c.range(1, c.deep ? 3 : 2); string s; for (int i = 0; i < count; ++i) { int t = c.choose(6), v = c.choose(3), sid = c.choose(2); FCDTransform* x = addTransform(c, n, t, v); if (sid) x->SetSubId(i ? "same" : "here"); s += mc::strf("%d/%d/%d ", t, v, sid); } c.op("%s", s.c_str()); trip::check(c, d);
}
// Meshes.
static FCDGeometrySource* addSource(FCDGeometryMesh* m, FUDaeGeometryInput::Semantic s, uint32 stride, int count, bool vertex, int seed) { FCDGeometrySource* r = vertex ? m->AddVertexSource(s) : m->AddSource(s); FloatList l; for (int i = 0; i < count * (int) stride; ++i) l.push_back(((i * 7 + seed) % 13) * 0.25f - 1.5f); r->SetData(l, stride); return r; }
SPACE(meshes, 4)
{
	Doc d = top(); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); g->SetName(FC("geo")); FCDGeometryMesh* m = g->CreateMesh(); int vs = c.choose(3); FCDGeometrySource* pos = addSource(m, FUDaeGeometryInput::POSITION, 3, 5, true, 1); FCDGeometrySource* vcol = vs ? addSource(m, vs == 1 ? FUDaeGeometryInput::COLOR : FUDaeGeometryInput::NORMAL, 3, 5, true, 3) : NULL;
	static const vector<FUDaeGeometryInput::Semantic> KIND = { FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::COLOR, FUDaeGeometryInput::TEXTANGENT, FUDaeGeometryInput::TEXBINORMAL, FUDaeGeometryInput::GEOTANGENT, FUDaeGeometryInput::GEOBINORMAL, FUDaeGeometryInput::UV, FUDaeGeometryInput::EXTRA };
	int extraKind = c.choose((int) KIND.size() + 1); FCDGeometrySource* other = extraKind ? addSource(m, KIND[extraKind - 1], KIND[extraKind - 1] == FUDaeGeometryInput::TEXCOORD ? 2 : KIND[extraKind - 1] == FUDaeGeometryInput::COLOR ? 4 : 3, 4, false, 5) : NULL;
	bool sharedOffset = other && c.flag(); int set = other ? c.choose(3) - 1 : -1; int vset = c.choose(2); int sets = c.range(1, 2); string s = mc::strf("vertex sources %d, other source %d %s set %d/%d: ", vs, extraKind, sharedOffset ? "shared" : "own offset", set, vset);
	for (int k = 0; k < sets; ++k)
	{
		FCDGeometryPolygons* p = m->AddPolygons(); int prim = c.choose(k == 1 && !c.deep ? 2 : 6); if (k == 1) { if (vs == 2) c.prune(); if (!c.deep) prim = prim ? 0 : 3; } p->SetPrimitiveType((FCDGeometryPolygons::PrimitiveType) prim); if (k == 0 || c.flag()) p->SetMaterialSemantic(k ? FC("second material") : FC("first"));
		FCDGeometryPolygonsInput* in = p->FindInput(pos); if (!in) in = p->AddInput(pos, 0); if (vcol && !p->FindInput(vcol)) p->AddInput(vcol, 0); if (vset) p->FindInput(pos)->SetSet(2); FCDGeometryPolygonsInput* in2 = NULL; if (other) { in2 = p->AddInput(other, sharedOffset ? 0 : 1); in2->SetSet(set); }
		int layout = c.choose(4); vector<uint32> faces; if (prim == FCDGeometryPolygons::LINES) faces = layout == 0 ? vector<uint32>{ 2 } : layout == 1 ? vector<uint32>{ 4 } : vector<uint32>{ 2, 4 }; else if (prim == FCDGeometryPolygons::POINTS) faces = { (uint32) layout + 1 }; else faces = layout == 0 ? vector<uint32>{ 3 } : layout == 1 ? vector<uint32>{ 3, 3 } : layout == 2 ? vector<uint32>{ 4, 3, 5 } : vector<uint32>{ 3, 4 }; if (prim == FCDGeometryPolygons::LINES && layout == 3) c.prune();
		uint32 total = 0; for (uint32 f : faces) { p->AddFaceVertexCount(f); total += f; } if (prim == FCDGeometryPolygons::POLYGONS && faces.size() > 1 && c.flag()) { p->AddHole(1); s += "hole "; } for (uint32 i = 0; i < total; ++i) { in->AddIndex((i * 2 + k) % 4); if (in2 && !sharedOffset) in2->AddIndex((i * 3 + 1) % 4); } s += mc::strf("kind %d layout %d; ", prim, layout);
	}
	m->Recalculate(); c.op("%s", s.c_str()); trip::check(c, d);
}
SPACE(sources, 3)
{
	Doc d = top(); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* m = g->CreateMesh(); int id = c.choose(2), name = c.choose(3), ex = c.choose(2), stride = c.range(1, 4), count = c.choose(4), polyEx = c.choose(2), meshEx = c.choose(3); FCDGeometrySource* s = addSource(m, FUDaeGeometryInput::POSITION, stride, count, true, 2); if (id) s->SetDaeId(fm::string("the-points")); if (name) s->SetName(name == 1 ? FC("points") : FC("some points")); if (ex) fill(s->GetExtra(), ex);
	if (count) { FCDGeometryPolygons* p = m->AddPolygons(); FCDGeometryPolygonsInput* in = p->FindInput(s); if (!in) in = p->AddInput(s, 0); p->AddFaceVertexCount(3); for (int i = 0; i < 3; ++i) in->AddIndex(i % count); if (polyEx) fill(p->GetExtra(), 2); } else if (polyEx) c.prune(); fill(g->GetExtra(), meshEx); m->Recalculate(); c.op("id %d name %d extra %d stride %d count %d polygons extra %d geometry extra %d", id, name, ex, stride, count, polyEx, meshEx); trip::check(c, d);
}
SPACE(convex, 2)
{
	Doc d = top(); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* m = g->CreateMesh(); addSource(m, FUDaeGeometryInput::POSITION, 3, 4, true, 1); FCDGeometry* h = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* k = h->CreateMesh(); int way = c.choose(3); if (way < 2) { k->SetConvex(true); k->SetConvexHullOf(g); } if (way == 1) g->SetDaeId(fm::string("hull-source")); c.op("%d", way); trip::check(c, d);
}
SPACE(splines, 3)
{
	Doc d = top(); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometrySpline* s = g->CreateSpline(); int type = c.choose(3); s->SetType((FUDaeSplineType::Type) (FUDaeSplineType::LINEAR + type)); int count = c.range(1, 2); string t = mc::strf("kind %d: ", type);
	for (int k = 0; k < count; ++k) { FCDSpline* x = s->AddSpline((FUDaeSplineType::Type) (FUDaeSplineType::LINEAR + type)); bool closed = c.flag(); x->SetClosed(closed); int n = type == 1 ? (closed ? c.pick<int>({ 3, 6 }) : c.pick<int>({ 4, 7 })) : c.pick<int>({ 2, 4, 5 }); for (int i = 0; i < n; ++i) { FMVector3 p(i * 0.5f - 1, i * i * -0.25f, (float) k); if (type == 2) ((FCDNURBSSpline*) x)->AddCV(p, 1 + i * 0.5f); else if (type == 1) ((FCDBezierSpline*) x)->AddCV(p); else ((FCDLinearSpline*) x)->AddCV(p); } if (type == 2) { int deg = c.range(1, 3); ((FCDNURBSSpline*) x)->SetDegree(deg); for (int i = 0; i < n + deg + 1; ++i) ((FCDNURBSSpline*) x)->AddKnot(i * 0.5f); } t += mc::strf("%s %d; ", closed ? "closed" : "open", n); } c.op("%s", t.c_str()); trip::check(c, d);
}
// Controllers.
static FCDGeometry* quad(FCDocument* d, const char* id, int n = 3, int seed = 1) { FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); g->SetDaeId(fm::string(id)); g->SetName(fs(id)); FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* s = addSource(m, FUDaeGeometryInput::POSITION, 3, n, true, seed); FCDGeometryPolygons* p = m->AddPolygons(); FCDGeometryPolygonsInput* in = p->FindInput(s); if (!in) in = p->AddInput(s, 0); p->AddFaceVertexCount(n); for (int i = 0; i < n; ++i) in->AddIndex(i); m->Recalculate(); return g; }
SPACE(skins, 3)
{
	Doc d = top(); FCDController* k = d->GetControllerLibrary()->AddEntity(); k->SetName(FC("skin")); FCDSkinController* s = k->CreateSkinController(); s->SetTarget(quad(d, "base")); bool shape = c.flag(); if (shape) { FMMatrix44 m; for (int i = 0; i < 16; ++i) m.m[i / 4][i % 4] = i * 0.25f - 1; s->SetBindShapeTransform(m); } int joints = c.range(0, 2); for (int j = 0; j < joints; ++j) { FMMatrix44 m = FMMatrix44::Identity; m.m[3][0] = j * 2.5f; m.m[0][1] = -0.5f; s->AddJoint(j ? "j2" : "j1", m); }
	string t; s->SetInfluenceCount(3); for (int v = 0; v < 3; ++v) { static const vector<vector<float>> W = { {}, { 1 }, { 0 }, { 0.25f, 0.75f }, { 0.5f, 0.5f }, { 1, 0 }, { 1.5f, -0.5f } }; const vector<float>& ws = v == 2 && !c.deep ? W[1] : W[c.choose((int) W.size())]; for (float w : ws) { int j = c.choose(joints + 1) - 1; s->GetVertexInfluence(v)->AddPair(j, w); t += mc::strf("%d:%g ", j, w); } t += "| "; }
	int ex = c.choose(2); fill(k->GetExtra(), ex); c.op("%d joints, shape %d, %s, extra %d", joints, (int) shape, t.c_str(), ex); trip::check(c, d);
}
SPACE(chains, 2)
{
	Doc d = top(); FCDGeometry* g = quad(d, "base"); FCDGeometry* o = quad(d, "other", 3, 4); FCDController* a = d->GetControllerLibrary()->AddEntity(); FCDController* b = d->GetControllerLibrary()->AddEntity(); int order = c.choose(2); FCDController* first = order ? b : a; FCDController* second = order ? a : b; first->SetName(FC("first")); second->SetName(FC("second")); int way = c.choose(4); auto morph = [&](FCDController* k, FCDEntity* base) { FCDMorphController* m = k->CreateMorphController(); m->SetBaseTarget(base); m->AddTarget(o, 0.25f); }; auto skin = [&](FCDController* k, FCDEntity* base) { FCDSkinController* s = k->CreateSkinController(); s->SetTarget(base); s->AddJoint("j"); s->SetInfluenceCount(3); s->GetVertexInfluence(1)->AddPair(0, 1); };
	if (way & 1) morph(first, g); else skin(first, g); if (way & 2) morph(second, first); else skin(second, first); c.op("%d %d", order, way); trip::check(c, d);
}
SPACE(morphs, 2)
{
	Doc d = top(); FCDController* k = d->GetControllerLibrary()->AddEntity(); k->SetName(FC("morph")); FCDMorphController* m = k->CreateMorphController(); bool base = c.flag(); if (base) m->SetBaseTarget(quad(d, "base")); int method = c.choose(2); m->SetMethod((FUDaeMorphMethod::Method) method); int n = c.range(0, 3); FCDGeometry* g[3]; for (int i = 0; i < 3; ++i) g[i] = quad(d, i == 0 ? "t0" : i == 1 ? "t1" : "t2", 3, i * 2); string t; for (int i = 0; i < n; ++i) { int w = c.choose(3); m->AddTarget(g[i], w == 0 ? 0 : w == 1 ? 1 : -0.5f); t += mc::strf("%d ", w); } int ex = c.choose(2); fill(k->GetExtra(), ex); c.op("base %d method %d targets %s extra %d", (int) base, method, t.c_str(), ex); trip::check(c, d);
}
// Cameras and lights.
SPACE(cameras, 3)
{
	Doc d = top(); FCDSceneNode* root = d->AddVisualScene(); FCDCamera* k = d->GetCameraLibrary()->AddEntity(); k->SetName(FC("camera")); int proj = c.choose(2), views = c.choose(5); k->SetProjectionType(proj ? FCDCamera::ORTHOGRAPHIC : FCDCamera::PERSPECTIVE); float x = c.pick(VAL), y = c.pick<float>({ 1, 40.5f, 0 }), n = c.pick<float>({ 1, 0, 0.125f }), f = c.pick<float>({ 1000, 2.5f }); if (views == 0) k->SetFovX(x); if (views == 1) k->SetFovY(y); if (views == 2) { k->SetFovX(x); k->SetFovY(y); } if (views == 3) { k->SetFovX(x); k->SetAspectRatio(1.5f); } if (views == 4) { k->SetFovY(y); k->SetAspectRatio(0.5f); } k->SetNearZ(n); k->SetFarZ(f); bool target = c.flag(); if (target) { FCDSceneNode* t = root->AddChildNode(); t->SetName(FC("target")); k->SetTargetNode(t); } int ex = c.choose(3); fill(k->GetExtra(), ex); root->AddChildNode()->AddInstance(k); c.op("projection %d views %d x %g y %g near %g far %g target %d extra %d", proj, views, x, y, n, f, (int) target, ex); trip::check(c, d);
}
SPACE(lights, 3)
{
	Doc d = top(); FCDSceneNode* root = d->AddVisualScene(); FCDLight* l = d->GetLightLibrary()->AddEntity(); l->SetName(FC("light")); int type = c.choose(4); l->SetLightType((FCDLight::LightType) type); int col = c.choose(3); l->SetColor(col == 0 ? FMVector3(1, 1, 1) : col == 1 ? FMVector3(0, 0.5f, 2) : FMVector3(0.25f, 0, 0)); float in = c.pick<float>({ 1, 0.5f, 0, 2, -1 }); l->SetIntensity(in); int att = c.choose(3); if (att) { l->SetConstantAttenuationFactor(att == 1 ? 0 : 0.5f); l->SetLinearAttenuationFactor(att == 1 ? 2 : -0.25f); l->SetQuadraticAttenuationFactor(att == 1 ? 0.125f : 0); } int spot = c.choose(4); if (spot) { l->SetFallOffAngle(spot == 1 ? 30 : 60.5f); l->SetFallOffExponent(spot == 1 ? 0 : 2.5f); l->SetOuterAngle(spot == 1 ? 45 : spot == 2 ? 30 : 60.5f); l->SetDropoff(spot == 1 ? 0.5f : 10); } bool target = c.flag(); if (target) { FCDSceneNode* t = root->AddChildNode(); t->SetName(FC("target")); l->SetTargetNode(t); } int ex = c.choose(3); fill(l->GetExtra(), ex); root->AddChildNode()->AddInstance(l); c.op("kind %d color %d intensity %g attenuation %d spot %d target %d extra %d", type, col, in, att, spot, (int) target, ex); trip::check(c, d);
}
// Instances.
SPACE(instances, 4)
{
	Doc d = top(); FCDSceneNode* root = d->AddVisualScene(); FCDSceneNode* n = root->AddChildNode(); n->SetName(FC("holder")); FCDMaterial* mats[2]; for (int i = 0; i < 2; ++i) { mats[i] = d->GetMaterialLibrary()->AddEntity(); mats[i]->SetName(i ? FC("m2") : FC("m1")); } FCDGeometry* g = quad(d, "geo"); FCDController* k = d->GetControllerLibrary()->AddEntity(); k->SetName(FC("skin")); FCDSkinController* s = k->CreateSkinController(); s->SetTarget(g); s->AddJoint("jo"); s->SetInfluenceCount(3); FCDCamera* cam = d->GetCameraLibrary()->AddEntity(); FCDLight* lig = d->GetLightLibrary()->AddEntity(); FCDForceField* ff = d->GetForceFieldLibrary()->AddEntity(); FCDEmitter* em = d->GetEmitterLibrary()->AddEntity(); FCDSceneNode* joint = root->AddChildNode(); joint->SetName(FC("joint")); joint->SetJointFlag(true); joint->SetSubId("jo"); FCDEntity* all[] = { g, k, cam, lig, ff, em }; string t; int count = c.range(1, c.deep ? 3 : 2);
	for (int i = 0; i < count; ++i)
	{
		int kind = c.choose(6); FCDEntityInstance* x = n->AddInstance(all[kind]); int look = i == 0 || c.deep ? c.choose(8) : 7 * c.choose(2), name = look & 1, sid = look >> 1 & 1, ex = look >> 2; if (name) x->SetName(FC("an instance")); if (sid) x->SetWantedSubId(i ? "isid-b" : "isid"); fill(x->GetExtra(), ex); t += mc::strf("%d/%d%d%d ", kind, name, sid, ex); if (kind == 1) ((FCDControllerInstance*) x)->AddJoint(joint);
		if (kind < 2 && i == 0) { int m = c.choose(c.deep || count == 1 ? 3 : 2) * 2; FCDGeometryInstance* gi = (FCDGeometryInstance*) x; for (int j = 0; j < m / 2; ++j) { FCDMaterialInstance* mi = gi->AddMaterialInstance(mats[j], j ? FC("two") : FC("one")); int b = c.choose(4); if (b & 1) { mi->AddBinding("TEX", "camera/nearclip"); mi->AddBinding("", "target"); } if (b & 2) { mi->AddVertexInputBinding("UV0", FUDaeGeometryInput::TEXCOORD, 1); mi->AddVertexInputBinding("COL", FUDaeGeometryInput::COLOR, -1); } if (c.flag()) fill(mi->GetExtra(), 1); t += mc::strf("m%d ", b); } }
	}
	c.op("%s", t.c_str()); trip::check(c, d);
}
SPACE(skeletons, 2)
{
	Doc d = top(); FCDSceneNode* root = d->AddVisualScene(); FCDGeometry* g = quad(d, "geo"); FCDController* k = d->GetControllerLibrary()->AddEntity(); FCDSkinController* s = k->CreateSkinController(); s->SetTarget(g); s->SetInfluenceCount(3); int shape = c.choose(4); vector<FCDSceneNode*> js; for (int i = 0; i < 3; ++i) { FCDSceneNode* p = shape == 0 ? root : shape == 1 ? (i ? js[i - 1] : root) : shape == 2 ? (i ? js[0] : root) : (i == 2 ? js[0] : root); js.push_back(p->AddChildNode()); js[i]->SetJointFlag(true); js[i]->SetName(fs(mc::strf("j%d", i))); js[i]->SetSubId(mc::strf("bone%d", i).c_str()); s->AddJoint(mc::strf("bone%d", i).c_str()); } FCDControllerInstance* x = (FCDControllerInstance*) root->AddChildNode()->AddInstance(k); int roots = c.choose(3); for (int i = 0; i < 3; ++i) x->AddJoint(js[i]); if (roots == 0) x->CalculateRootIds(); else x->GetSkeletonRoots().push_back(FUUri(roots == 1 ? root->GetDaeId().c_str() : "x")); if (roots == 2) c.prune(); c.op("shape %d roots %d", shape, roots); trip::check(c, d);
}
// Documents.
SPACE(documents, 3)
{
	Doc d = top(); int scene = c.choose(3); FCDSceneNode* n = NULL; if (scene) { FCDSceneNode* v = d->AddVisualScene(); v->SetName(FC("v")); n = v->AddChildNode(); n->SetName(FC("n")); if (scene == 2) d->GetVisualSceneLibrary()->AddEntity()->SetName(FC("w")); } int start = c.choose(3), end = c.choose(3); if ((start || end) && !scene) c.prune(); if (start) d->SetStartTime(start == 1 ? 0 : -2.5f); if (end) d->SetEndTime(end == 1 ? 0 : 30.25f); int layers = c.choose(4); for (int i = 0; i < layers; ++i) { FCDLayer* l = d->AddLayer(); l->name = i ? "layer two" : "first"; if (n) for (int j = 0; j < (layers == 3 ? i : 1); ++j) l->objects.push_back(j ? fm::string("other") : n->GetDaeId()); } if (layers && !n) c.prune();
	int axis = c.choose(4); if (axis) d->GetAsset()->SetUpAxis(axis == 1 ? FMVector3::XAxis : axis == 2 ? FMVector3::YAxis : FMVector3::ZAxis); int unit = c.choose(3); if (unit) { d->GetAsset()->SetUnitName(unit == 1 ? FC("inch") : FC("cm")); d->GetAsset()->SetUnitConversionFactor(unit == 1 ? 0.0625f : 0.5f); } int ex = c.choose(2); fill(d->GetExtra(), ex * 2); c.op("scene %d start %d end %d layers %d axis %d unit %d extra %d", scene, start, end, layers, axis, unit, ex); trip::check(c, d);
}
// Animation.
namespace FI = FUDaeInterpolation;
static const FI::Interpolation KIND[4] = { FI::STEP, FI::LINEAR, FI::BEZIER, FI::TCB };
static void key(FCDAnimationCurve* k, FI::Interpolation kind, float in, float out, int seed = 0) { FCDAnimationKey* y = k->AddKey(kind); y->input = in; y->output = out; if (kind == FI::BEZIER) { FCDAnimationKeyBezier* b = (FCDAnimationKeyBezier*) y; b->inTangent = FMVector2(in - 0.25f, out + seed * 0.5f - 1); b->outTangent = FMVector2(in + 0.125f, out - seed); } if (kind == FI::TCB) { FCDAnimationKeyTCB* t = (FCDAnimationKeyTCB*) y; t->tension = 0.25f * seed; t->continuity = 0.5f - seed; t->bias = 0.125f; t->easeIn = 0.25f; t->easeOut = seed * 0.5f; } }
struct World
{
	Doc d = top(); FCDSceneNode* root = d->AddVisualScene(); FCDSceneNode* node = root->AddChildNode(); FCDAnimation* a = NULL; FCDCamera* cam; FCDLight* lig; FCDMorphController* mor; FCDGeometrySource* src; FCDENode* leaf; vector<FCDAnimated*> all; vector<string> names;
	template <class T, int Q> void param(const char* n, FCDParameterAnimatableT<T, Q>& p) { names.push_back(n); all.push_back(p.GetAnimated()); }
	World(int lightKind = FCDLight::SPOT, bool ortho = false)
	{
		node->SetName(FC("node")); for (int t = 0; t < 6; ++t) { FCDTransform* x = node->AddTransform((FCDTransform::Type) t); names.push_back(mc::strf("transform %d", t)); if (x->GetType() == FCDTransform::SKEW) ((FCDTSkew*) x)->SetSkew(FMSkew(FMVector3::XAxis, FMVector3::YAxis, 30)); if (x->GetType() == FCDTransform::LOOKAT) ((FCDTLookAt*) x)->SetLookAt(FMLookAt(FMVector3(1, 2, 3), FMVector3(-1, 0, 0.5f), FMVector3::ZAxis)); if (x->GetType() == FCDTransform::ROTATION) ((FCDTRotation*) x)->SetRotation(FMVector3(1, 0, 0), 30); x->SetSubId(mc::strf("t%d", t).c_str()); all.push_back(x->GetAnimated()); }
		param("visibility", node->GetVisibility());
		cam = d->GetCameraLibrary()->AddEntity(); cam->SetName(FC("camera")); cam->SetProjectionType(ortho ? FCDCamera::ORTHOGRAPHIC : FCDCamera::PERSPECTIVE); cam->SetFovX(30); cam->SetFovY(40); param("x view", cam->GetFovX()); param("y view", cam->GetFovY()); param("near", cam->GetNearZ()); param("far", cam->GetFarZ()); node->AddInstance(cam);
		FCDCamera* cam2 = d->GetCameraLibrary()->AddEntity(); cam2->SetName(FC("camera2")); cam2->SetFovX(30); cam2->SetAspectRatio(1.5f); param("aspect", cam2->GetAspectRatio());
		lig = d->GetLightLibrary()->AddEntity(); lig->SetName(FC("light")); lig->SetLightType((FCDLight::LightType) lightKind); param("color", lig->GetColor()); param("intensity", lig->GetIntensity()); if (lightKind != FCDLight::AMBIENT) { param("constant", lig->GetConstantAttenuationFactor()); param("linear", lig->GetLinearAttenuationFactor()); param("quadratic", lig->GetQuadraticAttenuationFactor()); } if (lightKind == FCDLight::SPOT || lightKind == FCDLight::DIRECTIONAL) { param("angle", lig->GetFallOffAngle()); param("exponent", lig->GetFallOffExponent()); param("outer", lig->GetOuterAngle()); } if (lightKind == FCDLight::SPOT) param("dropoff", lig->GetDropoff()); node->AddInstance(lig);
		FCDController* k = d->GetControllerLibrary()->AddEntity(); k->SetName(FC("morph")); mor = k->CreateMorphController(); mor->SetBaseTarget(quad(d, "base")); mor->AddTarget(quad(d, "t0", 3, 2), 0.5f); mor->AddTarget(quad(d, "t1", 3, 4), 0.25f); param("weight 0", mor->GetTarget(0)->GetWeight()); param("weight 1", mor->GetTarget(1)->GetWeight());
		src = d->GetGeometryLibrary()->GetEntity(0)->GetMesh()->GetSource(0); for (int i : { 0, 4 }) { names.push_back(mc::strf("source %d", i)); all.push_back(src->GetSourceData().GetAnimated(i)); }
		leaf = node->GetExtra()->GetDefaultType()->AddTechnique("TEST")->AddChildNode("leaf"); leaf->SetContent(FC("2.5")); leaf->AddAttribute("sid", FC("leaf")); leaf->GetAnimated()->Resize(1); names.push_back("extra"); all.push_back(leaf->GetAnimated());
	}
	FCDAnimation* anim() { if (!a) { a = d->GetAnimationLibrary()->AddEntity(); a->SetName(FC("anim")); } return a; }
	FCDAnimationCurve* curve(FCDAnimated* t, size_t i, FCDAnimationChannel* ch) { FCDAnimationCurve* k = ch->AddCurve(); t->AddCurve(i, k); return k; }
};
SPACE(targets, 3)
{
	int kind = c.choose(4); bool ortho = c.flag(); World w(kind, ortho); if (kind != FCDLight::SPOT && ortho) c.prune(); int t = c.choose((int) w.all.size()); FCDAnimated* a = w.all[t]; int n = (int) a->GetValueCount(); int mode = c.choose(n == 1 ? 2 : 3 + n); string what; auto fillKeys = [&](FCDAnimationCurve* k, int i) { key(k, FI::LINEAR, 0, i * 0.5f, 1); key(k, FI::LINEAR, 1.5f, 2 - i); };
	if (n == 1) { FCDAnimationChannel* ch = w.anim()->AddChannel(); fillKeys(w.curve(a, 0, ch), 0); if (mode == 1) { ch = w.anim()->AddChannel(); fillKeys(w.curve(a, 0, ch), 3); what = "two curves"; } else what = "one curve"; }
	else if (mode < 2) { FCDAnimationChannel* ch = w.anim()->AddChannel(); for (int i = 0; i < n; ++i) { if (mode == 1) ch = w.anim()->AddChannel(); fillKeys(w.curve(a, i, ch), i); } what = mode ? "each in its channel" : "together"; }
	else if (mode == 2) { FCDAnimationChannel* ch = w.anim()->AddChannel(); for (int i = 0; i < n; ++i) { FCDAnimationCurve* k = w.curve(a, i, ch); key(k, FI::LINEAR, 0, i); key(k, i ? FI::STEP : FI::LINEAR, 1 + i, 3); } what = "together, different keys"; }
	else { FCDAnimationChannel* ch = w.anim()->AddChannel(); fillKeys(w.curve(a, mode - 3, ch), 1); what = mc::strf("component %d", mode - 3); }
	c.op("light %d ortho %d target '%s' %s", kind, (int) ortho, w.names[t].c_str(), what.c_str()); trip::check(c, w.d, n == 1 || mode != 2);
}
SPACE(curves, 3)
{
	World w; FCDAnimated* a = w.all[0]; int t = c.choose(3); a = w.all[t == 0 ? 0 : t == 1 ? 6 : 3]; int n = c.range(0, c.deep ? 4 : 3), comps = a->GetValueCount() == 1 ? 1 : c.pick<int>({ 1, (int) a->GetValueCount() }); int odd = comps > 1 ? c.choose(n + 1) - 1 : -1; FCDAnimationChannel* ch = w.anim()->AddChannel(); vector<int> kinds; string s; for (int i = 0; i < n; ++i) { kinds.push_back(c.choose(4)); s += mc::strf("%d", kinds[i]); } int inf = c.choose(10); if ((n > 2 && !c.deep || n == 0) && inf > 0) c.prune();
	for (int j = 0; j < comps; ++j) { FCDAnimationCurve* k = w.curve(a, j, ch); for (int i = 0; i < n; ++i) key(k, KIND[i == odd && j == comps - 1 ? (kinds[i] + 1) % 4 : kinds[i]], i * 0.5f - 0.25f, (i * 3 + j) % 5 - 1.5f, i + j); if (inf < 5) { k->SetPreInfinity((FUDaeInfinity::Infinity) inf); } else { k->SetPostInfinity((FUDaeInfinity::Infinity) (inf - 5)); k->SetPreInfinity(FUDaeInfinity::CYCLE); } }
	c.op("target %s components %d keys %s odd key %d infinity %d", t == 0 ? "translation" : t == 1 ? "visibility" : "matrix", comps, s.c_str(), odd, inf); bool apart = odd >= 0 || std::find(kinds.begin(), kinds.end(), 3) != kinds.end(); trip::check(c, w.d, comps == 1 || !apart);
}
SPACE(drivers, 2)
{
	World w; int from = c.choose((int) w.all.size()), to = c.choose((int) w.all.size()); if (from == to || from == 6 || w.names[from] == "intensity" || w.names[from] == "outer" || w.names[from] == "dropoff") c.prune(); FCDAnimated* src = w.all[from]; int idx = c.choose((int) src->GetValueCount()); FCDAnimationChannel* ch = w.anim()->AddChannel(); FCDAnimationCurve* k = w.curve(w.all[to], 0, ch); key(k, FI::LINEAR, 0, 1); key(k, FI::LINEAR, 2, 3); k->SetDriver(src, idx); ch = w.anim()->AddChannel(); key(w.curve(src, c.flag() ? idx : 0, ch), FI::LINEAR, 0, 4); c.op("'%s'[%d] drives '%s'", w.names[from].c_str(), idx, w.names[to].c_str()); trip::check(c, w.d);
}
SPACE(still, 1)
{
	World w; FCDAnimated* src = w.all[1]; FCDAnimationCurve* k = w.curve(w.all[0], 0, w.anim()->AddChannel()); key(k, FI::LINEAR, 0, 1); k->SetDriver(src, 0); string f = mc::scratch() + "/still.dae"; c.op("a value without curves of its own drives another"); FCollada::SaveDocument(w.d, f.c_str()); Doc e = top(); FCollada::LoadDocumentFromFile(e, f.c_str()); FCDAnimationLibrary* l = e->GetAnimationLibrary(); c.nontrivial(); CHECK(l->GetEntityCount() == 1 && l->GetEntity(0)->GetChannelCount() == 1 && l->GetEntity(0)->GetChannel(0)->GetCurve(0)->HasDriver(), "driver-without-curves:lost", "the driver is lost");
}
SPACE(animations, 3)
{
	World w; int n = c.range(1, 3); vector<FCDAnimation*> as; string s; int used = 0; for (int i = 0; i < n; ++i) { int up = c.choose(i + 1) - 1; FCDAnimation* a = up < 0 ? w.d->GetAnimationLibrary()->AddEntity() : as[up]->AddChild(); as.push_back(a); int look = i == 0 || c.deep ? c.choose(4) : 3 * c.choose(2); if (look & 1) { a->SetName(fs(mc::strf("animation %d", i))); a->SetDaeId(fm::string(mc::strf("anim-%d", i).c_str())); } if (look & 2) { a->SetNote(FC("note")); fill(a->GetExtra(), 2); } int chans = c.choose(3); for (int k = 0; k < chans; ++k) { FCDAnimationChannel* ch = a->AddChannel(); static const int T[] = { 0, 2, 3, 6, 12, 17, 4 }; key(w.curve(w.all[T[used++ % 7]], 0, ch), FI::LINEAR, i, k); } s += mc::strf("<%d look %d channels %d; ", up, look, chans); } bool lib = c.flag(); if (lib) { fill(w.d->GetAnimationLibrary()->GetExtra(), 1); w.d->GetAnimationLibrary()->GetAsset()->SetTitle(FC("library")); } c.op("%s%s", s.c_str(), lib ? "library extra" : ""); trip::check(c, w.d);
}
SPACE(clips, 3)
{
	World w; int n = c.range(1, 2), clips = c.range(1, 2); vector<FCDAnimation*> as; for (int i = 0; i < n; ++i) { FCDAnimation* a = w.d->GetAnimationLibrary()->AddEntity(); a->SetName(fs(mc::strf("a%d", i))); FCDAnimationChannel* ch = a->AddChannel(); for (int j = 0; j < 3; ++j) { FCDAnimationCurve* k = w.curve(w.all[i * 2], j, ch); key(k, FI::LINEAR, 0, j); key(k, FI::LINEAR, 2, 1 - j); } as.push_back(a); } string s;
	for (int k = 0; k < clips; ++k) { FCDAnimationClip* q = w.d->GetAnimationClipLibrary()->AddEntity(); int look = c.choose(3); if (look) { q->SetName(fs(mc::strf("clip %d", k))); fill(q->GetExtra(), look); } int range = c.choose(3); q->SetStart(range == 0 ? 0 : range == 1 ? -1.5f : 2); q->SetEnd(range == 0 ? 1 : range == 1 ? 0.25f : 30); int mask = c.range(1, (1 << n) - 1); for (int i = 0; i < n; ++i) if (mask >> i & 1) { if (c.flag()) q->AddInstanceAnimation(as[i]); else for (size_t j = 0; j < 3; ++j) q->AddClipCurve(as[i]->GetChannel(0)->GetCurve(j)); } s += mc::strf("look %d range %d mask %d; ", look, range, mask); } c.op("%d animations; %s", n, s.c_str()); trip::check(c, w.d);
}
// Several entities, their order, identifiers and the information of their libraries.
SPACE(libraries, 3)
{
	Doc d = top(); int kind = c.choose(8); FCDExtra* ex = NULL; FCDAsset* as = NULL; auto add = [&]() -> FCDEntity* { switch (kind) { case 0: ex = d->GetGeometryLibrary()->GetExtra(); as = d->GetGeometryLibrary()->GetAsset(); { FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); addSource(g->CreateMesh(), FUDaeGeometryInput::POSITION, 3, 2, true, 1); return g; } case 1: ex = d->GetCameraLibrary()->GetExtra(); as = d->GetCameraLibrary()->GetAsset(); return d->GetCameraLibrary()->AddEntity(); case 2: ex = d->GetLightLibrary()->GetExtra(); as = d->GetLightLibrary()->GetAsset(); return d->GetLightLibrary()->AddEntity(); case 3: { ex = d->GetControllerLibrary()->GetExtra(); as = d->GetControllerLibrary()->GetAsset(); FCDController* k = d->GetControllerLibrary()->AddEntity(); k->CreateMorphController(); return k; } case 4: ex = d->GetVisualSceneLibrary()->GetExtra(); as = d->GetVisualSceneLibrary()->GetAsset(); return d->GetVisualSceneLibrary()->AddEntity(); case 5: ex = d->GetAnimationLibrary()->GetExtra(); as = d->GetAnimationLibrary()->GetAsset(); return d->GetAnimationLibrary()->AddEntity(); case 6: ex = d->GetImageLibrary()->GetExtra(); as = d->GetImageLibrary()->GetAsset(); return d->GetImageLibrary()->AddEntity(); default: ex = d->GetMaterialLibrary()->GetExtra(); as = d->GetMaterialLibrary()->GetAsset(); return d->GetMaterialLibrary()->AddEntity(); } };
	int n = c.range(1, c.deep || kind < 2 ? 3 : 2); string s; for (int i = 0; i < n; ++i) { FCDEntity* e = add(); int id = c.choose(3), name = c.choose(3), more = c.choose(c.deep || i == 0 ? 4 : 1); if (id) e->SetDaeId(fm::string(id == 1 ? "same" : "same1")); if (name) e->SetName(name == 1 ? FC("same") : FC("other")); if (more & 1) { e->SetNote(FC("a note")); fill(e->GetExtra(), 1); } if (more & 2) { e->GetAsset()->SetTitle(FC("title")); e->GetAsset()->AddContributor()->SetAuthor(FC("author")); } s += mc::strf("%d%d%d ", id, name, more); } int info = c.choose(3); if (info) { as->SetTitle(FC("library title")); if (info == 2) { as->SetUpAxis(FMVector3::ZAxis); fill(ex, 2); } } c.op("library %d: %s info %d", kind, s.c_str(), info); trip::check(c, d);
}
SPACE(assets, 3)
{
	Doc d = top(); FCDAsset* a = d->GetAsset(); int where = c.choose(3); if (where) { FCDSceneNode* n = d->AddVisualScene(); a = where == 1 ? n->AddChildNode()->GetAsset() : d->GetVisualSceneLibrary()->GetAsset(); } int n = c.choose(3), mask = c.choose(32); for (int i = 0; i < n; ++i) { FCDAssetContributor* k = a->AddContributor(); if (mask & 1) k->SetAuthor(i ? FC("A & B") : FC("me")); if (mask & 2) k->SetAuthoringTool(FC("tool 1.0 \"x\"")); if (mask & 4) k->SetComments(FC("a;b=c")); if (mask & 8) k->SetCopyright(FC("(c) <me>")); if (mask & 16) k->SetSourceData(FC("file:///tmp/a%20b.ma")); } int m = c.choose(16); if (m & 1) a->SetKeywords(FC("one two")); if (m & 2) a->SetRevision(FC("1.0")); if (m & 4) a->SetSubject(FC("subject & more")); if (m & 8) a->SetTitle(FC("title")); c.op("%d: %d contributors %d, fields %d", where, n, mask, m); trip::check(c, d);
}
// Texts in every place that takes one.
SPACE(texts, 2)
{
	Doc d = top(); FCDSceneNode* v = d->AddVisualScene(); FCDSceneNode* n = v->AddChildNode(); n->SetName(FC("n")); int place = c.choose(13); string s = c.pick(TEXT); if (place == 12 && s.find(' ') != string::npos) c.prune(); c.op("place %d '%s'", place, s.c_str()); fstring t = fs(s); FCDGeometry* g = quad(d, "geo"); FCDEntityInstance* x = n->AddInstance(g);
	switch (place) { case 0: n->SetName(t); break; case 1: n->SetNote(t); break; case 2: n->SetSubId(t.c_str()); break; case 3: n->SetDaeId(fm::string(t.c_str())); break; case 4: g->SetName(t); break; case 5: g->GetMesh()->GetSource(0)->SetName(t); break; case 6: g->GetMesh()->GetPolygons(0)->SetMaterialSemantic(t); break; case 7: x->SetName(t); break; case 8: x->SetWantedSubId(t.c_str()); break; case 9: { FCDMaterial* m = d->GetMaterialLibrary()->AddEntity(); ((FCDGeometryInstance*) x)->AddMaterialInstance(m, t.c_str())->AddBinding(t.c_str(), t.c_str()); break; } case 10: { FCDLayer* l = d->AddLayer(); l->name = t; l->objects.push_back(n->GetDaeId()); break; } case 11: d->GetAsset()->SetUnitName(t); break; default: { FCDSkinController* k = d->GetControllerLibrary()->AddEntity()->CreateSkinController(); k->SetTarget(g); k->AddJoint("x"); k->GetJoint(0)->SetId(t.c_str()); k->SetInfluenceCount(3); } }
	trip::check(c, d);
}
