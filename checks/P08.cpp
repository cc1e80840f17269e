// P08: transforms, stacks of transforms and their matrices.
#include <memory>
#include <set>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSceneNodeTools.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "m4.h"
const char* mc::property = "P08"; const char* mc::level = "model_checking";
const char* mc::rule = "every value of finite grids for each kind of transform (unit axes, angles beyond a full turn, negative and zero scales, general matrices, look-at and skew frames), every stack of up to 4 transforms in every order of insertion, paths of up to 4 nodes with several parents, and every animated component of every kind; a case is non-trivial when a matrix was compared with the double-precision definition";
std::vector<std::string> mc::assumptions = { "rotation and skew axes are unit vectors, skew axes are perpendicular, look-at directions are not null", "matrices are compared to 1e-4 of their size" };
using namespace m4; using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept; static FCDAnimation* anim;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); anim = (*kept)->GetAnimationLibrary()->AddEntity(); }, true);
struct Rel { FUObject* o; ~Rel() { o->Release(); } };
static const vector<FMVector3> AXES = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0, 0, -1 }, { 0.6f, 0.8f, 0 }, { 0.57735027f, 0.57735027f, 0.57735027f }, { -0.26726124f, 0.53452248f, -0.80178373f } };
static const vector<float> ANGLES = { 0, 30, 45, 90, 180, 270, 360, 720, 1000, -37.5f, -90, -180, -400, 0.01f };
static const vector<float> VAL = { 0, 1, -1, 2.5f, -0.001f, 1e5f };
static M skewOf(const FMVector3& r, const FMVector3& a, double deg) { M m = id(); double s = tan(rad(deg)); double rv[3] = { r.x, r.y, r.z }, av[3] = { a.x, a.y, a.z }; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] += s * av[i] * rv[j]; return m; }
static M lookOf(const FMVector3& p, const FMVector3& t, const FMVector3& u)
{
	double f[3] = { (double) t.x - p.x, (double) t.y - p.y, (double) t.z - p.z }, l = sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2]); for (double& x : f) x /= l; double n[3] = { u.x, u.y, u.z }; double s[3] = { f[1] * n[2] - f[2] * n[1], f[2] * n[0] - f[0] * n[2], f[0] * n[1] - f[1] * n[0] }; l = sqrt(s[0] * s[0] + s[1] * s[1] + s[2] * s[2]); for (double& x : s) x /= l; double v[3] = { s[1] * f[2] - s[2] * f[1], s[2] * f[0] - s[0] * f[2], s[0] * f[1] - s[1] * f[0] };
	M m = id(); for (int i = 0; i < 3; ++i) { m.a[i][0] = s[i]; m.a[i][1] = v[i]; m.a[i][2] = -f[i]; } m.a[0][3] = p.x; m.a[1][3] = p.y; m.a[2][3] = p.z; return m;
}
static M general(int k) { M m; for (int i = 0; i < 16; ++i) m.a[i / 4][i % 4] = ((i * 7 + k * 5) % 11) - 4 + (i == k ? 0.5 : 0); m.a[3][0] = m.a[3][1] = m.a[3][2] = 0; m.a[3][3] = 1; return m; }
static FMVector3 vec(mc::Ctx& c, const vector<float>& l) { float x = c.pick(l), y = c.pick(l), z = c.pick(l); return FMVector3(x, y, z); }
// The setters and getters of each kind.
SPACE(translations, 2)
{
	static FCDTTranslation* t = new FCDTTranslation(*kept, NULL); FMVector3 v = vec(c, VAL); int way = c.choose(3); c.op("translate %g %g %g", v.x, v.y, v.z); if (way == 0) t->SetTranslation(v); else if (way == 1) t->SetTranslation(v.x, v.y, v.z); else t->GetTranslation() = v; const FMVector3& g = *t->GetTranslation(); CHECK(g.x == v.x && g.y == v.y && g.z == v.z, "translate:value", "."); same(c, t->ToMatrix(), tr(v.x, v.y, v.z), "translate:matrix");
	FCDTTranslation o(*kept, NULL); FMVector3 w = vec(c, { 0, 1, -1, -2.5f }); o.SetTranslation(w); bool inv = v.x == -w.x && v.y == -w.y && v.z == -w.z; CHECK(v.x + w.x == 0.001f || v.x == -0.001f || v.y == -0.001f || v.z == -0.001f || t->IsInverse(&o) == inv, "translate:inverse", "of %g %g %g is %d", w.x, w.y, w.z, (int) !inv); c.state((int) v.x * 100 + (int) v.y * 10 + (int) v.z);
}
SPACE(scales, 2)
{
	static FCDTScale* t = new FCDTScale(*kept, NULL); FMVector3 v = vec(c, VAL); int way = c.choose(3); c.op("scale %g %g %g", v.x, v.y, v.z); if (way == 0) t->SetScale(v); else if (way == 1) t->SetScale(v.x, v.y, v.z); else t->GetScale() = v; const FMVector3& g = *t->GetScale(); CHECK(g.x == v.x && g.y == v.y && g.z == v.z, "scale:value", "."); same(c, t->ToMatrix(), sc(v.x, v.y, v.z), "scale:matrix"); FCDTScale o(*kept, NULL); CHECK(!t->IsInverse(&o), "scale:inverse", "."); c.state((int) v.x * 100 + (int) v.y * 10 + (int) v.z);
}
SPACE(rotations, 2)
{
	static FCDTRotation* t = new FCDTRotation(*kept, NULL); FMVector3 a = c.pick(AXES); float d = c.pick(ANGLES); int way = c.choose(5); c.op("rotate %g %g %g by %g", a.x, a.y, a.z, d); M want = rot(a.x, a.y, a.z, rad(d));
	switch (way) { case 0: t->SetRotation(a, d); break; case 1: t->SetAxis(a); t->SetAngle(d); break; case 2: t->SetAxis(a.x, a.y, a.z); t->GetAngle() = d; break; case 3: t->SetAngleAxis(FMAngleAxis(a, d)); break; default: t->SetOrientation(FMQuaternion(a, FMath::DegToRad(d))); }
	if (way < 4) { CHECK(t->GetAngle() == d && t->GetAxis().x == a.x && t->GetAxis().y == a.y && t->GetAxis().z == a.z, "rotate:value", "."); } same(c, t->ToMatrix(), want, "rotate:matrix", 2e-4); same(c, t->GetOrientation().ToMatrix(), want, "rotate:orientation", 5e-4);
	FCDTRotation o(*kept, NULL); FMVector3 b = c.pick(AXES); bool negAxis = c.flag(); float e = c.pick(ANGLES); if (c.flag()) e = -e; o.SetRotation(negAxis ? -b : b, e); if (way < 4) { bool inv = t->IsInverse(&o); M both = mul(want, rot(negAxis ? -b.x : b.x, negAxis ? -b.y : b.y, negAxis ? -b.z : b.z, rad(e))); CHECK(!inv || diff(both, id()) < 2e-3, "rotate:inverse", "%g %g %g by %g is not the opposite", b.x, b.y, b.z, e); bool exact = &b == &b && b.x == a.x && b.y == a.y && b.z == a.z && (negAxis ? e == d : e == -d); CHECK(!exact || inv, "rotate:inverse", "the opposite is not noticed"); FCDTTranslation tt(*kept, NULL); CHECK(!t->IsInverse(&tt), "rotate:inverse", "a translation is not the opposite"); } c.state((int) d);
}
SPACE(matrices, 2)
{
	static FCDTMatrix* t = new FCDTMatrix(*kept, NULL); int k = c.choose(12); M m = k < 8 ? general(k * 2) : k < 10 ? mul(rot(1, 2, 3, k), tr(k, 2, 3)) : mul(sc(k, -1, 0), general(k)); c.op("matrix %d", k); FMMatrix44 f = lib(m); if (c.flag()) t->SetTransform(f); else t->GetTransform() = f; same(c, t->ToMatrix(), m, "matrix:matrix", 1e-6); same(c, *t->GetTransform(), m, "matrix:value", 1e-6); c.state(k);
}
SPACE(lookats, 2)
{
	static FCDTLookAt* t = new FCDTLookAt(*kept, NULL); vector<float> g = { 0, 1, -2.5f }; FMVector3 p = vec(c, g), q = vec(c, { 0, 3, -1 }), u = vec(c, { 0, 1, -0.5f }); FMVector3 f = q - p; double n = f.Length() * u.Length(); FMVector3 x = f ^ u; if (n < 1e-3 || x.Length() < 0.05 * n) c.prune(); int way = c.choose(3); c.op("at %g %g %g to %g %g %g, up %g %g %g", p.x, p.y, p.z, q.x, q.y, q.z, u.x, u.y, u.z);
	switch (way) { case 0: t->SetLookAt(FMLookAt(p, q, u)); break; case 1: t->SetPosition(p); t->SetTarget(q); t->SetUp(u); break; default: t->SetPosition(p.x, p.y, p.z); t->SetTarget(q.x, q.y, q.z); t->SetUp(u.x, u.y, u.z); } CHECK(t->GetPosition() == p && t->GetTarget() == q && t->GetUp() == u && *t->GetLookAt() == FMLookAt(p, q, u), "lookat:value", "."); same(c, t->ToMatrix(), lookOf(p, q, u), "lookat:matrix"); c.state((int) p.x * 3 + (int) q.y);
}
SPACE(skews, 2)
{
	static FCDTSkew* t = new FCDTSkew(*kept, NULL); FMVector3 r = c.pick(AXES), o = c.pick(AXES); FMVector3 a = r ^ o; if (a.Length() < 0.01f) c.prune(); a = a.Normalize(); if (c.flag()) { a = (a ^ r).Normalize(); } float d = c.pick(vector<float>{ 0, 30, -45, 60, 80, -80, 135, 0.5f }); c.op("skew by %g of %g %g %g around %g %g %g", d, r.x, r.y, r.z, a.x, a.y, a.z); if (c.flag()) t->SetSkew(FMSkew(r, a, d)); else { t->SetRotateAxis(r); t->SetAroundAxis(a); t->SetAngle(d); }
	const FCDTSkew* k = t; CHECK(k->GetAngle() == d && k->GetRotateAxis() == r && k->GetAroundAxis() == a && *t->GetSkew() == FMSkew(r, a, d), "skew:value", "."); same(c, t->ToMatrix(), skewOf(r, a, d), "skew:matrix"); c.state((int) d);
}
// ---------------------------------------------------------------- stacks
namespace {
struct Item { FCDTransform::Type type; int k; };
static const vector<Item> ITEMS = { { FCDTransform::TRANSLATION, 0 }, { FCDTransform::ROTATION, 0 }, { FCDTransform::ROTATION, 1 }, { FCDTransform::SCALE, 0 }, { FCDTransform::MATRIX, 0 }, { FCDTransform::LOOKAT, 0 }, { FCDTransform::SKEW, 0 } };
static M fill(FCDTransform* t, const Item& i)
{
	switch (i.type)
	{
	case FCDTransform::TRANSLATION: ((FCDTTranslation*) t)->SetTranslation(1, -2, 3); return tr(1, -2, 3); case FCDTransform::SCALE: ((FCDTScale*) t)->SetScale(2, -0.5f, 1.5f); return sc(2, -0.5, 1.5);
	case FCDTransform::ROTATION: { FMVector3 a = AXES[i.k ? 6 : 1]; float d = i.k ? 200.0f : 60.0f; ((FCDTRotation*) t)->SetRotation(a, d); return rot(a.x, a.y, a.z, rad(d)); } case FCDTransform::MATRIX: ((FCDTMatrix*) t)->SetTransform(lib(general(3))); return general(3);
	case FCDTransform::LOOKAT: { FMVector3 p(1, 2, 3), q(0, -1, 5), u(0, 1, 0); ((FCDTLookAt*) t)->SetLookAt(FMLookAt(p, q, u)); return lookOf(p, q, u); } default: { FMVector3 r(0, 1, 0), a(1, 0, 0); ((FCDTSkew*) t)->SetSkew(FMSkew(r, a, 30)); return skewOf(r, a, 30); }
	}
}
static M product(const vector<M>& l) { M m = id(); for (auto& x : l) m = mul(m, x); return m; }
}
SPACE(stacks, 3)
{
	FCDSceneNode* n = new FCDSceneNode(*kept); Rel rel{ n }; vector<M> ref; vector<FCDTransform*> ts; int len = c.range(0, c.deep ? 4 : 3);
	for (int i = 0; i < len; ++i)
	{
		const Item& it = c.pick(ITEMS); int at = c.range(-1, (int) ts.size()); FCDTransform* t = at < 0 ? n->AddTransform(it.type) : n->AddTransform(it.type, (size_t) at); CHECK(t != NULL && t->GetType() == it.type && t->GetParent() == n, "stack:add", "."); n->ResetTransformsDirtyFlag(); M m = fill(t, it); CHECK(n->GetTransformsDirtyFlag(), "stack:dirty", "setting a transform is not noticed"); size_t p = at < 0 ? ts.size() : (size_t) at; ts.insert(ts.begin() + p, t); ref.insert(ref.begin() + p, m); c.op("add %d at %d", (int) it.type, at);
	}
	auto check = [&] { CHECK(n->GetTransformCount() == ts.size(), "stack:count", "%d", (int) n->GetTransformCount()); for (size_t i = 0; i < ts.size(); ++i) CHECK(n->GetTransform(i) == ts[i] && n->GetTransforms()[i] == ts[i], "stack:order", "at %d", (int) i); M m = product(ref); same(c, n->ToMatrix(), m, "stack:matrix"); same(c, n->CalculateLocalTransform(), m, "stack:local"); same(c, n->CalculateWorldTransform(), m, "stack:world"); }; check();
	if (len) { int d = c.range(-1, len - 1); if (d >= 0) { c.op("release %d", d); ts[d]->Release(); ts.erase(ts.begin() + d); ref.erase(ref.begin() + d); check(); } } c.state(len); c.checkAsserts("the stack");
}
SPACE(worlds, 3)
{
	// A path of nodes; each may have a second parent, the world goes through the first.
	int len = c.range(1, c.deep ? 4 : 3); vector<FCDSceneNode*> path; vector<M> local; FCDSceneNode* other = new FCDSceneNode(*kept); { FCDTTranslation* t = (FCDTTranslation*) other->AddTransform(FCDTransform::TRANSLATION); t->SetTranslation(100, 200, 300); } bool otherIsFirst = false; int firstAt = -1;
	FCDSceneNode* root = new FCDSceneNode(*kept); path.push_back(root); vector<int> kinds; for (int i = 0; i < len; ++i) { int k = c.choose(2 * (int) ITEMS.size()); kinds.push_back(k); } int second = c.range(-1, len - 1); bool before = second >= 1 ? c.flag() : false;
	for (int i = 0; i < len; ++i) { if (i) { FCDSceneNode* n = new FCDSceneNode(*kept); if (second == i && before) { other->AddChildNode(n); otherIsFirst = true; firstAt = i; } path.back()->AddChildNode(n); if (second == i && !before) other->AddChildNode(n); path.push_back(n); } FCDSceneNode* n = path.back(); const Item& a = ITEMS[kinds[i] % ITEMS.size()]; vector<M> l; l.push_back(fill(n->AddTransform(a.type), a)); if (kinds[i] >= (int) ITEMS.size()) { const Item& b = ITEMS[(kinds[i] * 3 + 1) % ITEMS.size()]; l.push_back(fill(n->AddTransform(b.type), b)); } local.push_back(product(l)); }
	struct Clean { FCDSceneNode* a, * b; ~Clean() { a->Release(); b->Release(); } } clean{ root, other };
	for (int i = 0; i < len; ++i) { M w = id(); int from = 0; if (otherIsFirst && i >= firstAt) { w = tr(100, 200, 300); from = firstAt; } for (int j = from; j <= i; ++j) w = mul(w, local[j]); same(c, path[i]->CalculateWorldTransform(), w, "world:matrix", 2e-4); same(c, path[i]->CalculateLocalTransform(), local[i], "world:local"); } c.state(len); c.checkAsserts("the path");
}
// ---------------------------------------------------------------- animation
namespace {
struct Comp { const char* q; int index; };
static vector<string> names(FCDTransform::Type t)
{
	switch (t) { case FCDTransform::TRANSLATION: case FCDTransform::SCALE: return { ".X", ".Y", ".Z" }; case FCDTransform::ROTATION: return { ".X", ".Y", ".Z", ".ANGLE" }; case FCDTransform::MATRIX: { vector<string> l; for (int r = 0; r < 4; ++r) for (int k = 0; k < 4; ++k) l.push_back(mc::strf("(%d)(%d)", k, r)); return l; } case FCDTransform::LOOKAT: return { ".POSITIONX", ".POSITIONY", ".POSITIONZ", ".TARGETX", ".TARGETY", ".TARGETZ", ".UPX", ".UPY", ".UPZ" }; default: return { ".ROTATEX", ".ROTATEY", ".ROTATEZ", ".AROUNDX", ".AROUNDY", ".AROUNDZ", ".ANGLE" }; }
}
// The values of a transform in the order of the names.
static vector<float> values(FCDTransform* t)
{
	auto three = [](vector<float>& l, const FMVector3& v) { l.push_back(v.x); l.push_back(v.y); l.push_back(v.z); }; vector<float> l;
	switch (t->GetType()) { case FCDTransform::TRANSLATION: three(l, *((FCDTTranslation*) t)->GetTranslation()); break; case FCDTransform::SCALE: three(l, *((FCDTScale*) t)->GetScale()); break; case FCDTransform::ROTATION: three(l, ((FCDTRotation*) t)->GetAxis()); l.push_back(((FCDTRotation*) t)->GetAngle()); break; case FCDTransform::MATRIX: { M m = of(*((FCDTMatrix*) t)->GetTransform()); for (int r = 0; r < 4; ++r) for (int k = 0; k < 4; ++k) l.push_back((float) m.a[r][k]); break; } case FCDTransform::LOOKAT: three(l, ((FCDTLookAt*) t)->GetPosition()); three(l, ((FCDTLookAt*) t)->GetTarget()); three(l, ((FCDTLookAt*) t)->GetUp()); break; default: three(l, ((FCDTSkew*) t)->GetRotateAxis()); three(l, ((FCDTSkew*) t)->GetAroundAxis()); l.push_back(((FCDTSkew*) t)->GetAngle()); } return l;
}
static M defined(FCDTransform::Type t, const vector<float>& v)
{
	switch (t) { case FCDTransform::TRANSLATION: return tr(v[0], v[1], v[2]); case FCDTransform::SCALE: return sc(v[0], v[1], v[2]); case FCDTransform::ROTATION: return rot(v[0], v[1], v[2], rad(v[3])); case FCDTransform::MATRIX: { M m; for (int i = 0; i < 16; ++i) m.a[i / 4][i % 4] = v[i]; return m; } case FCDTransform::LOOKAT: return lookOf({ v[0], v[1], v[2] }, { v[3], v[4], v[5] }, { v[6], v[7], v[8] }); default: return skewOf({ v[0], v[1], v[2] }, { v[3], v[4], v[5] }, v[6]); }
}
static bool unit(FCDTransform::Type t, const vector<float>& v) { auto len = [](float a, float b, float k) { return fabs(sqrt(a * a + b * b + k * k) - 1) < 1e-3; }; if (t == FCDTransform::ROTATION) return len(v[0], v[1], v[2]); if (t == FCDTransform::SKEW) return len(v[0], v[1], v[2]) && len(v[3], v[4], v[5]) && fabs(v[0] * v[3] + v[1] * v[4] + v[2] * v[5]) < 1e-3; return true; }
static FCDAnimationCurve* curve(FCDAnimationChannel* ch, const vector<std::pair<float, float>>& keys, bool step = false) { FCDAnimationCurve* k = ch->AddCurve(); for (auto& p : keys) { FCDAnimationKey* x = k->AddKey(step ? FUDaeInterpolation::STEP : FUDaeInterpolation::LINEAR, p.first); x->output = p.second; } return k; }
}
SPACE(animated, 3)
{
	// One or two components of a transform are animated.
	const Item& it = c.pick(ITEMS); FCDSceneNode* n = new FCDSceneNode(*kept); Rel rel{ n }; FCDTransform* t = n->AddTransform(it.type); fill(t, it); vector<string> q = names(it.type); vector<float> base = values(t); FCDAnimationChannel* ch = anim->AddChannel(); Rel rel2{ ch }; FCDAnimated* a = t->GetAnimated(); CHECK(a != NULL && a->GetValueCount() == q.size(), "animated:count", "."); CHECK(!t->IsAnimated() && !a->HasCurve(), "animated:none", ".");
	for (size_t i = 0; i < q.size(); ++i) { CHECK(a->GetQualifier(i) == q[i].c_str(), "animated:qualifier", "component %d is %s, should be %s", (int) i, a->GetQualifier(i).c_str(), q[i].c_str()); CHECK(a->FindQualifier(q[i].c_str()) == i && a->FindValue(fm::string(q[i].c_str())) == a->GetValue(i) && *a->GetValue(i) == base[i], "animated:find", "%s", q[i].c_str()); }
	int x = c.choose((int) q.size()), y = c.range(x, (int) q.size() - 1); vector<float> want = base; static const float times[] = { -1, 0, 0.5f, 1, 2, 5 }; float from = 10 + (float) x, to = 20; bool off = !unit(it.type, base); (void) off; if (it.type == FCDTransform::SKEW && x == 6) { from = 10; to = 40; }
	a->AddCurve(x, curve(ch, { { 0, from }, { 2, to } })); if (y != x) a->AddCurve(y, curve(ch, { { 0, base[y] }, { 1, base[y] + 1 } })); CHECK(t->IsAnimated() && a->HasCurve(), "animated:has", "."); CHECK(a->GetCurve(x) != NULL && (y == x || a->GetCurve(y) != NULL), "animated:curve", ".");
	for (float time : times) { n->ResetTransformsDirtyFlag(); a->Evaluate(time); float s = time < 0 ? 0 : time > 2 ? 1 : time / 2; want[x] = from + (to - from) * s; if (y != x) want[y] = base[y] + (time < 0 ? 0 : time > 1 ? 1 : time); c.op("%s%s at %g", q[x].c_str(), y != x ? q[y].c_str() : "", time); vector<float> got = values(t); for (size_t i = 0; i < q.size(); ++i) CHECK(fabs(got[i] - want[i]) < 1e-4, (int) i == x || (int) i == y ? "animated:value" : "animated:other", "%s is %g, should be %g", q[i].c_str(), got[i], want[i]); CHECK(n->GetTransformsDirtyFlag(), "animated:dirty", "the evaluation is not noticed"); if (unit(it.type, want)) same(c, n->ToMatrix(), defined(it.type, want), "animated:matrix", 2e-4); }
	c.state((int) it.type * 100 + x); c.checkAsserts("the evaluation");
}
SPACE(sampled, 4)
{
	// Sampling the animation of a whole stack.
	FCDSceneNode* n = new FCDSceneNode(*kept); Rel rel{ n }; FCDAnimationChannel* ch = anim->AddChannel(); Rel rel2{ ch }; int len = c.range(1, 3); struct Plan { FCDTransform* t; vector<float> base; int comp; vector<std::pair<float, float>> keys; }; vector<Plan> plan; std::set<float> times; bool spins = false;
	static const vector<vector<std::pair<float, float>>> keySets = { { { 0, 0 }, { 1, 30 } }, { { 0.5f, 10 }, { 2, 400 } }, { { 0, 350 }, { 1, -350 }, { 3, 20 } }, { { 1, 5 } } };
	for (int i = 0; i < len; ++i) { const Item& it = ITEMS[c.pick(vector<int>{ 0, 1, 2, 3 })]; Plan p; p.t = n->AddTransform(it.type); fill(p.t, it); p.base = values(p.t); p.comp = -1; int k = c.range(-2, (int) keySets.size() - 1); if (k == -2) { p.t->GetAnimated(); } else if (k >= 0) { p.keys = keySets[k]; p.comp = it.type == FCDTransform::ROTATION ? 3 : c.choose(2); p.t->GetAnimated()->AddCurve(p.comp, curve(ch, p.keys)); for (auto& x : p.keys) times.insert(x.first); c.op("%d: kind %d animated by %d", i, (int) it.type, k); } plan.push_back(p); }
	FCDSceneNodeTools::GenerateSampledAnimation(n); const FloatList& keys = FCDSceneNodeTools::GetSampledAnimationKeys(); const FMMatrix44List& mats = FCDSceneNodeTools::GetSampledAnimationMatrices(); CHECK(keys.size() == mats.size(), "sampled:size", "."); if (times.empty()) { CHECK(keys.empty(), "sampled:none", "."); c.state(0); FCDSceneNodeTools::ClearSampledAnimation(); return; }
	for (size_t i = 1; i < keys.size(); ++i) CHECK(keys[i - 1] < keys[i], "sampled:order", "%g then %g", keys[i - 1], keys[i]); for (float t : times) CHECK(keys.contains(t), "sampled:key", "%g is missing", t); CHECK(keys.front() == *times.begin() && keys.back() == *times.rbegin(), "sampled:range", "."); 
	auto at = [](const vector<std::pair<float, float>>& k, double t) { if (t <= k[0].first) return (double) k[0].second; for (size_t i = 1; i < k.size(); ++i) if (t <= k[i].first) return k[i - 1].second + (k[i].second - (double) k[i - 1].second) * (t - k[i - 1].first) / (k[i].first - (double) k[i - 1].first); return (double) k.back().second; };
	for (size_t i = 0; i < keys.size(); ++i) { M m = id(); for (auto& p : plan) { vector<float> v = p.base; if (p.comp >= 0) v[p.comp] = (float) at(p.keys, keys[i]); m = mul(m, defined(p.t->GetType(), v)); } same(c, mats[i], m, "sampled:matrix", 5e-4); }
	for (auto& p : plan) if (p.comp >= 0 && p.t->GetType() == FCDTransform::ROTATION) { spins = true; for (size_t i = 1; i < keys.size(); ++i) CHECK(fabs(at(p.keys, keys[i]) - at(p.keys, keys[i - 1])) < 180.01, "sampled:half-turn", "from %g to %g it turns by %g", keys[i - 1], keys[i], at(p.keys, keys[i]) - at(p.keys, keys[i - 1])); }
	if (!spins) CHECK(keys.size() == times.size(), "sampled:more", "%d samples for %d key times", (int) keys.size(), (int) times.size()); c.state((int) keys.size()); FCDSceneNodeTools::ClearSampledAnimation(); CHECK(FCDSceneNodeTools::GetSampledAnimationKeys().empty(), "sampled:clear", "."); c.checkAsserts("the sampling");
}
// Building a stack in any order.
SPACE(building, 3)
{
	FCDSceneNode* n = new FCDSceneNode(*kept); struct Rel { FCDSceneNode* n; ~Rel() { n->Release(); } } rel{ n }; static const FCDTransform::Type TYPES[] = { FCDTransform::TRANSLATION, FCDTransform::ROTATION, FCDTransform::SCALE, FCDTransform::SKEW, FCDTransform::MATRIX, FCDTransform::LOOKAT }; std::vector<FCDTransform*> m; std::vector<int> kinds; int steps = c.deep ? 8 : 7;
	for (int s = 0; s < steps; ++s)
	{
		int k = (int) m.size(); int at = c.choose(k + 3); if (at > k + 1 && k == 0) c.prune();
		if (at == k + 2) { int i = k > 2 ? (c.flag() ? k / 2 : 0) : c.choose(k); c.op("release %d", i); m[(size_t) i]->Release(); m.erase(m.begin() + i); kinds.erase(kinds.begin() + i); }
		else { int kind = s % 6; c.op("add %d at %d", kind, at == k + 1 ? -1 : at); FCDTransform* t = at == k + 1 ? n->AddTransform(TYPES[kind]) : n->AddTransform(TYPES[kind], (size_t) at); CHECK(t && t->GetType() == TYPES[kind] && t->GetParent() == n, "build:transform", "."); size_t p = at == k + 1 ? m.size() : (size_t) at; m.insert(m.begin() + (int) p, t); kinds.insert(kinds.begin() + (int) p, kind); }
		CHECK(n->GetTransformCount() == m.size(), "build:count", "%d, should be %d", (int) n->GetTransformCount(), (int) m.size()); for (size_t i = 0; i < m.size(); ++i) CHECK(n->GetTransform(i) == m[i] && n->GetTransform(i)->GetType() == TYPES[kinds[i]], "build:order", "transform %d", (int) i);
	}
	c.state((int) m.size()); c.checkAsserts("the edits"); c.nontrivial();
}
