// P11: animatable parameters and lists.
#include <memory>
#include <map>
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include "FCDocument/FCDGeometrySource.h"
#include "mc.h"
const char* mc::property = "P11"; const char* mc::level = "model_checking";
const char* mc::rule = "every sequence of edits of an animatable list up to a bound, from every mix of animated and plain elements, with and without room to grow in place, for every element type, and every component of every parameter type; a case is non-trivial when the bindings were compared with the model";
std::vector<std::string> mc::assumptions = { "elements are removed and read at indices that exist", "raw access to the data of a list does not change its size" };
using std::string; using std::vector;
static FUObjectRef<FCDocument>* kept; static FCDAnimation* anim;
static bool init = (mc::workerInit = [] { FCollada::Initialize(); kept = new FUObjectRef<FCDocument>(FCollada::NewTopDocument()); anim = (*kept)->GetAnimationLibrary()->AddEntity(); }, true);
namespace {
struct Watch : FUTracker { int died = 0; FUTrackable* o = NULL; void watch(FUTrackable* x) { o = x; TrackObject(x); } ~Watch() { if (o && !died) UntrackObject(o); } virtual void OnObjectReleased(FUTrackable*) { ++died; } };
struct Holder : FCDObject
{
	int changes = 0; FCDParameterListAnimatableFloat f; FCDParameterListAnimatableVector2 v2; FCDParameterListAnimatableVector3 v3; FCDParameterListAnimatableColor3 c3; FCDParameterListAnimatableVector4 v4; FCDParameterListAnimatableColor4 c4;
	FCDParameterAnimatableFloat pf; FCDParameterAnimatableVector2 pv2; FCDParameterAnimatableVector3 pv3; FCDParameterAnimatableColor3 pc3; FCDParameterAnimatableVector4 pv4; FCDParameterAnimatableColor4 pc4; FCDParameterAnimatableAngleAxis pa; FCDParameterAnimatableLookAt pl; FCDParameterAnimatableSkew ps; FCDParameterAnimatableMatrix44 pm;
	Holder() : FCDObject(*kept), f(this), v2(this), v3(this), c3(this), v4(this), c4(this), pf(this), pv2(this), pv3(this), pc3(this), pv4(this), pc4(this), pa(this), pl(this), ps(this), pm(this) {}
	virtual void SetValueChange() { ++changes; FCDObject::SetValueChange(); }
};
struct Rel { FUObject* o; ~Rel() { o->Release(); } };
template <class T> struct Width { enum { N = (int) (sizeof(T) / sizeof(float)) }; }; template <> struct Width<FMVector3> { enum { N = 3 }; };
template <class T> struct Ops { enum { N = Width<T>::N }; static T make(float k) { T t; for (int i = 0; i < N; ++i) ((float*) &t)[i] = k + 0.125f * (float) i; return t; } static bool same(const T& a, const T& b) { return memcmp(&a, &b, N * sizeof(float)) == 0; } static string show(const T& a) { string s; for (int i = 0; i < N; ++i) s += mc::strf("%s%g", i ? "," : "", ((const float*) &a)[i]); return s; } };
static FCDAnimationCurve* constant(FCDAnimationChannel* ch, float v) { FCDAnimationCurve* k = ch->AddCurve(); FCDAnimationKey* x = k->AddKey(FUDaeInterpolation::LINEAR, 0.0f); x->output = v; x = k->AddKey(FUDaeInterpolation::LINEAR, 1.0f); x->output = v; return k; }
template <class T, int Q> struct Lists
{
	typedef FCDParameterListAnimatableT<T, Q> L; typedef Ops<T> O; struct El { T v; int tag; };
	mc::Ctx& c; L& l; FCDAnimationChannel* ch; vector<El> m; struct Tag { FCDAnimated* a; std::unique_ptr<Watch> w; FCDAnimationCurve* curve; float value; bool live; }; vector<Tag> tags; float next = 1;
	Lists(mc::Ctx& c_, L& l_, FCDAnimationChannel* ch_) : c(c_), l(l_), ch(ch_) {}
	T fresh() { next += 1; return O::make(next); }
	int drop(int tag) { if (tag >= 0) { tags[tag].live = false; } return 0; }
	void animate(size_t i, bool curve)
	{
		FCDAnimated* a = l.GetAnimated(i); if (m[i].tag < 0) { tags.push_back({ a, std::unique_ptr<Watch>(new Watch), NULL, 0, true }); tags.back().w->watch(a); m[i].tag = (int) tags.size() - 1; } Tag& t = tags[m[i].tag]; CHECK(t.a == a, "list:animated", "the animation of %d is another object", (int) i); CHECK(a->GetArrayElement() == (int) i && a->GetValueCount() == O::N, "list:animated", "element %d of width %d, not of %d", a->GetArrayElement(), (int) a->GetValueCount(), (int) O::N); if (curve && !t.curve) { t.value = 1000.0f * (float) (m[i].tag + 1); t.curve = constant(ch, t.value); a->AddCurve((size_t) (m[i].tag % O::N), t.curve); }
	}
	void check(bool evaluate)
	{
		CHECK(l.size() == m.size() && l.empty() == m.empty(), "list:size", "%d, should be %d", (int) l.size(), (int) m.size()); for (size_t i = 0; i < m.size(); ++i) CHECK(O::same(l.at(i), m[i].v) && O::same(l[i], m[i].v), "list:value", "element %d is %s, should be %s", (int) i, O::show(l.at(i)).c_str(), O::show(m[i].v).c_str()); if (!m.empty()) CHECK(O::same(l.front(), m.front().v) && O::same(l.back(), m.back().v), "list:ends", ".");
		for (size_t i = 0; i < tags.size(); ++i) CHECK(tags[i].w->died == (tags[i].live ? 0 : 1), tags[i].live ? "list:lost" : "list:kept", "the animation %d was released %d times", (int) i, tags[i].w->died);
		size_t live = 0; bool any = false; for (size_t i = 0; i < m.size(); ++i) { bool has = m[i].tag >= 0 && tags[m[i].tag].curve; any = any || has; CHECK(l.IsAnimated(i) == has, "list:is-animated", "element %d: %d", (int) i, (int) !has); if (m[i].tag < 0) continue; ++live; FCDAnimated* a = tags[m[i].tag].a; CHECK(a->GetArrayElement() == (int) i, "list:element", "the animation of %d says %d", (int) i, a->GetArrayElement()); for (int j = 0; j < O::N; ++j) CHECK(a->GetValue(j) == (const float*) &l.at(i) + j, "list:binding", "component %d of element %d is bound to something else", j, (int) i); CHECK(l.GetAnimated(i) == a, "list:get", "."); }
		CHECK(l.GetAnimatedValues().size() == live && l.IsAnimated() == any, "list:animateds", "%d, should be %d", (int) l.GetAnimatedValues().size(), (int) live); for (size_t i = 1; i < live; ++i) CHECK(l.GetAnimatedValues()[i - 1]->GetArrayElement() < l.GetAnimatedValues()[i]->GetArrayElement(), "list:sorted", ".");
		if (evaluate) { for (size_t i = 0; i < l.GetAnimatedValues().size(); ++i) l.GetAnimatedValues()[i]->Evaluate(0.5f); for (size_t i = 0; i < m.size(); ++i) if (m[i].tag >= 0 && tags[m[i].tag].curve) ((float*) &m[i].v)[m[i].tag % O::N] = tags[m[i].tag].value; check(false); string s; for (auto& e : m) s += e.tag < 0 ? "." : tags[e.tag].curve ? "c" : "a"; c.state(s); c.nontrivial(); }
	}
	size_t index(size_t n) { if (n == 0) c.prune(); return (size_t) c.choose((int) n); }
	void step()
	{
		size_t n = m.size();
		switch (c.choose(17))
		{
		case 0: { T v = fresh(); c.op("push_back"); l.push_back(v); m.push_back({ v, -1 }); break; } case 1: { T v = fresh(); c.op("push_front"); l.push_front(v); m.insert(m.begin(), { v, -1 }); break; }
		case 2: { size_t i = index(n + 1); T v = fresh(); c.op("insert at %d", (int) i); l.insert(i, v); m.insert(m.begin() + i, { v, -1 }); break; } case 3: { size_t i = index(n + 1), k = (size_t) c.choose(3); T v = fresh(); c.op("insert %d at %d", (int) k, (int) i); l.insert(i, k, v); m.insert(m.begin() + i, k, { v, -1 }); break; }
		case 4: { size_t i = index(n + 1), k = (size_t) c.choose(3); vector<T> a; for (size_t j = 0; j < 3; ++j) a.push_back(fresh()); c.op("insert %d values at %d", (int) k, (int) i); l.insert(i, a.data(), k); for (size_t j = 0; j < k; ++j) m.insert(m.begin() + i + j, { a[j], -1 }); break; }
		case 5: { size_t i = index(n); c.op("erase %d", (int) i); l.erase(i); drop(m[i].tag); m.erase(m.begin() + i); break; } case 6: { size_t i = index(n + 1), j = i + (size_t) c.choose((int) (n - i) + 1); c.op("erase %d to %d", (int) i, (int) j); l.erase(i, j); for (size_t k = i; k < j; ++k) drop(m[k].tag); m.erase(m.begin() + i, m.begin() + j); break; }
		case 7: { size_t i = (size_t) c.choose((int) n + 1); T v = i < n ? m[i].v : O::make(-77); c.op("erase value of %d", (int) i); l.erase(v); for (size_t k = 0; k < m.size(); ++k) if (O::same(m[k].v, v)) { drop(m[k].tag); m.erase(m.begin() + k); break; } CHECK(!l.contains(O::make(-77)), "list:contains", "."); break; }
		case 8: { size_t k = (size_t) c.choose((int) n + 3); c.op("resize to %d", (int) k); l.resize(k); while (m.size() > k) { drop(m.back().tag); m.pop_back(); } while (m.size() < k) { m.push_back({ l.at(m.size()), -1 }); } for (size_t i = n; i < k; ++i) { T v = fresh(); l.set(i, v); m[i].v = v; } break; }
		case 9: { size_t k = (size_t) c.choose((int) n + 3); T v = fresh(); c.op("resize to %d with a value", (int) k); l.resize(k, v); while (m.size() > k) { drop(m.back().tag); m.pop_back(); } while (m.size() < k) m.push_back({ v, -1 }); break; }
		case 10: c.op("clear"); l.clear(); for (auto& e : m) drop(e.tag); m.clear(); break; case 11: { size_t i = index(n); T v = fresh(); c.op("set %d", (int) i); l.set(i, v); m[i].v = v; CHECK(l.find(v) == i && l.contains(v), "list:find", "."); break; }
		case 12: { if (!n) c.prune(); c.op("pop_back"); l.pop_back(); drop(m.back().tag); m.pop_back(); break; } case 13: { if (!n) c.prune(); c.op("pop_front"); l.pop_front(); drop(m[0].tag); m.erase(m.begin()); break; }
		case 14: { size_t i = index(n); bool k = c.flag(); c.op("animate %d %d", (int) i, (int) k); animate(i, k); break; }
		case 15: { size_t i = index(n); if (m[i].tag < 0) c.prune(); c.op("release the animation of %d", (int) i); tags[m[i].tag].a->Release(); drop(m[i].tag); m[i].tag = -1; break; } default: { size_t i = index(n); if (m[i].tag < 0 || !tags[m[i].tag].curve) c.prune(); c.op("release the curve of %d", (int) i); tags[m[i].tag].curve->Release(); tags[m[i].tag].curve = NULL; break; }
		}
	}
	void run(int steps, int most)
	{
		if (c.flag()) l.GetDataList().reserve(16); int n = c.range(0, most); for (int i = 0; i < n; ++i) { T v = fresh(); l.push_back(v); m.push_back({ v, -1 }); } c.op("%d elements", n); for (int i = 0; i < n; ++i) if (c.flag()) { c.note("animated: %d", i); animate((size_t) i, i != 1); } check(false); steps = c.range(1, steps); for (int s = 0; s < steps; ++s) { step(); check(false); } check(true);
	}
};
template <class T, int Q> static void edit(mc::Ctx& c, FCDParameterListAnimatableT<T, Q> Holder::*p, int steps, int most)
{
	Holder* h = new Holder; FCDAnimationChannel* ch = anim->AddChannel(); vector<std::unique_ptr<Watch>> w; { Rel a{ ch }; Rel b{ h }; Lists<T, Q> x(c, h->*p, ch); x.run(steps, most); for (auto& t : x.tags) w.push_back(std::move(t.w)); } for (auto& t : w) CHECK(t->died == 1, "list:leak", "an animation outlives its list"); c.checkAsserts("the edits");
}
}
SPACE(lists, 4)
{
	int s = 2; switch (c.choose(6)) { case 0: edit(c, &Holder::f, c.deep ? 3 : 2, 3); break; case 1: edit(c, &Holder::v2, s, 3); break; case 2: edit(c, &Holder::v3, s, 3); break; case 3: edit(c, &Holder::c3, s, 2); break; case 4: edit(c, &Holder::v4, s, 2); break; default: edit(c, &Holder::c4, s, 3); }
}
SPACE(longer, 4) { edit(c, &Holder::f, c.deep ? 4 : 3, c.deep ? 3 : 2); }
// Elements animated in every order, then one edit.
SPACE(orders, 3)
{
	Holder* h = new Holder; FCDAnimationChannel* ch = anim->AddChannel(); Rel a{ ch }; Rel b{ h }; Lists<FMVector2, 0> x(c, h->v2, ch); int n = c.deep ? 7 : 6; for (int i = 0; i < n; ++i) { FMVector2 v = x.fresh(); x.l.push_back(v); x.m.push_back({ v, -1 }); } int k = c.range(1, n); vector<int> left; for (int i = 0; i < n; ++i) left.push_back(i);
	for (int i = 0; i < k; ++i) { int j = c.choose((int) left.size()); c.note("animated: %d", left[j]); x.animate((size_t) left[j], left[j] & 1); left.erase(left.begin() + j); } x.check(false);
	if (c.flag()) { size_t i = (size_t) c.choose(n + 1); FMVector2 v = x.fresh(); c.op("insert 2 at %d", (int) i); x.l.insert(i, (size_t) 2, v); x.m.insert(x.m.begin() + i, 2, { v, -1 }); } else { size_t i = (size_t) c.choose(n), j = i + 1 + (size_t) c.choose(n - (int) i); c.op("erase %d to %d", (int) i, (int) j); x.l.erase(i, j); for (size_t e = i; e < j; ++e) x.drop(x.m[e].tag); x.m.erase(x.m.begin() + i, x.m.begin() + j); }
	x.check(true); c.checkAsserts("the edits");
}
// A long list: growth moves the values.
SPACE(growth, 3)
{
	int n = c.range(1, c.deep ? 64 : 40), at = c.choose(3), which = c.choose(4); Holder* h = new Holder; Rel r{ h }; FCDParameterListAnimatableVector3& l = h->v3; vector<int> tag; vector<FCDAnimated*> as; l.push_back(FMVector3(0, 0, 0)); tag.push_back(-1); std::map<FCDAnimated*, int> id; c.op("%d insertions", n);
	for (int i = 1; i <= n; ++i) { if (i % 3 == which % 3) { size_t k = which < 3 ? 0 : tag.size() - 1; FCDAnimated* a = l.GetAnimated(k); if (tag[k] < 0) { tag[k] = (int) id.size(); id[a] = tag[k]; } } size_t p = at == 0 ? 0 : at == 1 ? tag.size() / 2 : tag.size(); l.insert(p, FMVector3((float) i, 0, 0)); tag.insert(tag.begin() + p, -1); for (auto& e : id) { int el = e.first->GetArrayElement(); CHECK(el >= 0 && (size_t) el < tag.size() && tag[el] == e.second, "growth:element", "after %d", i); CHECK(e.first->GetValue(0) == &l.at(el).x && e.first->GetValue(2) == &l.at(el).z, "growth:binding", "after %d", i); } } c.state((int) id.size()); c.nontrivial();
}
// ---------------------------------------------------------------- parameters
namespace {
template <class T, int Q> static void parameter(mc::Ctx& c, FCDParameterAnimatableT<T, Q> Holder::*mp, const vector<string>& names, const vector<int>& offsets)
{
	Holder* h = new Holder; FCDAnimationChannel* ch = anim->AddChannel(); Watch w; int n = (int) names.size();
	{
		Rel r1{ ch }, r2{ h }; FCDParameterAnimatableT<T, Q>& p = h->*mp; auto at = [&](int i) -> float& { return *(float*) ((char*) &*p + offsets[i]); }; T v; for (int i = 0; i < n; ++i) *(float*) ((char*) &v + offsets[i]) = 1.5f + (float) i; int before = h->changes; p = v; CHECK(h->changes == before + 1, "param:notified", "."); for (int i = 0; i < n; ++i) CHECK(at(i) == 1.5f + (float) i, "param:value", "component %d", i); const FCDParameterAnimatableT<T, Q>& k = p; CHECK(&*k == &*p && &(const T&) k == &*p && k.operator->() == &*p, "param:access", "."); CHECK(!k.IsAnimated() && p.GetParent() == h, "param:plain", ".");
		FCDAnimated* a = p.GetAnimated(); w.watch(a); CHECK(a == k.GetAnimated() && a == p.GetAnimated() && !p.IsAnimated() && (int) a->GetValueCount() == n && a->GetTargetObject() == h && a->GetArrayElement() == -1, "param:animated", "."); for (int i = 0; i < n; ++i) { CHECK(a->GetQualifier(i) == names[i].c_str(), "param:qualifier", "component %d is %s, should be %s", i, a->GetQualifier(i).c_str(), names[i].c_str()); CHECK(a->GetValue(i) == &at(i), "param:binding", "component %d", i); CHECK(a->FindQualifier(fm::string(names[i].c_str())) == (size_t) i && a->FindValue(&at(i)) == (size_t) i && a->FindValue(fm::string(names[i].c_str())) == &at(i), "param:find", "component %d", i); } CHECK(a->FindQualifier(".NONE") == (size_t) -1 && a->FindValue(fm::string(".NONE")) == NULL && a->FindValue(&((Holder*) h)->pf.operator*() - 1) == (size_t) -1, "param:find", "nothing");
		vector<FCDAnimationCurve*> curves((size_t) n, NULL); int steps = c.range(1, c.deep ? 3 : 2);
		for (int s = 0; s < steps; ++s)
		{
			int i = c.choose(n);
			switch (c.choose(5))
			{
			case 0: if (curves[i]) c.prune(); c.op("animate %s", names[i].c_str()); curves[i] = constant(ch, 100.0f + (float) i); CHECK(a->AddCurve(i, curves[i]), "param:add", "."); break; case 1: { if (!curves[i]) c.prune(); c.op("remove curve of %s", names[i].c_str()); CHECK(a->RemoveCurve(i), "param:remove", "."); curves[i] = NULL; break; } case 2: if (!curves[i]) c.prune(); c.op("release curve of %s", names[i].c_str()); curves[i]->Release(); curves[i] = NULL; break; case 3: { c.op("assign"); T x = *k; *(float*) ((char*) &x + offsets[i]) = -3; p = x; CHECK(at(i) == -3, "param:assign", "."); break; } default: c.op("write %s", names[i].c_str()); at(i) = 55; break;
			}
			bool any = false; for (int j = 0; j < n; ++j) { any = any || curves[j]; CHECK(a->GetCurve(j) == curves[j] && a->GetCurveCount(j) == (curves[j] ? 1 : 0) && a->FindCurve(names[j].c_str()) == curves[j] && a->FindCurve(&at(j)) == curves[j], "param:curve", "component %d", j); } CHECK(p.IsAnimated() == any && a->HasCurve() == any && p.GetAnimated() == a, "param:is-animated", "."); vector<float> want; for (int j = 0; j < n; ++j) want.push_back(curves[j] ? 100.0f + (float) j : at(j)); int ch0 = h->changes; a->Evaluate(0.5f); CHECK((h->changes > ch0) == any, "param:changed", "."); for (int j = 0; j < n; ++j) CHECK(at(j) == want[j], curves[j] ? "param:evaluate" : "param:other", "%s is %g, should be %g", names[j].c_str(), at(j), want[j]);
		}
		c.state(n);
	}
	CHECK(w.died == 1, "param:leak", "the animation outlives the parameter"); c.checkAsserts("the edits"); c.nontrivial();
}
static vector<int> seq(int n) { vector<int> l; for (int i = 0; i < n; ++i) l.push_back(4 * i); return l; }
}
SPACE(parameters, 3)
{
	switch (c.choose(10))
	{
	case 0: parameter(c, &Holder::pf, { "" }, seq(1)); break; case 1: parameter(c, &Holder::pv2, { ".X", ".Y" }, seq(2)); break; case 2: parameter(c, &Holder::pv3, { ".X", ".Y", ".Z" }, seq(3)); break; case 3: parameter(c, &Holder::pc3, { ".R", ".G", ".B" }, seq(3)); break; case 4: parameter(c, &Holder::pv4, { ".X", ".Y", ".Z", ".W" }, seq(4)); break; case 5: parameter(c, &Holder::pc4, { ".R", ".G", ".B", ".A" }, seq(4)); break;
	case 6: parameter(c, &Holder::pa, { ".X", ".Y", ".Z", ".ANGLE" }, { (int) offsetof(FMAngleAxis, axis), (int) offsetof(FMAngleAxis, axis) + 4, (int) offsetof(FMAngleAxis, axis) + 8, (int) offsetof(FMAngleAxis, angle) }); break;
	case 7: { int p = offsetof(FMLookAt, position), t = offsetof(FMLookAt, target), u = offsetof(FMLookAt, up); parameter(c, &Holder::pl, { ".POSITIONX", ".POSITIONY", ".POSITIONZ", ".TARGETX", ".TARGETY", ".TARGETZ", ".UPX", ".UPY", ".UPZ" }, { p, p + 4, p + 8, t, t + 4, t + 8, u, u + 4, u + 8 }); break; }
	case 8: { int p = offsetof(FMSkew, rotateAxis), t = offsetof(FMSkew, aroundAxis); parameter(c, &Holder::ps, { ".ROTATEX", ".ROTATEY", ".ROTATEZ", ".AROUNDX", ".AROUNDY", ".AROUNDZ", ".ANGLE" }, { p, p + 4, p + 8, t, t + 4, t + 8, (int) offsetof(FMSkew, angle) }); break; }
	default: { vector<string> q; vector<int> o; for (int r = 0; r < 4; ++r) for (int k = 0; k < 4; ++k) { q.push_back(mc::strf("(%d)(%d)", k, r)); o.push_back((k * 4 + r) * 4); } parameter(c, &Holder::pm, q, o); }
	}
}
// ---------------------------------------------------------------- animated objects by themselves
SPACE(customs, 3)
{
	Holder* h = new Holder; Rel r{ h }; FCDAnimationChannel* ch = anim->AddChannel(); Rel r2{ ch }; FCDAnimatedCustom* a = new FCDAnimatedCustom(h); Watch w; w.watch(a); static const char* q[] = { "A", "B", "C", "D", NULL }; size_t n = 1; vector<string> names = { "" }; vector<vector<FCDAnimationCurve*>> curves(1); int steps = c.range(1, c.deep ? 4 : 3); bool gone = false;
	for (int s = 0; s < steps && !gone; ++s)
	{
		switch (c.choose(6))
		{
		case 0: { size_t k = n + (size_t) c.choose(3); bool dot = c.flag(); c.op("grow to %d", (int) k); if (k > 4) c.prune(); a->Resize(k, q, dot); for (size_t i = 0; i < k; ++i) { if (i >= names.size()) names.push_back(""); names[i] = string(dot ? "." : "") + q[i]; } n = k; curves.resize(n); break; }
		case 1: { bool dot = c.flag(); StringList l; size_t k = n + (size_t) c.choose(2); for (size_t i = 0; i < k; ++i) l.push_back(mc::strf("q%d", (int) i).c_str()); c.op("grow to a list of %d", (int) k); a->Resize(l, dot); n = k; names.resize(n); curves.resize(n); for (size_t i = 0; i < n; ++i) names[i] = mc::strf("%sq%d", dot ? "." : "", (int) i); break; }
		case 2: { size_t i = (size_t) c.choose((int) n); c.op("curve at %d", (int) i); FCDAnimationCurve* k = constant(ch, 5.0f + (float) i); a->AddCurve(i, k); curves[i].push_back(k); break; } case 3: { size_t i = (size_t) c.choose((int) n); c.op("two curves at %d", (int) i); FCDAnimationCurveList l; l.push_back(constant(ch, 50.0f + (float) i)); l.push_back(constant(ch, 60.0f)); a->AddCurve(i, l); curves[i].push_back(l[0]); curves[i].push_back(l[1]); break; }
		case 4: { FCDAnimated* from = c.flag() ? h->pv3.GetAnimated() : h->pf.GetAnimated(); size_t k = from->GetValueCount(); if (n > k) c.prune(); if (from->GetCurveCount(0) == 0) from->AddCurve(0, constant(ch, 9)); if (k > 2 && from->GetCurveCount(2) == 0) { from->AddCurve(2, constant(ch, 19)); } c.op("copy of %d", (int) k); a->Copy(from); a->Copy(NULL); n = k; names.resize(n); curves.resize(n); for (size_t i = 0; i < n; ++i) { names[i] = from->GetQualifier(i).c_str(); curves[i].clear(); for (size_t j = 0; j < from->GetCurveCount(i); ++j) curves[i].push_back(from->GetCurve(i, j)); } break; }
		default: { size_t i = (size_t) c.choose((int) n); c.op("release a curve of %d", (int) i); if (curves[i].empty()) c.prune(); FCDAnimationCurve* k = curves[i][0]; k->Release(); for (auto& l : curves) for (size_t j = 0; j < l.size();) if (l[j] == k) l.erase(l.begin() + j); else ++j; break; }
		}
		CHECK(a->GetValueCount() == n && a->GetQualifiers().size() == n && a->GetCurves().size() == n, "custom:count", "%d, should be %d", (int) a->GetValueCount(), (int) n); bool any = false; float last = a->GetDummy(); for (size_t i = 0; i < n; ++i) { CHECK(a->GetQualifier(i) == names[i].c_str(), "custom:qualifier", "%d is %s, should be %s", (int) i, a->GetQualifier(i).c_str(), names[i].c_str()); CHECK(a->GetValue(i) == &a->GetDummy(), "custom:value", "."); CHECK(a->GetCurveCount(i) == curves[i].size(), "custom:curves", "%d at %d", (int) a->GetCurveCount(i), (int) i); for (size_t j = 0; j < curves[i].size(); ++j) CHECK(a->GetCurve(i, j) == curves[i][j], "custom:curves", "."); CHECK(a->GetCurve(i, curves[i].size()) == NULL, "custom:curves", "."); if (!curves[i].empty()) { any = true; last = curves[i][0]->GetKey(0)->output; } } CHECK(a->HasCurve() == any, "custom:has", "."); a->Evaluate(0.5f); CHECK(a->GetDummy() == last, "custom:evaluate", "%g, should be %g", a->GetDummy(), last);
	}
	bool owner = c.flag(); if (owner) { FCDObject* t = new Holder; a->SetTargetObject(t); CHECK(a->GetTargetObject() == t && w.died == 0, "custom:target", "."); t->Release(); CHECK(w.died == 1, "custom:target", "the animation outlives its target"); } else { a->Release(); CHECK(w.died == 1, "custom:release", "."); } c.state((int) n); c.checkAsserts("the edits"); c.nontrivial();
}
// The data of a geometry source.
SPACE(sources, 3)
{
	FCDGeometrySource* s = new FCDGeometrySource(*kept); Rel r{ s }; FCDAnimationChannel* ch = anim->AddChannel(); Rel r2{ ch }; FloatList data; int n = c.range(0, 6); for (int i = 0; i < n; ++i) data.push_back(1.0f + (float) i); int stride = c.range(1, 3); s->SetData(data, (uint32) stride); c.op("%d values of stride %d", n, stride); CHECK(s->GetDataCount() == (size_t) n && s->GetStride() == (uint32) stride, "source:size", "."); for (int i = 0; i < n; ++i) CHECK(s->GetData()[i] == data[i], "source:data", "%d", i); if (!n) return; int at = c.choose(n); FCDAnimated* a = s->GetSourceData().GetAnimated(at); Watch w; w.watch(a); a->AddCurve(0, constant(ch, 77)); CHECK(s->GetSourceData().IsAnimated(at), "source:animated", "."); int k = c.range(0, 8); c.op("resize to %d", k); s->SetDataCount((size_t) k); CHECK(s->GetDataCount() == (size_t) k, "source:count", "."); CHECK(w.died == (k <= at), k <= at ? "source:kept" : "source:lost", "."); if (w.died == 0) { a->Evaluate(0); for (int i = 0; i < n && i < k; ++i) CHECK(s->GetData()[i] == (i == at ? 77 : data[i]), "source:evaluate", "%d is %g", i, s->GetData()[i]); } c.state(n * 10 + k); c.checkAsserts("the edits"); c.nontrivial();
}
